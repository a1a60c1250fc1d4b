-------------------------------- MODULE Flow --------------------------------
(* The no-unsafe-* rules.  "flow": the types of a sender and of a receiver are put together wrapper by wrapper; for every way a value can get   *)
(* from one to the other there is a verdict at each moment.  "pattern": a type and a pattern that takes it apart are built together.            *)
(* "chain": an expression is extended step by step, and each step on a value of type any is reported where it is the first.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Depth, Walks
VARIABLES s, r,      \* flow: types; pattern: s the type, r the pattern
          ops, ty, acc,  \* chain: what was applied, the type of the expression, whether it is (in parentheses or not) an access to any already reported
          allow, w
vars == <<s, r, ops, ty, acc, allow, w>>
T(h, a) == [h |-> h, a |-> a]
Leaf(x) == T(x, <<>>)
AnyT == Leaf("any")
UnknownT == Leaf("unknown")
Leaves == {"any", "unknown", "num", "str"}
Generic1 == {"Set", "Promise", "Array", "RArr", "Box", "Cls"}
Refs == Generic1 \cup {"Map", "Tup1", "Tup2"}
Opt(x) == IF x \in {AnyT, UnknownT} \/ x.h = "Opt" THEN x ELSE T("Opt", <<x>>)
\* ---- what is unsafe: any for anything but any and unknown, here or in the same argument of the same generic
RECURSIVE Unsafe(_, _)
Unsafe(x, y) == IF x = AnyT THEN y \notin {AnyT, UnknownT}
                ELSE x.h \in Refs /\ x.h = y.h /\ \E i \in DOMAIN x.a : Unsafe(x.a[i], y.a[i])
IsArray(x) == x.h \in {"Array", "RArr"}
AnyArray(x) == IsArray(x) /\ x.a[1] = AnyT
UnknownArray(x) == IsArray(x) /\ x.a[1] = UnknownT
RECURSIVE Awaited(_)
Awaited(x) == CASE x.h = "Promise" -> Awaited(x.a[1]) [] x.h = "Opt" -> Opt(Awaited(x.a[1])) [] OTHER -> x
RECURSIVE AnyPromise(_)
AnyPromise(x) == IF x.h = "Opt" THEN AnyPromise(x.a[1]) ELSE x.h = "Promise" /\ Awaited(x) = AnyT
Loose(x) == x \in {AnyT, UnknownT}
\* ---- verdicts: "" or the message
Assign(x, y, compared) == IF x = AnyT THEN (IF y = UnknownT THEN "" ELSE "anyAssignment") ELSE IF compared /\ Unsafe(x, y) THEN "unsafeAssignment" ELSE ""
Argument(x, y) == IF Unsafe(x, y) THEN "unsafeArgument" ELSE ""
Spread(x, y) == CASE x = AnyT -> <<"unsafeSpread">> [] AnyArray(x) -> <<"unsafeArraySpread">>
                  [] x.h = "Tup1" -> IF Unsafe(x.a[1], y) THEN <<"unsafeTupleSpread">> ELSE <<>>
                  [] x.h = "Tup2" -> (IF Unsafe(x.a[1], y) THEN <<"unsafeTupleSpread">> ELSE <<>>) \o (IF Unsafe(x.a[2], y) THEN <<"unsafeTupleSpread">> ELSE <<>>)
                  [] OTHER -> <<>>
\* y: what calling the function gives.  how: "own" the function says so itself, "context" its context says so, "none" nobody does
Return(x, y, how, async) ==
  LET kind == IF x = AnyT THEN "any" ELSE IF AnyArray(x) THEN "array" ELSE IF AnyPromise(x) THEN "promise" ELSE ""
      meant == how = "own" /\ (x = y \/ Loose(y) \/ (async /\ (Awaited(x) = Awaited(y) \/ Loose(Awaited(y)))))
      taken == how # "none" /\ \/ (kind = "any" /\ y = UnknownT) \/ (kind = "array" /\ UnknownArray(y)) \/ (kind = "promise" /\ Awaited(y) = UnknownT)
  IN IF meant THEN "" ELSE IF kind # "" THEN (IF taken \/ (kind = "promise" /\ ~async) THEN "" ELSE "unsafeReturn")
     ELSE IF how # "none" /\ Unsafe(x, y) THEN "unsafeReturnAssignment" ELSE ""
Ret(x, y, how, async) == Return(x, IF async THEN T("Promise", <<y>>) ELSE y, how, async)
\* ---- calls
Callees == {"any", "Function", "SubFn", "TFunction", "CallVoid", "CallNum", "Constr", "fn", "cls"}
Call(c, new) == c \in {"any", "Function", "SubFn", "TFunction"} \/ (new /\ c = "CallVoid")

\* ---- patterns: [h: "n" name | "A" array | "O" object | "R" rest | "H" hole, a: parts in order]
RECURSIVE Bind(_, _, _)
\* the reports, each <<path, message>>; path: positions of the parts from the outside in
Bind(p, t, path) ==
  LET part(i) == t.a[i]
      each == UNION {IF p.a[i].h \in {"R", "H"} \/ i > Len(t.a) THEN {}
                     ELSE IF part(i) = AnyT THEN {<<Append(path, i), "unsafeArrayPatternFromTuple">>} ELSE Bind(p.a[i], part(i), Append(path, i)) : i \in DOMAIN p.a}
  IN CASE p.h = "A" /\ AnyArray(t) -> {<<path, "unsafeArrayPattern">>}
       [] p.h = "A" /\ t.h \in {"Tup1", "Tup2"} -> each
       [] p.h = "O" /\ t.h = "Obj" -> each
       [] OTHER -> {}
Destructured(p, t) == IF t = AnyT THEN {<<<<>>, "anyAssignment">>} ELSE Bind(p, t, <<>>)

\* ---- chains.  Types: any, O with members of type any and O and functions that return such
Step(o) == \* type after, or "" if impossible; O has a: any, o: O, fa(): any, fo(): O, l: O[]
  LET n == o.n IN
  CASE n \in {"paren", "bang"} -> ty
    [] ty = "any" /\ n \in {"dot", "qdot", "idx", "call", "qcall", "new", "tag"} -> "any"
    [] ty = "O" /\ n \in {"dot", "qdot"} -> (CASE o.m = "a" -> "any" [] o.m = "o" -> "O" [] o.m = "fa" -> "fa" [] o.m = "fo" -> "fo" [] o.m = "l" -> "L")
    [] ty = "L" /\ n = "idx" -> IF o.m \in {"0", "i", "anyv", "anyv++"} THEN "O" ELSE ""
    [] ty = "fa" /\ n \in {"call", "qcall"} -> "any"
    [] ty = "fo" /\ n \in {"call", "qcall"} -> "O"
    [] n = "asany" -> "any"
    [] n = "aso" -> "O"
    [] OTHER -> ""
Access == {"dot", "qdot", "idx"}
Chained(o) == allow /\ (o.n = "qdot" \/ o.q)
\* an access to any is reported unless it is made directly on an access that was
Reported(o) == CASE o.n \in Access -> IF ty = "any" /\ ~acc /\ ~Chained(o) THEN "unsafeMemberExpression" ELSE ""
                 [] o.n \in {"call", "qcall"} -> IF ty = "any" THEN "unsafeCall" ELSE ""
                 [] o.n = "new" -> IF ty = "any" THEN "unsafeNew" ELSE ""
                 [] o.n = "tag" -> IF ty = "any" THEN "unsafeTemplateTag" ELSE ""
                 [] OTHER -> ""
Index(o) == IF o.n = "idx" /\ o.m = "anyv" /\ ~Chained(o) THEN "unsafeComputedMemberAccess" ELSE ""
NextAcc(o) == CASE o.n \in Access -> ty = "any" /\ ~Chained(o) [] o.n = "paren" -> acc [] OTHER -> FALSE

R(x) == RandomElement(x)
Flows == Mode = "flow"  Pats == Mode = "pattern"  Chains == Mode = "chain"
Name == T("n", <<>>)
Init == /\ w \in 1..Walks /\ ops = <<>> /\ acc = FALSE
        /\ s = IF Flows THEN Leaf(R({"any", "unknown", "num", "str"} \cup (IF R(1..2) = 1 THEN {"any"} ELSE {}))) ELSE IF Pats THEN R({AnyT, Leaf("num"), T("Array", <<AnyT>>)}) ELSE Leaf(R({"any", "O"}))
        /\ r = IF Flows THEN Leaf(R(Leaves)) ELSE Name
        /\ ty = IF Chains THEN s.h ELSE ""
        /\ allow = IF Chains THEN R(BOOLEAN) ELSE FALSE
LeafOf(k) == Leaf(IF k > 4 THEN "any" ELSE CASE k = 1 -> "any" [] k = 2 -> "unknown" [] k = 3 -> "num" [] k = 4 -> "str")
\* wrap one or both
Wrap(h, x, other, side) == CASE h \in Generic1 \cup {"Tup1"} -> T(h, <<x>>) [] h \in {"Map", "Tup2"} -> T(h, IF side THEN <<x, other>> ELSE <<other, x>>)
                             [] h = "Opt" -> Opt(x) [] h \in {"Fn", "Obj1"} -> T(h, <<x>>)
Wrappers == Refs \cup {"Opt", "Fn", "Obj1"}
RECURSIVE Deep(_)
Deep(x) == IF x.a = <<>> THEN 0 ELSE 1 + (IF Len(x.a) = 1 THEN Deep(x.a[1]) ELSE LET p == Deep(x.a[1]) q == Deep(x.a[2]) IN IF p > q THEN p ELSE q)
Grow == /\ Flows /\ Deep(s) < Depth /\ Deep(r) < Depth
        /\ \E k \in {R(1..10)}, h \in {R(Refs)}, h2 \in {R(Wrappers)}, side \in {R(BOOLEAN)}, a \in {R(1..6)}, b \in {R(1..4)} :
             /\ s' = (IF k <= 6 THEN Wrap(h, s, LeafOf(a), side) ELSE IF k <= 8 THEN Wrap(h2, s, LeafOf(a), side) ELSE s)
             /\ r' = (IF k <= 6 THEN Wrap(h, r, LeafOf(b), side) ELSE IF k \in {7, 9} THEN Wrap(h2, r, LeafOf(b), side) ELSE r)
        /\ UNCHANGED <<ops, ty, acc, allow, w>>
\* a pattern grows together with the type, or apart from it
PWrap(h, x, other, side) == T(h, IF side THEN <<x, other>> ELSE <<other, x>>)
Small == {AnyT, AnyT, Leaf("num"), T("Array", <<AnyT>>), T("Array", <<Leaf("num")>>), T("Tup1", <<AnyT>>), T("Obj", <<AnyT, Leaf("num")>>)}
SmallP == {Name, T("A", <<Name>>), T("O", <<Name, Name>>), T("A", <<Name, T("R", <<>>)>>)}
Tear == /\ Pats /\ Deep(r) < Depth
        /\ \E k \in {R(1..12)}, side \in {R(BOOLEAN)}, x \in {R(Small)}, p \in {R(SmallP)}, q \in {R({"R", "H", "n"})}, arr \in {R(BOOLEAN)} :
             IF k <= 8 THEN /\ s' = T(IF arr THEN "Tup2" ELSE "Obj", IF side THEN <<s, x>> ELSE <<x, s>>)
                            /\ r' = (IF arr THEN (IF side THEN T("A", <<r, IF q = "n" THEN p ELSE T(q, <<>>)>>) ELSE T("A", <<IF q = "H" THEN T("H", <<>>) ELSE p, r>>))
                                     ELSE T("O", IF side THEN <<r, IF q = "n" THEN p ELSE T("R", <<>>)>> ELSE <<p, r>>))
             ELSE IF k = 9 THEN s' = T("Array", <<s>>) /\ r' = T("A", <<r>>)
             ELSE IF k = 10 THEN s' = T("Tup1", <<s>>) /\ r' = T("A", <<r, p>>)
             ELSE s' = T("Obj", <<s, x>>) /\ r' = T(IF arr THEN "A" ELSE "O", <<r, p>>)
        /\ UNCHANGED <<ops, ty, acc, allow, w>>
\* q: with ?.   m: the member or what stands in the brackets
Choices == {[n |-> n, m |-> m, q |-> q] : n \in {"dot"}, m \in {"a", "o", "fa", "fo", "l"}, q \in {FALSE}} \cup {[n |-> "qdot", m |-> m, q |-> TRUE] : m \in {"a", "o", "fa", "fo", "l"}}
           \cup {[n |-> "idx", m |-> m, q |-> q] : m \in {"0", "i", "anyv", "anyv++", "`x`", "anyv, 0"}, q \in BOOLEAN}
           \cup {[n |-> n, m |-> "", q |-> FALSE] : n \in {"paren", "bang", "call", "qcall", "new", "tag", "asany", "aso"}}
Optional == \E i \in DOMAIN ops : ops[i].o.q \/ ops[i].o.n = "qcall"
Possible(o) == /\ Step(o) # ""
               /\ (o.n \in {"new", "tag"} => ~Optional)
               /\ (o.n = "paren" => ops # <<>> /\ ops[Len(ops)].o.n # "paren")
               /\ (o.n = "bang" => ops = <<>> \/ ops[Len(ops)].o.n # "bang")
               /\ (o.n \in {"asany", "aso"} => ops # <<>>)
Extend == /\ Chains /\ Len(ops) < Depth
          /\ \E n \in {R({"dot", "qdot", "idx", "call", "qcall", "other"})} : \E o \in {R(LET c == {o \in Choices : Possible(o) /\ (o.n = n \/ n = "other")} IN IF c = {} THEN {[n |-> "", m |-> "", q |-> FALSE]} ELSE c)} :
               IF o.n = "" THEN FALSE ELSE
               /\ ops' = Append(ops, [o |-> o, rep |-> Reported(o), idx |-> Index(o)]) /\ ty' = Step(o) /\ acc' = NextAcc(o)
          /\ UNCHANGED <<s, r, allow, w>>
Next == Grow \/ Tear \/ Extend
Spec == Init /\ [][Next]_vars
\* any for unknown is never reported on the way; a type flows into itself unless the assignment is of any itself; what is unsafe stays so within a common wrapper
Safe == Flows => /\ ~Unsafe(s, UnknownT) /\ ~Unsafe(s, s) /\ Assign(s, UnknownT, TRUE) = "" /\ Argument(s, UnknownT) = ""
                 /\ \A h \in Generic1 \cup {"Tup1"} : Unsafe(T(h, <<s>>), T(h, <<r>>)) = Unsafe(s, r)
                 /\ Ret(AnyT, UnknownT, "context", FALSE) = ""
                 /\ (\A k \in BOOLEAN : Ret(s, UnknownT, "own", k) = "" /\ Ret(s, AnyT, "own", k) = "" /\ Ret(s, s, "own", k) = "")
                 /\ (Unsafe(s, r) => Assign(s, r, TRUE) # "" /\ Argument(s, r) # "")
\* only an expression whose type is any begins a report, and of accesses in a row just one is reported
OnceInARow == Chains => \A i \in 1..Len(ops) - 1 : ops[i].rep = "unsafeMemberExpression" => ops[i + 1].rep # "unsafeMemberExpression"
\* nothing below a part that was reported is
Disjoint == Pats => \A x \in Destructured(r, s), y \in Destructured(r, s) : x = y \/ ~(Len(x[1]) < Len(y[1]) /\ x[1] = SubSeq(y[1], 1, Len(x[1])))
Emit == CASE Flows -> PrintT(ToJson([s |-> s, r |-> r, basic |-> Assign(s, r, TRUE), none |-> Assign(s, s, FALSE), arg |-> Argument(s, r), opt |-> Argument(s, Opt(r)), spread |-> Spread(s, r),
                   ret |-> Ret(s, r, "own", FALSE), aret |-> Ret(s, r, "own", TRUE), ctx |-> Ret(s, r, "context", FALSE), actx |-> Ret(s, r, "context", TRUE), free |-> Ret(s, s, "none", FALSE), afree |-> Ret(s, s, "none", TRUE)]))
          [] Pats -> PrintT(ToJson([t |-> s, p |-> r, reps |-> Destructured(r, s)]))
          [] Mode = "call" -> \A c \in Callees, n \in BOOLEAN : PrintT(ToJson([c |-> c, new |-> n, bad |-> Call(c, n)]))
          [] Chains -> ops # <<>> => PrintT(ToJson([base |-> s.h, ops |-> ops, allow |-> allow, ty |-> ty]))
=============================================================================
