----------------------------- MODULE ReturnAwait -----------------------------
(* return-await: the walk enters functions, blocks and parts of try statements; wherever it is, a return of a promise may or must not be    *)
(* awaited.  What decides is whether an exception thrown there would be noticed by this function: it is unwound construct by construct.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Walks
VARIABLES stack, what, w
vars == <<stack, what, w>>
Funs == {"afun", "sfun"}
Trys == {"tryc", "tryf", "trycf", "catch", "catchf", "fin", "finc"}
Others == {"block", "using", "usefor", "uselater", "usedbefore"}
Kinds == Funs \cup Trys \cup Others
Types == {"P", "H", "U", "TP", "N", "TN", "M", "A", "K", "T"}
Certain(t) == CASE t \in {"P", "H", "U", "TP"} -> "always" [] t \in {"A", "K", "T"} -> "may" [] OTHER -> "never"
Opts == {"always", "error-handling-correctness-only", "in-try-catch", "never"}

\* what is returned: a value or an awaited value, behind conditionals
Simple == {[k |-> "val", t |-> t] : t \in Types} \cup {[k |-> "await", t |-> t] : t \in Types}
Cond(x, y) == [k |-> "cond", x |-> x, y |-> y]

\* the function the position belongs to, as an index of the stack
Owner(s) == CHOOSE i \in 0..Len(s) : (i = 0 \/ s[i] \in Funs) /\ \A j \in (i + 1)..Len(s) : s[j] \notin Funs
\* an exception on its way out of the function: "noticed" by a handler or a finally block, or "out"
RECURSIVE Unwind(_)
Unwind(s) == IF s = <<>> THEN "out"
             ELSE LET top == s[Len(s)] rest == SubSeq(s, 1, Len(s) - 1) IN
                  CASE top \in Funs -> "out"
                    [] top \in {"tryc", "tryf", "trycf", "catchf", "using", "usefor"} -> "noticed"
                    [] OTHER -> Unwind(rest)
Matters(s, arrow) == ~arrow /\ Unwind(s) = "noticed"
Want(o, m) == CASE o = "always" -> "await" [] o = "never" -> "no" [] o = "in-try-catch" -> (IF m THEN "await" ELSE "no") [] OTHER -> (IF m THEN "await" ELSE "any")
RECURSIVE Reports(_, _, _)
Reports(q, m, o) ==
  IF q.k = "cond" THEN LET f(i, r) == [r EXCEPT !.at = <<i>> \o @] IN {f(1, r) : r \in Reports(q.x, m, o)} \cup {f(2, r) : r \in Reports(q.y, m, o)}
  ELSE LET c == Certain(q.t)
           one(id, fix) == {[at |-> <<>>, id |-> id, fix |-> fix]} IN
       IF c # "always" THEN IF q.k = "await" /\ c = "never" THEN one("nonPromiseAwait", TRUE) ELSE {}
       ELSE IF Want(o, m) = "await" /\ q.k = "val" THEN one("requiredPromiseAwait", ~m)
       ELSE IF Want(o, m) = "no" /\ q.k = "await" THEN one("disallowedPromiseAwait", ~m) ELSE {}
InAsync(s) == Owner(s) > 0 /\ s[Owner(s)] = "afun"
Verdict(s, q, arrow, o) == IF InAsync(s) THEN Reports(q, Matters(s, arrow), o) ELSE {}

Nothing == [q |-> [k |-> "val", t |-> "N"], arrow |-> FALSE, on |-> FALSE]
Init == stack = <<>> /\ what = Nothing /\ w \in 1..Walks
RandSimple(n) == RandomElement(Simple)
RandExpr(n) == CASE RandomElement(1..4) = 1 -> Cond(RandSimple(1), RandSimple(2)) [] RandomElement(1..8) = 1 -> Cond(Cond(RandSimple(1), RandSimple(2)), RandSimple(3)) [] OTHER -> RandSimple(4)
Enter == Len(stack) < Depth /\ ~what.on /\ UNCHANGED <<what, w>> /\
         (IF Walks = 1 THEN \E k \in Kinds : stack' = Append(stack, k) ELSE \E k \in {RandomElement(Kinds \ (IF RandomElement(1..2) = 1 THEN {"sfun", "afun"} ELSE {}))} : stack' = Append(stack, k))
Return == ~what.on /\ Owner(stack) > 0 /\ UNCHANGED <<stack, w>> /\
          \E a \in (IF stack[Len(stack)] = "afun" THEN BOOLEAN ELSE {FALSE}) :
          \E q \in (IF Walks = 1 THEN {[k |-> "val", t |-> "P"], [k |-> "await", t |-> "P"]} ELSE {RandExpr(Len(stack))}) : what' = [q |-> q, arrow |-> a, on |-> TRUE]
Next == Enter \/ Return
Spec == Init /\ [][Next]_vars
\* no exception is noticed where no construct up to the function's edge notices; constructs that notice nothing change nothing
Agrees == Unwind(stack) = (IF \E i \in (Owner(stack) + 1)..Len(stack) : stack[i] \in {"tryc", "tryf", "trycf", "catchf", "using", "usefor"} THEN "noticed" ELSE "out")
Neutral == [][what'.on = what.on /\ stack'[Len(stack')] \in {"block", "uselater", "usedbefore", "fin", "finc", "catch"} => Unwind(stack) = Unwind(stack')]_vars
\* an option asks for the opposite of what its opposite asks for
Sides == what.on => Verdict(stack, what.q, what.arrow, "error-handling-correctness-only") \subseteq (Verdict(stack, what.q, what.arrow, "always") \cap Verdict(stack, what.q, what.arrow, "in-try-catch"))
Emit == what.on => PrintT(ToJson([s |-> stack, q |-> what.q, arrow |-> what.arrow, r |-> [o \in Opts |-> Verdict(stack, what.q, what.arrow, o)]]))
=============================================================================
