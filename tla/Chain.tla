-------------------------------- MODULE Chain --------------------------------
(* prefer-optional-chain.  A condition over successive properties of one object, a, a.p1, a.p1.p2 ..: guards joined by && (or by ||, negated)     *)
(* and a last operand that looks at the end of the path.  The condition is written link by link, then run operand by operand, for every value     *)
(* its type allows; the optional chain that takes its place is run link by link.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Links,    \* how deep the path goes at most
          Walks     \* 1: all conditions; more: so many random ones
VARIABLES dir,      \* "and" or "or"
          links,    \* link i is a.p1...p(i-1): [nul |-> what it may be instead of an object, g |-> its guard: truthy t, compared with null n, none -]
          leaf, lnul, call, fin,   \* what stands at the end of the path, whether it is called (and guarded before that), and the last operand
          phase, val, pc, res, alt, w
vars == <<dir, links, leaf, lnul, call, fin, phase, val, pc, res, alt, w>>
Nul == {"null", "undefined"}
Nuls == {{}, {"null"}, {"undefined"}, Nul}
Leaves == {"num", "str", "bool", "obj", "fn"}
Values(k) == CASE k = "num" -> {"0", "1", "7"} [] k = "str" -> {"''", "x"} [] k = "bool" -> {"false", "true"} [] k = "obj" -> {"obj"} [] k = "fn" -> {"fn0", "fn5"}
Fins == {"v", "not", "notnot", "eq1", "leq1", "ne1", "lne1", "equ", "neu", "eqn", "nen", "leqn", "lnen", "tnum", "tundef", "gt", "z"}
Truthy(v) == v \notin {"null", "undefined", "0", "''", "false"}
B(x) == IF x THEN "true" ELSE "false"
\* the last operand, of the value it looks at
Last(f, v) == CASE f = "v" -> v [] f = "not" -> B(~Truthy(v)) [] f = "notnot" -> B(Truthy(v))
                [] f = "eq1" -> B(v = "1") [] f = "ne1" -> B(v # "1") [] f = "leq1" -> B(v \in {"1", "true"}) [] f = "lne1" -> B(v \notin {"1", "true"})
                [] f = "equ" -> B(v = "undefined") [] f = "neu" -> B(v # "undefined") [] f = "eqn" -> B(v = "null") [] f = "nen" -> B(v # "null")
                [] f = "leqn" -> B(v \in Nul) [] f = "lnen" -> B(v \notin Nul)
                [] f = "tnum" -> B(v \in {"0", "1", "5", "7"}) [] f = "tundef" -> B(v # "undefined")
                [] f = "gt" -> B(v \in {"1", "5", "7", "true"}) [] f = "z" -> (IF v \in Nul THEN "throw" ELSE IF v = "obj" THEN "1" ELSE "undefined")
Called(v) == CASE v = "fn0" -> "0" [] v = "fn5" -> "5" [] OTHER -> "throw"
\* ---- what the path may be at run time: link d (0: none) is null or undefined, or the end has a value
Vals == {[d |-> i, v |-> x] : i \in 1..Len(links), x \in Nul} \cup {[d |-> 0, v |-> x] : x \in Values(leaf) \cup lnul}
Allowed == {x \in Vals : x.d > 0 => x.v \in links[x.d].nul}
\* the operands: the guards in order, the guard of the call, the last one; an operand throws when a link before the one it looks at is missing
Guards == SelectSeq([i \in 1..Len(links) |-> [at |-> i, g |-> links[i].g]], LAMBDA x : x.g # "-")
Operands == Guards \o (IF call \in {"t", "n"} THEN <<[at |-> Len(links) + 1, g |-> call]>> ELSE <<>>)
Look(at, x) == IF x.d = 0 THEN (IF at > Len(links) THEN x.v ELSE "obj") ELSE IF x.d < at THEN "throw" ELSE IF x.d = at THEN x.v ELSE "obj"
Guard(o, x) == LET v == Look(o.at, x) IN
               IF v = "throw" THEN v ELSE IF dir = "and" THEN (IF o.g = "t" THEN v ELSE B(v \notin Nul)) ELSE B(IF o.g = "t" THEN ~Truthy(v) ELSE v \in Nul)
End(x) == LET v == Look(Len(links) + 1, x) IN IF v = "throw" \/ call = "no" THEN v ELSE Called(v)
Final(x) == LET v == End(x) IN IF v = "throw" THEN v ELSE Last(fin, v)
Stops(v) == v = "throw" \/ (dir = "and" /\ ~Truthy(v)) \/ (dir = "or" /\ Truthy(v))
RECURSIVE RunFrom(_, _)
RunFrom(i, x) == IF i > Len(Operands) THEN Final(x) ELSE LET v == Guard(Operands[i], x) IN IF Stops(v) THEN v ELSE RunFrom(i + 1, x)
Original(x) == RunFrom(1, x)
\* the chain: a link that was guarded is followed by ?. and cuts everything short
Opt(i) == IF i > Len(links) THEN call \in {"t", "n"} ELSE links[i].g # "-"
RECURSIVE Walk(_, _)
Walk(i, x) == LET v == Look(i, x)  end == i = Len(links) + 1 IN
              IF end /\ call = "no" THEN v
              ELSE IF v \in Nul THEN (IF Opt(i) THEN "cut" ELSE "throw")
              ELSE IF end THEN Called(v) ELSE Walk(i + 1, x)
\* .z belongs to the chain
Rewritten(x) == LET v == Walk(1, x) IN IF v = "throw" THEN v ELSE IF v = "cut" THEN (IF fin = "z" THEN "undefined" ELSE Last(fin, "undefined")) ELSE Last(fin, v)
\* two values of a condition that need not be told apart
Same(v, u) == u # "throw" /\ Truthy(v) = Truthy(u) /\ (Truthy(v) => v = u)
Faithful == \A x \in Allowed : LET v == Original(x) IN v # "throw" => Same(v, Rewritten(x))
Complete == (\A i \in 1..Len(links) : links[i].nul # {} => links[i].g # "-") /\ (call # "no" /\ lnul # {} => call \in {"t", "n"}) /\ (fin = "z" => lnul = {} /\ leaf = "obj")
\* whether the rule is to speak up: a condition whose links are all guarded in the same way is one chain, when its last operand is one that a missing
\* link settles the same way; when it is not, and there is nothing else to fold, the condition is left alone
Uniform == \A i \in 1..Len(links) : links[i].g # "-" /\ links[i].g = links[1].g
Alike == call \in {"t", "n"} => call = links[1].g
Speaks == Uniform /\ Alike /\ (IF dir = "and" THEN fin \in {"v", "eq1", "eqn", "leq1", "lnen", "neu", "z"} ELSE (fin \in {"equ", "leqn", "lne1", "ne1", "nen"} \/ (fin = "not" /\ leaf # "bool")) /\ call # "t")
Silent == Len(links) = 1 /\ call \in {"no", "bare"} /\ fin \in (IF dir = "and" THEN {"equ", "leqn", "lne1", "ne1", "nen"} ELSE {"eq1", "leq1", "lnen", "neu"})
Says == IF Speaks THEN "yes" ELSE IF Silent THEN "no" ELSE "open"
\* ---- writing the condition
R(s) == RandomElement(s)
Init == /\ dir \in {"and", "or"} /\ w \in 1..Walks /\ links = <<>> /\ leaf = "" /\ lnul = {} /\ call = "" /\ fin = "" /\ phase = "links" /\ val = [d |-> 0, v |-> ""] /\ pc = 0 /\ res = "" /\ alt = ""
Put(n, g) == links' = Append(links, [nul |-> n, g |-> g])
Write == /\ phase = "links" /\ Len(links) < Links /\ UNCHANGED <<dir, leaf, lnul, call, fin, phase, val, pc, res, alt, w>>
         /\ IF Walks = 1 THEN \E n \in Nuls, g \in {"t", "n", "-"} : Put(n, g)
            ELSE \E n \in {R(Nuls)}, g \in {R({"t", "n", "same", "same2"})}, k \in {R(1..8)} :
                 Put(n, IF k = 1 /\ n = {} THEN "-" ELSE IF g \in {"t", "n"} THEN g ELSE IF links = <<>> \/ links[1].g = "-" THEN "t" ELSE links[1].g)
Ends(z) == IF Walks = 1 THEN {<<k, n, c, f>> : k \in Leaves, n \in Nuls, c \in {"no", "bare", "t", "n"}, f \in Fins}
        ELSE {<<R(IF z = 0 THEN {} ELSE {"num", "str", "bool", "obj", "fn", "fn2"}), R(IF z = 0 THEN {} ELSE Nuls), R(IF z = 0 THEN {} ELSE {"no", "bare", "t", "n"}), R(IF z = 0 THEN {} ELSE Fins)>>}
Close == /\ phase = "links" /\ links # <<>> /\ (Walks > 1 => Len(links) = Links \/ R(1..3) = 1) /\ UNCHANGED <<dir, links, val, pc, res, alt, w>> /\ phase' = "written"
         /\ \E e \in Ends(w + Len(links)) : /\ leaf' = (IF e[1] = "fn2" THEN "fn" ELSE e[1]) /\ lnul' = e[2] /\ fin' = (IF e[4] = "z" /\ leaf' # "obj" THEN "v" ELSE e[4])
                            /\ call' = (IF leaf' = "fn" THEN e[3] ELSE "no") /\ (Walks = 1 => (leaf' = "fn" \/ e[3] = "no") /\ (e[4] = "z" => leaf' = "obj"))
\* ---- running it
Start == /\ phase = "written" /\ (IF Walks = 1 THEN \E x \in Allowed : val' = x ELSE val' = R(Allowed)) /\ phase' = "original" /\ pc' = 1 /\ UNCHANGED <<dir, links, leaf, lnul, call, fin, res, alt, w>>
Operand == /\ phase = "original" /\ UNCHANGED <<dir, links, leaf, lnul, call, fin, val, alt, w>>
           /\ LET v == IF pc > Len(Operands) THEN Final(val) ELSE Guard(Operands[pc], val)  over == pc > Len(Operands) \/ Stops(v) IN
              /\ res' = v /\ pc' = (IF over THEN 1 ELSE pc + 1) /\ phase' = (IF over THEN "chain" ELSE phase)
Link == /\ phase = "chain" /\ UNCHANGED <<dir, links, leaf, lnul, call, fin, val, res, w>>
        /\ LET v == Look(pc, val)  end == pc > Len(links)  cut == v \in Nul /\ (end => call # "no")
               stop == end \/ cut
               u == IF cut THEN (IF ~Opt(pc) THEN "throw" ELSE "undefined") ELSE IF end /\ call # "no" THEN Called(v) ELSE v IN
           /\ alt' = (IF ~stop THEN alt ELSE IF u = "throw" THEN u ELSE IF cut /\ fin = "z" THEN "undefined" ELSE Last(fin, u))
           /\ pc' = (IF stop THEN pc ELSE pc + 1) /\ phase' = (IF stop THEN "done" ELSE phase)
Next == Write \/ Close \/ Start \/ Operand \/ Link
Spec == Init /\ [][Next]_vars
\* running step by step gives what the definitions say, and the rewriting keeps the value wherever the model takes it to do so
Agree == phase = "done" => res = Original(val) /\ alt = Rewritten(val)
Kept == phase = "done" /\ Faithful /\ res # "throw" => Same(res, alt)
\* guarding every link that may be missing is what keeps a condition, and the chain, from failing
Guarded == phase = "done" /\ Complete => res # "throw" /\ alt # "throw"
\* once every guard stops at the missing link, && gives something falsy and || something truthy; so these last operands can always be folded in ..
Folds == IF dir = "and" THEN {"v", "notnot", "eq1", "leq1", "tnum", "gt", "z"} ELSE {"not", "ne1", "lne1", "equ", "leqn"}
Foldable == phase = "written" /\ fin \in Folds \cup (IF dir = "and" THEN {"neu", "lnen", "tundef"} ELSE {}) => Faithful
\* .. and an end that is told apart from undefined the other way cannot, once some link may be missing
Unfoldable == phase = "written" /\ (\E i \in 1..Len(links) : links[i].g # "-" /\ links[i].nul # {}) /\ fin \in (IF dir = "and" THEN {"not", "equ", "leqn", "ne1", "lne1"} ELSE {"notnot", "neu", "lnen", "eq1", "eqn"}) => ~Faithful
\* it speaks up only where the value is kept, but for a last operand compared with null, and keeps silent only where it is not, once a link may be missing
Right == phase = "written" => (Says = "yes" => Faithful) /\ (Says = "no" /\ links[1].g # "-" /\ links[1].nul # {} => ~Faithful \/ (dir = "and" /\ fin = "nen"))
Emit == phase = "written" => PrintT(ToJson([dir |-> dir, links |-> links, leaf |-> leaf, lnul |-> lnul, call |-> call, fin |-> fin, ok |-> Faithful, says |-> Says,
                                             runs |-> {[d |-> x.d, v |-> x.v, o |-> Original(x), n |-> Rewritten(x)] : x \in Allowed}]))
=============================================================================
