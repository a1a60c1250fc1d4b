------------------------------- MODULE AsyncFn -------------------------------
(* promise-function-async: types grow by unions and intersections; a function returning one is asked to be async or not.                    *)
(* await-thenable: elements are added to what is handed to Promise.all and its like.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode,     \* "fn" or "all"
          Depth
VARIABLES t, opt, f
vars == <<t, opt, f>>
\* P a Promise, S a subclass of it, D a class that is called Deferred, E a subclass of that, N a number, O a plain object type, A any, K unknown
Leaves == {"P", "S", "D", "E", "N", "O", "A", "K"}
Leaf(x) == [k |-> "leaf", x |-> x, a |-> <<>>]
Or(x, y) == [k |-> "or", x |-> "", a |-> <<x, y>>]
And(x, y) == [k |-> "and", x |-> "", a |-> <<x, y>>]
Loose(q) == q.k = "leaf" /\ q.x \in {"A", "K"}
\* is it a promise by name?
RECURSIVE All(_, _)
RECURSIVE Some(_, _)
Named(x, o) == x \in {"P", "S"} \/ (o.named /\ x \in {"D", "E"})
All(q, o) == IF q.k = "leaf" THEN Named(q.x, o) ELSE All(q.a[1], o) /\ All(q.a[2], o)
Some(q, o) == IF q.k = "leaf" THEN Named(q.x, o) ELSE Some(q.a[1], o) \/ Some(q.a[2], o)
RECURSIVE Members(_)
Members(q) == IF q.k = "or" THEN Members(q.a[1]) \cup Members(q.a[2]) ELSE {q}
Verdict(q, o, fn) ==
  IF ~fn.checked \/ fn.async THEN "none"
  ELSE IF Loose(q) THEN (IF o.any THEN "none" ELSE "unfixed")
  ELSE IF fn.explicit THEN (IF All(q, o) THEN "missingAsync" ELSE "none")
  ELSE IF ~Some(q, o) THEN "none"
  ELSE IF \A m \in Members(q) : All(m, o) THEN "missingAsync"
  ELSE IF q.k = "or" THEN "missingAsyncHybridReturn" ELSE "missingAsync"
\* aggregates: a list of elements, P a promise, U a promise or a number, N a number, B a number or a string, A any, K unknown
Elements == {"P", "U", "N", "B", "A", "K"}
Bad(x) == x \in {"N", "B"}                       \* never a promise: an element is judged as a whole
SomeBad(x) == x \in {"N", "B", "U"}              \* the element type of an array is judged member by member
Inits == IF Mode = "fn" THEN {Leaf(x) : x \in Leaves} ELSE {Leaf(x) : x \in Elements}
Fns == {[checked |-> c, async |-> a, explicit |-> x] : c \in BOOLEAN, a \in BOOLEAN, x \in BOOLEAN}
Init == t \in Inits /\ opt \in [named : BOOLEAN, any : BOOLEAN] /\ f \in Fns /\ (Mode = "all" => f = [checked |-> TRUE, async |-> FALSE, explicit |-> FALSE] /\ opt = [named |-> FALSE, any |-> FALSE])
RECURSIVE Size(_)
Size(q) == IF q.k = "leaf" THEN 1 ELSE Size(q.a[1]) + Size(q.a[2])
Has(q, x) == IF q.k = "leaf" THEN q.x = x ELSE FALSE
RECURSIVE Flat(_)
Flat(q) == IF q.k = "leaf" THEN <<q.x>> ELSE Flat(q.a[1]) \o Flat(q.a[2])
Grow == /\ Size(t) < Depth /\ UNCHANGED <<opt, f>>
        /\ \E x \in Leaves \ {"A", "K"} : IF Mode = "all" THEN FALSE
             ELSE ~Loose(t) /\ (\A i \in 1..Len(Flat(t)) : Flat(t)[i] # x) /\ (t' = Or(t, Leaf(x)) \/ (Size(t) = 1 /\ x # "N" /\ ~Has(t, "N") /\ t' = And(t, Leaf(x))))
List == Mode = "all" /\ Size(t) < Depth /\ UNCHANGED <<opt, f>> /\ \E x \in Elements : t' = Or(t, Leaf(x))
Next == Grow \/ List
Spec == Init /\ [][Next]_vars
\* a declared union is asked for at most where an inferred one is; more allowed names never mean fewer requests
Narrower == Mode = "fn" => \A o \in {opt} : All(t, o) => Some(t, o)
MoreNames == Mode = "fn" => (Verdict(t, [opt EXCEPT !.named = FALSE], f) # "none" => Verdict(t, [opt EXCEPT !.named = TRUE], f) # "none")
Off == Mode = "fn" => (~f.checked => Verdict(t, opt, f) = "none")
Emit == IF Mode = "fn" THEN PrintT(ToJson([t |-> t, opt |-> opt, f |-> f, v |-> Verdict(t, opt, f)]))
        ELSE LET q == Flat(t) IN PrintT(ToJson([list |-> q, bad |-> {i \in 1..Len(q) : Bad(q[i])}, whole |-> \E i \in 1..Len(q) : SomeBad(q[i]), any |-> \E i \in 1..Len(q) : q[i] = "A", unk |-> \E i \in 1..Len(q) : q[i] = "K"]))
=============================================================================
