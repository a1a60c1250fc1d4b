---------------------------- MODULE Constituents ----------------------------
(* no-duplicate-type-constituents and no-redundant-type-constituents: a union or intersection is written member by member (a member can be  *)
(* another one of the same kind, in parentheses); at each moment each rule has a set of members to complain about.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Rule,      \* "dup" or "red"
          Length, Walks
VARIABLES op, ms, w
vars == <<op, ms, w>>
UnionDup == {"a", "b", "one", "string", "undefined", "A1", "A2", "arr", "F"}
InterDup == {"A1", "A2", "B", "C", "arr"}
Red == {"any", "unknown", "never", "a", "b", "one", "two", "string", "number", "true", "false", "boolean", "bigone", "bigint", "A1"}
Atoms == IF Rule = "red" THEN Red ELSE IF op = "union" THEN UnionDup ELSE InterDup
Leaf(x) == [a |-> x, xs |-> <<>>]
Nest(x) == [a |-> "", xs |-> x]
IsNest(m) == m.xs # <<>>
Members == {Leaf(x) : x \in Atoms}
Prim(a) == CASE a \in {"a", "b"} -> "string" [] a \in {"one", "two"} -> "number" [] a \in {"true", "false"} -> "boolean" [] a = "bigone" -> "bigint" [] OTHER -> "no"
Prims == {"string", "number", "boolean", "bigint"}

\* ---- what a member denotes: a set of atoms for unions, a sequence without repetition for intersections
RECURSIVE Flat(_)
RECURSIVE FlatAll(_, _)
FlatAll(xs, i) == IF i > Len(xs) THEN <<>> ELSE Flat(xs[i]) \o FlatAll(xs, i + 1)
Flat(m) == IF ~IsNest(m) THEN <<IF m.a = "A2" THEN "A1" ELSE m.a>> ELSE FlatAll(m.xs, 1)
Set(q) == {q[i] : i \in 1..Len(q)}
Reduce(s) == IF "any" \in s THEN {"any"} ELSE IF "unknown" \in s THEN {"unknown"}
             ELSE LET s2 == IF "boolean" \in s THEN (s \ {"boolean"}) \cup {"true", "false"} ELSE s
                      s3 == {a \in s2 : Prim(a) = "no" \/ Prim(a) = "boolean" \/ Prim(a) \notin s2}
                      s4 == IF s3 = {"never"} THEN s3 ELSE s3 \ {"never"}
                  IN IF s4 = {"true", "false"} THEN {"boolean"} ELSE s4
Dedup(q) == LET keep == {i \in 1..Len(q) : \A j \in 1..(i - 1) : q[j] # q[i]} IN [n \in 1..Cardinality(keep) |-> q[CHOOSE i \in keep : Cardinality({j \in keep : j <= i}) = n]]
Key(m) == IF op = "union" THEN <<Reduce(Set(Flat(m)))>> ELSE LET d == Dedup(Flat(m)) IN [i \in 1..Len(d) |-> {d[i]}]

\* ---- duplicates: the walk remembers what it has met.  A step gives [seen, out (reports), dup]
At(i, out) == [j \in 1..Len(out) |-> [out[j] EXCEPT !.at = <<i>> \o @]]
RECURSIVE Walk(_, _, _)
RECURSIVE Kids(_, _, _, _)
Walk(m, seen, fix) ==
  LET key == Key(m) IN
  IF key \in seen THEN [seen |-> seen, out |-> <<[at |-> <<>>, fix |-> fix]>>, dup |-> TRUE]
  ELSE LET s == seen \cup {key} IN
       IF ~IsNest(m) THEN [seen |-> s, out |-> <<>>, dup |-> FALSE] ELSE LET k == Kids(m.xs, 1, s, TRUE) IN [seen |-> k.seen, out |-> k.out, dup |-> FALSE]
Kids(xs, i, seen, allgone) ==
  IF i > Len(xs) THEN [seen |-> seen, out |-> <<>>]
  ELSE LET h == Walk(xs[i], seen, i < Len(xs) \/ ~allgone)
           r == Kids(xs, i + 1, h.seen, allgone /\ h.dup)
       IN [seen |-> r.seen, out |-> At(i, h.out) \o r.out]
Dups(q) == Kids(q, 1, {}, FALSE).out

\* ---- redundancy in one union or intersection
Parts(m) == Reduce(Set(Flat(m)))
RedUnion(q) == UNION {
     {[at |-> i, m |-> IF a = "never" THEN "overridden" ELSE "overrides"] : a \in Parts(q[i]) \cap {"any", "unknown", "never"}}
     \cup {[at |-> i, m |-> "literalOverridden:" \o p] : p \in {p \in Prims : (\E a \in Parts(q[i]) : Prim(a) = p) /\ \E j \in 1..Len(q) : p \in Parts(q[j])}}
   : i \in 1..Len(q)}
RedInter(q) ==
  LET top == UNION {{[at |-> i, m |-> IF a = "unknown" THEN "overridden" ELSE "overrides"] : a \in Parts(q[i]) \cap {"any", "unknown", "never"}} : i \in 1..Len(q)}
      unions == {i \in 1..Len(q) : Cardinality(Parts(q[i])) >= 2}
      prims == UNION {Parts(q[j]) : j \in 1..Len(q)} \cap Prims
  IN top \cup (IF unions # {} THEN {[at |-> i, m |-> "primitiveOverridden"] : i \in {i \in unions : \A a \in Parts(q[i]) : Prim(a) \in prims}}
               ELSE {[at |-> j, m |-> "primitiveOverridden"] : j \in {j \in 1..Len(q) : \E p \in Parts(q[j]) \cap Prims : \E i \in 1..Len(q) : \E a \in Parts(q[i]) : Prim(a) = p}})

R == RandomElement(Members)
R2 == Nest(<<R, R>>)
Pick(k) == CASE k <= 6 -> R [] k \in {7, 8} -> R2 [] k = 9 -> Nest(<<R, R, R>>)
           [] k = 10 -> IF Rule = "red" THEN Nest(<<R, R, R>>) ELSE IF RandomElement(1..2) = 1 THEN Nest(<<R, R2>>) ELSE Nest(<<R2, R, R2>>)
Init == op \in {"union", "inter"} /\ ms = <<>> /\ w \in 1..Walks
Next == Len(ms) < Length /\ UNCHANGED <<op, w>> /\ (IF Walks = 1 THEN \E m \in Members : ms' = Append(ms, m) ELSE \E k \in {RandomElement(1..10)} : ms' = Append(ms, Pick(k)))
Spec == Init /\ [][Next]_vars
\* a member once complained of as a duplicate stays so; the first member never is one; without duplicates and absorption all is well
Grows == [][Rule = "dup" => Set(Dups(ms)) \subseteq Set(Dups(ms'))]_vars
First == Rule = "dup" => \A d \in Set(Dups(ms)) : d.at # <<1>>
Flatly == (Rule = "dup" /\ \A i \in 1..Len(ms) : ~IsNest(ms[i])) => Len(Dups(ms)) = Len(ms) - Cardinality({Key(ms[i]) : i \in 1..Len(ms)})
Order == Rule = "red" => LET n == Len(ms)  rev == [i \in 1..n |-> ms[n + 1 - i]] IN {[r EXCEPT !.at = n + 1 - @] : r \in RedUnion(rev)} = RedUnion(ms)
Emit == Len(ms) >= 2 => PrintT(ToJson([op |-> op, ms |-> ms, r |-> IF Rule = "dup" THEN Dups(ms) ELSE IF op = "union" THEN RedUnion(ms) ELSE RedInter(ms)]))
=============================================================================
