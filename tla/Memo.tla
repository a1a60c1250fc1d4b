-------------------------------- MODULE Memo --------------------------------
(* How no-base-to-string judges types that refer to each other, and that remembering judgements does not change them
   (internal/rules/no_base_to_string: certaintyMemo, collectToStringCertainty).
   N named types; each is a tuple, an array, or a tuple of a union, of leaves and named types.  Converting a value to a string
   is useful always (2), sometimes (1) or never (0).  A type met again inside itself counts as useful, the value cannot end there.
   The machine answers questions one after the other and remembers; every answer must be the one it would give with nothing
   remembered. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, TLCExt, Json, Randomization

CONSTANTS N, Graphs, MaxQ
Leaf == {101, 102}             \* string, {}
Ref == Leaf \cup (1 .. N)
Defs == {<<"tup", x>> : x \in Ref} \cup {<<"tup", x, y>> : x \in Ref, y \in Ref} \cup {<<"arr", x>> : x \in Ref} \cup {<<"uni", x, y>> : x \in Ref, y \in Ref}
AllGraphs == [1 .. N -> Defs]

AND(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = 1 \/ b = 1 THEN 1 ELSE 2
OR(a, b) == IF a = b THEN a ELSE 1
Combine(k, a, b) == CASE k = "tup" -> AND(a, b) [] k = "uni" -> OR(a, b) [] OTHER -> a
LeafCert(x) == IF x = 101 THEN 2 ELSE 0
\* with nothing remembered
RECURSIVE Cert(_, _, _)
Cert(g, x, path) ==
    IF x \in Leaf THEN LeafCert(x)
    ELSE IF x \in path THEN 2
    ELSE LET d == g[x] IN IF Len(d) = 2 THEN Cert(g, d[2], path \cup {x}) ELSE Combine(d[1], Cert(g, d[2], path \cup {x}), Cert(g, d[3], path \cup {x}))

\* one question, depth first, with what is remembered: [val |-> answer, mem |-> remembered, tainted |-> whether an assumption was used]
RECURSIVE Ask(_, _, _, _)
Ask(g, x, path, mem) ==
    IF x \in Leaf THEN [val |-> LeafCert(x), mem |-> mem, tainted |-> FALSE]
    ELSE IF mem[x] # -1 THEN [val |-> mem[x], mem |-> mem, tainted |-> FALSE]
    ELSE IF x \in path THEN [val |-> 2, mem |-> mem, tainted |-> TRUE]
    ELSE LET d == g[x]
             a == Ask(g, d[2], path \cup {x}, mem)
             b == IF Len(d) = 2 THEN [a EXCEPT !.tainted = FALSE] ELSE Ask(g, d[3], path \cup {x}, a.mem)
             v == IF Len(d) = 2 THEN a.val ELSE Combine(d[1], a.val, b.val)
             t == (a.tainted \/ b.tainted) /\ path # {}
         IN [val |-> v, mem |-> IF t THEN b.mem ELSE [b.mem EXCEPT ![x] = v], tainted |-> t]

VARIABLES g, mem, asked
vars == <<g, mem, asked>>
Init == g \in Graphs /\ mem = [x \in 1 .. N |-> -1] /\ asked = <<>>
Next == /\ Len(asked) < MaxQ
        /\ \E x \in 1 .. N : /\ \A i \in DOMAIN asked : asked[i][1] # x
                             /\ LET r == Ask(g, x, {}, mem) IN mem' = r.mem /\ asked' = Append(asked, <<x, r.val>>)
        /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
Forgetful == \A i \in DOMAIN asked : asked[i][2] = Cert(g, asked[i][1], {})
Remembered == \A x \in 1 .. N : mem[x] # -1 => mem[x] = Cert(g, x, {})
Emit == Len(asked) = MaxQ => PrintT(ToJson([g |-> [x \in 1 .. N |-> [k |-> g[x][1], r |-> Tail(g[x])]], q |-> asked]))
Some3 == RandomSubset(IF Cardinality(AllGraphs) < 3000 THEN Cardinality(AllGraphs) ELSE 3000, AllGraphs)
=============================================================================
