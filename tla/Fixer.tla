------------------------------- MODULE Fixer -------------------------------
(* Applying the fixes of a set of diagnostics to one text (internal/linter/source_code_fixer.go).
   The text is the sequence of its original characters, written as tokens <<0, i>>; the replacement text of edit k of
   diagnostic d is the token <<d, k>>.  An edit [p, e] replaces the characters p..e-1 (0-based, end exclusive).
   Diagnostics are considered in order of their first edit's start and then of their last edit's end; where that leaves
   two diagnostics (or two edits of one diagnostic at the same place) unordered, either order is allowed. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, IOUtils

CONSTANTS Cases            \* set of [n |-> text length, diags |-> sequence of sequences of edits]

Edit(n) == {[p |-> a, e |-> b] : a \in 0..n, b \in 0..n} \cap {x \in [p : 0..n, e : 0..n] : x.p <= x.e}
Disjoint(x, y) == x.e <= y.p \/ y.e <= x.p
\* Diagnostics with no edit, one edit, or two disjoint edits in either order
DiagsUpTo(n, k) == {<<>>} \cup {<<x>> : x \in Edit(n)}
    \cup (IF k < 2 THEN {} ELSE {p \in Edit(n) \X Edit(n) : Disjoint(p[1], p[2])})
Small1 == {[n |-> 3, diags |-> <<d>>] : d \in DiagsUpTo(3, 2)}
Small2 == Small1 \cup {[n |-> 3, diags |-> <<d1, d2>>] : d1 \in DiagsUpTo(3, 2), d2 \in DiagsUpTo(3, 2)}
Small3 == Small1 \cup {[n |-> 2, diags |-> <<d1, d2, d3>>] : d1 \in DiagsUpTo(2, 1), d2 \in DiagsUpTo(2, 1), d3 \in DiagsUpTo(2, 1)}
FromFile == LET s == ndJsonDeserialize(IOEnv.CASES) IN {s[i] : i \in 1..Len(s)}

VARIABLES c,        \* the case
          todo,     \* diagnostics with edits not yet considered
          out,      \* text written so far
          last,     \* end of the last edit written
          applied, skipped, done
vars == <<c, todo, out, last, applied, skipped, done>>

Before(x, y) == x.p < y.p \/ (x.p = y.p /\ x.e < y.e)
FirstEd(d) == CHOOSE i \in DOMAIN d : \A j \in DOMAIN d : ~Before(d[j], d[i])
LastEd(d) == CHOOSE i \in DOMAIN d : \A j \in DOMAIN d : ~Before(d[i], d[j])
Key(d) == [p |-> d[FirstEd(d)].p, e |-> d[LastEd(d)].e]
Orig(a, b) == [i \in 1..(b - a) |-> <<0, a + i>>]
Orders(d) == {s \in [DOMAIN d -> DOMAIN d] : /\ \A i, j \in DOMAIN d : i # j => s[i] # s[j]
                                             /\ \A i, j \in DOMAIN d : i < j => ~Before(d[s[j]], d[s[i]])}

Init == /\ c \in Cases
        /\ todo = {i \in DOMAIN c.diags : Len(c.diags[i]) > 0}
        /\ out = <<>> /\ last = 0 /\ applied = {} /\ done = FALSE
        /\ skipped = {i \in DOMAIN c.diags : Len(c.diags[i]) = 0}
Next1(i) == \A j \in todo : ~Before(Key(c.diags[j]), Key(c.diags[i]))
Skip(i) == /\ last > Key(c.diags[i]).p
           /\ skipped' = skipped \cup {i} /\ UNCHANGED <<out, last, applied>>
RECURSIVE Write(_, _, _, _, _)
Write(d, i, s, k, acc) ==
    IF k > Len(d) THEN acc
    ELSE LET x == d[s[k]] IN Write(d, i, s, k + 1, [o |-> acc.o \o Orig(acc.l, x.p) \o <<<<i, s[k]>>>>, l |-> x.e])
Apply(i) == /\ last <= Key(c.diags[i]).p
            /\ \E s \in Orders(c.diags[i]) :
                 LET w == Write(c.diags[i], i, s, 1, [o |-> out, l |-> last]) IN out' = w.o /\ last' = w.l
            /\ applied' = applied \cup {i} /\ UNCHANGED skipped
Consider == \E i \in todo : Next1(i) /\ (Skip(i) \/ Apply(i)) /\ todo' = todo \ {i} /\ UNCHANGED <<c, done>>
Finish == todo = {} /\ ~done /\ done' = TRUE /\ out' = out \o Orig(last, c.n) /\ UNCHANGED <<c, todo, last, applied, skipped>>
Next == Consider \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Ed(x) == c.diags[x[1]][x[2]]
AppliedEdits == UNION {{<<i, k>> : k \in DOMAIN c.diags[i]} : i \in applied}
WholeOrNothing == done => \A i \in DOMAIN c.diags : (i \in applied) # (i \in skipped)
NoOverlap == \A x, y \in AppliedEdits : x # y => Disjoint(Ed(x), Ed(y))
Covered == UNION {{<<0, q>> : q \in (Ed(x).p + 1)..Ed(x).e} : x \in AppliedEdits}
\* Everything outside the edited ranges is unchanged and each applied edit appears exactly once, in place
At(t) == IF t[1] = 0 THEN [p |-> t[2] - 1, e |-> t[2]] ELSE Ed(t)
Result == done => /\ ToSet(out) = ({<<0, q>> : q \in 1..c.n} \ Covered) \cup AppliedEdits
                  /\ Len(out) = Cardinality(ToSet(out))
                  /\ \A i, j \in DOMAIN out : i < j => At(out[i]).e <= At(out[j]).p
\* A diagnostic is skipped only because an applied one, considered before it, ends after it begins
Justified == done => \A i \in skipped : Len(c.diags[i]) > 0 =>
    \E j \in applied : ~Before(Key(c.diags[i]), Key(c.diags[j])) /\ \E k \in DOMAIN c.diags[j] : c.diags[j][k].e > Key(c.diags[i]).p
Greedy == done /\ (\E i \in DOMAIN c.diags : Len(c.diags[i]) > 0) => applied # {}
Emit == done => PrintT(ToJson([n |-> c.n, diags |-> c.diags, out |-> out, skipped |-> SetToSortSeq(skipped, <), fixed |-> applied # {}]))
=============================================================================
