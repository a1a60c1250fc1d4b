------------------------------- MODULE Report -------------------------------
(* What one reported diagnostic may look like (internal/rule/rule.go, internal/linter/linter.go, cmd/tsgolint/headless.go).
   A report is recorded from the real program as
     [n |-> length of its file, at |-> <<start, end>>, labels |-> sequence of ranges, groups |-> sequence of sequences of
      ranges (the edits of its fix and of each of its suggestions), texts |-> lengths of the rule name, message id, message
      and of every suggestion's id and message].
   The machine takes the records of a run one by one; a report that is not well-formed cannot be taken, and the run is then
   stuck short of its end.  Good runs of the generator below (Build) are used to check the definitions themselves. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.LOG)

Inside(n, r) == 0 <= r[1] /\ r[1] <= r[2] /\ r[2] <= n
\* edits that only touch are fine, and so are several insertions at one place
Apart(x, y) == x[2] <= y[1] \/ y[2] <= x[1]
WellFormed(m) ==
    /\ Inside(m.n, m.at)
    /\ \A i \in DOMAIN m.labels : Inside(m.n, m.labels[i])
    /\ \A g \in DOMAIN m.groups : LET e == m.groups[g] IN
          /\ Len(e) > 0
          /\ \A i \in DOMAIN e : Inside(m.n, e[i])
          /\ \A i, j \in DOMAIN e : i < j => Apart(e[i], e[j])
    /\ \A i \in DOMAIN m.texts : m.texts[i] > 0

VARIABLES k, rec
vars == <<k, rec>>
Init == k = 1 /\ rec = <<>>
Take == k <= Len(Log) /\ WellFormed(Log[k]) /\ k' = k + 1 /\ UNCHANGED rec
Spec == Init /\ [][Take]_vars
\* every record can be taken
Complete == k <= Len(Log) => (WellFormed(Log[k]) \/ PrintT(ToJson([bad |-> k])))
\* skipping the ill-formed ones, to name them all
Skip == k <= Len(Log) /\ ~WellFormed(Log[k]) /\ k' = k + 1 /\ UNCHANGED rec
SpecAll == Init /\ [][Take \/ Skip]_vars

(* ---- the definitions, checked on all small reports: an edit set is well-formed exactly if it can be carried out ---- *)
Small == {r \in (0 .. 3) \X (0 .. 3) : TRUE}
N == 2
Seqs == {<<>>} \cup {<<a>> : a \in Small} \cup {<<a, b>> : a \in Small, b \in Small}
InitB == k = 0 /\ rec \in [n : {N}, at : {<<0, 1>>}, labels : {<<>>}, groups : {<<g>> : g \in Seqs \ {<<>>}}, texts : {<<1>>}]
SpecB == InitB /\ [][FALSE]_vars
\* the characters of the file, each taken by at most one edit, all of them existing, and no edit strictly inside another
Chars(r) == {i \in 0 .. 3 : r[1] <= i /\ i < r[2]}
Feasible(e) == /\ \A i \in DOMAIN e : e[i][1] <= e[i][2] /\ e[i][1] <= N /\ e[i][2] <= N
               /\ \A i, j \in DOMAIN e : i # j => /\ Chars(e[i]) \cap Chars(e[j]) = {}
                                                  /\ ~(e[j][1] < e[i][1] /\ e[i][1] < e[j][2])
Means == WellFormed(rec) <=> Feasible(rec.groups[1])
=============================================================================
