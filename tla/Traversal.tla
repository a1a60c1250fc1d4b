------------------------------ MODULE Traversal ------------------------------
(* The order in which the linter announces the nodes of one file to its rules (internal/linter/linter.go, visitLintNodes).
   A tree is a sequence of nodes; node 1 is the root (not announced), ch the node's children in source order and t those
   of them that are assignment targets: the left side of `=`, also where that gives a default, and the expression a
   for-of or for-in assigns to.  The machine's stack holds the open nodes; from it the next announcement is determined. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)     \* [k, ch, t : of the tree; log : announcements <<phase, node>>]

Literal == {"ArrayLiteralExpression", "ObjectLiteralExpression"}

VARIABLES i,        \* the trace
          l,        \* announcements consumed
          stack,    \* open nodes: [n |-> node, pat |-> it is (part of) an assignment target, at |-> next step]
          ok
vars == <<i, l, stack, ok>>

K(n) == Traces[i].k[n]
Ch(n) == Traces[i].ch[n]
Pattern(f, c) ==      \* is child c of the open node f an assignment target?
    \/ c \in ToSet(Traces[i].t[f.n])
    \/ f.pat /\ K(f.n) \in Literal \cup {"SpreadElement", "SpreadAssignment"}
    \/ f.pat /\ K(f.n) = "PropertyAssignment" /\ c = Ch(f.n)[Len(Ch(f.n))]

(* steps of a frame: 0 just entered (announce the literal's role), 1..n next child, n+1 announce leaving the role, n+2 leave *)
top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
AtChild == top.at >= 1 /\ top.at <= Len(Ch(top.n))
Expected ==
    CASE AtChild -> <<"in", Ch(top.n)[top.at]>>
      [] top.n = 1 -> <<"end", 0>>
      [] top.at = 0 -> <<IF top.pat THEN "pin" ELSE "nin", top.n>>
      [] top.at = Len(Ch(top.n)) + 1 /\ K(top.n) \in Literal -> <<IF top.pat THEN "pout" ELSE "nout", top.n>>
      [] OTHER -> <<"out", top.n>>
Frame(c) == [n |-> c, pat |-> Pattern(top, c), at |-> IF K(c) \in Literal THEN 0 ELSE 1]
Step ==
    CASE AtChild -> Append(Append(Rest, [top EXCEPT !.at = @ + 1]), Frame(Ch(top.n)[top.at]))
      [] Expected[1] = "out" -> Rest
      [] OTHER -> Append(Rest, [top EXCEPT !.at = @ + 1])

Log == Traces[i].log
Init == i \in 1..Len(Traces) /\ l = 0 /\ stack = <<[n |-> 1, pat |-> FALSE, at |-> 1]>> /\ ok = TRUE
Observe == ok /\ l < Len(Log) /\ l' = l + 1 /\ ok' = (Log[l'] = Expected) /\ stack' = (IF ok' THEN Step ELSE stack) /\ UNCHANGED i
Stop == ok /\ l = Len(Log) /\ Expected[1] # "end" /\ ok' = FALSE /\ UNCHANGED <<i, l, stack>>
Next == Observe \/ Stop
Spec == Init /\ [][Next]_vars

\* Open nodes are nested: each is a child of the one below
Nested == \A d \in 2..Len(stack) : stack[d].n \in ToSet(Ch(stack[d - 1].n))
Finished == ok /\ l = Len(Log) /\ Expected[1] = "end"
Report == /\ Finished => PrintT(ToJson([i |-> i, ok |-> TRUE, l |-> l, want |-> <<"end", 0>>]))
          /\ ~ok => PrintT(ToJson([i |-> i, ok |-> FALSE, l |-> l, want |-> Expected]))
=============================================================================
