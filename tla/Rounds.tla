------------------------------- MODULE Rounds --------------------------------
(* Lint and fix, round after round.  An expression is a variable in wrappings, some of which one rule finds needless; a round lints, and applies   *)
(* the fixes that do not overlap: any of them, but at least one.  The next round lints what came out.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Walks
VARIABLES expr,    \* the wrappings from the inside out
          rule, orig, rounds, phase, w
vars == <<expr, rule, orig, rounds, phase, w>>
\* what each wrapping takes and gives: a string or a boolean
Wraps == [tpl |-> <<"s", "s">>, tpl2 |-> <<"s", "s">>, as |-> <<"s", "s">>, ang |-> <<"s", "s">>, bang |-> <<"s", "s">>, eqt |-> <<"b", "b">>, nef |-> <<"b", "b">>, asb |-> <<"b", "b">>, bangb |-> <<"b", "b">>,
          id |-> <<"s", "s">>, idb |-> <<"b", "b">>, cat |-> <<"s", "s">>, no |-> <<"b", "b">>, has |-> <<"s", "b">>, pick |-> <<"b", "s">>, and |-> <<"b", "b">>, par |-> <<"s", "s">>]
Needless == [tpl |-> {"tpl", "tpl2"}, assertion |-> {"as", "ang", "bang", "asb", "bangb"}, compare |-> {"eqt", "nef"}]
Type(e) == IF e = <<>> THEN "s" ELSE Wraps[e[Len(e)]][2]
Pending == {i \in 1..Len(expr) : expr[i] \in Needless[rule]}
Without(e, s) == LET F[i \in 0..Len(e)] == IF i = 0 THEN <<>> ELSE IF i \in s THEN F[i - 1] ELSE Append(F[i - 1], e[i]) IN F[Len(e)]
Erased(e, r) == SelectSeq(e, LAMBDA k : k \notin Needless[r])
Init == /\ expr = <<>> /\ rule = "" /\ orig = <<>> /\ rounds = 0 /\ phase = "write" /\ w \in 1..Walks
R(s) == RandomElement(s)
Fits(e) == {k \in DOMAIN Wraps : Wraps[k][1] = Type(e)}
Wrap == /\ phase = "write" /\ Len(expr) < Depth /\ UNCHANGED <<rule, orig, rounds, phase, w>>
        /\ IF Walks = 1 THEN \E k \in Fits(expr) : expr' = Append(expr, k) ELSE expr' = Append(expr, R(Fits(expr)))
Begin == /\ phase = "write" /\ expr # <<>> /\ (Walks > 1 => Len(expr) = Depth) /\ phase' = "fix" /\ orig' = expr /\ UNCHANGED <<expr, rounds, w>>
         /\ IF Walks = 1 THEN \E r \in DOMAIN Needless : rule' = r ELSE rule' = R(IF expr = <<>> THEN {} ELSE DOMAIN Needless)
Round == /\ phase = "fix" /\ Pending # {} /\ rounds' = rounds + 1 /\ UNCHANGED <<rule, orig, phase, w>>
         /\ IF Walks = 1 THEN \E s \in SUBSET Pending \ {{}} : expr' = Without(expr, s) ELSE \E s \in {R(SUBSET Pending \ {{}})} : expr' = Without(expr, s)
Next == Wrap \/ Begin \/ Round
Spec == Init /\ [][Next]_vars
\* a round never adds to what is pending, and takes something away; so it ends, and it ends in one and the same expression
Shrinks == [][phase = "fix" => Len(expr') < Len(expr)]_vars
Bound == phase = "fix" => rounds + Cardinality(Pending) <= Len(orig)
Typed == phase = "fix" => Type(expr) = Type(orig) /\ \A i \in 1..Len(expr) : Wraps[expr[i]][1] = Type(SubSeq(expr, 1, i - 1))
Confluent == phase = "fix" => Erased(expr, rule) = Erased(orig, rule) /\ (Pending = {} => expr = Erased(orig, rule))
Emit == (phase = "fix" /\ rounds = 0) => PrintT(ToJson([e |-> expr, rule |-> rule, n |-> Cardinality(Pending), end |-> Erased(expr, rule)]))
=============================================================================
