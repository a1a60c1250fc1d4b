----------------------------- MODULE Callbacks -----------------------------
\* A function is handed to a place that wants a function.  What the place does with results comes from the signatures wanted of it,
\* which results there are from what is given; both are written down step by step.
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxReturns
VARIABLES wanted, form, async, ann, rets, done
vars == <<wanted, form, async, ann, rets, done>>
\* results a signature or expression may have
Kinds == {"void", "undefined", "null", "never", "any", "unknown", "number", "promise", "maybe", "mixed"}
Atoms(k) == CASE k = "never" -> {} [] k = "maybe" -> {"void", "promise"} [] k = "mixed" -> {"void", "number"} [] OTHER -> {k}
\* Promise of anything
Fulfil == {"promise"}
Forms == {"ref", "expr", "block", "gen"}
Init == wanted = {} /\ form = "" /\ async = FALSE /\ ann = "" /\ rets = <<>> /\ done = FALSE
Want == form = "" /\ Cardinality(wanted) < 2 /\ (\E k \in Kinds \ wanted : wanted' = wanted \cup {k}) /\ UNCHANGED <<form, async, ann, rets, done>>
Begin == /\ form = "" /\ wanted # {}
         /\ form' \in Forms
         /\ async' \in (IF form' = "ref" THEN {FALSE} ELSE BOOLEAN)
         /\ ann' \in (IF form' \in {"ref", "gen"} THEN {""} ELSE IF async' THEN {"", "promise"} ELSE {""} \cup Kinds)
         /\ UNCHANGED <<wanted, rets, done>>
\* "" : return without a value
Return == /\ form # "" /\ ~done
          /\ Len(rets) < (IF form = "block" THEN MaxReturns ELSE IF form = "gen" THEN 0 ELSE 1)
          /\ \E k \in Kinds \cup (IF form = "block" THEN {""} ELSE {}) : rets' = Append(rets, k)
          /\ UNCHANGED <<wanted, form, async, ann, done>>
End == /\ form # "" /\ ~done /\ (form \in {"ref", "expr"} => Len(rets) = 1)
       /\ done' = TRUE /\ UNCHANGED <<wanted, form, async, ann, rets>>
Next == Want \/ Begin \/ Return \/ End
Spec == Init /\ [][Next]_vars
\* ---- what is given
Absorb(S) == IF "any" \in S THEN {"any"} ELSE IF "unknown" \in S THEN {"unknown"} ELSE S
Of(k) == IF k = "" THEN {"undefined"} ELSE Atoms(k)
Inferred == Absorb(UNION {Of(rets[i]) : i \in 1..Len(rets)})
Results == CASE form = "gen" -> {"generator"}
             [] async -> {"promise"}
             [] ann # "" -> Atoms(ann)
             [] form = "block" /\ rets = <<>> -> {"void"}
             [] OTHER -> Inferred
\* ---- what is wanted
Nothing == Atoms("void")
Returned == {Atoms(k) : k \in wanted}
TakesPromise == \E k \in wanted : "promise" \in Atoms(k)
OnlyVoid == \A k \in wanted : k = "void"
\* an argument may also be wanted by a signature that says as little
Voidish == "void" \in wanted /\ wanted \subseteq {"void", "undefined", "null", "any", "never"}
\* ---- verdicts: a promise that nobody waits for
Misused == ~TakesPromise /\ "void" \in wanted /\ "promise" \in Results
\* ---- a value nobody reads; what is reported, in order
Allowed(S, any) == S \subseteq {"void", "undefined"} \cup (IF any THEN {"any"} ELSE {})
Strict(any) ==
  IF Allowed(Results, any) THEN <<>>
  ELSE CASE form \in {"ref", "gen"} -> << <<"node", "nonVoidFunc">> >>
         [] async -> << <<"node", "asyncFunc">> >>
         [] form = "expr" -> << <<"body", "nonVoidReturn">> >>
         [] ann # "" -> << <<"ann", "nonVoidFunc">> >>
         [] OTHER -> LET F[i \in 0..Len(rets)] == IF i = 0 THEN <<>> ELSE IF rets[i] # "" /\ ~Allowed(Atoms(rets[i]), any) THEN Append(F[i - 1], <<"r" \o ToString(i - 1), "nonVoidReturn">>) ELSE F[i - 1] IN F[Len(rets)]
\* ---- what holds of the verdicts
\* a promise dropped where nothing at all is wanted is also a value dropped
Dropped == done /\ Misused /\ OnlyVoid => Strict(TRUE) # <<>>
\* who gives nothing is never reported
Quiet == done /\ form = "block" /\ ~async /\ ann = "" /\ (\A i \in 1..Len(rets) : rets[i] \in {"", "void", "undefined", "never"}) => Strict(FALSE) = <<>> /\ ~Misused
\* who gives something is reported somewhere
Heard == done /\ ~Allowed(Results, FALSE) => Strict(FALSE) # <<>>
\* the option only takes away, and only what is any
Option == done => /\ {Strict(TRUE)[i] : i \in 1..Len(Strict(TRUE))} \subseteq {Strict(FALSE)[i] : i \in 1..Len(Strict(FALSE))}
                  /\ (Strict(TRUE) # Strict(FALSE) => ann = "any" \/ \E i \in 1..Len(rets) : rets[i] = "any")
\* a signature that takes promises makes any function welcome
Welcome == done /\ wanted \cap {"promise", "maybe"} # {} => ~Misused
Emit == done => PrintT(ToJson([wanted |-> wanted, form |-> form, async |-> async, ann |-> ann, rets |-> rets, misused |-> Misused, onlyVoid |-> OnlyVoid, voidish |-> Voidish, strict |-> Strict(FALSE), strictAny |-> Strict(TRUE)]))
=============================================================================
