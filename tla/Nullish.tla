------------------------------ MODULE Nullish ------------------------------
\* Tests of one value for null and undefined, written with || or ||=, as a conditional expression or as an if statement that assigns, and the ?? or ??= that can replace them.
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Both          \* may options and context be met with long tests
VARIABLES form, test, keep, type, opt, ctx, odd
vars == <<form, test, keep, type, opt, ctx, odd>>
Ops == {"==", "!=", "===", "!=="}
Atoms == {[op |-> o, what |-> w] : o \in Ops, w \in {"null", "undefined"}}
Types == {{"A"}} \cup (SUBSET {"N", "U", "S"} \ {{}})
Opts == {"none", "tests", "primitives", "strings", "numbers", "ternaries", "ifs", "mixed", "boolean"}
Values(t) == UNION {CASE x = "A" -> {"null", "undefined", "empty", "full"} [] x = "N" -> {"null"} [] x = "U" -> {"undefined"} [] x = "S" -> {"empty", "full"} : x \in t}
Nullish(v) == v \in {"null", "undefined"}
Falsy(v) == Nullish(v) \/ v = "empty"
\* what is run
Holds(a, v) == CASE a.op = "==" -> Nullish(v) [] a.op = "!=" -> ~Nullish(v) [] a.op = "===" -> v = a.what [] a.op = "!==" -> v # a.what
Eval(v) == CASE test.kind = "truth" -> ~Falsy(v)
             [] test.kind = "not" -> Falsy(v)
             [] test.kind = "one" -> Holds(test.l, v)
             [] test.kind = "and" -> Holds(test.l, v) /\ Holds(test.r, v)
             [] test.kind = "or" -> Holds(test.l, v) \/ Holds(test.r, v)
Other == "other"
Before(v) == CASE form \in {"or", "orassign"} -> IF Falsy(v) THEN Other ELSE v
               [] form = "ternary" -> IF Eval(v) = (keep = "then") THEN v ELSE Other
               [] form = "if" -> IF Eval(v) THEN Other ELSE v
After(v) == IF Nullish(v) THEN Other ELSE v
\* what the rule says
Truthiness == test.kind \in {"truth", "not"}
Pos == {"==", "==="}
Atomset == IF test.kind = "one" THEN {test.l} ELSE {test.l, test.r}
Positive == test.kind \in {"one", "or"} /\ \A a \in Atomset : a.op \in Pos
Negative == test.kind \in {"one", "and"} /\ \A a \in Atomset : a.op \notin Pos
Asked == {a.what : a \in Atomset}
Loose == \E a \in Atomset : a.op \in {"==", "!="}
Covers == \/ Asked = {"null", "undefined"} \/ Loose
          \/ /\ "A" \notin type
             /\ ("undefined" \in Asked => "N" \notin type)
             /\ ("null" \in Asked => "U" \notin type)
Nullable == type \cap {"A", "N", "U"} # {}
Ignored == \/ opt \in {"primitives", "strings"} /\ type \cap {"A", "S"} # {}
           \/ opt = "numbers" /\ "A" \in type
           \/ ctx = "test" /\ opt # "tests"
           \/ ctx = "boolean" /\ opt = "boolean"
           \/ odd = "and" /\ opt = "mixed" /\ form \in {"or", "orassign"}
Eligible == Nullable /\ ~Ignored
Reported ==
  /\ odd \notin {"branch", "atom", "compound"}
  /\ CASE form \in {"or", "orassign"} -> Eligible
       [] form = "ternary" -> /\ opt # "ternaries"
                              /\ IF Truthiness THEN Eligible /\ keep = (IF test.kind = "truth" THEN "then" ELSE "else")
                                 ELSE Covers /\ IF keep = "then" THEN Negative ELSE Positive
       [] form = "if" -> opt # "ifs" /\ IF Truthiness THEN test.kind = "not" /\ Eligible ELSE Covers /\ Positive
Tests == {[kind |-> "truth"], [kind |-> "not"]} \cup {[kind |-> "one", l |-> a] : a \in Atoms}
Init == /\ form \in {"or", "orassign", "ternary", "if"}
        /\ test \in IF form \in {"or", "orassign"} THEN {[kind |-> "truth"]} ELSE Tests
        /\ keep \in IF form = "ternary" THEN {"then", "else"} ELSE {"then"}
        /\ type \in Types /\ opt = "none" /\ ctx = "value" /\ odd = "no"
Plain == opt = "none" /\ ctx = "value" /\ odd = "no"
Join == test.kind = "one" /\ (Both \/ Plain) /\ \E k \in {"and", "or"}, a \in Atoms : test' = [kind |-> k, l |-> test.l, r |-> a] /\ UNCHANGED <<form, keep, type, opt, ctx, odd>>
Option == opt = "none" /\ test.kind \notin {"and", "or"} /\ \E o \in Opts : opt' = o /\ UNCHANGED <<form, test, keep, type, ctx, odd>>
Place == ctx = "value" /\ odd = "no" /\ test.kind \notin {"and", "or"} /\ \E p \in (IF form = "if" THEN {} ELSE IF form = "ternary" THEN {"test"} ELSE {"test", "boolean"}) : ctx' = p /\ UNCHANGED <<form, test, keep, type, opt, odd>>
Spoil == odd = "no" /\ ctx = "value" /\ \E x \in {"branch", "atom", "compound", "and"} :
            /\ x = "branch" => form \in {"ternary", "if"}
            /\ x = "atom" => test.kind \in {"and", "or"}
            /\ x = "compound" => form = "if"
            /\ x = "and" => test.kind \notin {"and", "or"}
            /\ odd' = x /\ UNCHANGED <<form, test, keep, type, opt, ctx>>
Spec == Init /\ [][Join \/ Option \/ Place \/ Spoil]_vars
\* a rewritten test for null and undefined keeps its meaning; a rewritten test for truth changes it for falsy values that are not nullish and no others
Kept == Reported => \A v \in Values(type) : Before(v) = After(v) \/ ((form \in {"or", "orassign"} \/ Truthiness) /\ v = "empty")
\* a well-formed test that is not rewritten would not keep its meaning
Missed == (form = "ternary" /\ ~Truthiness /\ odd = "no" /\ opt # "ternaries" /\ ~Reported /\ (IF keep = "then" THEN Negative ELSE Positive)) => \E v \in Values(type) \cup {"null", "undefined"} : Before(v) # After(v)
Needed == (form = "ternary" /\ ~Truthiness /\ odd = "no" /\ opt # "ternaries" /\ "A" \notin type /\ ~Reported /\ (IF keep = "then" THEN Negative ELSE Positive)) => \E v \in Values(type) : Before(v) # After(v)
Emit == PrintT(ToJson([form |-> form, test |-> test, keep |-> keep, type |-> type, opt |-> opt, ctx |-> ctx, odd |-> odd, rep |-> Reported, before |-> [v \in Values(type) |-> Before(v)], after |-> [v \in Values(type) |-> After(v)]]))
=============================================================================
