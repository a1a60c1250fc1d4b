------------------------------ MODULE Decided ------------------------------
\* Conditions over values of known types: some are decided by the types alone.
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Links
VARIABLES family, type, other, form, chain
vars == <<family, type, other, form, chain>>
\* members of types, and the values they allow
Members == {"string", "emptyS", "aS", "number", "zero", "one", "bigint", "zeroB", "oneB", "true", "false", "object", "function", "symbol", "null", "undefined"}
Values(m) == CASE m = "string" -> {<<"string", "">>, <<"string", "a">>} [] m = "emptyS" -> {<<"string", "">>} [] m = "aS" -> {<<"string", "a">>}
               [] m = "number" -> {<<"number", "0">>, <<"number", "1">>, <<"number", "NaN">>} [] m = "zero" -> {<<"number", "0">>} [] m = "one" -> {<<"number", "1">>}
               [] m = "bigint" -> {<<"bigint", "0">>, <<"bigint", "1">>} [] m = "zeroB" -> {<<"bigint", "0">>} [] m = "oneB" -> {<<"bigint", "1">>}
               [] m = "true" -> {<<"boolean", "true">>} [] m = "false" -> {<<"boolean", "false">>} [] m \in {"object", "function", "symbol"} -> {<<m, m>>} [] m = "null" -> {<<"null", "null">>} [] m = "undefined" -> {<<"undefined", "undefined">>}
Known(t) == t \subseteq Members
Vals(t) == UNION {Values(m) : m \in t}
Truthy(v) == ~(v[1] \in {"null", "undefined"} \/ v[2] \in {"", "0", "NaN", "false"})
Nullish(v) == v[1] \in {"null", "undefined"}
\* a type next to its own literals is that type
Small == {t \in SUBSET Members : Cardinality(t) \in 1..2 /\ ~({"string", "emptyS"} \subseteq t \/ {"string", "aS"} \subseteq t \/ {"number", "zero"} \subseteq t \/ {"number", "one"} \subseteq t \/ {"bigint", "zeroB"} \subseteq t \/ {"bigint", "oneB"} \subseteq t)}
Types == Small \cup {{"any"}, {"unknown"}, {"param"}, {"never"}, {"null", "undefined", "string"}, {"null", "undefined", "object"}}
Decide(t) == IF ~Known(t) THEN (IF t = {"never"} THEN "never" ELSE "open") ELSE IF \A v \in Vals(t) : Truthy(v) THEN "truthy" ELSE IF \A v \in Vals(t) : ~Truthy(v) THEN "falsy" ELSE "open"
Flip(d, odd) == IF ~odd THEN d ELSE CASE d = "truthy" -> "falsy" [] d = "falsy" -> "truthy" [] OTHER -> d
Loops == {"while", "do", "for"}
Places == {"if", "cond", "or", "and"} \cup Loops
Others == {{"string"}, {"object"}, {"null"}, {"any"}}
\* constants that loops may have: true, also as the negation of what is always falsy
Constant(t) == CASE form.mode = "always" -> (form.negs = 0 /\ t = {"true"}) \/ (form.negs = 1 /\ Decide(t) = "falsy") [] form.mode = "literals" -> form.literal /\ form.negs = 0 [] OTHER -> FALSE
CondForms == [place : Places, negs : 0..2, mode : {"never"}, literal : {FALSE}]
LoopForms == [place : Loops, negs : 0..1, mode : {"never", "always", "literals"}, literal : BOOLEAN]
Pairs == [place : {"if", "cond", "while"}, negs : 0..1, op : {"and", "or"}, left : 0..1, right : 0..1]
Compare == {"===", "!==", "==", "!="}
Preds == [place : {"arrow", "block", "name"}, method : {"filter", "find", "some", "every"}]
Guards == [place : {"is", "asserts", "plain"}, on : BOOLEAN, arg : 1..2]
\* elements: what an index may miss is not decided by the type of the elements
Elems == [place : {"cond", "coalesce", "chain"}, base : {"array", "readonly", "generic", "first", "second", "index"}]
Marks == [link : {"prop", "elem", "call"}, opt : BOOLEAN, nullable : BOOLEAN]
Init == \/ family = "cond" /\ type \in Types /\ other = {"string"} /\ form \in CondForms /\ chain = <<>>
        \/ family = "loop" /\ type \in {{"true"}, {"false"}, {"zero"}, {"one"}} /\ other = {"string"} /\ form \in LoopForms /\ chain = <<>>
        \/ family = "pair" /\ type \in Types /\ other \in Others /\ form \in Pairs /\ chain = <<>>
        \/ family = "nullish" /\ type \in Types /\ other = {"string"} /\ form \in [place : {"coalesce", "assign", "orassign", "andassign"}] /\ chain = <<>>
        \/ family = "compare" /\ type \in Types \ {{"never"}} /\ other \in {{"null"}, {"undefined"}, {"one"}, {"aS"}, {"true"}, {"zeroB"}} /\ form \in [place : Compare, swapped : BOOLEAN] /\ chain = <<>>
        \/ family = "pred" /\ type \in Types \ {{"never"}} /\ other = {"string"} /\ form \in Preds /\ chain = <<>>
        \/ family = "guard" /\ type \in Types \ {{"never"}} /\ other \in {{"string"}, {"object"}, {"string", "null"}, {"true", "false"}} /\ form \in Guards /\ chain = <<>>
        \/ family = "elem" /\ type = {"object"} /\ other = {"string"} /\ form \in Elems /\ chain = <<>>
        \/ family = "chain" /\ type = {"object"} /\ other = {"string"} /\ form = [nullable |-> TRUE] /\ chain = <<>>
        \/ family = "chain" /\ type = {"object"} /\ other = {"string"} /\ form = [nullable |-> FALSE] /\ chain = <<>>
\* a chain of links from a value that may be nullish, over properties, elements and results that may be
Next == family = "chain" /\ Len(chain) < Links /\ \E m \in Marks : chain' = Append(chain, m) /\ UNCHANGED <<family, type, other, form>>
Spec == Init /\ [][Next]_vars
Static(t) == Cardinality(t) = 1 /\ t \subseteq {"emptyS", "aS", "zero", "one", "zeroB", "oneB", "true", "false", "null", "undefined"}
Equal(a, b, loose) == IF loose /\ Nullish(a) THEN Nullish(b) ELSE a = b
Before(i) == IF i = 1 THEN form.nullable ELSE chain[i - 1].nullable
Unneeded(i) == chain[i].opt /\ ~Before(i)
Reports == CASE family = "cond" -> IF Decide(type) = "open" THEN <<>> ELSE <<Flip(Decide(type), form.negs % 2 = 1)>>
             [] family = "loop" -> IF Constant(type) THEN <<>> ELSE <<Flip(Decide(type), form.negs % 2 = 1)>>
             [] family = "pair" -> <<Flip(Decide(type), form.left = 1), Flip(Decide(other), form.right = 1)>>
             [] family = "nullish" -> IF form.place \in {"orassign", "andassign"} THEN <<Decide(type)>> ELSE
                  IF type = {"never"} THEN <<"never">> ELSE IF ~Known(type) THEN <<"open">> ELSE IF \A v \in Vals(type) : Nullish(v) THEN <<"nullish">> ELSE IF \A v \in Vals(type) : ~Nullish(v) THEN <<"nonnull">> ELSE <<"open">>
             [] family = "compare" -> IF Static(type) /\ Static(other) THEN <<"literals">> ELSE IF Known(type) /\ other \in {{"null"}, {"undefined"}} /\ \A v \in Vals(type) : \A w \in Vals(other) : ~Equal(w, v, form.place \in {"==", "!="}) THEN <<"overlap">> ELSE <<"open">>
             [] family = "pred" -> IF Known(type) THEN <<Decide(type)>> ELSE <<"open">>
             [] family = "guard" -> IF ~form.on THEN <<"open">> ELSE IF form.place = "plain" THEN <<Decide(type)>> ELSE IF type = other THEN <<"guard">> ELSE <<"open">>
             [] family = "elem" -> IF form.base \in {"first", "second"} THEN <<CASE form.place = "cond" -> Decide(type) [] form.place = "coalesce" -> "nonnull" [] form.place = "chain" -> "unneeded">> ELSE <<"open">>
             [] family = "chain" -> [i \in 1..Len(chain) |-> IF Unneeded(i) THEN "unneeded" ELSE "open"]
\* what a chain gives: where it ends, and whether by an error; null stands for what is nullish there
Ends(opts, ns) == LET G[i \in 0..Len(chain)] == IF i = 0 THEN "on" ELSE IF G[i - 1] # "on" THEN G[i - 1] ELSE IF ns[i] THEN (IF opts[i] THEN "undefined" ELSE "throws") ELSE "on" IN G[Len(chain)]
Nulls == {f \in [1..Len(chain) -> BOOLEAN] : \A i \in 1..Len(chain) : f[i] => Before(i)}
\* a link is called unneeded only if it could be plain, whatever is nullish; any other makes a difference unless an earlier link always fails
ChainSound == family = "chain" => \A i \in 1..Len(chain) : chain[i].opt => (Unneeded(i) <=> \A f \in Nulls : (\A j \in 1..(i - 1) : ~f[j]) => Ends([k \in 1..Len(chain) |-> chain[k].opt], f) = Ends([k \in 1..Len(chain) |-> chain[k].opt /\ k # i], f))
\* a comparison of types without a common value has one outcome
CompareSound == family = "compare" /\ Reports # <<"open">> => Cardinality({Equal(w, v, form.place \in {"==", "!="}) : v \in Vals(type), w \in Vals(other)}) = 1
Emit == ~(family = "chain" /\ chain = <<>>) => PrintT(ToJson([family |-> family, type |-> type, other |-> other, form |-> form, chain |-> chain, rep |-> Reports]))
=============================================================================
