------------------------------ MODULE Booleans ------------------------------
(* strict-boolean-expressions.  A type is built part by part and judged under options; a condition is built operator by operator and has,   *)
(* at every moment, a set of places that are asked for a boolean.                                                                           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, Randomization
CONSTANTS Sets, Opts, Depth, Walks
VARIABLES t, o, e, d
vars == <<t, o, e, d>>

\* ---- types: sets of parts
Parts == {"true", "false", "empty", "word", "string", "zero", "one", "number", "bigzero", "bigone", "bigint", "null", "undefined", "void", "object", "function", "symbol", "E", "S", "brandstring", "brandbool", "any", "unknown"}
Kind(a) == CASE a \in {"true", "false", "brandbool"} -> "boolean"
             [] a \in {"empty", "word", "string", "S"} -> "string"
             [] a \in {"zero", "one", "number", "E"} -> "number"
             [] a \in {"bigzero", "bigone", "bigint"} -> "bigint"
             [] a \in {"null", "undefined", "void"} -> "nullish"
             [] a \in {"any", "unknown"} -> a
             [] OTHER -> "object"
\* what a union keeps
Reduce(x) == IF "any" \in x THEN {"any"} ELSE IF "unknown" \in x THEN {"unknown"}
             ELSE ((x \ (IF "string" \in x THEN {"empty", "word", "S"} ELSE {})) \ (IF "number" \in x THEN {"zero", "one", "E"} ELSE {})) \ (IF "bigint" \in x THEN {"bigzero", "bigone"} ELSE {})
Kinds(x) == {Kind(a) : a \in x}
Enum(x) == x \cap {"E", "S"} # {}
AllTruthy(x) == x \ {"null", "undefined", "void"} \subseteq {"true", "word", "one"}
Verdict(x0, p) ==
  LET x == Reduce(x0)  ks == Kinds(x)  k == ks \ {"nullish"}  nul == "nullish" \in ks
      If(ok, msg) == IF ok THEN "ok" ELSE msg IN
  CASE k \in {{"any"}, {"unknown"}} -> If(p.any, "Any")
    [] k = {} -> "Nullish"
    [] k = {"boolean"} -> If(~nul \/ p.nboolean \/ AllTruthy(x), "NullableBoolean")
    [] k = {"object"} -> IF nul THEN If(p.nobject, "NullableObject") ELSE "Object"
    [] nul /\ Enum(x) /\ k \subseteq {"string", "number"} /\ ~(k = {"string"} /\ p.string /\ AllTruthy(x)) -> If(p.nenum, "NullableEnum")
    [] k = {"string"} -> IF nul THEN If(p.nstring \/ (p.string /\ AllTruthy(x)), "NullableString") ELSE If(p.string, "String")
    [] k = {"number"} -> IF nul THEN If(p.nnumber \/ (p.number /\ AllTruthy(x)), "NullableNumber") ELSE If(p.number, "Number")
    [] k = {"bigint"} -> IF nul THEN If(p.nnumber, "NullableNumber") ELSE If(p.number, "Number")
    [] OTHER -> "Other"
AllOpts == [any : BOOLEAN, nboolean : BOOLEAN, nenum : BOOLEAN, nnumber : BOOLEAN, nobject : BOOLEAN, nstring : BOOLEAN, number : BOOLEAN, string : BOOLEAN]
SomeOpts == RandomSubset(14, AllOpts)
Small == kSubset(1, Parts) \cup kSubset(2, Parts)
Large == Small \cup RandomSubset(700, kSubset(3, Parts)) \cup RandomSubset(300, kSubset(4, Parts))
NoBig(x) == ~({"bigint", "number"} \subseteq Kinds(Reduce(x)))   \* what becomes of number | bigint is not said
InitT == t \in {x \in Sets : NoBig(x)} /\ o \in Opts /\ e = 0 /\ d = 0
SpecT == InitT /\ [][FALSE]_vars
\* allowing more never brings a report; a type none of whose parts is allowed alone is never allowed
Looser == \A f \in DOMAIN o : Verdict(t, o) = "ok" => Verdict(t, [o EXCEPT ![f] = TRUE]) = "ok"
EmitT == PrintT(ToJson([t |-> t, o |-> o, v |-> Verdict(t, o)]))

\* ---- conditions: values are N a number, Z zero, F false, T true
Leaf(k) == [k |-> k]
Leaves == {"n", "b", "cmp", "zero"}
Bin(k, x, y) == [k |-> k, x |-> x, y |-> y]
Un(k, x) == [k |-> k, x |-> x]
Norm(x) == IF "N" \in x THEN x \ {"Z"} ELSE x
Falsy(x) == (x \cap {"F", "Z"}) \cup (IF "N" \in x THEN {"Z"} ELSE {})
RECURSIVE T(_)
T(q) == CASE q.k = "n" -> {"N"} [] q.k = "zero" -> {"Z"} [] q.k \in {"b", "cmp"} -> {"T", "F"}
          [] q.k \in {"paren", "assign"} -> T(q.x)
          [] q.k = "eq" -> {"T", "F"}
          [] q.k = "not" -> IF T(q.x) \subseteq {"F", "Z"} THEN {"T"} ELSE IF Falsy(T(q.x)) = {} THEN {"F"} ELSE {"T", "F"}
          [] q.k = "call" -> {"N"}
          [] q.k = "comma" -> T(q.y)
          [] q.k = "qq" -> T(q.x)
          [] q.k = "tern" -> Norm(T(q.x) \cup T(q.y))
          [] q.k = "and" -> LET l == T(q.x) IN IF l \subseteq {"F", "Z"} THEN l ELSE Norm(Falsy(l) \cup T(q.y))
          [] q.k = "or" -> LET l == T(q.x) IN IF Falsy(l) = {} THEN l ELSE Norm((l \ {"F", "Z"}) \cup T(q.y))
Ask(x) == IF x \subseteq {"T", "F"} THEN {} ELSE {[at |-> <<>>, m |-> IF x \subseteq {"N", "Z"} THEN "Number" ELSE "Other"]}
At(i, s) == {[r EXCEPT !.at = <<i>> \o @] : r \in s}
RECURSIVE C(_, _)
C(q, cond) ==
  LET self == IF cond THEN Ask(T(q)) ELSE {} IN
  CASE q.k \in Leaves -> self
    [] q.k = "paren" -> At(1, C(q.x, cond))
    [] q.k = "not" -> At(1, C(q.x, TRUE))
    [] q.k \in {"and", "or"} -> At(1, C(q.x, TRUE)) \cup At(2, C(q.y, cond))
    [] q.k \in {"qq", "comma", "eq"} -> self \cup At(1, C(q.x, FALSE)) \cup At(2, C(q.y, FALSE))
    [] q.k = "tern" -> self \cup At(1, C(q.x, FALSE)) \cup At(2, C(q.y, FALSE)) \cup At(3, C(q.c, TRUE))
    [] q.k \in {"call", "assign"} -> self \cup At(1, C(q.x, FALSE))
Tern(c, x, y) == [k |-> "tern", c |-> c, x |-> x, y |-> y]
Side == {Leaf("n"), Leaf("b")} \cup {Bin(k, Leaf(l), Leaf(m)) : k \in {"and", "or"}, l \in {"n", "b"}, m \in {"n", "b"}}
Succ(q) == {Un(k, q) : k \in {"paren", "not", "call", "assign"}} \cup {Bin(k, q, b) : k \in {"and", "or", "qq", "comma", "eq"}, b \in Side} \cup {Bin(k, b, q) : k \in {"and", "or", "qq", "comma", "eq"}, b \in Side}
           \cup {Tern(q, a, b) : a \in {Leaf("n")}, b \in Side} \cup {Tern(Leaf("b"), q, Leaf("n")), Tern(Leaf("n"), Leaf("b"), q)}
InitC == t = 0 /\ o \in 1..Walks /\ e \in (IF Walks = 1 THEN {Leaf(k) : k \in Leaves} ELSE {Leaf(RandomElement(Leaves))}) /\ d = 0
NextC == d < Depth /\ d' = d + 1 /\ UNCHANGED <<t, o>> /\ (IF Walks = 1 THEN \E q \in Succ(e) : e' = q ELSE e' = RandomElement(Succ(e)))
SpecC == InitC /\ [][NextC]_vars
\* a condition asks for all a value position does; not asks of its operand; parentheses say nothing
Covers == C(e, FALSE) \subseteq C(e, TRUE)
Not == C(Un("not", e), FALSE) = At(1, C(e, TRUE)) /\ C(Un("not", e), FALSE) = C(Un("not", e), TRUE)
Parens == \A b \in BOOLEAN : C(Un("paren", e), b) = At(1, C(e, b))
EmitC == PrintT(ToJson([e |-> e, cond |-> C(e, TRUE), value |-> C(e, FALSE)]))
=============================================================================
