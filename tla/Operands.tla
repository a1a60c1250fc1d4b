------------------------------ MODULE Operands ------------------------------
(* restrict-plus-operands, restrict-template-expressions and no-unsafe-unary-minus: the types of the operands are gathered part by part,    *)
(* under options; at each moment each operator has a verdict.                                                                               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, Randomization
CONSTANTS Mode, POpts, TOpts
VARIABLES l, r, op, ot, asked
vars == <<l, r, op, ot, asked>>
Parts == {"string", "word", "tmpl", "S", "number", "one", "E", "bigint", "bigone", "boolean", "true", "null", "undefined", "symbol", "object", "date", "regexp", "error", "myerror", "arrstr", "arrobj", "arrnum", "arr2", "tup", "fn", "box", "brandstring", "any", "unknown", "never"}
Reduce(x) == IF "any" \in x THEN {"any"} ELSE IF "unknown" \in x THEN {"unknown"}
  ELSE LET y == ((x \ (IF "string" \in x THEN {"word", "tmpl", "S"} ELSE {})) \ (IF "number" \in x THEN {"one", "E"} ELSE {})) \ ((IF "bigint" \in x THEN {"bigone"} ELSE {}) \cup (IF "boolean" \in x THEN {"true"} ELSE {}))
       IN IF y = {"never"} THEN y ELSE y \ {"never"}
Kind(a) == CASE a \in {"string", "word", "tmpl", "S"} -> "string" [] a \in {"number", "one", "E"} -> "number" [] a \in {"bigint", "bigone"} -> "bigint" [] a \in {"boolean", "true"} -> "boolean"
             [] a \in {"null", "undefined"} -> "nullish" [] a \in {"symbol", "never", "unknown"} -> "bad" [] a \in {"any", "regexp", "brandstring"} -> a [] OTHER -> "object"
\* ---- plus
Ok(a, other, o) == LET k == Kind(a) IN
  CASE k \in {"string", "number", "bigint", "brandstring"} -> TRUE [] k = "boolean" -> o.boolean [] k = "nullish" -> o.nullish [] k = "any" -> o.any
    [] k = "regexp" -> o.regexp /\ \A b \in other : Kind(b) # "number"
    [] OTHER -> FALSE
Bad(x, other, o) == \E a \in x : ~Ok(a, other, o)
Has(x, k) == \E a \in x : Kind(a) = k
Mix(x, y, o) == ~o.both /\ Has(x, "string") /\ (Has(y, "number") \/ Has(y, "bigint"))
Big(x, y) == Has(x, "number") /\ Has(y, "bigint")
Plus(x0, y0, o) == LET x == Reduce(x0) y == Reduce(y0) IN
  IF Bad(x, y, o) \/ Bad(y, x, o) THEN (IF Bad(x, y, o) THEN {"left"} ELSE {}) \cup (IF Bad(y, x, o) THEN {"right"} ELSE {})
  ELSE CASE Mix(x, y, o) -> {"mismatched"} [] Big(x, y) -> {"bigintAndNumber"} [] Mix(y, x, o) -> {"mismatched"} [] Big(y, x) -> {"bigintAndNumber"} [] OTHER -> {}
\* ---- template literals
Elem(a) == CASE a = "arrstr" -> {"string"} [] a = "arrobj" -> {"object"} [] a = "arrnum" -> {"number", "undefined"} [] a = "arr2" -> {"arrstr"} [] a = "tup" -> {"number", "regexp"}
Arrays == {"arrstr", "arrobj", "arrnum", "arr2", "tup"}
RECURSIVE Tok(_, _)
Tok(x, o) == \A a \in x : LET k == Kind(a) IN
  CASE k \in {"string", "brandstring"} -> TRUE [] k \in {"number", "bigint"} -> o.number [] k = "boolean" -> o.boolean [] k = "nullish" -> o.nullish [] k = "any" -> o.any [] a = "never" -> o.never
    [] k = "regexp" -> o.regexp [] a \in {"error", "myerror"} -> o.allow = 0 [] a = "box" -> o.allow = 1
    [] a \in Arrays -> o.array /\ Tok(Elem(a), o)
    [] OTHER -> FALSE
\* ---- unary minus
Minus(x) == \A a \in Reduce(x) : Kind(a) \in {"number", "bigint", "any"} \/ a = "never"

AllP == [boolean : BOOLEAN, nullish : BOOLEAN, any : BOOLEAN, regexp : BOOLEAN, both : BOOLEAN]
AllT == [number : BOOLEAN, boolean : BOOLEAN, nullish : BOOLEAN, any : BOOLEAN, never : BOOLEAN, regexp : BOOLEAN, array : BOOLEAN, allow : 0..2]
SomeP == RandomSubset(8, AllP)
OneT == {[number |-> TRUE, boolean |-> TRUE, nullish |-> TRUE, any |-> TRUE, never |-> FALSE, regexp |-> TRUE, array |-> FALSE, allow |-> 0]}
OneP == {[boolean |-> TRUE, nullish |-> TRUE, any |-> TRUE, regexp |-> TRUE, both |-> TRUE]}
SomeT == RandomSubset(16, AllT)
One == kSubset(1, Parts)
\* with a parameter, so that only what is asked for is computed
Pairs(mode) ==
  LET Two == One \cup kSubset(2, Parts)  Some3 == RandomSubset(60, kSubset(3, Parts)) IN
  CASE mode = "singles" -> One \X One
    [] mode = "mixed" -> {<<RandomElement(Two), RandomElement(Two)>> : i \in 1..3000} \cup {<<RandomElement(Some3), RandomElement(Two)>> : i \in 1..300}
    [] mode = "alone" -> {<<x, {"string"}>> : x \in Two \cup RandomSubset(1200, kSubset(3, Parts)) \cup {RandomElement(Two) \cup RandomElement(Two) : i \in 1..300}}
Init == (\E p \in Pairs(Mode) : l = p[1] /\ r = p[2]) /\ op \in {[boolean |-> FALSE, nullish |-> FALSE, any |-> FALSE, regexp |-> FALSE, both |-> FALSE]} /\ ot \in OneT /\ asked = FALSE
Ask == ~asked /\ asked' = TRUE /\ op' \in POpts /\ ot' \in TOpts /\ UNCHANGED <<l, r>>
Spec == Init /\ [][Ask]_vars
\* plus is judged alike from both sides; allowing more never brings a report; a union is no better than its members
Symmetric == asked => (Plus(l, r, op) = {IF v = "left" THEN "right" ELSE IF v = "right" THEN "left" ELSE v : v \in Plus(r, l, op)}
             \/ {Plus(l, r, op), Plus(r, l, op)} = {{"mismatched"}, {"bigintAndNumber"}})
Looser == asked =>
          /\ \A f \in DOMAIN op : Plus(l, r, op) = {} => Plus(l, r, [op EXCEPT ![f] = TRUE]) = {}
          /\ \A f \in DOMAIN ot \ {"allow"} : Tok(Reduce(l), ot) => Tok(Reduce(l), [ot EXCEPT ![f] = TRUE])
Members == asked => (Tok(Reduce(l), ot) => \A a \in Reduce(l) : Tok({a}, ot))
Emit == asked => PrintT(ToJson([l |-> l, r |-> r, op |-> op, ot |-> ot, plus |-> Plus(l, r, op), tok |-> Tok(Reduce(l), ot), minus |-> Minus(l)]))
=============================================================================
