---------------------------- MODULE Conversions ----------------------------
\* A value of one of several types goes through conversions to primitive types, one after another; a conversion is needless if it is the identity on everything its operand can be.
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES type, chain
vars == <<type, chain>>
Convs == {"String", "toString", "plusEmpty", "emptyPlus", "Number", "plus", "tildes", "Boolean", "bangs", "BigInt"}
\* members of types: string, string literals, number, 32 bit integer, fraction and large integer literals, boolean, bigint, null, undefined
Members == {"S", "L", "M", "I", "F", "W", "B", "G", "N", "U"}
Kind(m) == CASE m \in {"S", "L"} -> "string" [] m \in {"M", "I", "F", "W"} -> "number" [] m = "B" -> "boolean" [] m = "G" -> "bigint" [] m = "N" -> "null" [] m = "U" -> "undefined"
Values(m) == CASE m = "S" -> {<<"string", "">>, <<"string", "7">>, <<"string", "x">>} [] m = "L" -> {<<"string", "x">>}
               [] m = "M" -> {<<"number", "0">>, <<"number", "7">>, <<"number", "1.5">>, <<"number", "4294967297">>, <<"number", "NaN">>}
               [] m = "I" -> {<<"number", "0">>, <<"number", "7">>} [] m = "F" -> {<<"number", "1.5">>} [] m = "W" -> {<<"number", "4294967297">>}
               [] m = "B" -> {<<"boolean", "true">>, <<"boolean", "false">>} [] m = "G" -> {<<"bigint", "0">>, <<"bigint", "7">>} [] m = "N" -> {<<"null", "null">>} [] m = "U" -> {<<"undefined", "undefined">>}
Target(c) == CASE c \in {"String", "toString", "plusEmpty", "emptyPlus"} -> "string" [] c \in {"Number", "plus", "tildes"} -> "number" [] c \in {"Boolean", "bangs"} -> "boolean" [] c = "BigInt" -> "bigint"
Result(c) == CASE Target(c) = "string" -> "S" [] Target(c) = "number" -> "M" [] Target(c) = "boolean" -> "B" [] Target(c) = "bigint" -> "G"
\* JavaScript's conversions; "throws" is no value
Truth(v) == IF v[1] = "string" THEN v[2] # "" ELSE v[2] \notin {"NaN", "false", "null", "undefined"} /\ ~(v[1] \in {"number", "bigint"} /\ v[2] = "0")
Num(v) == CASE v[1] = "number" -> v[2] [] v[1] = "string" -> (IF v[2] = "" THEN "0" ELSE IF v[2] \in {"0", "1", "7", "1.5", "4294967297"} THEN v[2] ELSE "NaN")
            [] v[1] = "boolean" -> (IF v[2] = "true" THEN "1" ELSE "0") [] v[1] = "bigint" -> v[2] [] v[1] = "null" -> "0" [] v[1] = "undefined" -> "NaN"
Int32(n) == CASE n = "1.5" -> "1" [] n = "4294967297" -> "1" [] n = "NaN" -> "0" [] OTHER -> n
Conv(c, v) ==
  CASE c \in {"String", "plusEmpty", "emptyPlus"} -> <<"string", v[2]>>
    [] c = "toString" -> IF v[1] \in {"null", "undefined"} THEN <<"throws", "TypeError">> ELSE <<"string", v[2]>>
    [] c = "Number" -> <<"number", Num(v)>>
    [] c = "plus" -> IF v[1] = "bigint" THEN <<"throws", "TypeError">> ELSE <<"number", Num(v)>>
    [] c = "tildes" -> IF v[1] = "bigint" THEN v ELSE <<"number", Int32(Num(v))>>
    [] c \in {"Boolean", "bangs"} -> <<"boolean", IF Truth(v) THEN "true" ELSE "false">>
    [] c = "BigInt" -> IF v[1] \in {"null", "undefined"} THEN <<"throws", "TypeError">> ELSE IF v[1] = "string" /\ v[2] \notin {"", "0", "1", "7", "4294967297"} THEN <<"throws", "SyntaxError">> ELSE IF v[1] = "number" /\ v[2] \in {"1.5", "NaN"} THEN <<"throws", "RangeError">> ELSE <<"bigint", Num(v)>>
\* what the operand of the i-th conversion can be
Operand(i) == IF i = 1 THEN type ELSE {Result(chain[i - 1])}
Needless(c, t) == IF c = "tildes" THEN t \subseteq {"I"} ELSE \A m \in t : Kind(m) = Target(c)
Init == type \in {t \in SUBSET Members : Cardinality(t) \in 1..2} /\ chain = <<>>
Next == Len(chain) < Depth /\ (IF Len(chain) = 0 THEN TRUE ELSE Cardinality(type) = 1 \/ chain[1] \in {"String", "plus", "bangs"}) /\ \E c \in Convs : ~(c = "tildes" /\ "G" \in Operand(Len(chain) + 1)) /\ ~(c = "toString" /\ Operand(Len(chain) + 1) \cap {"N", "U"} # {}) /\ chain' = Append(chain, c) /\ UNCHANGED type
Spec == Init /\ [][Next]_vars
Reported == [i \in 1..Len(chain) |-> Needless(chain[i], Operand(i))]
\* needless conversions are the identities; ~~ of a bigint is left out, it is one that gives no number
Identity == \A i \in 1..Len(chain) : (Needless(chain[i], Operand(i)) <=> (\A m \in Operand(i) : \A v \in Values(m) : Conv(chain[i], v) = v))
RECURSIVE Run(_, _)
Run(n, v) == IF n = 0 \/ v[1] = "throws" THEN v ELSE LET u == Run(n - 1, v) IN IF u[1] = "throws" THEN u ELSE Conv(chain[n], u)
Without(k, v) == LET G[n \in 0..Len(chain)] == IF n = 0 THEN v ELSE LET u == G[n - 1] IN IF u[1] = "throws" \/ n = k THEN u ELSE Conv(chain[n], u) IN G[Len(chain)]
\* taking one out changes nothing
Removable == \A k \in 1..Len(chain) : Reported[k] => \A m \in type : \A v \in Values(m) : Without(k, v) = Run(Len(chain), v)
Emit == chain # <<>> => PrintT(ToJson([type |-> type, chain |-> chain, rep |-> Reported, table |-> {<<v, Run(Len(chain), v)>> : v \in UNION {Values(m) : m \in type}}]))
=============================================================================
