------------------------------- MODULE Arrays -------------------------------
\* What is done to a value that may be an array: the first element of what a filter leaves is taken, it is sorted without saying how, an element is deleted, its keys are gone through.
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Wraps
VARIABLES type, op, shape, term
vars == <<type, op, shape, term>>
ArrayKinds == {"numbers", "strings", "readonly", "tuple", "pair"}
Nullish == {"null", "undefined"}
Kinds == ArrayKinds \cup Nullish \cup {"like", "record", "map"}
Types == {t \in SUBSET Kinds : Cardinality(t) \in 1..2 /\ ~(t \subseteq Nullish)}
\* ways to write a filter and to get at an element of it
Shapes == {"plain", "bracket", "paren", "comma", "both", "one", "optindex", "other", "stored"}
Filters == {"plain", "bracket", "paren", "comma", "both"}
\* values of index expressions
Numbers == {"0", "-0", "1", "-1", "0.5", "-0.5", "NaN", "Infinity", "-Infinity"}
Literals == {<<"number", "0">>, <<"number", "1">>, <<"number", "0.5">>, <<"number", "NaN">>, <<"number", "Infinity">>, <<"string", "0">>, <<"string", "">>, <<"string", "00">>, <<"string", "-0">>, <<"string", "0x0">>, <<"string", "x">>, <<"string", "1">>, <<"string", " 0 ">>, <<"string", "0b0">>, <<"string", "0O0">>, <<"string", "0b1">>, <<"string", "0o1">>, <<"string", "0x">>, <<"string", "  ">>, <<"string", "-Infinity">>, <<"string", "+0">>,
             <<"bigint", "0">>, <<"bigint", "1">>, <<"boolean", "true">>, <<"boolean", "false">>, <<"null", "null">>, <<"undefined", "undefined">>}
Neg(n) == CASE n = "0" -> "-0" [] n = "-0" -> "0" [] n = "1" -> "-1" [] n = "-1" -> "1" [] n = "0.5" -> "-0.5" [] n = "-0.5" -> "0.5" [] n = "NaN" -> "NaN" [] n = "Infinity" -> "-Infinity" [] n = "-Infinity" -> "Infinity"
ToNumber(v) == CASE v[1] = "number" -> v[2] [] v[1] = "boolean" -> (IF v[2] = "true" THEN "1" ELSE "0") [] v[1] = "null" -> "0" [] v[1] = "undefined" -> "NaN"
                 [] v[1] = "string" -> CASE v[2] \in {"", "0", "00", "0x0", " 0 ", "0b0", "0O0", "  ", "+0"} -> "0" [] v[2] = "-0" -> "-0" [] v[2] \in {"1", "0b1", "0o1"} -> "1" [] v[2] = "-Infinity" -> "-Infinity" [] v[2] \in {"x", "0x"} -> "NaN"
Wrap(w, v) == CASE w = "minus" -> (IF v[1] = "bigint" THEN <<"bigint", IF v[2] = "0" THEN "0" ELSE IF v[2] = "1" THEN "-1" ELSE "1">> ELSE <<"number", Neg(ToNumber(v))>>)
                [] w = "plus" -> <<"number", ToNumber(v)>>
                [] OTHER -> v
ValueOf(t) == LET G[i \in 0..Len(t.wraps)] == IF i = 0 THEN t.lit ELSE Wrap(t.wraps[i], G[i - 1]) IN G[Len(t.wraps)]
\* x[v] looks for a property of this name
Key(v) == IF v = <<"number", "-0">> THEN "0" ELSE v[2]
\* elements at a place, "none" where there is none
Get(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE "none"
ByKey(s, v) == CASE Key(v) = "0" -> Get(s, 1) [] Key(v) = "1" -> Get(s, 2) [] OTHER -> "none"
ByAt(s, v) == CASE ToNumber(v) \in {"0", "-0", "0.5", "-0.5", "NaN"} -> Get(s, 1) [] ToNumber(v) = "1" -> Get(s, 2) [] ToNumber(v) = "-1" -> Get(s, Len(s)) [] OTHER -> "none"
Subjects == {s \in UNION {[1..n -> {"p", "q", "r"}] : n \in 0..3} : \A i, j \in 1..Len(s) : i # j => s[i] # s[j]}
First(s, P) == Get(SelectSeq(s, LAMBDA e : e \in P), 1)
Taken(s, P, v) == LET f == SelectSeq(s, LAMBDA e : e \in P) IN IF op = "key" THEN ByKey(f, v) ELSE ByAt(f, v)
Zero == IF op = "key" THEN Key(ValueOf(term)) = "0" ELSE ToNumber(ValueOf(term)) \in {"0", "-0", "0.5", "-0.5", "NaN"}
NoTerm == [lit |-> <<"number", "0">>, wraps |-> <<>>]
Init == \/ type \in Types /\ op \in {"sort", "sortstrings", "delete", "forin"} /\ shape = "plain" /\ term = NoTerm
        \/ type \in Types /\ op \in {"key", "at"} /\ shape \in Shapes /\ term = NoTerm
        \/ type = {"numbers"} /\ op \in {"key", "at"} /\ shape \in {"plain", "both"} /\ term \in {[lit |-> l, wraps |-> <<>>] : l \in Literals} /\ ~(op = "at" /\ term.lit[1] = "bigint")
\* the index is written in a more involved way
Next == op \in {"key", "at"} /\ type = {"numbers"} /\ shape \in {"plain", "both"} /\ Len(term.wraps) < Wraps
        /\ \E w \in {"minus", "plus", "paren", "const", "as", "bang"} : ~(w = "plus" /\ term.lit[1] = "bigint" ) /\ term' = [term EXCEPT !.wraps = Append(@, w)]
        /\ UNCHANGED <<type, op, shape>>
Spec == Init /\ [][Next]_vars
Reported == CASE op \in {"key", "at"} -> shape \in Filters /\ Zero /\ type \subseteq (ArrayKinds \cup Nullish)
              [] op = "sort" -> type \subseteq ArrayKinds
              [] op = "sortstrings" -> type \subseteq ArrayKinds /\ type \notin {{"strings"}, {"pair"}}
              [] op = "delete" -> type \subseteq ArrayKinds
              [] op = "forin" -> type \cap (ArrayKinds \cup {"like"}) # {}
\* find finds what is taken, exactly when the place is the first
Same == op \in {"key", "at"} => (Zero <=> \A s \in Subjects : \A P \in SUBSET {"p", "q", "r"} : Taken(s, P, ValueOf(term)) = First(s, P))
Emit == PrintT(ToJson([type |-> type, op |-> op, shape |-> shape, lit |-> term.lit, wraps |-> term.wraps, zero |-> IF op \in {"key", "at"} THEN Zero ELSE FALSE, rep |-> Reported, value |-> ValueOf(term)]))
=============================================================================
