-------------------------------- MODULE Enums --------------------------------
(* no-mixed-enums and no-unsafe-enum-comparison.  An enum is written declaration by declaration and member by member; two types that are      *)
(* compared are gathered part by part.  At each moment each rule has a verdict.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode,      \* "mixed" or "cmp"
          Members, Parts, Walks
VARIABLES ds,        \* mixed: the declarations of one enum, each a sequence of member kinds: N number, S string, X neither is known
          l, r, w    \* cmp: the parts of the two types
vars == <<ds, l, r, w>>
\* ---- the kind established first is that of the first member of the enum; a declaration is reported at its first member of the other kind
Total == LET F[i \in 0..Len(ds)] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(ds[i]) IN F[Len(ds)]
Filled == {i \in 1..Len(ds) : ds[i] # <<>>}
Desired == IF Filled = {} THEN "X" ELSE ds[CHOOSE i \in Filled : \A j \in Filled : i <= j][1]
Odd(d) == LET bad == {i \in 1..Len(d) : d[i] # Desired} IN
          IF Desired = "X" \/ bad = {} THEN 0 ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN IF d[i] = "X" THEN 0 ELSE i
Verdict == [i \in 1..Len(ds) |-> Odd(ds[i])]
\* ---- comparisons
Atoms == {"NA", "NB", "MC", "N2A", "SA", "SB", "S2A", "MA", "MS", "number", "zero", "one", "string", "sa", "sz", "any", "unknown", "obj", "null", "undefined", "true", "bigint", "brand", "sbrand", "tmpl"}
EnumOf(a) == CASE a \in {"NA", "NB"} -> "EN" [] a = "N2A" -> "EN2" [] a \in {"SA", "SB"} -> "ES" [] a = "S2A" -> "ES2" [] a \in {"MA", "MS"} -> "EM" [] a = "MC" -> "EC" [] OTHER -> ""
NumEnum == {"NA", "NB", "N2A", "MA", "MC"}
StrEnum == {"SA", "SB", "S2A", "MS"}
NumLike == NumEnum \cup {"number", "zero", "one", "brand"}
StrLike == StrEnum \cup {"string", "sa", "sz", "tmpl", "sbrand"}
Value(a) == CASE a \in {"NA", "N2A", "MA", "zero", "MC"} -> "0" [] a \in {"NB", "one"} -> "1" [] a \in {"SA", "S2A", "MS", "sa"} -> "a" [] a = "SB" -> "b" [] a = "sz" -> "z" [] OTHER -> "-"
\* what a union of such parts really consists of
Reduce(s) == IF "any" \in s THEN {"any"} ELSE IF "unknown" \in s THEN {"unknown"}
             ELSE s \ ((IF "number" \in s THEN NumLike \ {"number", "brand"} ELSE {}) \cup (IF "string" \in s THEN StrLike \ {"string", "sbrand"} ELSE {}))
Enums(s) == {EnumOf(a) : a \in s} \ {""}
Against(s, t) == (s \cap NumEnum # {} /\ t \subseteq NumLike) \/ (s \cap StrEnum # {} /\ t \subseteq StrLike)
Bad(a, b) == LET s == Reduce(a)  t == Reduce(b) IN
             Enums(s) \cap Enums(t) = {} /\ s \cap t = {} /\ (Against(s, t) \/ Against(t, s))
\* the enum members a literal compared with the other side could be replaced by
Offers(a, b) == LET s == Reduce(a) IN IF Cardinality(b) = 1 /\ (\A x \in b : x \in {"zero", "one", "sa", "sz"}) THEN {x \in s : EnumOf(x) # "" /\ \E y \in b : Value(x) = Value(y)} ELSE {}

R(s) == RandomElement(s)
Init == /\ w \in 1..Walks /\ l = {} /\ r = {} /\ ds = (IF Mode = "mixed" THEN <<<<>>>> ELSE <<>>)
Kinds == {"N", "S", "X"}
Put(k) == ds' = [ds EXCEPT ![Len(ds)] = Append(@, k)]
Mixed == /\ Mode = "mixed" /\ UNCHANGED <<l, r, w>>
         /\ IF Walks = 1 THEN (Total < Members /\ \E k \in Kinds : Put(k)) \/ (Len(ds) < 4 /\ ds' = Append(ds, <<>>))
            ELSE Total < Members /\ \E k \in {R({"N", "N", "S", "X", "last", "last2", "last3", "new", "new2"})} :
                 IF k \in {"new", "new2"} /\ Len(ds) < 4 THEN ds' = Append(ds, <<>>) ELSE Put(IF k \in Kinds THEN k ELSE IF ds[Len(ds)] = <<>> THEN R({"N", "S"}) ELSE ds[Len(ds)][1])
Cmp == /\ Mode = "cmp" /\ UNCHANGED <<ds, w>> /\ Cardinality(l) + Cardinality(r) < Parts
       /\ IF Walks = 1 THEN \E a \in Atoms : \/ a \notin l /\ r = {} /\ l' = l \cup {a} /\ r' = r
                                             \/ l # {} /\ a \notin r /\ r' = r \cup {a} /\ l' = l
          ELSE \E a \in {R(Atoms \ l)}, b \in {R(Atoms \ r)}, k \in {R(1..4)} : l' = (IF k \in {1, 2} THEN l \cup {a} ELSE l) /\ r' = (IF k \in {1, 3} \/ r = {} THEN r \cup {b} ELSE r)
Next == Mixed \/ Cmp
Spec == Init /\ [][Next]_vars
\* a later declaration never changes the verdict on an earlier one with members, and a comparison has no direction
Kept == [][Mode = "mixed" => \A i \in 1..Len(ds) : Verdict[i] # 0 => Verdict'[i] = Verdict[i]]_vars
Symmetric == Mode = "cmp" => Bad(l, r) = Bad(r, l)
Own == Mode = "cmp" => ~Bad(l, l)
NoEnums == Mode = "cmp" /\ Bad(l, r) => Enums(l) \cup Enums(r) # {}
\* replacing the literal by the member settles the matter
Settled == Mode = "cmp" => \A x \in Offers(l, r) : ~Bad(l, {x})
Emit == IF Mode = "mixed" THEN Total > 0 => PrintT(ToJson([ds |-> ds, v |-> Verdict]))
        ELSE (l # {} /\ r # {}) => PrintT(ToJson([l |-> l, r |-> r, bad |-> Bad(l, r), offl |-> Offers(r, l), offr |-> Offers(l, r)]))
=============================================================================
