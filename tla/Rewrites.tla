----------------------------- MODULE Rewrites -----------------------------
\* Questions asked of strings by index arithmetic or patterns, and the methods that ask the same: startsWith, endsWith, includes.
\* A question is a form, a needle and an offset (0: the question really is one of the three); subjects are all short strings.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Needle, Subject
VARIABLES form, x, off, neg
vars == <<form, x, off, neg>>
Chars == {"a", "b"}
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE LET q == Strings(n - 1) IN q \cup {Append(t, d) : t \in {u \in q : Len(u) = n - 1}, d \in Chars}
Subjects == Strings(Subject)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* JavaScript's string functions, positions from 0
Sub(s, i, j) == SubSeq(s, i + 1, j)
At(s, i) == IF 0 <= i /\ i < Len(s) THEN <<s[i + 1]>> ELSE <<"none">>
CharAt(s, i) == IF 0 <= i /\ i < Len(s) THEN <<s[i + 1]>> ELSE <<>>
Norm(s, i) == IF i < 0 THEN Max(Len(s) + i, 0) ELSE Min(i, Len(s))
Slice(s, i, j) == LET a == Norm(s, i) b == Norm(s, j) IN IF a < b THEN Sub(s, a, b) ELSE <<>>
Clip(s, i) == Min(Max(i, 0), Len(s))
Substring(s, i, j) == LET a == Clip(s, i) b == Clip(s, j) IN IF a < b THEN Sub(s, a, b) ELSE Sub(s, b, a)
Hits(s, t) == {i \in 0..(Len(s) - Len(t)) : Sub(s, i, i + Len(t)) = t}
IndexOf(s, t) == IF Hits(s, t) = {} THEN -1 ELSE CHOOSE i \in Hits(s, t) : \A j \in Hits(s, t) : i <= j
LastIndexOf(s, t) == IF Hits(s, t) = {} THEN -1 ELSE CHOOSE i \in Hits(s, t) : \A j \in Hits(s, t) : j <= i
StartsWith(s, t) == Len(t) <= Len(s) /\ Sub(s, 0, Len(t)) = t
EndsWith(s, t) == Len(t) <= Len(s) /\ Sub(s, Len(s) - Len(t), Len(s)) = t
Includes(s, t) == Hits(s, t) # {}
Starts == {"index0", "charAt0", "indexOf0", "slice0", "substring0", "matchStart", "testStart"}
Ends == {"indexEnd", "charAtEnd", "sliceNeg", "sliceLen", "sliceLenLen", "substringLen", "matchEnd", "testEnd", "lastIndexOf"}
Parts == {"indexOfNeg", "indexOfSign", "testPart"}
Forms == Starts \cup Ends \cup Parts
Single == {"index0", "charAt0", "indexEnd", "charAtEnd"}
Regex == {"matchStart", "matchEnd", "testStart", "testEnd", "testPart"}
\* off moves the number in the question by one (in a pattern: it is anchored on both sides)
Asks(f, t, o, s) ==
  LET n == Len(t) l == Len(s) IN
  CASE f = "index0" -> At(s, o) = t
    [] f = "charAt0" -> CharAt(s, o) = t
    [] f = "indexOf0" -> IndexOf(s, t) = o
    [] f = "slice0" -> Slice(s, o, n) = t
    [] f = "substring0" -> Substring(s, o, n) = t
    [] f = "indexEnd" -> At(s, l - 1 - o) = t
    [] f = "charAtEnd" -> CharAt(s, l - 1 - o) = t
    [] f = "sliceNeg" -> Slice(s, -(n + o), l) = t
    [] f = "sliceLen" -> Slice(s, l - n - o, l) = t
    [] f = "sliceLenLen" -> Slice(s, l - n, l - o) = t
    [] f = "substringLen" -> Substring(s, l - n - o, l) = t
    [] f = "lastIndexOf" -> LastIndexOf(s, t) = l - n - o
    [] f = "indexOfNeg" -> IndexOf(s, t) # o - 1          \* !== -1, > -1
    [] f = "indexOfSign" -> IndexOf(s, t) >= o            \* >= 0
    [] f \in {"matchStart", "testStart", "matchEnd", "testEnd"} /\ o = 1 -> s = t
    [] f \in {"matchStart", "testStart"} -> StartsWith(s, t)
    [] f \in {"matchEnd", "testEnd"} -> EndsWith(s, t)
    [] f = "testPart" -> IF o = 1 THEN s = t ELSE Includes(s, t)
Method(f) == IF f \in Starts THEN "startsWith" ELSE IF f \in Ends THEN "endsWith" ELSE "includes"
Means(m, t, s) == CASE m = "startsWith" -> StartsWith(s, t) [] m = "endsWith" -> EndsWith(s, t) [] m = "includes" -> Includes(s, t)
Init == form \in Forms /\ x \in {<<d>> : d \in Chars} /\ off = 0 /\ neg = FALSE
Longer == Len(x) < Needle /\ form \notin Single /\ \E d \in Chars : x' = Append(x, d) /\ UNCHANGED <<form, off, neg>>
Shift == off = 0 /\ off' = 1 /\ UNCHANGED <<form, x, neg>>
Negate == ~neg /\ form \notin {"testStart", "testEnd", "testPart"} /\ neg' = TRUE /\ UNCHANGED <<form, x, off>>
Spec == Init /\ [][Longer \/ Shift \/ Negate]_vars
Table == {s \in Subjects : Asks(form, x, off, s) # neg}
\* the rewriting is right, and where the number is off by one there is no rewriting
\* (a needle that is one longer than the subject is not found, at -1)
Same == off = 0 => \A s \in Subjects : ~(form = "lastIndexOf" /\ Len(s) = Len(x) - 1) => Asks(form, x, off, s) = Means(Method(form), x, s)
Needed == off = 1 => \A m \in {"startsWith", "endsWith", "includes"} : \E s \in Subjects : Asks(form, x, off, s) # Means(m, x, s)
\* what begins or ends with a string contains it
Order == \A s \in Subjects : StartsWith(s, x) \/ EndsWith(s, x) => Includes(s, x)
Emit == PrintT(ToJson([form |-> form, x |-> x, off |-> off, neg |-> neg, method |-> Method(form), yes |-> Table]))
=============================================================================
