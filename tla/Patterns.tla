------------------------------ MODULE Patterns ------------------------------
(* Assignment patterns as texts: every shape of destructuring target up to a nesting depth, in every context that assigns. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Wide      \* also two-element literals at the outer level

Value == {"1", "[x]", "{ k: [x] }", "([w] = q)", "() => [x]", "f([x], { y })"}
Leaf == {"a", "o.p", "o[[x][0]]"}
Default == {"[x]", "{ k: 1 }", "([w] = q)", "2"}
Join(p, q) == p \o ", " \o q
Elems(T) == {""} \cup T \cup {t \o " = " \o d : t \in T, d \in Default} \cup {"..." \o t : t \in T}
Keys == {"k", "'s'", "0", "[{ z: [x] }.z[0]]"}
Props(T) == {"a", "a = [x]", "a = { k: [x] }", "...o.p"} \cup {k \o ": " \o t : k \in Keys, t \in T}
            \cup {k \o ": " \o t \o " = " \o d : k \in {"k", "[f([x])]"}, t \in T, d \in Default}
Arr(S) == {"[" \o s \o "]" : s \in S}
Obj(S) == {"{ " \o s \o " }" : s \in S} \cup {"{}"}
T0 == Leaf
T1 == Arr(Elems(T0)) \cup Obj(Props(T0))
Small1 == {"[]", "[b]", "{}", "{ b }", "{ k: b }", "[...b]", "{ ...b }"}
T2 == Arr(Elems(Small1)) \cup Obj(Props(Small1))
Small2 == {"[[b] = [x]]", "{ k: [b] }", "[...[b]]", "{ k: { m: b } = {} }"}
T3 == Arr(Elems(Small2)) \cup Obj(Props(Small2))
Pairs == Arr({Join(p, q) : p \in Elems({"a", "[b]", "{ b }"}), q \in Elems({"[c]", "{ m: c }"}) \ {""}})
Targets == T1 \cup T2 \cup T3 \cup (IF Wide THEN Pairs ELSE {})

Assigned == {"(" \o t \o " = v);" : t \in Targets}
Chained == {"(" \o t \o " = " \o u \o " = " \o e \o ");" : t \in Small1 \cup Small2, u \in Small1 \cup {"a"}, e \in Value}
Looped == {h \o t \o k \o "v) { [x]; }" : h \in {"for ("}, t \in Targets, k \in {" of ", " in "}}
Other == {"for (" \o t \o " = v; ; ) { break; }" : t \in T1} \cup {"function g(p = (" \o t \o " = v)) {}" : t \in Small1 \cup Small2}
         \cup {"x += " \o t \o ";" : t \in {"[b]", "({ b })"}} \cup {"const " \o t \o " = [x];" : t \in {"[b]", "{ b }", "{ b: [d] = [x] }"}}
         \cup {"x " \o op \o " " \o t \o ";" : op \in {"+=", "??=", "||=", "&&=", "==", "=", ","}, t \in {"[b]", "{ b }"}}
         \cup {"for (const " \o t \o " of [x]) { }" : t \in {"[b]", "{ b }"}} \cup {"async function h() { for await (" \o t \o " of v) { } }" : t \in Small1}
Statements == Assigned \cup Chained \cup Looped \cup Other

VARIABLE s
Init == s \in Statements
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == PrintT(ToJson([s |-> s]))
=============================================================================
