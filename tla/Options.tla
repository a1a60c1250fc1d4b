------------------------------ MODULE Options ------------------------------
(* How a rule reads its options.  Options are given one by one, each at its documented default (1) or at another value (2); those not      *)
(* given (0) have the default.  One option may be a group: a boolean, or an object whose members are options of their own.  The meaning     *)
(* of a request is Eff; a rule may look at nothing else.                                                                                    *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS K,        \* plain options
          G,        \* members of the group, 0 if there is none
          MaxOther  \* most options at another value
VARIABLES plain, group   \* group: <<0>> not given, <<3>> the boolean that means its default, <<4>> the other boolean, <<5, m1 .. mG>> an object
vars == <<plain, group>>

P == 1..K
M == 1..G
Off == <<0>>
Value(x) == IF x = 2 THEN 2 ELSE 1
EffPlain(p) == [i \in P |-> Value(p[i])]
EffGroup(g) == CASE g[1] = 4 -> [i \in M |-> 2] [] g[1] = 5 -> [i \in M |-> Value(g[i + 1])] [] OTHER -> [i \in M |-> 1]
Eff(p, g) == <<EffPlain(p), EffGroup(g)>>

Others(p, g) == Cardinality({i \in P : p[i] = 2}) + (IF g[1] = 4 THEN 1 ELSE IF g[1] = 5 THEN Cardinality({i \in M : g[i + 1] = 2}) ELSE 0)

Init == plain = [i \in P |-> 0] /\ group = Off
Give(i, v) == plain[i] = 0 /\ plain' = [plain EXCEPT ![i] = v] /\ UNCHANGED group
GiveBool(v) == G > 0 /\ group = Off /\ group' = <<v>> /\ UNCHANGED plain
GiveObject == G > 0 /\ group = Off /\ group' = <<5>> \o [i \in M |-> 0] /\ UNCHANGED plain
GiveMember(i, v) == group[1] = 5 /\ group[i + 1] = 0 /\ group' = [group EXCEPT ![i + 1] = v] /\ UNCHANGED plain
Next == /\ \/ \E i \in P, v \in {1, 2} : Give(i, v)
           \/ \E v \in {3, 4} : GiveBool(v)
           \/ GiveObject
           \/ \E i \in M, v \in {1, 2} : GiveMember(i, v)
        /\ Others(plain', group') <= MaxOther
Spec == Init /\ [][Next]_vars

\* the fully spelled out request with the same meaning
Full(e) == [p |-> e[1], g |-> IF G = 0 THEN Off ELSE <<5>> \o e[2]]
Spelled == Eff(Full(Eff(plain, group)).p, Full(Eff(plain, group)).g) = Eff(plain, group)
\* giving a default changes nothing; giving another value changes that option only
Frame == [][LET a == Eff(plain, group)
                b == Eff(plain', group') IN
            /\ (\A i \in P : (plain'[i] = plain[i] \/ plain'[i] = 1) => b[1][i] = a[1][i])
            /\ (\A i \in P : (plain[i] = 0 /\ plain'[i] = 2) => (b[2] = a[2] /\ \A j \in P \ {i} : b[1][j] = a[1][j]))
            /\ (group' # group => b[1] = a[1])]_vars
Emit == PrintT(ToJson([p |-> plain, g |-> group, e |-> Eff(plain, group)]))
=============================================================================
