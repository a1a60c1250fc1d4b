------------------------------- MODULE Switch -------------------------------
(* switch-exhaustiveness-check: a switch over a value of a union type is written clause by clause; after each clause the rule has a verdict.  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, Randomization
CONSTANTS Types,     \* sets of atoms
          MaxCases, Opts
\* atoms: 1..10 are literal-like, 11.. are not
Literals == 1 .. 11 \cup {16, 17}   \* "a" "b" 1 2n true false null undefined E.A E.B unique-symbol F['x y'] F.z
Brand == 12            \* "k" & { brand }: counts as the literal "k"
Open == {13, 14, 15}   \* RegExp, () => void, { x: number }
Lit(t) == {a \in t : a \in Literals \/ a = Brand}
HasOpen(t) == t \cap Open # {}
VARIABLES type, cases, dflt, opt
vars == <<type, cases, dflt, opt>>
\* dflt: 0 none, 1 default clause last, 2 default clause first, 3 a comment "no default" at the end, 4 another comment at the end
CommentCounts(d, o) == (d = 3 /\ o.pat = 0) \/ (d = 4 /\ o.pat = 1)
HasDefault == dflt \in {1, 2} \/ (cases # <<>> /\ CommentCounts(dflt, opt))
Covered == {cases[i] : i \in DOMAIN cases}
Missing == Lit(type) \ Covered
NotExhaustive == Missing # {} /\ ~(opt.consider /\ HasDefault)
Dangerous == ~opt.allow /\ Missing = {} /\ HasDefault /\ ~HasOpen(type)
NeedsDefault == opt.require /\ HasOpen(type) /\ ~HasDefault
Init == type \in Types /\ cases = <<>> /\ dflt \in 0 .. 4 /\ opt \in Opts
AddCase(a) == Len(cases) < MaxCases /\ a \notin Covered /\ (\A i \in DOMAIN cases : a > cases[i]) /\ cases' = Append(cases, a) /\ UNCHANGED <<type, dflt, opt>>
Next == \E a \in type \cup {1, 8} : AddCase(a)
Spec == Init /\ [][Next]_vars
\* a clause never makes more members missing, and with a clause for each missing member none is
Monotone == [][Lit(type') \ {cases'[i] : i \in DOMAIN cases'} \subseteq Missing]_vars
Filled == Lit(type) \ (Covered \cup Missing) = {}
OneSide == ~(Dangerous /\ (NotExhaustive \/ NeedsDefault))
Emit == PrintT(ToJson([t |-> type, cs |-> cases, d |-> dflt, o |-> opt, missing |-> IF NotExhaustive THEN Missing ELSE {}, dangerous |-> Dangerous, needs |-> NeedsDefault]))

AllOpts == [allow : BOOLEAN, consider : BOOLEAN, require : BOOLEAN, pat : {0, 1}]
Atoms == Literals \cup {Brand} \cup Open
Small == kSubset(1, Atoms) \cup kSubset(2, Atoms)
Big == RandomSubset(150, kSubset(3, Atoms)) \cup RandomSubset(150, kSubset(4, Atoms)) \cup RandomSubset(60, kSubset(6, Atoms))
ThreeOpts == RandomSubset(4, AllOpts)
=============================================================================
