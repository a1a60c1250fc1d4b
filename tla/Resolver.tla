------------------------------ MODULE Resolver ------------------------------
(* Which project a file belongs to (internal/utils/find_tsconfig.go): a breadth-first search over the nearest enclosing
   tsconfig and the projects it references, then over each enclosing ancestor.  Projects seen once are not searched again. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANT Worlds         \* set of <<id, world>>

\* ---- what a project contains -------------------------------------------------------------------------------------
NoModules(d, from) == \A i \in (Len(from) + 1)..Len(d) : d[i] # "node_modules"
Supported(ext, c) == ext \in {"ts", "tsx", "d.ts", "mts"} \/ (ext = "js" /\ (c.allowJs \/ c.name = "jsconfig.json"))
Covers(w, c, f) ==
    LET x == w.files[f]
        globs == IF c.hasInclude THEN ToSet(c.include) ELSE IF c.hasFiles THEN {} ELSE {c.dir}
    IN \/ (c.hasFiles /\ f \in ToSet(c.files))
       \/ (/\ \E g \in globs : IsPrefix(g, x.dir) /\ NoModules(x.dir, g)
           /\ ~\E g \in ToSet(c.exclude) : IsPrefix(g, x.dir)
           /\ Supported(x.ext, c))

\* ---- enclosing projects, outwards ----------------------------------------------------------------------------------
At(w, d) == SelectSeq([i \in 1..Len(w.configs) |-> i], LAMBDA i : w.configs[i].dir = d /\ w.configs[i].name = "tsconfig.json")
            \o SelectSeq([i \in 1..Len(w.configs) |-> i], LAMBDA i : w.configs[i].dir = d /\ w.configs[i].name = "jsconfig.json")
RECURSIVE Chain(_, _)
Chain(w, d) == At(w, d) \o (IF d = <<>> \/ Last(d) = "node_modules" THEN <<>> ELSE Chain(w, Front(d)))

VARIABLES id, w, f,
          chain,    \* enclosing projects still to be searched
          level,    \* projects of the current level, in order
          next,     \* of the next one
          seen, res
vars == <<id, w, f, chain, level, next, seen, res>>

Init == /\ \E p \in Worlds : id = p[1] /\ w = p[2]
        /\ f \in 1..Len(w.files)
        /\ chain = Chain(w, w.files[f].dir)
        /\ level = <<>> /\ next = <<>> /\ seen = {} /\ res = -1
Fresh(s, into) == FoldLeft(LAMBDA acc, x : IF x \in ToSet(acc) THEN acc ELSE Append(acc, x), into, s)
Visit == /\ res = -1 /\ level # <<>>
         /\ LET c == Head(level)
            IN IF c = 0 \/ c \in seen THEN level' = Tail(level) /\ seen' = seen \cup {c} /\ UNCHANGED <<next, res>>
               ELSE /\ seen' = seen \cup {c}
                    /\ IF Covers(w, w.configs[c], f) THEN res' = c /\ UNCHANGED <<level, next>>
                       ELSE level' = Tail(level) /\ next' = Fresh(w.configs[c].refs, next) /\ res' = res
         /\ UNCHANGED <<id, w, f, chain>>
Deeper == /\ res = -1 /\ level = <<>> /\ next # <<>>
          /\ level' = next /\ next' = <<>>
          /\ UNCHANGED <<id, w, f, chain, seen, res>>
Outwards == /\ res = -1 /\ level = <<>> /\ next = <<>>
            /\ IF chain = <<>> THEN res' = 0 /\ UNCHANGED <<chain, level>>
               ELSE level' = <<Head(chain)>> /\ chain' = Tail(chain) /\ res' = res
            /\ UNCHANGED <<id, w, f, next, seen>>
Next == Visit \/ Deeper \/ Outwards
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == res # -1
\* ---- what that amounts to ------------------------------------------------------------------------------------------
Step(x) == IF x = 0 THEN {} ELSE ToSet(w.configs[x].refs) \ {0}
RECURSIVE Ball(_, _)
Ball(S, n) == IF n = 0 THEN S ELSE Ball(S \cup UNION {Step(x) : x \in S}, n - 1)
Reach(S) == Ball(S, Len(w.configs))
All == Chain(w, w.files[f].dir)
Good == {c \in 1..Len(w.configs) : Covers(w, w.configs[c], f)}
Terminates == <>Done
Holds == (res > 0) => res \in Good
Complete == (res = 0) => Good \cap Reach(ToSet(All)) = {}
\* the innermost enclosing project from which some project containing the file can be reached, and the nearest such
Closest == (res > 0) =>
    LET k == CHOOSE k \in 1..Len(All) : Good \cap Reach({All[k]}) # {} /\ \A j \in 1..(k - 1) : Good \cap Reach({All[j]}) = {}
        d == CHOOSE d \in 0..Len(w.configs) : Good \cap Ball({All[k]}, d) # {} /\ (d > 0 => Good \cap Ball({All[k]}, d - 1) = {})
    IN res \in Ball({All[k]}, d)
Own == (Len(All) > 0 /\ All[1] \in Good /\ Done) => res = All[1]
Emit == Done => PrintT(ToJson([id |-> id, f |-> f, res |-> res]))

\* ---- small worlds: every reference graph over three projects --------------------------------------------------------
Lists == {<<>>} \cup {<<a>> : a \in 1..3} \cup {<<a, b>> : a, b \in 1..3}
Cfg(d, r, has) == [dir |-> d, name |-> "tsconfig.json", hasFiles |-> TRUE, files |-> IF has THEN <<1>> ELSE <<>>, hasInclude |-> FALSE, include |-> <<>>, exclude |-> <<>>,
                   allowJs |-> FALSE, composite |-> FALSE, dss |-> FALSE, refs |-> r]
Small == {<<"s" \o ToString(r) \o ToString(h), [files |-> <<[dir |-> <<"a">>, ext |-> "ts"]>>,
             configs |-> <<Cfg(<<"a">>, r[1], h[1]), Cfg(<<>>, r[2], h[2]), Cfg(<<"x">>, r[3], h[3])>>]>> : r \in [1..3 -> Lists], h \in [1..3 -> BOOLEAN]}
FromFile == LET s == ndJsonDeserialize(IOEnv.CASES) IN {<<s[i].id, s[i].w>> : i \in 1..Len(s)}
=============================================================================
