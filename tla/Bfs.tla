-------------------------------- MODULE Bfs --------------------------------
(* Breadth-first search over an implicit graph (internal/utils/bfs.go), as small steps: the search works level by level;
   a level is a sequence of nodes without repetition, each remembering the path (node back to start) that discovered it
   first.  kind[n]: 0 no match, 1 match, 2 final match.  previs: nodes marked as visited by the caller.
   removed: <<level index, node>> pairs the caller deletes in its per-level hook. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, IOUtils
CONSTANTS Cases

Lists(n, k) == UNION {{s \in [1..m -> 1..n] : \A i, j \in 1..m : i # j => s[i] # s[j]} : m \in 0..k}
Small(n, k, pv) == {[n |-> n, adj |-> a, kind |-> kd, previs |-> v, removed |-> {}] : a \in [1..n -> Lists(n, k)], kd \in [1..n -> 0..2], v \in pv}
G2 == Small(2, 2, SUBSET {1, 2})
G3 == Small(3, 2, {{}})
G3v == {[n |-> 3, adj |-> a, kind |-> kd, previs |-> v, removed |-> r] :
    a \in [1..3 -> Lists(3, 2)], kd \in {<<0, 0, 1>>, <<0, 1, 2>>, <<1, 0, 2>>, <<0, 0, 0>>}, v \in {{2}, {}}, r \in {{}, {<<1, 2>>}, {<<1, 3>>, <<2, 3>>}}}
FromFile == LET s == ndJsonDeserialize(IOEnv.CASES) IN
    {[n |-> s[i].n, adj |-> s[i].adj, kind |-> s[i].kind, previs |-> ToSet(s[i].previs), removed |-> ToSet(s[i].removed)] : i \in 1..Len(s)}

VARIABLES c, level, lv, next, visits, visited, fallback, res, pre
vars == <<c, level, lv, next, visits, visited, fallback, res, pre>>
None == <<>>
Job(n, path) == [n |-> n, path |-> <<n>> \o path]
Init == /\ c \in Cases
        /\ level = <<Job(1, <<>>)>> /\ lv = 0 /\ next = <<>> /\ visits = <<>> /\ visited = c.previs /\ fallback = None /\ res = [stopped |-> FALSE, path |-> None, done |-> FALSE]
        /\ pre = FALSE
Hook == /\ ~res.done /\ ~pre /\ level # <<>>
        /\ pre' = TRUE /\ level' = SelectSeq(level, LAMBDA j : <<lv, j.n>> \notin c.removed)
        /\ UNCHANGED <<c, lv, next, visits, visited, fallback, res>>
RECURSIVE AddAll(_, _, _)
AddAll(nx, j, ns) == IF ns = <<>> THEN nx
    ELSE AddAll(IF \E i \in DOMAIN nx : nx[i].n = Head(ns) THEN nx ELSE Append(nx, Job(Head(ns), j.path)), j, Tail(ns))
Skip == /\ ~res.done /\ pre /\ level # <<>> /\ Head(level).n \in visited
        /\ level' = Tail(level) /\ UNCHANGED <<c, lv, next, visits, visited, fallback, res, pre>>
Visit == /\ ~res.done /\ pre /\ level # <<>> /\ Head(level).n \notin visited
         /\ LET j == Head(level) k == c.kind[j.n] IN
            /\ visits' = Append(visits, j.n) /\ visited' = visited \cup {j.n}
            /\ IF k = 2 THEN res' = [stopped |-> TRUE, path |-> j.path, done |-> TRUE] /\ UNCHANGED <<level, next, fallback>>
               ELSE /\ fallback' = (IF k = 1 /\ fallback = None THEN j.path ELSE fallback)
                    /\ next' = AddAll(next, j, c.adj[j.n]) /\ level' = Tail(level) /\ UNCHANGED res
         /\ UNCHANGED <<c, lv, pre>>
Descend == /\ ~res.done /\ level = <<>> /\ next # <<>>
           /\ level' = next /\ next' = <<>> /\ lv' = lv + 1 /\ pre' = FALSE /\ UNCHANGED <<c, visits, visited, fallback, res>>
End == /\ ~res.done /\ level = <<>> /\ next = <<>>
       /\ res' = [stopped |-> FALSE, path |-> fallback, done |-> TRUE] /\ UNCHANGED <<c, level, lv, next, visits, visited, fallback, pre>>
Next == Hook \/ Skip \/ Visit \/ Descend \/ End
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Once == IsInjective(visits)
NeverPrevisited == ToSet(visits) \cap c.previs = {}
PathOK == LET p == res.path IN p # None =>
    /\ p[Len(p)] = 1 /\ \A i \in 1..(Len(p) - 1) : p[i] \in ToSet(c.adj[p[i + 1]])
    /\ c.kind[p[1]] # 0 /\ (res.stopped <=> c.kind[p[1]] = 2) /\ \A i \in 1..(Len(visits) - 1) : res.stopped => c.kind[visits[i]] # 2
\* Distance from the start through visited nodes never decreases along the visits, and everything reachable is visited
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup (UNION {ToSet(c.adj[x]) : x \in S} \ c.previs) IN IF T = S THEN S ELSE Reach(T)
Complete == res.done /\ ~res.stopped /\ c.removed = {} => ToSet(visits) = (IF 1 \in c.previs THEN {} ELSE Reach({1}))
FirstMatch == res.done /\ ~res.stopped => (res.path = None <=> \A i \in DOMAIN visits : c.kind[visits[i]] = 0)
Shortest == res.done /\ res.path # None /\ c.removed = {} /\ c.previs = {} =>
    LET RECURSIVE Ball(_, _)
        Ball(S, d) == IF d = 0 THEN S ELSE Ball(S \cup UNION {ToSet(c.adj[x]) : x \in S}, d - 1)
        D(x) == CHOOSE d \in 0..c.n : x \in Ball({1}, d) /\ (d = 0 \/ x \notin Ball({1}, d - 1))
    IN Len(res.path) = D(res.path[1]) + 1
Emit == res.done => PrintT(ToJson([n |-> c.n, adj |-> c.adj, kind |-> c.kind, previs |-> SetToSortSeq(c.previs, <), removed |-> SetToSeq(c.removed),
    visits |-> visits, stopped |-> res.stopped, path |-> res.path, after |-> SetToSortSeq(visited, <)]))
=============================================================================
