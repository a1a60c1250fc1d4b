------------------------------- MODULE Timing -------------------------------
(* Rule timings (internal/linter/timing.go and the timed loop of linter.go): each worker counts the calls of the file it is
   on per configured rule, adds them to its own table when the file is done, and adds its own table to the shared store when it
   stops.  Design part: workers W over a small set of files in any order, with every interleaving of the additions.  Conformance part: the counts
   of a given workload, computed from Workers!Work. *)
EXTENDS Workers

CONSTANTS Mode          \* "design" or "counts"

Names == {"a", "b"}
\* calls of one file: rule name -> calls
CallsOf(rs, work) == LET ns == {rs[j].name : j \in DOMAIN rs} IN [n \in ns |-> Cardinality({k \in DOMAIN work : rs[work[k].i].name = n})]
Plus(f, g) == [n \in DOMAIN f \cup DOMAIN g |-> (IF n \in DOMAIN f THEN f[n] ELSE 0) + (IF n \in DOMAIN g THEN g[n] ELSE 0)]
Sum(fs) == FoldLeft(Plus, [n \in {} |-> 0], fs)

VARIABLES todo,     \* files nobody took yet: set of [id, calls]
          at,       \* what each worker is on: <<>> or <<calls>>
          local,    \* each worker's own table
          mode,     \* each worker: "work", "merge" (in the store's critical section), "done"
          seen,     \* the store's contents as read by the merging worker
          store
tvars == <<todo, at, local, mode, seen, store>>
None == [n \in {} |-> 0]
Ws == {1, 2}
Small == {[n \in {"a"} |-> 2], [n \in {"a", "b"} |-> IF n = "a" THEN 1 ELSE 3], None}
FileSets == {[i \in 1..3 |-> f[i]] : f \in [1..3 -> Small]}
DInit == /\ \E fs \in FileSets : todo = {[id |-> i, calls |-> fs[i]] : i \in 1..3} /\ cfg = fs
         /\ at = [w \in Ws |-> <<>>] /\ local = [w \in Ws |-> None] /\ mode = [w \in Ws |-> "work"] /\ seen = None /\ store = None /\ s = 0
Take1(w) == mode[w] = "work" /\ at[w] = <<>> /\ \E f \in todo : todo' = todo \ {f} /\ at' = [at EXCEPT ![w] = <<f.calls>>] /\ UNCHANGED <<local, mode, seen, store>>
Done1(w) == at[w] # <<>> /\ local' = [local EXCEPT ![w] = Plus(@, at[w][1])] /\ at' = [at EXCEPT ![w] = <<>>] /\ UNCHANGED <<todo, mode, seen, store>>
Lock(w) == /\ mode[w] = "work" /\ at[w] = <<>> /\ todo = {} /\ (\A v \in Ws : mode[v] # "merge")
           /\ mode' = [mode EXCEPT ![w] = "merge"] /\ seen' = store /\ UNCHANGED <<todo, at, local, store>>
Unlock(w) == mode[w] = "merge" /\ store' = Plus(seen, local[w]) /\ mode' = [mode EXCEPT ![w] = "done"] /\ UNCHANGED <<todo, at, local, seen>>
DNext == (\E w \in Ws : Take1(w) \/ Done1(w) \/ Lock(w) \/ Unlock(w)) /\ UNCHANGED <<cfg, s>>
DSpec == DInit /\ [][DNext]_<<tvars, cfg>> /\ WF_tvars(DNext)
Counted == (\A w \in Ws : mode[w] = "done") => store = Sum([i \in 1..3 |-> cfg[i]])
Finishes == <>(\A w \in Ws : mode[w] = "done")

(* conformance: the expected table of each given workload; w.rep programs are linted into one store *)
Loads == ndJsonDeserialize(IOEnv.LOADS)
CInit == /\ cfg \in {[id |-> i, files |-> Loads[i].files, rep |-> Loads[i].rep] : i \in DOMAIN Loads}
         /\ s = 0 /\ todo = {} /\ at = <<>> /\ local = <<>> /\ mode = <<>> /\ seen = <<>>
         /\ store = Sum([j \in 1..cfg.rep |-> Sum([f \in DOMAIN cfg.files |-> CallsOf(Rules(f), Work(f))])])
CSpec == CInit /\ [][UNCHANGED <<cfg, s, tvars>>]_<<cfg, s, tvars>>
Emit == PrintT(ToJson([id |-> cfg.id, calls |-> [n \in DOMAIN store |-> store[n]]]))
=============================================================================
