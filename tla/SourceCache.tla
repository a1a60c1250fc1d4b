----------------------------- MODULE SourceCache -----------------------------
(* The process-wide cache of parsed files (internal/utils/host.go).  A request reads the file, looks for a parse of that text
   under its own options, parses when there is none and keeps whichever parse was stored first.  Hosts share the cache.
   The environment edits and removes files at any moment; a request may be held between its reading and the rest.
   A host either looks at the disk each time or keeps what it has read of a file (one lint run works on one state of it). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

\* a script: texts = initial text of each file ("" = no such file is written as the text "-"), steps = sequence of
\*   [do |-> "edit", f, t]  [do |-> "start", f, o, h]  [do |-> "finish", reqs]        (o: parse options, opaque)
\*   keeps = set of hosts that keep what they have read
CONSTANT Scripts

VARIABLES sc, pc,       \* the script and the next step of it
          disk,         \* file -> text
          cache,        \* set of [key, id]
          rq,           \* sequence of requests [f, o, st, t, id]; st: started, read, go, parse, done
          ids,          \* parses made so far
          snap,         \* set of [h, f, t]: what keeping hosts have kept
          during        \* request -> texts of its file between its start and its end
vars == <<sc, pc, disk, cache, rq, ids, snap, during>>
None == "-"
Key(r) == <<r.f, r.o, r.t>>

Init == /\ sc \in Scripts
        /\ pc = 1 /\ disk = sc.texts /\ cache = {} /\ rq = <<>> /\ ids = 0 /\ during = <<>> /\ snap = {}
Busy == \E i \in DOMAIN rq : rq[i].st \in {"go", "parse"}
Step == IF pc <= Len(sc.steps) THEN sc.steps[pc] ELSE [do |-> "end"]
Edit == /\ Step.do = "edit" /\ ~Busy
        /\ disk' = [disk EXCEPT ![Step.f] = Step.t]
        /\ during' = [i \in DOMAIN during |-> IF rq[i].st # "done" /\ rq[i].f = Step.f THEN during[i] \cup {Step.t} ELSE during[i]]
        /\ pc' = pc + 1 /\ UNCHANGED <<sc, cache, rq, ids, snap>>
Start == /\ Step.do = "start" /\ ~Busy
         /\ rq' = Append(rq, [f |-> Step.f, o |-> Step.o, h |-> Step.h, st |-> "started", t |-> None, id |-> 0])
         /\ during' = Append(during, {disk[Step.f]})
         /\ pc' = pc + 1 /\ UNCHANGED <<sc, disk, cache, ids, snap>>
Finish == /\ Step.do = "finish" /\ ~Busy
          /\ \A i \in ToSet(Step.reqs) : rq[i].st = "read"
          /\ rq' = [i \in DOMAIN rq |-> IF i \in ToSet(Step.reqs) THEN [rq[i] EXCEPT !.st = "go"] ELSE rq[i]]
          /\ pc' = pc + 1 /\ UNCHANGED <<sc, disk, cache, ids, snap, during>>
Read(i) == /\ rq[i].st = "started" /\ ~Busy
           /\ rq' = [rq EXCEPT ![i].st = "read", ![i].t = IF \E e \in snap : e.h = rq[i].h /\ e.f = rq[i].f THEN (CHOOSE e \in snap : e.h = rq[i].h /\ e.f = rq[i].f).t ELSE disk[rq[i].f]]
           /\ UNCHANGED <<sc, pc, disk, cache, ids, snap, during>>
Look(i) == /\ rq[i].st = "go"
           /\ IF rq[i].t = None THEN rq' = [rq EXCEPT ![i].st = "done"] /\ UNCHANGED ids
              ELSE IF \E e \in cache : e.key = Key(rq[i]) THEN rq' = [rq EXCEPT ![i].st = "done", ![i].id = (CHOOSE e \in cache : e.key = Key(rq[i])).id] /\ UNCHANGED ids
              ELSE rq' = [rq EXCEPT ![i].st = "parse", ![i].id = ids + 1] /\ ids' = ids + 1
           /\ snap' = IF rq[i].h \in ToSet(sc.keeps) THEN {e \in snap : e.h # rq[i].h \/ e.f # rq[i].f} \cup {[h |-> rq[i].h, f |-> rq[i].f, t |-> rq[i].t]} ELSE snap
           /\ UNCHANGED <<sc, pc, disk, cache, during>>
Store(i) == /\ rq[i].st = "parse"
            /\ LET had == {e \in cache : e.key = Key(rq[i])}
               IN IF had # {} THEN rq' = [rq EXCEPT ![i].st = "done", ![i].id = (CHOOSE e \in had : TRUE).id] /\ UNCHANGED cache
                  ELSE rq' = [rq EXCEPT ![i].st = "done"] /\ cache' = cache \cup {[key |-> Key(rq[i]), id |-> rq[i].id]}
            /\ UNCHANGED <<sc, pc, disk, ids, snap, during>>
Next == Edit \/ Start \/ Finish \/ \E i \in DOMAIN rq : Read(i) \/ Look(i) \/ Store(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

End == pc > Len(sc.steps) /\ ~Busy
\* never stale: what a request gets is the file as it was at some moment of the request
Current == \A i \in DOMAIN rq : (rq[i].st = "done" /\ rq[i].h \notin ToSet(sc.keeps)) => rq[i].t \in during[i]
\* a keeping host answers with the file as it is, or as it was at an earlier request to the same host
Kept == \A j \in DOMAIN rq : rq[j].st = "done" => (rq[j].t \in during[j] \/ \E i \in 1..(j - 1) : rq[i].h = rq[j].h /\ rq[i].f = rq[j].f /\ rq[i].t = rq[j].t)
Absent == \A i \in DOMAIN rq : rq[i].st = "done" => (rq[i].id = 0 <=> rq[i].t = None)
\* one parse per path, options and text
Same == \A i, j \in DOMAIN rq : (rq[i].st = "done" /\ rq[j].st = "done") => ((Key(rq[i]) = Key(rq[j]) /\ rq[i].id # 0) <=> (rq[i].id = rq[j].id /\ rq[i].id # 0))
OnePerKey == \A e, f \in cache : (e.key = f.key) <=> (e = f)
Answers == <>(\A i \in DOMAIN rq : rq[i].st = "done")
Class(i) == IF rq[i].id = 0 THEN 0 ELSE CHOOSE j \in DOMAIN rq : rq[j].id = rq[i].id /\ \A k \in 1..(j - 1) : rq[k].id # rq[j].id
Emit == End => PrintT(ToJson([id |-> sc.id, res |-> [i \in DOMAIN rq |-> [t |-> rq[i].t, c |-> Class(i)]]]))

\* every history of at most n edits and requests over two files, two texts and two options; requests end in any order
RECURSIVE Gen(_, _, _)
\* open: requests started and not finished; k: requests so far
Gen(n, open, k) ==
    {<<[do |-> "finish", reqs |-> SetToSeq(open)]>>} \cup
    (IF n = 0 THEN {} ELSE
        {<<[do |-> "edit", f |-> "a", t |-> t]>> \o s : t \in {"x", "y", None}, s \in Gen(n - 1, open, k)}
        \cup {<<[do |-> "start", f |-> f, o |-> o, h |-> h]>> \o s : f \in {"a"}, o \in {"p", "q"}, h \in {0, 1}, s \in Gen(n - 1, open \cup {k + 1}, k + 1)}
        \cup (IF open = {} THEN {} ELSE
              UNION {{<<[do |-> "finish", reqs |-> SetToSeq(d)]>> \o s : s \in Gen(n - 1, open \ d, k)} : d \in {{i} : i \in open} \cup {open}}))
Small(n) == {[id |-> "m", keeps |-> <<1>>, texts |-> [f \in {"a", "b"} |-> "x"], steps |-> s] : s \in Gen(n, {}, 0)}
Small4 == Small(4)
Small5 == Small(5)

FromFile == LET s == ndJsonDeserialize(IOEnv.CASES) IN {s[i] : i \in 1..Len(s)}
=============================================================================
