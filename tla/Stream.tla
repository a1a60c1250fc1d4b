------------------------------ MODULE Stream ------------------------------
(* From diagnostics to bytes (cmd/tsgolint/headless.go): workers put diagnostics into a channel of limited capacity, a
   collector frames each and appends it to a buffer that is written to standard output when it fills, is nearly full or at the end, and
   the main routine, once the linter is done, closes the channel, waits for the collector and appends the timing frame.
   A message is [w: worker, n: number, z: its size class]; a buffer holds Buf units. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Workers,      \* set of workers
          Plans,        \* set of assignments of sequences of sizes to workers
          Cap, Buf, Low \* channel capacity, buffer size, flush when fewer units than this are available

VARIABLES plan, timing, left, chan, closed, buf, stdout, collector, main
vars == <<plan, timing, left, chan, closed, buf, stdout, collector, main>>

Init == /\ plan \in Plans /\ timing \in BOOLEAN /\ left = plan /\ chan = <<>> /\ closed = FALSE /\ buf = <<>> /\ stdout = <<>>
        /\ collector = "on" /\ main = "lint"
Size(s) == FoldLeft(LAMBDA a, m : a + m.z, 0, s)
Produce(w) == /\ left[w] # <<>> /\ Len(chan) < Cap
              /\ chan' = Append(chan, [w |-> w, n |-> Len(plan[w]) - Len(left[w]) + 1, z |-> Head(left[w])])
              /\ left' = [left EXCEPT ![w] = Tail(@)] /\ UNCHANGED <<plan, timing, closed, buf, stdout, collector, main>>
\* a message that does not fit flushes what is buffered; one larger than the buffer goes straight through
Collect == /\ collector = "on" /\ chan # <<>>
           /\ LET m == Head(chan) IN
              IF Size(buf) + m.z <= Buf
              THEN IF Buf - (Size(buf) + m.z) < Low THEN stdout' = stdout \o buf \o <<m>> /\ buf' = <<>> ELSE buf' = Append(buf, m) /\ stdout' = stdout
              ELSE IF m.z >= Buf THEN stdout' = stdout \o buf \o <<m>> /\ buf' = <<>>
              ELSE stdout' = stdout \o buf /\ buf' = <<m>>
           /\ chan' = Tail(chan) /\ UNCHANGED <<plan, timing, left, closed, collector, main>>
Close == main = "lint" /\ (\A w \in Workers : left[w] = <<>>) /\ closed' = TRUE /\ main' = "wait" /\ UNCHANGED <<plan, timing, left, chan, buf, stdout, collector>>
Stop == /\ collector = "on" /\ closed /\ chan = <<>> /\ stdout' = stdout \o buf /\ buf' = <<>> /\ collector' = "off"
        /\ UNCHANGED <<plan, timing, left, chan, closed, main>>
Timing == [w |-> 0, n |-> 0, z |-> 0]
Finish == /\ main = "wait" /\ collector = "off" /\ main' = "done" /\ stdout' = IF timing THEN Append(stdout, Timing) ELSE stdout
          /\ UNCHANGED <<plan, timing, left, chan, closed, buf, collector>>
Next == (\E w \in Workers : Produce(w)) \/ Collect \/ Close \/ Stop \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(main = "done")
Everything == main = "done" => /\ \A w \in Workers : \A i \in DOMAIN plan[w] : Cardinality({j \in DOMAIN stdout : stdout[j] = [w |-> w, n |-> i, z |-> plan[w][i]]}) = 1
                               /\ Len(stdout) = FoldSet(LAMBDA w, a : a + Len(plan[w]), 0, Workers) + (IF timing THEN 1 ELSE 0)
TimingLast == \A j \in DOMAIN stdout : stdout[j] = Timing => j = Len(stdout) /\ timing
Fits == Size(buf) <= Buf
Orderly == \A i, j \in DOMAIN stdout : i < j /\ stdout[i].w = stdout[j].w => stdout[i].n < stdout[j].n
\* one line per plan: what the reader gets, as a multiset of sizes
Emit == main = "done" => PrintT(ToJson([plan |-> plan, timing |-> timing]))
S2 == UNION {[1..k -> {1, 3, 6}] : k \in 0..2}
Two == {[w \in {1, 2} |-> f[w]] : f \in [{1, 2} -> S2]}
=============================================================================
