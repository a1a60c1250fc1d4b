---------------------------- MODULE WorkersTrace ----------------------------
(* Runs recorded from the real linter as behaviours of Workers.  Observed: the set-up of a rule for a file, each callback
   (by goroutine w, with checker c, rule index i, listened kind k, node n of file nf) and each delivered diagnostic.
   Taking and dropping checkers, and opening and closing files, are not observed: a worker opens a file with its first
   event there and is through with the file, and the checker, when the file's work is done. *)
EXTENDS Workers

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, ok, why
tvars == <<cfg, s, t, l, ok, why>>
Log == Traces[t].log
TInit == /\ t \in 1..Len(Traces) /\ l = 0 /\ ok = TRUE /\ why = ""
         /\ cfg = [files |-> Traces[t].files] /\ s = Start
\* files without rules have no events
Silent == {f \in Files : Rules(f) = <<>>}
Through(st, w) == IF CanClose(st, w) THEN Drop(Close(st, w), w) ELSE st
Begin(st, e) == IF FileOf(st, e.w) # 0 THEN st ELSE Open(Take(st, e.w, e.c), e.w, e.f)
CanBegin(st, e) == FileOf(st, e.w) # 0 \/ (CanTake(st, e.w, e.c) /\ e.f \in st.fq)
Matches(st, e) == /\ st.file[e.w] = e.f /\ e.nf = e.f /\ st.ck[e.w] = e.c
                  /\ Head(st.todo[e.w]) = [e |-> e.e, i |-> e.i, k |-> e.k, n |-> e.n]
Fail(x) == ok' = FALSE /\ why' = x /\ UNCHANGED s
Step == LET e == Log[l + 1] IN
    /\ ok /\ l < Len(Log) /\ l' = l + 1 /\ UNCHANGED <<t, cfg>>
    /\ IF e.e = "diag"
       THEN LET d == [f |-> e.f, r |-> e.r, i |-> e.i, k |-> e.k, n |-> e.n] IN
            IF e.tf = e.f /\ d \in s.pend THEN s' = Deliver(s, d) /\ UNCHANGED <<ok, why>> ELSE Fail("no such report is pending")
       ELSE IF ~CanBegin(s, e) THEN Fail(IF InUse(s, e.c) THEN "the checker is in use by another worker" ELSE "the file has been taken before")
       ELSE LET b == TLCEval(Begin(s, e)) IN
            IF CanDo(b, e.w) /\ Matches(b, e) THEN s' = Through(Do(b, e.w), e.w) /\ UNCHANGED <<ok, why>>
            ELSE Fail("expected " \o (IF CanDo(b, e.w) THEN ToString(<<b.file[e.w], Head(b.todo[e.w])>>) ELSE "nothing"))
AtEnd == s.visited \cup Silent = Files /\ s.pend = {}
Stop == ok /\ l = Len(Log) /\ ~AtEnd /\ Fail(ToString([unvisited |-> (Files \ Silent) \ s.visited, undelivered |-> s.pend])) /\ UNCHANGED <<t, l, cfg>>
TNext == Step \/ Stop
TSpec == TInit /\ [][TNext]_tvars
View == <<t, l, ok>>      \* everything else is a function of these
Verdict == /\ (ok /\ l = Len(Log) /\ AtEnd) => PrintT(ToJson([t |-> t, ok |-> TRUE, l |-> l, why |-> ""]))
           /\ ~ok => PrintT(ToJson([t |-> t, ok |-> FALSE, l |-> l, why |-> why]))
=============================================================================
