------------------------------ MODULE Returns ------------------------------
\* Functions are written from left to right: statements, structured statements, functions in functions.  What is known at each point: whether it
\* can be reached, how the functions it stands in return so far.
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Size, Depth
VARIABLES stack, text, size
vars == <<stack, text, size>>
\* a function whose results may be nothing, by annotation, or not
Fn(v, at) == [kind |-> "fn", void |-> v, at |-> at, reach |-> TRUE, out |-> FALSE, start |-> at, cont |-> FALSE, full |-> FALSE,
              first |-> <<"no", "no">>, mism |-> <<FALSE, FALSE>>, outs |-> {}]
Block(k, r, at) == [kind |-> k, void |-> FALSE, at |-> at, reach |-> r, out |-> FALSE, start |-> at, cont |-> r, full |-> FALSE,
              first |-> <<"no", "no">>, mism |-> <<FALSE, FALSE>>, outs |-> {}]
Blocks == {"if", "while", "forever", "do", "try", "switch", "label"}
Top == stack[Len(stack)]
Here == Len(text) + 1
\* the function this point stands in
F == CHOOSE i \in 1..Len(stack) : stack[i].kind = "fn" /\ \A j \in i + 1..Len(stack) : stack[j].kind # "fn"
\* what a break leaves; none leaves a try that has a finally
Targets == {i \in F + 1..Len(stack) : stack[i].kind \in {"while", "forever", "do", "switch", "default", "label"} /\ \A j \in i..Len(stack) : stack[j].kind \notin {"ftry", "finally"}}
Loops == Targets \ {i \in Targets : stack[i].kind = "label"}
Max(S) == CHOOSE i \in S : \A j \in S : j <= i
Init == /\ \E v \in BOOLEAN : stack = <<Fn(v, 1)>> /\ text = <<[t |-> "fn", void |-> v, rep |-> <<"", "">>]>>
        /\ size = 0
Set(i, f) == [stack EXCEPT ![i] = f]
Stops == [stack EXCEPT ![Len(stack)].reach = FALSE]
Say(x) == text' = Append(text, x)
\* 1: undefined is a value; 2: it is none
Sort(k, o) == CASE k = "value" -> "value" [] k = "empty" -> "none" [] k = "undefined" -> (IF o = 1 THEN "value" ELSE "none")
Return(k) ==
  LET f == stack[F]
      skip == k = "empty" /\ f.void
      bad(o) == ~skip /\ f.first[o] # "no" /\ f.first[o] # Sort(k, o)
      rep == [o \in 1..2 |-> IF ~bad(o) THEN "" ELSE IF f.first[o] = "value" THEN "missingReturnValue" ELSE "unexpectedReturnValue"]
      g == [f EXCEPT !.first = [o \in 1..2 |-> IF skip \/ f.first[o] # "no" THEN f.first[o] ELSE Sort(k, o)],
                     !.mism = [o \in 1..2 |-> f.mism[o] \/ bad(o)],
                     !.outs = IF Top.reach THEN f.outs \cup {k} ELSE f.outs]
      s == [stack EXCEPT ![F] = g]
  IN /\ stack' = [s EXCEPT ![Len(s)].reach = FALSE]
     /\ Say([t |-> k, void |-> FALSE, rep |-> rep])
Mark(t) == Say([t |-> t, void |-> FALSE, rep |-> <<"", "">>])
Throw == /\ stack' = Stops
         /\ Mark("throw")
Leave(i, t) == LET s == [stack EXCEPT ![i].out = stack[i].out \/ Top.reach] IN
         /\ stack' = [s EXCEPT ![Len(s)].reach = FALSE]
         /\ Mark(t)
Break == Loops # {} /\ Leave(Max(Loops), "break")
BreakLabel == LET S == Targets \ Loops IN S # {} /\ Leave(Max(S), "breaklabel")
Open(k) == /\ stack' = Append(stack, Block(k, Top.reach, Here))
           /\ Mark(k)
OpenTry(k) == /\ stack' = Append(stack, Block(k, Top.reach, Here))
              /\ Mark("try")
OpenFn(v) == /\ stack' = Append(stack, Fn(v, Here))
             /\ Say([t |-> "fn", void |-> v, rep |-> <<"", "">>])
Grow == /\ size < Size
        /\ size' = size + 1
        /\ (Top.reach \/ Top.kind = "fn" \/ text[Len(text)].t \in Blocks \cup {"else", "case", "default"})
        /\ \/ \E k \in {"value", "empty", "undefined"} : Return(k)
           \/ Throw
           \/ Break
           \/ BreakLabel
           \/ Len(stack) <= Depth /\ \E k \in Blocks \ {"try"} : Open(k)
           \/ Len(stack) <= Depth /\ \E k \in {"ctry", "ftry"} : OpenTry(k)
           \/ Len(stack) <= Depth /\ \E v \in BOOLEAN : OpenFn(v)
Fresh(k, r) == Set(Len(stack), [Top EXCEPT !.kind = k, !.reach = r, !.out = Top.out \/ Top.reach])
\* .cont: the beginning of the whole statement can be reached
Turn == /\ size < Size
        /\ size' = size + 1
        /\ \/ Top.kind = "if" /\ stack' = Fresh("else", Top.cont) /\ Mark("else")
           \/ Top.kind = "switch" /\ text[Len(text)].t # "switch" /\ stack' = Set(Len(stack), [Top EXCEPT !.reach = Top.reach \/ Top.cont]) /\ Mark("case")
           \/ Top.kind = "switch" /\ stack' = Set(Len(stack), [Top EXCEPT !.kind = "default", !.reach = Top.reach \/ Top.cont]) /\ Mark("default")
Middle == /\ UNCHANGED size
          /\ \/ Top.kind = "ctry" /\ stack' = Fresh("catch", Top.cont) /\ Mark("catch")
             \/ Top.kind = "ftry" /\ stack' = Fresh("finally", Top.cont) /\ Mark("finally")
After(b) == CASE b.kind = "if" -> b.cont \/ b.reach
              [] b.kind \in {"else", "catch"} -> b.out \/ b.reach
              [] b.kind = "finally" -> b.out /\ b.reach
              [] b.kind = "while" -> b.cont
              [] b.kind = "forever" -> b.out
              [] b.kind = "do" -> b.reach \/ b.out
              [] b.kind = "switch" -> b.cont
              [] b.kind \in {"default", "label"} -> b.reach \/ b.out
Close == /\ UNCHANGED size
         /\ Top.kind \notin {"fn", "ctry", "ftry"}
         /\ stack' = LET s == SubSeq(stack, 1, Len(stack) - 1) IN [s EXCEPT ![Len(s)].reach = After(Top)]
         /\ Mark("close")
EndReport(f) == [o \in 1..2 |-> IF ~f.mism[o] /\ f.first[o] = "value" /\ f.reach /\ ~f.void THEN "missingReturnValue" ELSE ""]
CloseFn == /\ UNCHANGED size
           /\ Top.kind = "fn"
           /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
           /\ text' = Append([text EXCEPT ![Top.at].rep = EndReport(Top)], [t |-> "endfn", void |-> FALSE, rep |-> <<"", "">>])
Next == /\ stack # <<>>
        /\ (Grow \/ Turn \/ Middle \/ Close \/ CloseFn)
Spec == Init /\ [][Next]_vars
\* with nothing to report about the innermost function, all its outcomes are of one sort
Outcomes(f, o) == {Sort(k, o) : k \in f.outs} \cup (IF f.reach THEN {"none"} ELSE {})
Consistent == stack # <<>> /\ Top.kind = "fn" /\ ~Top.void =>
  \A o \in 1..2 : ~Top.mism[o] /\ EndReport(Top)[o] = "" => Cardinality(Outcomes(Top, o)) <= 1
Emit == stack = <<>> => PrintT(ToJson(text))
=============================================================================
