------------------------------- MODULE Async -------------------------------
(* require-await and await-thenable: functions are entered and left, and what happens inside one counts for that function only.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Length, Deep, Walks
VARIABLES stack,  \* the functions open
          log,    \* what has happened: [e, t]
          idle,   \* <<start of a function, ...>> that nobody needs to be async
          vain,   \* events that awaited something that never is a promise
          w
vars == <<stack, log, idle, vain, w>>
Types == {"P", "U", "N", "A", "K", "T"}             \* a promise, perhaps one, never one, any, unknown, a type parameter
Iters == {"async", "sync", "both", "any"}
Thenable(t) == t \in {"P", "U"}
Never(t) == t = "N"
Ev(e, t) == [e |-> e, t |-> t]
Enters == {Ev("fun", "async"), Ev("fun", "sync"), Ev("fun", "asyncgen"), Ev("fun", "gen")}
Flat == {Ev("await", t) : t \in Types} \cup {Ev("return", t) : t \in Types} \cup {Ev("yield", t) : t \in Types} \cup {Ev("yield", "literal")}
        \cup {Ev("delegate", t) : t \in Iters} \cup {Ev("forawait", t) : t \in Iters} \cup {Ev("using", t) : t \in Iters} \cup {Ev("stmt", "")}
        \cup {Ev("arrow", t) : t \in Types} \cup {Ev("arrowawait", t) : t \in Types} \cup {Ev("empty", "")}
Top == stack[Len(stack)]
Possible(x) == CASE x.e \in {"await", "forawait", "using"} -> stack # <<>> /\ Top.kind \in {"async", "asyncgen"}
                 [] x.e = "delegate" -> stack # <<>> /\ Top.kind \in {"asyncgen"} \cup (IF x.t = "sync" THEN {"gen"} ELSE {})
                 [] x.e = "yield" -> stack # <<>> /\ Top.kind \in {"asyncgen", "gen"}
                 [] x.e = "return" -> stack # <<>>
                 [] OTHER -> TRUE
Fresh(kind) == [kind |-> kind, at |-> Len(log) + 1, full |-> FALSE, awaits |-> FALSE, yields |-> FALSE]
Set(s, f) == [s EXCEPT ![Len(s)] = f]
Body(f) == [f EXCEPT !.full = TRUE]
Counts(x) == x.e \in {"await", "arrowawait"} \/ (x.e = "return" /\ Thenable(x.t)) \/ (x.e = "forawait") \/ (x.e = "using")
Yields(x) == (x.e = "yield" /\ Thenable(x.t)) \/ (x.e = "delegate" /\ x.t \in {"async", "both"})
Vain(x) == CASE x.e \in {"await", "arrowawait"} -> Never(x.t) [] x.e \in {"forawait", "using"} -> x.t = "sync" [] OTHER -> FALSE
Do(x) ==
  /\ log' = Append(log, x)
  /\ vain' = IF Vain(x) THEN vain \cup {Len(log) + 1} ELSE vain
  /\ CASE x.e = "fun" -> /\ stack' = Append(IF stack = <<>> THEN stack ELSE Set(stack, Body(Top)), Fresh(x.t)) /\ UNCHANGED idle
       [] x.e = "leave" -> /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
                           /\ idle' = IF Top.kind \in {"async", "asyncgen"} /\ Top.full /\ ~Top.awaits /\ ~(Top.kind = "asyncgen" /\ Top.yields) THEN Append(idle, Top.at) ELSE idle
       [] x.e = "arrow" -> /\ stack' = (IF stack = <<>> THEN stack ELSE Set(stack, Body(Top))) /\ idle' = IF Thenable(x.t) THEN idle ELSE Append(idle, Len(log) + 1)
       [] x.e \in {"arrowawait", "empty"} -> /\ stack' = (IF stack = <<>> THEN stack ELSE Set(stack, Body(Top))) /\ UNCHANGED idle
       [] OTHER -> /\ UNCHANGED idle
                   /\ stack' = IF stack = <<>> THEN stack ELSE Set(stack, [Body(Top) EXCEPT !.awaits = @ \/ (Top.kind \in {"async", "asyncgen"} /\ Counts(x)), !.yields = @ \/ Yields(x)])
Room == Len(log) + Len(stack) < Length
Choices == {x \in Flat : Room /\ Possible(x)} \cup {x \in Enters : Room /\ Len(log) + Len(stack) < Length - 1 /\ Len(stack) < Deep} \cup {x \in {Ev("leave", "")} : stack # <<>>}
Few == {x \in Choices : x.t \notin {"A", "K", "T", "both", "any"}}
Init == stack = <<>> /\ log = <<>> /\ idle = <<>> /\ vain = {} /\ w \in 1..Walks
Pick(c, k) == LET es == {x.e : x \in c} IN RandomElement({x \in c : x.e = RandomElement(es)})
Next == UNCHANGED w /\ Choices # {} /\ (IF Walks = 1 THEN \E x \in Few : Do(x) ELSE \E e \in {RandomElement({x.e : x \in Choices})} : \E x \in {RandomElement({x \in Choices : x.e = e})} : Do(x))
Spec == Init /\ [][Next]_vars
\* what is known of the functions outside does not change by what happens inside, and nothing said is taken back
Outer == [][\A i \in 1..(Len(stack) - 1) : i < Len(stack') => stack'[i] = stack[i]]_vars
Said == [][(\E i \in 0..1 : Len(idle') = Len(idle) + i) /\ SubSeq(idle', 1, Len(idle)) = idle /\ vain \subseteq vain']_vars
Once == [][\A i \in 1..Len(stack) : i <= Len(stack') => ((stack[i].awaits => stack'[i].awaits) \/ stack'[i].at # stack[i].at)]_vars
Emit == (stack = <<>> /\ log # <<>>) => PrintT(ToJson([log |-> log, idle |-> idle, vain |-> vain]))
=============================================================================
