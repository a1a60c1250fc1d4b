------------------------------- MODULE Workers -------------------------------
(* Linting the files of one program with several workers (internal/linter/linter.go, RunLinterOnProgram).
   A worker takes a type checker and then files; for a file it first sets up the file's rules in configured order and then
   receives the callbacks of the traversal: at each node event every rule listening to it, in configured order.  A callback
   may report, and the report must be delivered with the file and rule it was made by.
   The steps are written as functions of the state, so that the trace specification can compose the unobservable ones. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

\* a configuration: files = sequence of [rules: sequence of [name, kinds, report], tree: [k, ch]], checkers = number of checkers, workers = number
CONSTANT Configs

VARIABLES cfg, s
vars == <<cfg, s>>

Files == DOMAIN cfg.files
Rules(f) == cfg.files[f].rules
Tree(f) == cfg.files[f].tree

(* the callbacks of a tree in traversal order; t.k[n] is what entering node n is listened to as, t.x[n] leaving it *)
RECURSIVE Walk(_, _, _)
Walk(t, n, listeners) ==
    LET inner == IF t.ch[n] = <<>> THEN <<>> ELSE FlattenSeq([j \in DOMAIN t.ch[n] |-> Walk(t, t.ch[n][j], listeners)])
        At(k) == IF k \in DOMAIN listeners THEN [j \in DOMAIN listeners[k] |-> [e |-> "cb", i |-> listeners[k][j], k |-> k, n |-> n]] ELSE <<>>
    IN IF n = 1 THEN inner ELSE At(t.k[n]) \o inner \o At(t.x[n])
Listeners(rs) ==      \* listened kind -> indices of the rules listening, in configured order
    [k \in UNION {ToSet(rs[j].kinds) : j \in DOMAIN rs} |-> SelectSeq([j \in DOMAIN rs |-> j], LAMBDA j : k \in ToSet(rs[j].kinds))]
Work(f) == LET ls == TLCEval(Listeners(Rules(f))) IN
           [j \in DOMAIN Rules(f) |-> [e |-> "run", i |-> j, k |-> "", n |-> 0]] \o Walk(Tree(f), 1, ls)
Reports(f, x) == x.e = "cb" /\ x.k \in ToSet(Rules(f)[x.i].report)
Report(f, x) == [f |-> f, r |-> Rules(f)[x.i].name, i |-> x.i, k |-> x.k, n |-> x.n]

Start == [fq |-> Files, ck |-> <<>>, file |-> <<>>, todo |-> <<>>, pend |-> {}, visited |-> {}]
Known(st, w) == w \in DOMAIN st.ck
Enter(st, w) == IF Known(st, w) THEN st ELSE
    [st EXCEPT !.ck = @ @@ (w :> 0), !.file = @ @@ (w :> 0), !.todo = @ @@ (w :> <<>>)]
Ck(st, w) == IF Known(st, w) THEN st.ck[w] ELSE 0
FileOf(st, w) == IF Known(st, w) THEN st.file[w] ELSE 0
InUse(st, c) == \E w \in DOMAIN st.ck : st.ck[w] = c

CanTake(st, w, c) == Ck(st, w) = 0 /\ ~InUse(st, c)
Take(st, w, c) == [Enter(st, w) EXCEPT !.ck[w] = c]
CanOpen(st, w, f) == Ck(st, w) # 0 /\ FileOf(st, w) = 0 /\ f \in st.fq
Open(st, w, f) == LET work == TLCEval(Work(f)) IN [st EXCEPT !.file[w] = f, !.fq = @ \ {f}, !.todo[w] = work]
CanDo(st, w) == FileOf(st, w) # 0 /\ st.todo[w] # <<>>
Do(st, w) == LET x == Head(st.todo[w]) f == st.file[w]
             IN [st EXCEPT !.todo[w] = Tail(@), !.pend = IF Reports(f, x) THEN @ \cup {Report(f, x)} ELSE @]
CanClose(st, w) == FileOf(st, w) # 0 /\ st.todo[w] = <<>>
Close(st, w) == [st EXCEPT !.visited = @ \cup {st.file[w]}, !.file[w] = 0]
CanDrop(st, w) == Ck(st, w) # 0 /\ FileOf(st, w) = 0
Drop(st, w) == [st EXCEPT !.ck[w] = 0]
Deliver(st, d) == [st EXCEPT !.pend = @ \ {d}]

Init == cfg \in Configs /\ s = Start
W == 1..cfg.workers
Next == /\ UNCHANGED cfg
        /\ \/ \E w \in W, c \in 1..cfg.checkers : s.fq # {} /\ CanTake(s, w, c) /\ s' = Take(s, w, c)
           \/ \E w \in W, f \in Files : CanOpen(s, w, f) /\ s' = Open(s, w, f)
           \/ \E w \in W : CanDo(s, w) /\ s' = Do(s, w)
           \/ \E w \in W : CanClose(s, w) /\ s' = Close(s, w)
           \/ \E w \in W : s.fq = {} /\ CanDrop(s, w) /\ s' = Drop(s, w)
           \/ \E d \in s.pend : s' = Deliver(s, d)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- properties ---- *)
OneUser == \A v, w \in DOMAIN s.ck : v # w /\ s.ck[v] # 0 => s.ck[v] # s.ck[w]
OneVisitor == \A v, w \in DOMAIN s.file : v # w /\ s.file[v] # 0 => s.file[v] # s.file[w]
Once == \A w \in DOMAIN s.file : s.file[w] # 0 => s.file[w] \notin s.visited /\ s.file[w] \notin s.fq
SetupFirst == \A w \in DOMAIN s.todo : \A a, b \in DOMAIN s.todo[w] : a < b /\ s.todo[w][b].e = "run" => s.todo[w][a].e = "run"
AllVisited == s.visited = Files /\ s.pend = {}
Terminates == <>[]AllVisited

Leaves == [k |-> <<"SourceFile", "Identifier", "CallExpression">>, x |-> <<"-SourceFile", "-Identifier", "-CallExpression">>, ch |-> <<<<2, 3>>, <<>>, <<>>>>]
Nest == [k |-> <<"SourceFile", "CallExpression", "Identifier">>, x |-> <<"-SourceFile", "-CallExpression", "-Identifier">>, ch |-> <<<<2>>, <<3>>, <<>>>>]
R(n, ks, rp) == [name |-> n, kinds |-> ks, report |-> rp]
RuleLists == {<<>>, <<R("a", <<"Identifier">>, <<"Identifier">>)>>, <<R("a", <<"Identifier">>, <<>>), R("b", <<"Identifier", "-CallExpression">>, <<"-CallExpression">>)>>}
SmallConfigs == {[files |-> <<[rules |-> r1, tree |-> Leaves], [rules |-> r2, tree |-> Nest]>>, workers |-> w, checkers |-> k] : r1, r2 \in RuleLists, w \in 1..2, k \in 1..2}
    \cup {[files |-> <<[rules |-> r1, tree |-> Leaves], [rules |-> r1, tree |-> Nest], [rules |-> r1, tree |-> Nest]>>, workers |-> 3, checkers |-> 2]
            : r1 \in {<<R("a", <<"Identifier">>, <<"Identifier">>)>>}}
=============================================================================
