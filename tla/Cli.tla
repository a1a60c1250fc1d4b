-------------------------------- MODULE Cli --------------------------------
(* One run of the command line entry point (cmd/tsgolint/main.go runMain): flags are read, a project is chosen and loaded,
   the files to lint are selected, every file is linted with every rule at its defaults, and the result is printed.
   The world is a small tree of files, of which each project sees some; `Marks` is how many reports each file gives. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json

CONSTANTS Worlds, Argvs        \* sets of worlds and of argument vectors to explore

(* ---- the tree: r is the directory tsgolint runs in, r/sub has a project of its own ------------------------------------ *)
Files == {"r/a.ts", "r/sub/b.ts", "r/sub/deep/e.ts", "r/node_modules/m/index.ts", "r/sub/node_modules/k/index.ts", "r/node_modulesx/c.ts", "r/x/node_modules.ts",
          "rx/d.ts", "out/o.ts", "r/types.d.ts", "r/sub-b/f.ts"}
InNodeModules == {"r/node_modules/m/index.ts", "r/sub/node_modules/k/index.ts"}
UnderR == Files \ {"rx/d.ts", "out/o.ts"}
UnderSub == {"r/sub/b.ts", "r/sub/deep/e.ts", "r/sub/node_modules/k/index.ts"}
Marks == [f \in Files |-> CASE f = "r/a.ts" -> 1 [] f = "r/sub/b.ts" -> 2 [] f = "r/sub/deep/e.ts" -> 3 [] f = "r/node_modules/m/index.ts" -> 5 [] f = "r/sub/node_modules/k/index.ts" -> 7
                            [] f = "r/node_modulesx/c.ts" -> 4 [] f = "r/x/node_modules.ts" -> 0 [] f = "rx/d.ts" -> 6 [] f = "out/o.ts" -> 8 [] f = "r/sub-b/f.ts" -> 1 [] OTHER -> 0]

(* A world: [root |-> kind of r/tsconfig.json, sub |-> kind of r/sub/tsconfig.json, imports |-> what a.ts imports,
             simports |-> what b.ts imports, within |-> whether the whole tree lies under a node_modules directory] *)
Good == {"default", "only-a", "outside", "modules"}
Bad == {"broken", "conflict", "nofiles"}
\* the root files of a project of that kind in directory d, whose own files are D
Roots(kind, D) == CASE kind = "default" -> D \ InNodeModules
                    [] kind = "only-a" -> D \cap {"r/a.ts", "r/sub/b.ts"} \cap (IF "r/a.ts" \in D THEN {"r/a.ts"} ELSE D)
                    [] kind = "outside" -> (D \ InNodeModules) \cup {"rx/d.ts", "out/o.ts"}
                    [] kind = "modules" -> D \cap InNodeModules
                    [] OTHER -> {}
RECURSIVE Close(_, _)
Close(S, w) == LET T == S \cup (IF "r/a.ts" \in S THEN w.imports ELSE {}) \cup (IF "r/sub/b.ts" \in S THEN w.simports ELSE {})
               IN IF T = S THEN S ELSE Close(T, w)

(* An argument vector: [help, debug, ts, list, st] *)
DebugOf(d) == CASE d \in {"none", "", ",", ",,"} -> "off" [] d \in {"timings", "timings,", ",timings", "timings,timings"} -> "on" [] OTHER -> "bad"

VARIABLES w, a, pc, dir, kind, program, chosen, exit
vars == <<w, a, pc, dir, kind, program, chosen, exit>>
Init == /\ w \in Worlds /\ a \in Argvs /\ pc = "flags" /\ dir = "" /\ kind = "" /\ program = {} /\ chosen = {} /\ exit = -1
Stop(c) == pc' = "end" /\ exit' = c
Flags == /\ pc = "flags"
         /\ CASE a.help -> Stop(0)
              [] ~a.help /\ DebugOf(a.debug) = "bad" -> Stop(1)
              [] OTHER -> pc' = "project" /\ exit' = exit
         /\ UNCHANGED <<w, a, dir, kind, program, chosen>>
\* which tsconfig: the one named, or tsconfig.json here, or an empty one if there is none
Project == /\ pc = "project"
           /\ LET m == CASE a.ts = "none" -> <<"r", IF w.root = "absent" THEN "default" ELSE w.root>>
                         [] a.ts \in {"here", "abs"} -> <<"r", w.root>>
                         [] a.ts \in {"sub", "dotsub"} -> <<"r/sub", w.sub>>
                         [] OTHER -> <<"", "absent">>
              IN /\ dir' = m[1] /\ kind' = m[2]
                 /\ IF m[2] \in Good THEN pc' = "load" /\ exit' = exit ELSE Stop(1)
           /\ UNCHANGED <<w, a, program, chosen>>
Load == /\ pc = "load"
        /\ program' = Close(Roots(kind, IF dir = "r" THEN UnderR ELSE UnderSub), w)
        /\ IF program' = {} THEN Stop(1) ELSE pc' = "select" /\ exit' = exit
        /\ UNCHANGED <<w, a, dir, kind, chosen>>
Select == /\ pc = "select"
          /\ chosen' = IF w.within THEN {} ELSE (program \ InNodeModules) \cap (IF dir = "r" THEN UnderR ELSE UnderSub)
          /\ pc' = "lint" /\ UNCHANGED <<w, a, dir, kind, program, exit>>
Lint == /\ pc = "lint" /\ Stop(0) /\ UNCHANGED <<w, a, dir, kind, program, chosen>>
Next == Flags \/ Project \/ Load \/ Select \/ Lint
Spec == Init /\ [][Next]_vars

Ended == pc = "end"
OwnFilesOnly == \A f \in chosen : f \notin InNodeModules /\ f \in program /\ f \in UnderR /\ (dir = "r/sub" => f \in UnderSub)
AllOwnFiles == (Ended /\ exit = 0 /\ ~a.help /\ ~w.within) => \A f \in program : f \in chosen \/ f \in InNodeModules \/ f \notin (IF dir = "r" THEN UnderR ELSE UnderSub)
NothingOnError == (Ended /\ exit # 0) => chosen = {}
\* every run ends
Ends == Ended \/ ENABLED Next
Reports == SumSet({Marks[f] * 100 + 1 : f \in {}})
Emit == Ended => PrintT(ToJson([w |-> [w EXCEPT !.imports = SetToSeq(w.imports), !.simports = SetToSeq(w.simports)], a |-> a, exit |-> exit,
                                help |-> a.help, chosen |-> SetToSeq(chosen), list |-> exit = 0 /\ a.list /\ ~a.help, timings |-> DebugOf(a.debug) = "on",
                                errors |-> FoldSet(LAMBDA f, n : n + Marks[f], 0, chosen)]))

World == [root : Good \cup Bad \cup {"absent"}, sub : {"default", "absent", "broken", "outside"}, imports : SUBSET {"r/sub/b.ts", "r/node_modules/m/index.ts", "out/o.ts", "rx/d.ts"},
          simports : {{}, {"r/sub/node_modules/k/index.ts"}, {"r/a.ts", "r/sub/deep/e.ts"}}, within : BOOLEAN]
Argv == [help : BOOLEAN, debug : {"none", "", ",", "timings", "timings,", ",timings", "bogus", "timings,bogus", "Timings", "timings bogus"},
         ts : {"none", "here", "abs", "sub", "dotsub", "missing", "folder"}, list : BOOLEAN, st : BOOLEAN]
Plain == [help |-> FALSE, debug |-> "none", ts |-> "none", list |-> FALSE, st |-> FALSE]
\* quick: all worlds with plain arguments for each way to name the project, and all arguments in two worlds
W1 == [root |-> "default", sub |-> "default", imports |-> {"r/node_modules/m/index.ts", "out/o.ts"}, simports |-> {"r/sub/node_modules/k/index.ts"}, within |-> FALSE]
W2 == [W1 EXCEPT !.root = "absent", !.sub = "broken"]
FewWorlds == {x \in World : x.within => x.imports \in {{}, {"r/node_modules/m/index.ts"}} /\ x.simports = {}}
PlainArgvs == {[Plain EXCEPT !.ts = t, !.list = TRUE] : t \in {"none", "here", "sub"}}
TwoWorlds == {W1, W2}
=============================================================================
