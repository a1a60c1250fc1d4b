------------------------------ MODULE Headless ------------------------------
(* One headless request, from the decoded document to the messages on standard output (cmd/tsgolint/headless.go,
   payload.go, internal/linter/linter.go RunLinter).

   A world has projects and files.  The content of a file is a sequence of marks, one per source line; what each rule and
   the compiler say about each mark is tabulated below (Says, Errors).  A mark "use" calls a function imported from the file's
   dep and leaves its result unhandled; it matters to no-floating-promises whether the dep exports a promise.
     world:   projects: sequence of "ok" or the kind of breakage; files: sequence of [proj, marks, dep, exp, js]
              (proj 0: in no project; dep 0: none; exp: what it exports, "promise" or "number")
     request: entries: sequence of [files: sequence of file numbers, rules: sequence of [n: name, o: option set]],
              over: set of [f, marks, exp] (source overrides), syn, sem, timing, fix, sug, suppress: flags, version *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bags, TLC, Json, IOUtils

CONSTANT Cases

VARIABLES c,        \* the case: [w |-> world, r |-> request]
          phase,    \* "decode", "run", "done"
          progs,    \* projects still to be processed (0: the inferred one)
          open,     \* files still to be linted in the project being processed
          cur,      \* that project, or -1
          out,      \* messages delivered so far (a bag)
          fin       \* final messages: <<>>, <<"error">> or <<"timing">>
vars == <<c, phase, progs, open, cur, out, fin>>

W == c.w
R == c.r
FileNos == DOMAIN W.files
Over(f) == {o \in ToSet(R.over) : o.f = f}
Marks(f) == IF Over(f) = {} THEN W.files[f].marks ELSE (CHOOSE o \in Over(f) : TRUE).marks
Exports(f) == IF Over(f) = {} THEN W.files[f].exp ELSE (CHOOSE o \in Over(f) : TRUE).exp
Js(f) == W.files[f].js

(* ---- what is wrong with each mark ---- *)
Says(f, m, r) ==        \* does rule r report on mark m of file f?
    CASE r.n = "no-array-delete" -> m = "del"
      [] r.n = "only-throw-error" -> m = "throw" \/ (m = "throwunknown" /\ r.o = "strict")
      [] r.n = "no-floating-promises" -> m = "float" \/ (m = "voidfloat" /\ r.o = "strict") \/ (m = "use" /\ Exports(W.files[f].dep) = "promise")
                                         \/ (m = "iife" /\ r.o # "lax")
      [] r.n = "await-thenable" -> m = "await" \/ (m = "awaituse" /\ Exports(W.files[f].dep) = "number")
      [] r.n = "no-for-in-array" -> m = "forin"
      [] r.n = "restrict-template-expressions" -> (m = "tmplnum" /\ r.o = "strict") \/ m = "tmplobj"
      [] r.n = "dot-notation" -> m = "brackets"
      [] OTHER -> FALSE
Syntax == [badconst |-> "TS1109", badparen |-> "TS1005"]
\* type errors; the last depends on the compiler options: the projects have no DOM library, files without a project do
Everywhere == [mismatch |-> "TS2322", undef |-> "TS2304", nullstr |-> "TS2322", variance |-> "TS2322", es2023 |-> "TS2550",
               implicit |-> "TS7006", noinit |-> "TS2564", catchany |-> "TS18046"]
InStrict == [dom |-> "TS2584"]
Semantic(f) == IF Js(f) THEN [x \in {} |-> ""]          \* types are not checked in JavaScript files
               ELSE IF W.files[f].proj = 0 THEN Everywhere ELSE Everywhere @@ InStrict
SemErr(f, m) == m \in DOMAIN Semantic(f)
SynErr(m) == m \in DOMAIN Syntax

(* ---- configuration: the last entry that lists a file counts ---- *)
Listing(f) == {e \in DOMAIN R.entries : f \in ToSet(R.entries[e].files)}
Requested == {f \in FileNos : Listing(f) # {}}
RulesOf(f) == IF f \notin Requested THEN <<>> ELSE R.entries[CHOOSE e \in Listing(f) : \A d \in Listing(f) : d <= e].rules
ProjectOf(f) == W.files[f].proj
Broken(p) == p # 0 /\ W.projects[p] # "ok" /\ ~(R.suppress /\ W.projects[p] \in {"option", "unknown", "conflict", "base"})

(* ---- messages ---- *)
Fixable == {"dot-notation"}
Suggestible == {"no-array-delete", "no-floating-promises", "await-thenable"}
RuleMsgs(f) == BagUnion({SetToBag({[k |-> "rule", f |-> f, r |-> RulesOf(f)[j].n, l |-> i] : i \in {i \in DOMAIN Marks(f) : Says(f, Marks(f)[i], RulesOf(f)[j])}}) : j \in DOMAIN RulesOf(f)})
TsMsgs(p) == LET fs == {f \in Requested : ProjectOf(f) = p}
             IN SetToBag(UNION {{[k |-> "ts", f |-> f, r |-> Syntax[Marks(f)[i]], l |-> i] : i \in {i \in DOMAIN Marks(f) : R.syn /\ SynErr(Marks(f)[i])}}
                         \cup {[k |-> "ts", f |-> f, r |-> Semantic(f)[Marks(f)[i]], l |-> i] : i \in {i \in DOMAIN Marks(f) : R.sem /\ SemErr(f, Marks(f)[i])}} : f \in fs})
ConfigMsg(p) == SetToBag({[k |-> "tsconfig", f |-> p, r |-> "tsconfig-error", l |-> 0]})

Refused == R.version \notin {0, 1, 2} \/ (R.version = 1 /\ R.entries = <<>>)      \* 1 stands for a V1 document

Init == /\ c \in Cases /\ phase = "decode" /\ progs = {} /\ open = {} /\ cur = -1 /\ out = EmptyBag /\ fin = <<>>
Refuse == phase = "decode" /\ Refused /\ phase' = "done" /\ fin' = <<"error">> /\ UNCHANGED <<c, progs, open, cur, out>>
Accept == /\ phase = "decode" /\ ~Refused /\ phase' = "run" /\ progs' = {ProjectOf(f) : f \in Requested} \cup {0}
          /\ UNCHANGED <<c, open, cur, out, fin>>
Fail(p) == /\ phase = "run" /\ cur = -1 /\ p \in progs /\ Broken(p)
           /\ out' = out (+) ConfigMsg(p) /\ progs' = progs \ {p} /\ UNCHANGED <<c, phase, open, cur, fin>>
Begin(p) == /\ phase = "run" /\ cur = -1 /\ p \in progs /\ ~Broken(p)
            /\ cur' = p /\ open' = {f \in Requested : ProjectOf(f) = p} /\ out' = out (+) TsMsgs(p) /\ UNCHANGED <<c, phase, progs, fin>>
Lint(f) == /\ phase = "run" /\ f \in open /\ open' = open \ {f} /\ out' = out (+) RuleMsgs(f) /\ UNCHANGED <<c, phase, progs, cur, fin>>
End == /\ phase = "run" /\ cur # -1 /\ open = {} /\ progs' = progs \ {cur} /\ cur' = -1 /\ UNCHANGED <<c, phase, open, out, fin>>
Finish == /\ phase = "run" /\ cur = -1 /\ progs = {} /\ phase' = "done" /\ fin' = (IF R.timing THEN <<"timing">> ELSE <<>>)
          /\ UNCHANGED <<c, progs, open, cur, out>>
Next == Refuse \/ Accept \/ (\E p \in progs : Fail(p) \/ Begin(p)) \/ (\E f \in open : Lint(f)) \/ End \/ Finish
Spec == Init /\ [][Next]_vars
\* one representative order, for large cases (the result is the same: Outcome)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
NextOne == Refuse \/ Accept \/ (progs # {} /\ (Fail(Least(progs)) \/ Begin(Least(progs)))) \/ (open # {} /\ Lint(Least(open))) \/ End \/ Finish
SpecOne == Init /\ [][NextOne]_vars

(* ---- properties ---- *)
Done == phase = "done"
\* the outcome is a function of the request and the world, whatever order projects and files are processed in
Live == {f \in Requested : ~Broken(ProjectOf(f))}
Outcome == Done => out = IF Refused THEN EmptyBag ELSE
    BagUnion({RuleMsgs(f) : f \in Live}) (+) BagUnion({TsMsgs(p) : p \in {ProjectOf(f) : f \in Live}})
    (+) BagUnion({ConfigMsg(p) : p \in {ProjectOf(f) : f \in Requested \ Live}})
RefusedSilently == Done /\ Refused => out = EmptyBag /\ fin = <<"error">>
TimingOnce == Done /\ ~Refused => fin = (IF R.timing THEN <<"timing">> ELSE <<>>)
OnlyRequested == \A m \in BagToSet(out) : m.k = "tsconfig" \/ m.f \in Requested
OnlyConfigured == \A m \in BagToSet(out) : m.k = "rule" => \E j \in DOMAIN RulesOf(m.f) : RulesOf(m.f)[j].n = m.r
BrokenSilent == \A m \in BagToSet(out) : m.k # "tsconfig" => ~Broken(ProjectOf(m.f))
ErrorsAsAsked == \A m \in BagToSet(out) : m.k = "ts" => (R.syn \/ R.sem)
\* edits: present exactly when asked for, and only where the rule offers any
Edits(m) == <<m.k = "rule" /\ R.fix /\ m.r \in Fixable, m.k = "rule" /\ R.sug /\ m.r \in Suggestible>>
RanRules == UNION {{RulesOf(f)[j].n : j \in DOMAIN RulesOf(f)} : f \in Live}
Emit == Done => PrintT(ToJson([id |-> c.id, c |-> IF c.id = "" THEN <<W, R>> ELSE <<>>, out |-> SetToSeq({<<m.k, m.f, m.r, m.l, CopiesIn(m, out), Edits(m)[1], Edits(m)[2]>> : m \in BagToSet(out)}), fin |-> fin, ran |-> RanRules]))

FromFile == LET s == ndJsonDeserialize(IOEnv.CASES) IN {s[i] : i \in 1..Len(s)}

(* ---- exhaustive small families ---- *)
Fl(p, ms) == [proj |-> p, marks |-> ms, dep |-> 0, exp |-> "number", js |-> FALSE]
Req(es) == [entries |-> es, over |-> <<>>, syn |-> FALSE, sem |-> FALSE, timing |-> FALSE, fix |-> FALSE, sug |-> FALSE, suppress |-> FALSE, version |-> 2]
Ru(n, o) == [n |-> n, o |-> o]
Two == [projects |-> <<"ok">>, files |-> <<Fl(1, <<"float", "voidfloat", "del">>), Fl(0, <<"del", "voidfloat">>)>>]
RuleSets == {<<>>, <<Ru("no-floating-promises", "default")>>, <<Ru("no-array-delete", "default"), Ru("no-floating-promises", "strict")>>}
Entry == [files : {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>}, rules : RuleSets]
Number(S) == {[id |-> "", w |-> x.w, r |-> x.r] : x \in S}
\* every assignment of rules to two files by up to two entries
SmallEntries == Number({[w |-> Two, r |-> Req(es)] : es \in {<<>>} \cup {<<e>> : e \in Entry} \cup {<<e, d>> : e, d \in Entry}})
\* every combination of switches and requested subset of three files with errors
Errs == [projects |-> <<"ok">>, files |-> <<Fl(1, <<"mismatch", "float", "badconst">>), Fl(1, <<"undef", "badparen">>), Fl(0, <<"mismatch", "badconst", "del">>)>>]
SmallErrors == Number({[w |-> Errs, r |-> [Req(<<[files |-> fs, rules |-> rs]>>) EXCEPT !.syn = a, !.sem = b, !.timing = t]]
    : fs \in {<<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 3>>, <<3, 1>>, <<3, 2, 1>>}, rs \in RuleSets, a, b, t \in BOOLEAN})
\* every pair of project states
Kinds == {"ok", "json", "option", "unknown", "extends", "conflict", "base"}
Proj(a, b) == [projects |-> <<a, b>>, files |-> <<Fl(1, <<"float">>), Fl(2, <<"del", "float">>), Fl(0, <<"del">>), Fl(1, <<"mismatch", "del">>)>>]
SmallBroken == Number({[w |-> Proj(a, b), r |-> [Req(<<[files |-> fs, rules |-> <<Ru("no-array-delete", "default"), Ru("no-floating-promises", "default")>>]>>) EXCEPT !.suppress = s, !.sem = m]]
    : a, b \in Kinds, fs \in {<<1, 2, 3, 4>>, <<2, 1>>, <<4, 3>>}, s, m \in BOOLEAN})
\* every override of an imported file, its importer and a third file, in one project, across projects and without one
Use(p, d, ms) == [proj |-> p, marks |-> ms, dep |-> d, exp |-> "number", js |-> FALSE]
OverWorld(a, b) == [projects |-> <<"ok", "ok">>, files |-> <<Use(a, 2, <<"use", "awaituse">>), [Fl(b, <<"del">>) EXCEPT !.exp = "promise"], Use(0, 2, <<"use", "float">>)>>]
Ov(f, ms, e) == [f |-> f, marks |-> ms, exp |-> e]
SmallOver == Number({[w |-> OverWorld(a, b), r |-> [Req(<<[files |-> fs, rules |-> <<Ru("no-array-delete", "default"), Ru("no-floating-promises", "default"), Ru("await-thenable", "default")>>]>>) EXCEPT !.over = o]]
    : a, b \in 0..2, fs \in {<<1>>, <<2>>, <<1, 2, 3>>, <<3, 1>>},
      o \in {<<>>, <<Ov(2, <<"float", "del">>, "number")>>, <<Ov(2, <<>>, "promise")>>, <<Ov(1, <<"del", "use">>, "promise"), Ov(2, <<"del">>, "number")>>, <<Ov(3, <<"awaituse">>, "number"), Ov(1, <<>>, "number")>>}})
=============================================================================
