------------------------------ MODULE Overlay ------------------------------
(* A file system layered over another one.  Kind "cmd": source overrides of headless requests (cmd/tsgolint/overlayfs.go);
   kind "virtual": generated files (internal/utils/overlay_vfs.go).  Paths are sequences of names.  The base file system
   is modelled as a map from file paths to contents and modification times; mutations go through the layer. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, IOUtils
CONSTANTS Cases
None == "-"
AllFiles == <<<<"x.ts">>, <<"d", "a.ts">>, <<"d", "s", "b.ts">>, <<"dx", "c.ts">>, <<"d", "s", "t", "e.ts">>>>
Nowhere == <<"d", "none.ts">>
QDirs == {<<>>, <<"d">>, <<"d", "s">>, <<"dx">>, <<"d", "s", "t">>, <<"d", "a.ts">>, <<"no">>}
Muts(fs) == {<<op, p>> : op \in {"W", "A", "R", "C"}, p \in fs \cup {Nowhere}}
SmallFiles == {AllFiles[i] : i \in 1..3}
\* exhaustive small: three files, at most one mutation
Small(kind) == {[kind |-> kind, base |-> b, over |-> o, cs |-> (o[AllFiles[1]] = None), muts |-> m] :
    b \in [SmallFiles -> {None, "B"}], o \in [SmallFiles -> {None, "", "VV"}], m \in {<<>>} \cup {<<x>> : x \in Muts(SmallFiles)}}
SmallCmd == Small("cmd")
SmallVirtual == {x \in Small("virtual") : \A i \in DOMAIN x.muts : x.muts[i][2] \notin SmallFiles \/ x.over[x.muts[i][2]] = None}
FromFile == LET s == ndJsonDeserialize(IOEnv.CASES)
                F(q) == [p \in {q[i].p : i \in DOMAIN q} |-> LET r == CHOOSE i \in DOMAIN q : q[i].p = p IN q[r].v] IN
    {[kind |-> s[i].kind, base |-> F(s[i].base), over |-> F(s[i].over), cs |-> s[i].cs, muts |-> s[i].muts] : i \in 1..Len(s)}

VARIABLES c, files, mtime, k, log, errs
vars == <<c, files, mtime, k, log, errs>>
Init == /\ c \in Cases /\ files = c.base @@ (Nowhere :> None) /\ mtime = [p \in DOMAIN files |-> 0] /\ k = 0 /\ log = <<>> /\ errs = <<>>
\* every mutation passes through to the base, unchanged
Mutate == /\ k < Len(c.muts)
          /\ LET op == c.muts[k + 1][1] p == c.muts[k + 1][2] has == files[p] # None IN
             /\ files' = CASE op = "W" -> [files EXCEPT ![p] = "w"]
                           [] op = "A" -> [files EXCEPT ![p] = (IF has THEN @ ELSE "") \o "aa"]
                           [] op = "R" -> [files EXCEPT ![p] = None]
                           [] op = "C" -> files
             /\ mtime' = IF op = "C" /\ has THEN [mtime EXCEPT ![p] = 9] ELSE mtime
             /\ errs' = Append(errs, op \in {"R", "C"} /\ ~has)
          /\ log' = Append(log, c.muts[k + 1]) /\ k' = k + 1 /\ UNCHANGED c
Spec == Init /\ [][Mutate]_vars
Settled == k = Len(c.muts)

(* ---- what the layer answers ---- *)
Ov(p) == p \in DOMAIN c.over /\ c.over[p] # None
Has(p) == p \in DOMAIN files /\ files[p] # None
Under(d) == {p \in DOMAIN files : Has(p) /\ IsStrictPrefix(d, p)}
VUnder(d) == {p \in DOMAIN c.over : Ov(p) /\ IsStrictPrefix(d, p)}
Exists(p) == Ov(p) \/ Has(p)
Read(p) == IF Ov(p) THEN [ok |-> TRUE, text |-> c.over[p]] ELSE IF Has(p) THEN [ok |-> TRUE, text |-> files[p]] ELSE [ok |-> FALSE, text |-> ""]
\* cmd: metadata and symlink resolution are the base's; virtual: a virtual file is its own regular file
Stat(p) == IF c.kind = "virtual" /\ Ov(p) THEN [size |-> Len(c.over[p]), mtime |-> 0, some |-> TRUE]
           ELSE IF Has(p) THEN [size |-> Len(files[p]), mtime |-> mtime[p], some |-> TRUE] ELSE [size |-> 0, mtime |-> 0, some |-> FALSE]
RealIsSelf(p) == c.kind = "virtual" /\ Ov(p)
Shown(d) == IF c.kind = "virtual" THEN Under(d) \cup VUnder(d) ELSE Under(d)
DirExists(d) == Shown(d) # {}
FilesIn(d) == {p[Len(p)] : p \in {q \in Shown(d) : Len(q) = Len(d) + 1}}
DirsIn(d) == {p[Len(d) + 1] : p \in {q \in Shown(d) : Len(q) > Len(d) + 1}}

(* ---- properties ---- *)
OverlayWins == \A p \in DOMAIN files : Ov(p) => Exists(p) /\ Read(p).text = c.over[p] /\ Read(p).ok
Transparent == (\A p \in DOMAIN c.over : ~Ov(p)) => \A p \in DOMAIN files : Exists(p) = Has(p) /\ (Has(p) => Read(p).text = files[p] /\ Stat(p).size = Len(files[p]))
MutationsReachBase == Len(log) = k /\ \A i \in 1..k : log[i] = c.muts[i]
Listed == c.kind = "virtual" => \A p \in DOMAIN files : Ov(p) => /\ DirExists(SubSeq(p, 1, Len(p) - 1)) /\ p[Len(p)] \in FilesIn(SubSeq(p, 1, Len(p) - 1))
Emit == Settled => PrintT(ToJson([kind |-> c.kind, base |-> SetToSeq({<<p, c.base[p]>> : p \in DOMAIN c.base}), over |-> SetToSeq({<<p, c.over[p]>> : p \in DOMAIN c.over}), cs |-> c.cs, muts |-> c.muts,
    errs |-> errs,
    files |-> SetToSeq({[p |-> p, exists |-> Exists(p), read |-> Read(p), stat |-> Stat(p), self |-> RealIsSelf(p)] : p \in DOMAIN files}),
    dirs |-> SetToSeq({[p |-> d, exists |-> DirExists(d), files |-> FilesIn(d), dirs |-> DirsIn(d), walk |-> Under(d)] : d \in QDirs}),
    final |-> SetToSeq({<<p, files[p]>> : p \in {q \in DOMAIN files : Has(q)}})]))
=============================================================================
