------------------------------ MODULE Payload ------------------------------
(* Decoding of a headless request (cmd/tsgolint/payload.go).  A document is described by how its text is damaged (if it
   is), the JSON value at each known member, and members that mean nothing. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* values a member may have; "absent" means it is not there
Version == {"absent", "null", "0", "2", "1", "3", "-2", "20", "'2'", "true", "1.5", "[]", "{}"}
Damage == {"none", "cut", "empty", "trailing", "array", "string", "null", "twice", "utf8", "comment"}
\* "ok" is a proper value that lints one file with one rule
Configs == {"absent", "null", "[]", "ok", "two", "{}", "'x'", "1", "[1]", "['x']", "[[]]", "paths:'x'", "paths:[1]", "rules:{}", "rules:['x']", "rules:[1]", "name:1", "entry:{}", "entry:null", "options:1"}
Files == {"absent", "null", "[]", "ok", "two", "{}", "'x'", "[1]", "path:1", "rules:'x'", "rules:[1]", "rules:[{}]"}
Overrides == {"absent", "null", "{}", "[]", "'x'", "value:1"}
Flag == {"absent", "null", "true", "false", "1", "'true'"}
Extra == {"none", "unknown", "nested"}

VARIABLES d, phase, verdict, lints
vars == <<d, phase, verdict, lints>>

Whole == {"0", "2", "1", "3", "-2", "20"}
Zero == {"absent", "null", "0"}
\* which values each member accepts (null stands for the member's default everywhere)
GoodConfigs == {"absent", "null", "[]", "ok", "two", "entry:{}", "entry:null", "options:1"}
GoodFiles == {"absent", "null", "[]", "ok", "two"}
GoodOverrides == {"absent", "null", "{}"}
GoodFlag == {"absent", "null", "true", "false"}
Linted(x) == CASE x = "ok" -> 1 [] x = "two" -> 2 [] OTHER -> 0

Values == [damage |-> Damage, version |-> Version, configs |-> Configs, files |-> Files, over |-> Overrides, syn |-> Flag, sem |-> Flag, extra |-> Extra]
Plain == [damage |-> "none", version |-> "2", configs |-> "ok", files |-> "absent", over |-> "absent", syn |-> "absent", sem |-> "absent", extra |-> "none"]
\* documents differing from a plain one of each format in up to two members, all combinations of version and both bodies
Docs == UNION {UNION {{[Plain EXCEPT ![m] = a, ![n] = b] : a \in Values[m], b \in Values[n]} : n \in DOMAIN Values} : m \in DOMAIN Values}
        \cup {[Plain EXCEPT !.version = v, !.configs = c, !.files = f] : v \in Version, c \in Configs, f \in Files}
        \cup {[Plain EXCEPT !.version = v, !.configs = "absent", !.files = "ok", !.over = o, !.syn = s, !.damage = g] : v \in Zero, o \in Overrides, s \in Flag, g \in Damage}
        \cup {[Plain EXCEPT !.over = o, !.syn = s, !.sem = t, !.extra = e] : o \in Overrides, s, t \in Flag, e \in Extra}

Init == d \in Docs /\ phase = "text" /\ verdict = "?" /\ lints = 0
Refuse(why) == phase' = "done" /\ verdict' = why /\ UNCHANGED <<d, lints>>
Parse == /\ phase = "text"
         /\ IF d.damage # "none" /\ d.damage # "null" THEN Refuse("malformed") ELSE phase' = "version" /\ UNCHANGED <<d, verdict, lints>>
V == IF d.damage = "null" THEN "absent" ELSE d.version
DecideVersion == /\ phase = "version"
                 /\ IF V \in Zero THEN phase' = "v1" /\ UNCHANGED <<d, verdict, lints>>
                    ELSE IF V = "2" THEN phase' = "v2" /\ UNCHANGED <<d, verdict, lints>>
                    ELSE IF V \in Whole THEN Refuse("version") ELSE Refuse("malformed")
FilesV == IF d.damage = "null" THEN "absent" ELSE d.files
DecodeV1 == /\ phase = "v1"
            /\ IF FilesV \notin GoodFiles THEN Refuse("malformed")
               ELSE IF FilesV \in {"absent", "null", "[]"} THEN Refuse("nofiles")
               ELSE phase' = "done" /\ verdict' = "accept" /\ lints' = Linted(FilesV) /\ d' = d
DecodeV2 == /\ phase = "v2"
            /\ IF d.configs \notin GoodConfigs \/ d.over \notin GoodOverrides \/ d.syn \notin GoodFlag \/ d.sem \notin GoodFlag THEN Refuse("malformed")
               ELSE phase' = "done" /\ verdict' = "accept" /\ lints' = Linted(d.configs) /\ d' = d
Next == Parse \/ DecideVersion \/ DecodeV1 \/ DecodeV2
Spec == Init /\ [][Next]_vars

Decided == phase = "done" => verdict \in {"accept", "malformed", "version", "nofiles"}
NothingLintedUnlessAccepted == lints > 0 => verdict = "accept"
OnlyKnownVersions == verdict = "accept" => V \in {"absent", "null", "0", "2"}
Emit == phase = "done" => PrintT(ToJson([d |-> d, verdict |-> verdict, lints |-> lints]))
=============================================================================
