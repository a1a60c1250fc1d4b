-------------------------------- MODULE Allow --------------------------------
(* Allow-lists: a list of specifiers grows; a type declared somewhere in the world and written in some way is allowed from the first         *)
(* specifier on that names it and the place it is declared in.                                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Length, Walks
VARIABLES place, kind, use, list, w
vars == <<place, kind, use, list, w>>
World == [
  main     |-> [file |-> "main.ts", inside |-> TRUE, pkgs |-> {}],
  sub      |-> [file |-> "sub/loc.ts", inside |-> TRUE, pkgs |-> {}],
  beside   |-> [file |-> "../projx/out.ts", inside |-> FALSE, pkgs |-> {}],
  above    |-> [file |-> "../other/out.ts", inside |-> FALSE, pkgs |-> {}],
  pkg      |-> [file |-> "node_modules/pkg/index.d.ts", inside |-> TRUE, pkgs |-> {"pkg"}],
  deep     |-> [file |-> "node_modules/pkg/lib/deep.d.ts", inside |-> TRUE, pkgs |-> {"pkg"}],
  scoped   |-> [file |-> "node_modules/@sc/pk/index.d.ts", inside |-> TRUE, pkgs |-> {"@sc/pk"}],
  types    |-> [file |-> "node_modules/@types/tp/index.d.ts", inside |-> TRUE, pkgs |-> {"tp", "@types/tp"}],
  tscoped  |-> [file |-> "node_modules/@types/sc__tq/index.d.ts", inside |-> TRUE, pkgs |-> {"@sc/tq", "@types/sc__tq", "sc__tq"}],
  inner    |-> [file |-> "node_modules/pkg/node_modules/inner/index.d.ts", inside |-> TRUE, pkgs |-> {"inner"}],
  noname   |-> [file |-> "node_modules/plain/index.d.ts", inside |-> TRUE, pkgs |-> {"plain"}],
  nested   |-> [file |-> "node_modules/plain/node_modules/nest/index.d.ts", inside |-> TRUE, pkgs |-> {"nest"}],
  scbare   |-> [file |-> "node_modules/@sn/bare/index.d.ts", inside |-> TRUE, pkgs |-> {"@sn/bare"}],
  tbare    |-> [file |-> "node_modules/@types/tb/index.d.ts", inside |-> TRUE, pkgs |-> {"tb", "@types/tb"}],
  ambient  |-> [file |-> "amb.d.ts", inside |-> TRUE, pkgs |-> {"amb"}],
  ambns    |-> [file |-> "amb.d.ts", inside |-> TRUE, pkgs |-> {"amb"}],
  lib      |-> [file |-> "", inside |-> FALSE, pkgs |-> {}],
  keyword  |-> [file |-> "", inside |-> FALSE, pkgs |-> {}]]
Places == DOMAIN World
Kinds(p) == IF p \in {"lib", "keyword"} THEN {"class"} ELSE {"class", "iface", "object", "union", "generic"}
Uses(p, k) == {"plain", "union"} \cup (IF k # "union" /\ p # "keyword" THEN {"inter"} ELSE {}) \cup (IF k \in {"class", "iface"} /\ p # "keyword" THEN {"sub"} ELSE {})
Files == {World[p].file : p \in Places} \ {""}
Packages == UNION {World[p].pkgs : p \in Places} \cup {"pk", "sc", "bare", "@sn"}
Names == {"own", "both", "other", "list"}      \* the type's own name, its name among others, another name, a list of others
Spec1(form, name, arg) == [form |-> form, name |-> name, arg |-> arg]
Specs == {Spec1("name", n, "") : n \in {"own", "other"}} \cup {Spec1("file", n, "") : n \in Names} \cup {Spec1("path", n, f) : n \in Names, f \in Files}
         \cup {Spec1("lib", n, "") : n \in Names} \cup {Spec1("package", n, p) : n \in Names, p \in Packages}
NameFits(s) == s.name \in {"own", "both"}
SourceFits(s, p) == CASE s.form = "name" -> TRUE
                      [] s.form = "file" -> World[p].inside
                      [] s.form = "path" -> World[p].file = s.arg
                      [] s.form = "lib" -> p \in {"lib", "keyword"}
                      [] s.form = "package" -> s.arg \in World[p].pkgs
Fits(s, p) == NameFits(s) /\ SourceFits(s, p)
Declared(l, p) == \E i \in 1..Len(l) : Fits(l[i], p)
\* a subtype is another type, an intersection is allowed when one of its parts is
Whole(l) == use \in {"plain", "inter"} /\ Declared(l, place)
\* rules that look at the members of a union one by one, and at the types a class or an interface extends
Parts(l) == Declared(l, place)
R(s) == RandomElement(s)
Likely(p) == {s \in Specs : s.name \in {"own", "both"} /\ (s.arg \in World[p].pkgs \cup {World[p].file, ""})}
Init == /\ w \in 1..Walks /\ list = <<>>
        /\ place \in (IF Walks = 1 THEN Places ELSE {R(Places)}) /\ kind \in (IF Walks = 1 THEN Kinds(place) ELSE {R(Kinds(place))}) /\ use \in (IF Walks = 1 THEN Uses(place, kind) ELSE {R(Uses(place, kind))})
Add == Len(list) < Length /\ UNCHANGED <<place, kind, use, w>> /\ (IF Walks = 1 THEN \E s \in Specs : list' = Append(list, s) ELSE \E s \in {IF R(1..3) = 1 THEN R(Likely(place)) ELSE R(Specs)} : list' = Append(list, s))
Spec == Init /\ [][Add]_vars
Grows == [][Whole(list) => Whole(list')]_vars
Narrow == \A i \in 1..Len(list) : list[i].form # "name" /\ Fits(list[i], place) => Fits(Spec1("name", "own", ""), place)
Emit == list # <<>> => PrintT(ToJson([place |-> place, kind |-> kind, use |-> use, list |-> list, whole |-> Whole(list), parts |-> Parts(list)]))
=============================================================================
