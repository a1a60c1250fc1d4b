------------------------------ MODULE Inferred ------------------------------
(* Files without a project: one shared program with the documented default options (internal/utils/create_program.go
   CreateInferredProjectProgram), checked once, whatever else the request contains.  A probe is a one-file program whose
   verdict under a set of options shows what those options are. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bags, TLC, Json

CONSTANTS Sets          \* sets of probes requested together

Defaults == [allowJs |-> TRUE, module |-> "esnext", resolution |-> "bundler", target |-> 2022, jsx |-> "react-jsx", tsExtensions |-> TRUE,
             strictNullChecks |-> TRUE, strictFunctionTypes |-> TRUE, interop |-> TRUE, json |-> TRUE, dom |-> TRUE, strict |-> TRUE, checkJs |-> FALSE,
             decorators |-> FALSE, extras |-> FALSE]
\* what is reported on each probe: compiler errors (numbers) and "float" (the lint rule's report)
Verdict(p, o) ==
    CASE p = "nullstr.ts" -> IF o.strictNullChecks THEN {"TS2322"} ELSE {}
      [] p = "variance.ts" -> IF o.strictFunctionTypes THEN {"TS2322"} ELSE {}
      [] p = "es2023.ts" -> IF o.target < 2023 THEN {"TS2550"} ELSE {}
      [] p = "es2022.ts" -> IF o.target < 2022 THEN {"TS2550"} ELSE {}
      [] p = "bigint.ts" -> IF o.target < 2020 THEN {"TS2737"} ELSE {}
      [] p = "regexv.ts" -> IF o.target < 2024 THEN {"TS1501"} ELSE {}
      [] p = "tla.ts" -> IF o.module = "esnext" /\ o.target >= 2017 THEN {} ELSE {"TS1378"}
      [] p = "tsext.ts" -> IF o.tsExtensions THEN {} ELSE {"TS5097"}
      [] p = "json.ts" -> IF o.json THEN {} ELSE {"TS2732"}
      [] p = "interop.ts" -> IF o.interop THEN {} ELSE {"TS1259"}
      [] p = "pkg.ts" -> IF o.resolution \in {"bundler", "node16"} THEN {} ELSE {"TS2307"}
      [] p = "extless.ts" -> IF o.resolution = "node16" THEN {"TS2835"} ELSE {}
      [] p = "jsx.tsx" -> CASE o.jsx = "react-jsx" -> {"TS2875", "TS7026"} [] o.jsx = "none" -> {"TS17004", "TS7026"} [] OTHER -> {"TS7026"}
      [] p = "importeq.ts" -> IF o.module = "esnext" THEN {"TS1202"} ELSE {}
      [] p = "exporteq.ts" -> IF o.module = "esnext" THEN {"TS1203"} ELSE {}
      [] p = "dom.ts" -> IF o.dom THEN {} ELSE {"TS2584"}
      [] p = "plain.js" -> (IF o.allowJs THEN {"float"} ELSE {}) \cup (IF o.checkJs THEN {"TS2322"} ELSE {})
      [] p = "implicit.ts" -> IF o.strict THEN {"TS7006"} ELSE {}
      [] p = "noinit.ts" -> IF o.strict THEN {"TS2564"} ELSE {}
      [] p = "catchany.ts" -> IF o.strict THEN {"TS18046"} ELSE {}
      [] p = "dec.ts" -> IF o.decorators THEN {} ELSE {"TS1206"}
      [] p \in {"mod.mts", "com.cts", "float.ts", "uses.ts"} -> {"float"}
      [] OTHER -> IF o.extras THEN {"?"} ELSE {}     \* probes of checks that are off by default
Probes == {"nullstr.ts", "variance.ts", "es2023.ts", "es2022.ts", "bigint.ts", "regexv.ts", "tla.ts", "tsext.ts", "json.ts", "interop.ts", "pkg.ts", "extless.ts", "jsx.tsx",
           "importeq.ts", "exporteq.ts", "dom.ts", "plain.js", "implicit.ts", "noinit.ts", "catchany.ts", "dec.ts", "mod.mts", "com.cts", "float.ts", "uses.ts",
           "unused.ts", "idx.ts", "exact.ts", "iso.ts", "verb.ts", "enum.ts", "override.ts", "ret.ts", "fall.ts", "lib.ts", "dyn.ts"}

VARIABLES req,      \* probes requested
          np,       \* how many projects' files are requested besides
          left,     \* programs still to be run: projects 1..np and 0, the shared one
          runs,     \* how often each probe was checked
          out
vars == <<req, np, left, runs, out>>
Init == /\ req \in Sets /\ np \in 0..2 /\ left = 0..np /\ runs = [p \in req |-> 0] /\ out = EmptyBag
Run(k) == /\ k \in left /\ left' = left \ {k}
          /\ IF k = 0 THEN /\ runs' = [p \in req |-> runs[p] + 1]
                           /\ out' = out (+) SetToBag(UNION {{<<p, m>> : m \in Verdict(p, Defaults)} : p \in req})
             ELSE out' = out (+) SetToBag({<<"project", k>>}) /\ runs' = runs
          /\ UNCHANGED <<req, np>>
Next == \E k \in left : Run(k)
Spec == Init /\ [][Next]_vars

Done == left = {}
Once == \A p \in req : runs[p] <= 1 /\ (Done => runs[p] = 1)
\* the projects requested besides make no difference to the files without one
Independent == Done => {m \in BagToSet(out) : m[1] # "project"} = UNION {{<<p, m>> : m \in Verdict(p, Defaults)} : p \in req}
Emit == Done => PrintT(ToJson([req |-> SetToSeq(req), np |-> np, out |-> SetToSeq({m \in BagToSet(out) : m[1] # "project"})]))

Small == {{p} : p \in Probes} \cup {Probes} \cup {{p, q} : p, q \in Probes} \cup {Probes \ {p} : p \in Probes}
Few == {{p} : p \in Probes} \cup {Probes} \cup {Probes \ {p} : p \in Probes}
Plain == {p \in Probes : Verdict(p, [Defaults EXCEPT !.extras = TRUE]) = {"?"}}
\* every option matters to some probe: the probes can tell the defaults from any other setting
Telling == \A o \in {[Defaults EXCEPT !.allowJs = FALSE], [Defaults EXCEPT !.module = "commonjs"], [Defaults EXCEPT !.resolution = "node16"], [Defaults EXCEPT !.resolution = "classic"],
                     [Defaults EXCEPT !.target = 2023], [Defaults EXCEPT !.target = 2021], [Defaults EXCEPT !.jsx = "none"], [Defaults EXCEPT !.jsx = "preserve"],
                     [Defaults EXCEPT !.tsExtensions = FALSE], [Defaults EXCEPT !.strictNullChecks = FALSE], [Defaults EXCEPT !.strictFunctionTypes = FALSE],
                     [Defaults EXCEPT !.interop = FALSE], [Defaults EXCEPT !.json = FALSE], [Defaults EXCEPT !.dom = FALSE], [Defaults EXCEPT !.strict = FALSE],
                     [Defaults EXCEPT !.checkJs = TRUE], [Defaults EXCEPT !.decorators = TRUE], [Defaults EXCEPT !.extras = TRUE]} :
              \E p \in Probes : Verdict(p, o) # Verdict(p, Defaults)
ASSUME Telling
=============================================================================
