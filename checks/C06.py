"""C06: TypeScript errors: every combination of switches and requested files of Headless.tla against the real program; then the corpus, where what
the compiler alone finds is the reference."""
import sys, os, json, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import world, corpus


def body(c):
    bins = c.build("tsgolint", "eng")
    b = bins["tsgolint"]
    n = 8000 if c.thorough else 700
    rnd = [world.random_case(c.rng, "r%d" % i, nfiles=5) for i in range(n)]
    world.conform(c, b, world.model(c, ["SmallErrors"], rnd), kinds=("rule", "ts"))
    whole(c, b, bins["eng"])


BREAK = ["\nlet zz1: number = 'x';", "\n// @ts-ignore\nlet zz2: number = 'x';", "\n// @ts-expect-error\nlet zz3 = 1;", "\nlet zz4 = ;", "\nclass {", "\n/// <reference types=\"nowhere\" />",
         "\nimport { zz5 } from './nowhere.js';", "\nzz6.foo();", "\nconst zz7 = (a: string) => a; zz7(1);", "\ninterface Zz8 { a: string } const zz8: Zz8 = { b: 1 };", "\nenum Zz9 { A = 'x'.length + 'a' }", "\nreturn 1;", "\nawait 1;"]
HEAD = ["// @ts-nocheck\n", "/// <reference path=\"./gone.ts\" />\n", "/// <reference types=\"gone\" />\n", "/// <reference lib=\"nolib\" />\n", "\ufeff"]


def whole(c, b, eng):
    S = corpus.snippets()
    rules = sorted({s["rule"] for s in S})
    for force in (True, False):
        part = []
        for s in c.rng.sample(S, len(S) if c.thorough else 2400 if force else 700):
            s = dict(s)
            if c.rng.random() < .5:
                s["code"] += "".join(c.rng.sample(BREAK, c.rng.choice([1, 1, 2])))
            if c.rng.random() < .15:
                s["code"] = c.rng.choice(HEAD) + s["code"]
            if c.rng.random() < .1:
                s["code"] = s["code"][:c.rng.randrange(len(s["code"]) + 1)]
            part.append(s)
        root = os.path.join(c.tmp, "corpus%d" % force)
        by = corpus.lay(root, part, chunk=400, force=force)
        ref = dict(syn=collections.Counter(), sem=collections.Counter())
        confs = sorted({os.path.dirname(p) + "/tsconfig.json" for p in by})
        for r in c.driver(eng, [dict(op="compile", config=x, cwd=root) for x in confs], procs=8):
            if "panic" in r:
                raise CheckError(r["panic"])
            for k in ref:
                ref[k].update((f, *d) for f, ds in r[k].items() for d in ds)
        c.count("errors of the compiler", sum(ref["syn"].values()) + sum(ref["sem"].values()))
        lint = None
        for i, (syn, sem) in enumerate([(1, 1), (1, 0), (0, 1), (0, 0)] * (6 if c.thorough else 2)):
            req = list(by) if i == 0 else [p for p in by if c.rng.random() < c.rng.choice([.1, .6])]
            on = set(req)
            with_rules = i < 4
            pl = dict(version=2, configs=[dict(file_paths=req, rules=[dict(name=r) for r in rules] if with_rules else [])])
            for k, v in (("report_syntactic", syn), ("report_semantic", sem)):
                if v or c.rng.random() < .5:
                    pl[k] = bool(v)
            r = headless(b, pl, (), {"GOMAXPROCS": c.rng.choice(["1", "8"])}, cwd=root, timeout=300)
            if r["rc"]:
                c.violation("exit status %d on the corpus: %s" % (r["rc"], r["err"][-800:]), pl)
                return
            ts, rep = collections.Counter(), collections.Counter()
            for k, d in r["frames"]:
                if k == 1 and d["kind"] == 1:
                    ts[(d["file_path"], d["message"]["id"], (d.get("range") or {}).get("pos"), (d.get("range") or {}).get("end"), d["message"]["description"])] += 1
                elif k == 1:
                    rep[canon([1, d])] += 1
            want = collections.Counter()
            for k, v in (("syn", syn), ("sem", sem)):
                if v:
                    want.update((f, "TS%d" % code, pos, end, text) for (f, code, pos, end, text), n in ref[k].items() for _ in range(n) if f in on)
            if ts != want:
                c.violation("syntactic %d, semantic %d, %d of %d files: not reported %s, unexpected %s" % (syn, sem, len(req), len(by), list((want - ts).items())[:3], list((ts - want).items())[:3]), dict(missing=list((want - ts).items())[:20], unexpected=list((ts - want).items())[:20], request=pl))
            if i == 0:
                lint = rep
            elif with_rules:
                was = collections.Counter({m: n for m, n in lint.items() if json.loads(m)[1]["file_path"] in on})
                for key_, (a, z, s) in corpus.differing(was, rep, by).items():
                    c.violation("%s: with all errors reported %s, with syntactic %d and semantic %d %s" % (key_, a[:2], syn, sem, z[:2]), dict(missing=a, unexpected=z, code=s and s["code"]), key=key_)
            c.count("requests on the corpus")
            c.validated += 1
    c.listed()


main("C06", body)
