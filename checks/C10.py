"""C10: which project a file belongs to: Resolver.tla against the real resolver, files together and alone."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *

CFG = """SPECIFICATION Spec
CONSTANT Worlds <- %s
INVARIANTS Holds Complete Closest Own Emit
"""
DIRS = [[], ["a"], ["a", "b"], ["a", "b", "c"], ["a", "d"], ["e"], ["node_modules", "p"], ["a", "node_modules", "q"], ["ab"]]


def random_world(rng):
    dirs = [[]] + rng.sample(DIRS[1:], rng.randint(2, 6))
    files, seen = [], set()
    for _ in range(rng.randint(1, 9)):
        d, e = rng.choice(dirs), rng.choice(["ts", "ts", "ts", "tsx", "d.ts", "mts", "js", "js"])
        files.append(dict(dir=d, ext=e))
    configs, used = [], set()
    for _ in range(rng.randint(0, 6)):
        d, n = rng.choice(dirs), rng.choice(["tsconfig.json"] * 5 + ["jsconfig.json", "tsconfig.app.json", "tsconfig.lib.json"])
        if rng.random() < .15:
            d = rng.choice([x[:k] for x in dirs for k in range(len(x) + 1)])
        if (tuple(d), n) in used:
            continue
        used.add((tuple(d), n))
        configs.append(dict(dir=d, name=n))
    N = len(configs)
    ids = list(range(1, len(files) + 1))
    for c in configs:
        hf = rng.random() < .45
        hi = rng.random() < .35
        pool = [x[:k] for x in dirs for k in range(len(x) + 1)]
        below = [x for x in pool if x[:len(c["dir"])] == c["dir"]]
        any_ = pool if rng.random() < .3 else below
        c.update(hasFiles=hf, files=rng.sample(ids, rng.randint(0, min(3, len(ids)))) if hf else [], hasInclude=hi, include=[rng.choice(any_) for _ in range(rng.choice([0, 1, 1, 2]))] if hi and any_ else [],
                 exclude=[rng.choice(any_) for _ in range(rng.choice([0, 0, 1]))] if any_ and (hi or not hf) else [],
                 allowJs=rng.random() < .4, composite=rng.random() < .35, dss=rng.random() < .25,
                 refs=[rng.choice([rng.randint(1, N)] * 9 + [0]) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))])
    return dict(files=files, configs=configs)


def rel(frm, to):
    k = 0
    while k < len(frm) and k < len(to) and frm[k] == to[k]:
        k += 1
    return "/".join([".."] * (len(frm) - k) + to[k:]) or "."


def render(c, w, base):
    P = lambda d: "/".join([base] + d)
    out, names = {}, []
    for i, f in enumerate(w["files"]):
        p = "%s/f%d.%s" % (P(f["dir"]), i + 1, f["ext"])
        out[p] = "export {};" if i % 3 else ""
        names.append(p)
    cn = []
    for x in w["configs"]:
        o = {}
        if x["composite"]:
            o["composite"] = True
        if x["dss"]:
            o["disableSolutionSearching"] = True
        if x["allowJs"]:
            o["allowJs"] = True
        elif c.rng.random() < .2 and x["name"] != "jsconfig.json":
            o["allowJs"] = False
        d = dict(compilerOptions=o) if o or c.rng.random() < .5 else {}
        if x["hasFiles"]:
            d["files"] = ["%s/f%d.%s" % (rel(x["dir"], w["files"][i - 1]["dir"]), i, w["files"][i - 1]["ext"]) for i in x["files"]]
        if x["hasInclude"]:
            d["include"] = [rel(x["dir"], g) + c.rng.choice(["/**/*", ""]) for g in x["include"]]
        if x["exclude"]:
            d["exclude"] = [rel(x["dir"], g) + c.rng.choice(["/**/*", ""]) for g in x["exclude"]]
        if x["refs"] or c.rng.random() < .1:
            rs = []
            for r in x["refs"]:
                if r == 0:
                    rs.append(c.rng.choice(["./gone", "../gone/tsconfig.json"]))
                else:
                    t = w["configs"][r - 1]
                    p = rel(x["dir"], t["dir"])
                    if t["name"] != "tsconfig.json" or c.rng.random() < .5:
                        p = p + "/" + t["name"]
                    rs.append(c.rng.choice(["", "./"]) + p if not p.startswith(".") else p)
            d["references"] = [dict(path=r) for r in rs]
        p = P(x["dir"]) + "/" + x["name"]
        out[p] = json.dumps(d)
        cn.append(p)
    return out, names, cn


def body(c):
    eng = c.build("eng")["eng"]
    worlds = {}
    path = os.path.join(c.tmp, "worlds.ndjson")
    n = 20000 if c.thorough else 1500
    with open(path, "w") as fo:
        for i in range(n):
            w = random_world(c.rng)
            worlds["r%d" % i] = w
            fo.write(json.dumps(dict(id="r%d" % i, w=w)) + "\n")
    exp = {}
    _, out = c.tlc("Resolver", CFG % "FromFile", env={"CASES": path})
    c.tlc("Resolver", CFG.replace("Emit", "") % "Small", env={"CASES": path})
    c.tlc("Resolver", "SPECIFICATION Spec\nCONSTANT Worlds <- FromFile\nPROPERTY Terminates\n", env={"CASES": path}, count=False)
    for o in out:
        exp[o["id"], o["f"]] = o["res"]
    # the same small worlds, rendered
    L = [[]] + [[a] for a in (1, 2, 3)] + [[a, b] for a in (1, 2, 3) for b in (1, 2, 3)]
    small = [(r, h) for r in ((a, b, d) for a in L for b in L for d in L) for h in range(8)]
    small = small if c.thorough else c.rng.sample(small, 1500)
    spath = os.path.join(c.tmp, "small.ndjson")
    with open(spath, "w") as fo:
        for i, (r, h) in enumerate(small):
            w = dict(files=[dict(dir=["a"], ext="ts")], configs=[dict(dir=d, name="tsconfig.json", hasFiles=True, files=[1] if h >> k & 1 else [], hasInclude=False, include=[], exclude=[],
                     allowJs=False, composite=c.rng.random() < .2, dss=c.rng.random() < .2, refs=r[k]) for k, d in enumerate([["a"], [], ["x"]])])
            worlds["s%d" % i] = w
            fo.write(json.dumps(dict(id="s%d" % i, w=w)) + "\n")
    _, out = c.tlc("Resolver", CFG % "FromFile", env={"CASES": spath})
    for o in out:
        exp[o["id"], o["f"]] = o["res"]
    reqs, meta = [], []
    for i, w in sorted(worlds.items()):
        base = c.rng.choice(["/w", "/w/deep", "/v w", "/w/node_modules/z"])
        files, names, cn = render(c, w, base)
        q = list(names)
        c.rng.shuffle(q)
        if c.rng.random() < .2:
            q += q[:1]
        reqs.append(dict(op="resolve", files=files, cwd=c.rng.choice([base or "/", "/", "/elsewhere"]), queries=q, threads=[1, c.rng.choice([2, 3, 8, 16])]))
        meta.append((i, w, names, cn))
    found = 0
    for rq, (i, w, names, cn), r in zip(reqs, meta, c.driver(eng, reqs, procs=8)):
        c.validated += 1
        if "panic" in r:
            c.violation("resolving panics: %s" % r["panic"], dict(request=rq, got=r))
            continue
        for k, p in enumerate(names):
            e = exp[i, k + 1]
            e = cn[e - 1] if e else ""
            found += bool(e)
            for how, got in [("with the others on %d threads" % t, a) for t, a in zip(rq["threads"], r["all"])] + [("alone", r["alone"]), ("one after the other", r["shared"])]:
                if got.get(p) != e:
                    c.violation("%s, resolved %s, is assigned to %r instead of %r" % (p, how, got.get(p), e), dict(request=rq, got=r, expected=e, world=w))
        for a in r["all"]:
            if set(a) != set(names):
                c.violation("answers for %s instead of %s" % (sorted(a), names), rq)
        c.sample(dict(files=rq["files"], result=r["alone"]))
    c.count("files", sum(len(m[2]) for m in meta))
    c.count("files with a project", found)


main("C10", body)
