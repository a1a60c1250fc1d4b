"""C14: ApplyRuleFixes against Fixer.tla."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *

CFG = """SPECIFICATION Spec
CONSTANT Cases <- %s
INVARIANTS WholeOrNothing NoOverlap Result Justified Greedy Emit
"""


def random_cases(c, num):
    out = []
    for _ in range(num):
        n = c.rng.randint(3, 9)
        diags = []
        for _ in range(c.rng.randint(2, 5)):
            pts = sorted(c.rng.choice(range(n + 1)) for _ in range(2 * c.rng.choice([0, 1, 1, 1, 2, 2, 3])))
            ed = [dict(p=pts[i], e=pts[i + 1]) for i in range(0, len(pts), 2)]
            c.rng.shuffle(ed)
            diags.append(ed)
        out.append(dict(n=n, diags=diags))
    return out


def body(c):
    eng = c.build("eng")["eng"]
    expect = {}
    cfgs = ["Small2", "Small3"]
    path = os.path.join(c.tmp, "cases.ndjson")
    with open(path, "w") as f:
        for x in random_cases(c, 20000 if c.thorough else 1500):
            f.write(json.dumps(x) + "\n")
    for cf in cfgs + ["FromFile"]:
        _, cases = c.tlc("Fixer", CFG % cf, env={"CASES": path}, timeout=600 if not c.thorough else 3600)
        for x in cases:
            expect.setdefault(canon([x["n"], x["diags"]]), []).append(x)
    keys = sorted(expect)
    if not c.thorough and len(keys) > 9000:
        keys = c.rng.sample(keys, 9000)
    # renderings: (characters of the text, replacement texts)
    CH = ["abcdefghi", "\u00e9\u4e2d\U0001F600x\u00df\u0416\n\t~", "\r\n\r\na\\'\"b"]
    RP = [lambda d, k: "<%d.%d>" % (d, k), lambda d, k: "" if (d + k) % 2 else "[%d%d\u20ac]" % (d, k), lambda d, k: "R" * (300 * d + k)]
    reqs, meta = [], []
    for key in keys:
        n, diags = json.loads(key)
        v = c.rng.randrange(9)
        ch, rp = CH[v % 3], RP[v // 3]
        off = [0]
        for x in ch[:n]:
            off.append(off[-1] + len(x.encode()))
        reqs.append(dict(op="fixes", code=ch[:n], diags=[[dict(p=off[e["p"]], e=off[e["e"]], t=rp(i + 1, k + 1)) for k, e in enumerate(d)] for i, d in enumerate(diags)]))
        meta.append((key, ch, rp))
    res = c.driver(eng, reqs, procs=4)
    for (key, ch, rp), rq, r in zip(meta, reqs, res):
        allowed = []
        for x in expect[key]:
            allowed.append(("".join(ch[t[1] - 1] if t[0] == 0 else rp(t[0], t[1]) for t in x["out"]), x["skipped"], x["fixed"]))
        c.validated += 1
        if "panic" in r:
            c.violation("ApplyRuleFixes panics on %s: %s" % (rq, r["panic"]), dict(request=rq, got=r))
            continue
        got = (r["out"], sorted(r["unapplied"]), r["fixed"])
        if got not in allowed:
            c.violation("ApplyRuleFixes(%r, %s) = %r, the specification allows %r" % (rq["code"], rq["diags"], got, allowed), dict(request=rq, got=r, allowed=allowed))
        c.sample(dict(request=rq, result=r))
        c.count("outcomes_" + ("conflict" if any(len(d) and i + 1 in r["unapplied"] for i, d in enumerate(rq["diags"])) else "clean"))
    c.stats["exhaustive_bounds"] = "text length 3 with 1-2 diagnostics of <= 2 edits; length 2 with 3 diagnostics of <= 1 edit; plus seeded larger cases"


main("C14", body)
