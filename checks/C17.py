"""C17: BreadthFirstSearch against Bfs.tla."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *

CFG = """SPECIFICATION Spec
CONSTANT Cases <- %s
INVARIANTS Once NeverPrevisited PathOK Complete FirstMatch Shortest Emit
"""


def random_cases(c, num):
    out = []
    for _ in range(num):
        n = c.rng.randint(3, 9)
        nodes = list(range(1, n + 1))
        out.append(dict(n=n, adj=[c.rng.sample(nodes, min(n, c.rng.choice([0, 1, 2, 2, 3]))) for _ in nodes],
                        kind=[c.rng.choice([0, 0, 0, 0, 1, 2 if c.rng.random() < .5 else 0]) for _ in nodes],
                        previs=[x for x in nodes if c.rng.random() < (.15 if c.rng.random() < .5 else 0)],
                        removed=[[c.rng.randint(0, 3), c.rng.choice(nodes)] for _ in range(c.rng.choice([0, 0, 1, 3]))]))
    return out


def body(c):
    eng = c.build("eng")["eng"]
    path = os.path.join(c.tmp, "cases.ndjson")
    with open(path, "w") as f:
        for x in random_cases(c, 30000 if c.thorough else 3000):
            f.write(json.dumps(x) + "\n")
    exp = {}
    for cf in ["G2", "G3v", "FromFile"] + (["G3"] if c.thorough else []):
        _, cases = c.tlc("Bfs", CFG % cf, env={"CASES": path})
        for x in cases:
            exp[canon([x["adj"], x["kind"], x["previs"], sorted(x["removed"])])] = x
    keys = sorted(exp)
    reqs, meta = [], []
    for k in keys:
        x = exp[k]
        modes = [(bool(x["previs"]), bool(x["removed"])), (True, True)]
        for uv, up in modes:
            reqs.append(dict(op="bfs", n=x["n"], adj=x["adj"], res=[i + 1 for i, v in enumerate(x["kind"]) if v], stop=[i + 1 for i, v in enumerate(x["kind"]) if v == 2],
                             visited=x["previs"], usevis=uv, removed=x["removed"], usepre=up))
            meta.append((x, uv))
    for (x, uv), rq, r in zip(meta, reqs, c.driver(eng, reqs, procs=4)):
        c.validated += 1
        if "panic" in r:
            c.violation("search panics on %s: %s" % (rq, r["panic"]), dict(request=rq, got=r))
            continue
        for f in ("visits", "stopped", "path") + (("after",) if uv else ()):
            if r[f] != x[f]:
                c.violation("search %s: %s is %s, the specification says %s" % (rq, f, r[f], x[f]), dict(request=rq, got=r, expected=x))
        c.sample(dict(request=rq, result=r))


main("C17", body)
