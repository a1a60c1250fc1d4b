"""C13: traversals recorded from the real linter, validated step by step against Traversal.tla."""
import sys, os, json, gzip
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *

GEN = """SPECIFICATION Spec
CONSTANT Wide = TRUE
INVARIANT Emit
"""
CFG = """SPECIFICATION Spec
INVARIANTS Nested Report
"""
LIT = ("ArrayLiteralExpression", "ObjectLiteralExpression")


def corpus(c, n):
    p = os.path.join(VERIF, "corpus", "snippets.jsonl.gz")
    xs = [json.loads(l) for l in gzip.open(p, "rt")]
    xs = [(x["name"], x["code"]) for x in xs]
    return xs if len(xs) <= n else c.rng.sample(xs, n)


def body(c):
    eng = c.build("eng")["eng"]
    _, gen = c.tlc("Patterns", GEN)
    stmts = sorted(x["s"] for x in gen)
    c.stats["generated_statements"] = len(stmts)
    if not c.thorough and len(stmts) > 6000:
        stmts = c.rng.sample(stmts, 6000)
    c.rng.shuffle(stmts)
    reqs = []
    for k in range(0, len(stmts), 25):
        reqs.append(dict(op="walk", name="a.ts" if k % 2 else "a.js", text="\n".join(stmts[k:k + 25])))
    for name, text in corpus(c, 100000 if c.thorough else 2500):
        reqs.append(dict(op="walk", name=name, text=text))
    res = c.driver(eng, reqs, procs=8)
    kinds = set()
    batch, total, back = [], 0, []

    def flush():
        nonlocal batch, back
        if not batch:
            return
        p = os.path.join(c.tmp, "traces.ndjson")
        with open(p, "w") as f:
            f.writelines(batch)
        _, out = c.tlc("Traversal", CFG, env={"TRACES": p}, heap="12g")
        seen = set()
        for o in out:
            rq, r, log = back[o["i"] - 1]
            seen.add(o["i"])
            if not o["ok"]:
                w = o["want"]
                def show(e):
                    if e[1] < 2:
                        return str(e)
                    t = r["tree"][e[1] - 1]
                    return "%s %s %r" % (e[0], t["k"], rq["text"].encode()[t["p"]:t["e"]].decode("utf-8", "replace"))
                got = log[o["l"] - 1] if o["l"] > 0 and log[o["l"] - 1] != w else "nothing more"
                c.violation("traversal announces %s where the specification has %s (event %d) in %r" % (got if isinstance(got, str) else show(got), show(w), o["l"], rq["text"][:300]),
                            dict(text=rq["text"], name=rq["name"], event=o["l"], got=got, want=w))
        if len(seen) != len(batch):
            raise CheckError("no verdict for %d traces" % (len(batch) - len(seen)))
        batch, back = [], []

    for rq, r in zip(reqs, res):
        if "panic" in r:
            c.violation("the traversal panics on %r: %s" % (rq["text"][:300], r["panic"]), dict(request=rq, got=r))
            continue
        t = r["tree"]
        kinds.update(x["k"] for x in t)
        # the root is node 1 of the model; announcements of roles are compared for literals only
        log = []
        for ph, n in r["log"]:
            if ph in ("pin", "pout", "nin", "nout") and n > 0 and t[n]["k"] not in LIT:
                continue
            log.append([ph, n + 1 if n >= 0 else n])
        batch.append(json.dumps(dict(k=[x["k"] for x in t], ch=[[y + 1 for y in x["ch"]] for x in t], t=[[y + 1 for y in x["t"]] for x in t], log=log)) + "\n")
        back.append((rq, r, log))
        total += len(log)
        c.validated += 1
        c.sample(dict(text=rq["text"][:200], announcements=len(log)))
        if sum(map(len, batch)) > 60e6:
            flush()
    flush()
    c.stats["announcements_checked"] = total
    c.stats["node_kinds_covered"] = len(kinds)


main("C13", body)
