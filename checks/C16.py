"""C16: the process-wide cache of parsed files against SourceCache.tla."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *

CFG = """SPECIFICATION Spec
CONSTANT Scripts <- %s
INVARIANTS Current Kept Absent Same OnePerKey %s
"""
# texts of equal length, with equal beginnings and ends, some that depend on the language
TEXTS = ["let a = 1;\n", "let b = 1;\n", "let a = 2;\n", "", " ", "export {};\n", "x = <T>y;\n", "x = <T/>;\n", "import.meta;", "/** @type {number} */ var z;\n",
         "let a = 1;\n" * 50, "let a = 1;\n" * 49 + "let b = 1;\n", "let b = 1;\n" + "let a = 1;\n" * 49, "let a = 1;", "{}", "// é\nlet a = 1;\n", "let a = (;\n"]
FILES = ["/w/a.ts", "/w/a.tsx", "/w/b.ts", "/w/a.d.ts", "/w/a.mts", "/w/a.js", "/w/a.json", "/W/A.ts"]


def script(rng, i):
    files = rng.sample(FILES, rng.randint(1, 3))
    texts = rng.sample(TEXTS, rng.randint(1, 3))
    paths = lambda f: rng.choice([f, f, f.lower(), "/q" + f])
    opts = [(rng.random() < .5, rng.random() < .5) for _ in range(rng.randint(1, 3))]
    pth = {f: [paths(f) for _ in range(rng.randint(1, 2))] for f in files}
    disk = {f: rng.choice(texts + [None]) for f in files}
    steps, open_, n = [], [], 0
    for _ in range(rng.randint(2, 12)):
        w = rng.random()
        if w < .3:
            f, t = rng.choice(files), rng.choice(texts + [None])
            steps.append(dict(do="edit", f=f, t=t))
        elif (w < .7 and len(open_) < 3) or not open_:
            f, (j, o) = rng.choice(files), rng.choice(opts)
            n += 1
            open_.append(n)
            steps.append(dict(do="start", f=f, p=rng.choice(pth[f]), j=j, o=o, h=rng.randrange(3)))
        else:
            d = rng.sample(open_, rng.randint(1, len(open_)))
            open_ = [x for x in open_ if x not in d]
            steps.append(dict(do="finish", reqs=d))
    if open_:
        rng.shuffle(open_)
        steps.append(dict(do="finish", reqs=open_))
    return dict(id="r%d" % i, keeps=[h for h in range(3) if rng.random() < .4], disk=disk, steps=steps)


def body(c):
    eng = c.build("eng")["eng"]
    scripts = [script(c.rng, i) for i in range(30000 if c.thorough else 3000)]
    # many requests for the same file at once
    for i in range(2000 if c.thorough else 300):
        f, t = c.rng.choice(FILES[:5]), "let r%d = %d;\n" % (i, c.rng.randrange(10 ** 6)) * c.rng.choice([1, 40])
        n = c.rng.choice([2, 3])
        st = [dict(do="start", f=f, p=f, j=c.rng.random() < .2, o=False, h=c.rng.randrange(3)) for _ in range(n)]
        scripts.append(dict(id="b%d" % i, keeps=[h for h in range(3) if c.rng.random() < .4], disk={f: t}, steps=st + [dict(do="finish", reqs=list(range(1, n + 1)))]))
    ix = {t: "t%d" % i for i, t in enumerate(TEXTS)}
    name = lambda t: "-" if t is None else ix.get(t, t)
    path = os.path.join(c.tmp, "s.ndjson")
    with open(path, "w") as fo:
        for s in scripts:
            st = [dict(do="edit", f=x["f"], t=name(x["t"])) if x["do"] == "edit" else dict(do="start", f=x["f"], h=x["h"], o="%s %s %s" % (x["p"], x["j"], x["o"])) if x["do"] == "start" else x for x in s["steps"]]
            fo.write(json.dumps(dict(id=s["id"], keeps=s["keeps"], texts={f: name(t) for f, t in s["disk"].items()}, steps=st)) + "\n")
    c.tlc("SourceCache", CFG % ("Small5" if c.thorough else "Small4", ""), env={"CASES": path})
    c.tlc("SourceCache", "SPECIFICATION Spec\nCONSTANT Scripts <- Small4\nPROPERTY Answers\n", env={"CASES": path}, count=False) if c.thorough else None
    exp = {}
    _, out = c.tlc("SourceCache", CFG % ("FromFile", "Emit"), env={"CASES": path})
    for o in out:
        exp.setdefault(o["id"], set()).add(canon(o["res"]))
    reqs = []
    for s in scripts:
        st = [dict(do="remove" if x["t"] is None else "edit", file=x["f"], text=x["t"] or "") if x["do"] == "edit" else dict(do="start", file=x["f"], path=x["p"], jsx=x["j"], force=x["o"], host=x["h"])
              if x["do"] == "start" else dict(do="finish", reqs=[r - 1 for r in x["reqs"]]) for x in s["steps"]]
        reqs.append(dict(op="cache", texts={f: t for f, t in s["disk"].items() if t is not None}, hosts=["cached" if h in s["keeps"] else "direct" for h in range(3)], steps=st))
    for s, rq, r in zip(scripts, reqs, c.driver(eng, reqs, procs=8)):
        c.validated += 1
        if isinstance(r, dict) or any(x.get("panic") for x in r):
            c.violation("asking for a file fails: %s" % str(r)[:300], dict(request=rq, got=r))
            continue
        bad = [x for x in r if not x["nil"] and not x["right"]]
        if bad:
            c.violation("a parse is not what parsing the text %r with the request's options and language gives" % bad[0]["text"][:80], dict(request=rq, got=r))
        got = [dict(t="-", c=0) if x["nil"] else dict(t=name(x["text"]), c=x["class"]) for x in r]
        if canon(got) not in exp[s["id"]]:
            c.violation("requests %s answered %s, which the specification does not allow" % (json.dumps(s["steps"])[:600], json.dumps(got)[:400]), dict(request=rq, got=r, allowed=sorted(exp[s["id"]])))
        c.sample(dict(script=s, answers=got))
    c.count("requests", sum(1 for s in scripts for x in s["steps"] if x["do"] == "start"))


main("C16", body)
