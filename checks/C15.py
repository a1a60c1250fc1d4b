"""C15: both layered file systems against Overlay.tla."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *

CFG = """SPECIFICATION Spec
CONSTANT Cases <- %s
INVARIANTS OverlayWins Transparent MutationsReachBase Listed Emit
"""
FILES = [["x.ts"], ["d", "a.ts"], ["d", "s", "b.ts"], ["dx", "c.ts"], ["d", "s", "t", "e.ts"]]
P = lambda p: "/" + "/".join(p)


def random_cases(c, num):
    out = []
    for _ in range(num):
        kind = c.rng.choice(["cmd", "virtual"])
        base = [dict(p=f, v=c.rng.choice(["-", "B", "B\u00e9", ""])) for f in FILES]
        over = [dict(p=f, v=c.rng.choice(["-", "-", "VV", ""])) for f in FILES]
        ov = [P(o["p"]) for o in over if o["v"] != "-"]
        muts = []
        for _ in range(c.rng.randint(0, 4)):
            f = c.rng.choice(FILES + [["d", "none.ts"]])
            if kind == "cmd" or P(f) not in ov:
                muts.append([c.rng.choice("WARC"), f])
        out.append(dict(kind=kind, base=base, over=over, cs=c.rng.random() < .5, muts=muts))
    return out


def body(c):
    bins = c.build("ovl", "eng")
    path = os.path.join(c.tmp, "cases.ndjson")
    with open(path, "w") as f:
        for x in random_cases(c, 20000 if c.thorough else 1500):
            # TLC strings: lengths are counted in characters, so keep the model's text ASCII
            for b in x["base"]:
                b["v"] = b["v"].replace("\u00e9", "e")
            f.write(json.dumps(x) + "\n")
    allc = []
    for cf in ["SmallCmd", "SmallVirtual", "FromFile"]:
        _, cases = c.tlc("Overlay", CFG % cf, env={"CASES": path})
        allc += cases
    allc.sort(key=canon)
    for kind, binary, args in (("cmd", bins["ovl"], ["zz-verif-ovl"]), ("virtual", bins["eng"], ["ovl"])):
        xs = [x for x in allc if x["kind"] == kind]
        reqs = [dict(base={P(p): v for p, v in x["base"] if v != "-"}, over={P(p): v for p, v in x["over"] if v != "-"}, cs=x["cs"],
                     muts=[[m[0], P(m[1])] for m in x["muts"]], paths=[P(f["p"]) for f in x["files"]], dirs=[P(d["p"]) for d in x["dirs"]]) for x in xs]
        for x, rq, r in zip(xs, reqs, c.driver(binary, reqs, args=args, procs=4)):
            c.validated += 1
            if "panic" in r:
                c.violation("%s layer panics on %s: %s" % (kind, rq, r["panic"]), dict(request=rq, got=r))
                continue
            bad = []

            def eq(what, got, want):
                if got != want:
                    bad.append("%s: got %r, specified %r" % (what, got, want))
            TX = {"W": " w", "A": " aa", "R": "", "C": " 7 9"}
            log = ["%s %s%s" % (m[0], P(m[1]), TX[m[0]]) for m in x["muts"]]
            eq("mutations reaching the base", r["log"], log)
            eq("base calls after queries", r["log2"], log)
            eq("errors", r["errs"], x["errs"])
            eq("case sensitivity", r["cs"], x["cs"])
            eq("base contents", r["base"], {P(p): v for p, v in x["final"]})
            for f in x["files"]:
                g = r["files"][P(f["p"])]
                eq("exists " + P(f["p"]), g["exists"], f["exists"])
                eq("read " + P(f["p"]), [g["ok"], g["text"]], [f["read"]["ok"], f["read"]["text"]])
                eq("stat " + P(f["p"]), g["stat"], [f["stat"]["size"], f["stat"]["mtime"], False] if f["stat"]["some"] else [])
                eq("realpath " + P(f["p"]), g["real"], P(f["p"]) if f["self"] else "/real" + P(f["p"]))
            for d in x["dirs"]:
                g = r["dirs"][P(d["p"])]
                eq("directory exists " + P(d["p"]), g["exists"], d["exists"])
                eq("files in " + P(d["p"]), sorted(set(g["files"])), sorted(d["files"]))
                eq("directories in " + P(d["p"]), sorted(set(g["dirs"])), sorted(d["dirs"]))
                eq("walk " + P(d["p"]), g["walk"], sorted(P(p) for p in d["walk"]))
                eq("walk stops " + P(d["p"]), g["stopped"], True)
            if bad:
                c.violation("%s layer, %s: %s" % (kind, rq, "; ".join(bad[:4])), dict(request=rq, got=r, problems=bad))
            c.sample(dict(kind=kind, request=rq, files=r["files"]), 3)
            c.count(kind + "_scenarios")


main("C15", body)
