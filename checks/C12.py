"""C12: worker runs recorded from the real linter, validated against Workers.tla (WorkersTrace.tla)."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from workloads import scenario, trace

DESIGN = """SPECIFICATION Spec
CONSTANT Configs <- SmallConfigs
INVARIANTS OneUser OneVisitor Once SetupFirst
PROPERTY Terminates
"""
TRACE = """SPECIFICATION TSpec
CONSTANT Configs = {}
VIEW View
INVARIANTS OneUser OneVisitor Once Verdict
"""

def body(c):
    eng = c.build("eng")["eng"]
    c.tlc("Workers", DESIGN)
    n = 4000 if c.thorough else 300
    scs = [scenario(c, k) for k in range(n)]
    for s in scs:
        s["yield"] = c.rng.random() < .7
    try:
        res = c.driver(eng, scs, procs=4, timeout=300 if not c.thorough else 3000)
    except DriverCrash as e:
        c.violation("the linter crashes while linting a generated workload: " + e.err[:1500], dict(err=e.err))
        return
    except CheckError as e:
        # find one that hangs
        for s in scs:
            try:
                c.driver(eng, [s], timeout=20)
            except DriverCrash:
                raise
            except CheckError:
                c.violation("linting does not terminate with %d workers and %d files" % (s["workers"], len(s["lint"])), s)
                return
        raise e
    rows, back = [], []
    overlap = 0
    for s, r in zip(scs, res):
        if "panic" in r:
            if "driver:" in str(r["panic"]):
                raise CheckError(str(r["panic"]))
            c.violation("linting panics: %s" % r["panic"], dict(scenario=s, got=r))
            continue
        t = trace(s, r)
        rows.append(json.dumps(t) + "\n")
        back.append((s, r, t))
        c.count("events", len(t["log"]))
        gs = [e["w"] for e in t["log"]]
        if any(a != b for a, b in zip(gs, gs[1:])) and len(set(gs)) < sum(a != b for a, b in zip(gs, gs[1:])):
            overlap += 1
    c.stats["interleaved_runs"] = overlap
    for lo in range(0, len(rows), 400):
        p = os.path.join(c.tmp, "traces.ndjson")
        with open(p, "w") as f:
            f.writelines(rows[lo:lo + 400])
        _, out = c.tlc("WorkersTrace", TRACE, env={"TRACES": p}, heap="12g")
        seen = set()
        for o in out:
            s, r, t = back[lo + o["t"] - 1]
            seen.add(o["t"])
            c.validated += 1
            ev = t["log"][o["l"] - 1] if o["l"] else None
            c.sample(dict(files=len(s["lint"]), workers=s["workers"], events=len(t["log"]), verdict=o["ok"]))
            if not o["ok"]:
                c.violation("with %d workers (timings %s): event %d %s is not allowed: %s" % (s["workers"], s["timing"], o["l"], ev, o["why"]), dict(scenario=s, event=o["l"], trace=t["log"][:o["l"] + 3], why=o["why"]))
        if len(seen) != len(rows[lo:lo + 400]):
            raise CheckError("no verdict for some traces")


main("C12", body)
