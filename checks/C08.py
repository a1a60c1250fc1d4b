"""C08: timing tables: Timing.tla's counts for generated workloads against the real store after linting with several workers and
programs; duration bounds for callbacks of known length; the timing message of headless runs."""
import sys, os, json, random, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import concurrent.futures as cf
import world, workloads


def ordered(rs):
    return all(a[2] > b[2] or (a[2] == b[2] and a[0] < b[0]) for a, b in zip(rs, rs[1:]))


def body(c):
    bins = c.build("eng", "tsgolint")
    eng, b = bins["eng"], bins["tsgolint"]
    c.tlc("Timing", "SPECIFICATION DSpec\nCONSTANT Configs = {}\nCONSTANT Mode = \"design\"\nINVARIANTS Counted\nPROPERTY Finishes\n")
    n = 3000 if c.thorough else 260
    scs = []
    for k in range(n):
        s = workloads.scenario(c, k)
        s.update(timing=True, quiet=True, repeat=c.rng.choice([1, 1, 2, 3]))
        s["yield"] = c.rng.random() < .5
        if k % 20 == 0:
            # many rules called once each: durations often tie
            s["rules"] = {f: [dict(name="t%d" % i, kinds=[], report=[], how="node") for i in c.rng.sample(range(300), 120)] if j == 0 else [] for j, f in enumerate(s["lint"])}
        scs.append(s)
    res = c.driver(eng, scs, procs=4)
    p = os.path.join(c.tmp, "loads.ndjson")
    with open(p, "w") as f:
        for s, r in zip(scs, res):
            if "panic" in r:
                c.violation("linting with timings panics: %s" % r["panic"], s)
                return
            f.write(json.dumps(dict(rep=s["repeat"], files=workloads.trace(s, r)["files"])) + "\n")
    _, out = c.tlc("Timing", "SPECIFICATION CSpec\nCONSTANT Configs = {}\nCONSTANT Mode = \"counts\"\nINVARIANTS Emit\n", env={"LOADS": p}, heap="10g")
    exp = {o["id"]: o["calls"] if isinstance(o["calls"], dict) else {} for o in out}
    if len(exp) != len(scs):
        raise CheckError("no counts for some workloads")
    for i, (s, r) in enumerate(zip(scs, res)):
        c.validated += 1
        got = {x[0]: x[1] for x in r["timing"]}
        if len(got) != len(r["timing"]):
            c.violation("a rule has two entries: %s" % r["timing"], s)
        if got != exp[i + 1]:
            d = {k: (exp[i + 1].get(k), got.get(k)) for k in set(got) | set(exp[i + 1]) if exp[i + 1].get(k) != got.get(k)}
            c.violation("with %d workers, %d files, %d programs: calls (expected, reported) %s" % (s["workers"], len(s["lint"]), s["repeat"], dict(list(d.items())[:5])), dict(scenario=s, expected=exp[i + 1], got=r["timing"]))
        if not ordered(r["timing"]):
            c.violation("entries are not ordered by duration, then name: %s" % [x for x in r["timing"]][:12], dict(scenario=s, got=r["timing"]))
        c.sample(dict(workers=s["workers"], files=len(s["lint"]), programs=s["repeat"], calls=got))
    # nothing is measured without the request
    quiet = [dict(s, timing=False) for s in scs[:20]]
    for s, r in zip(quiet, c.driver(eng, quiet, procs=4)):
        if r["timing"]:
            c.violation("timings recorded although nobody asked", s)

    # durations: callbacks that take a known time
    def slow(k):
        rng = random.Random("d%d/%d" % (c.seed, k))
        lint = ["/w/f%d.ts" % j for j in range(rng.randint(1, 4))]
        files = {"/w/tsconfig.json": json.dumps(dict(compilerOptions=dict(noLib=True))), **{f: "export {};\n" + "x;\n" * rng.randint(1, 6) for f in lint}}
        rules = {f: [dict(name=nm, kinds=["Identifier"] if rng.random() < .7 else [], report=[], how="node", sleep=sl, setup=st) for nm, sl, st in
                     (("fast", 0, 0), ("calls", 3000, 0), ("setup", 0, 8000), ("both", 1000, 2000))] for f in lint}
        return dict(op="lint", files=files, config="/w/tsconfig.json", lint=lint, rules=rules, workers=rng.choice([1, 2, 4]), timing=True, quiet=True, repeat=rng.choice([1, 2]))
    for k in range(40 if c.thorough else 10):
        s = slow(k)
        bad = None
        for attempt in range(6):
            r = c.driver(eng, [s])[0]
            bad = None
            for nm, calls, dur in r["timing"]:
                lo, hi, wall = r["inner"].get(nm, 0), r["inner"].get(nm, 0), r["wall"]
                if dur < lo:
                    bad = "%s: %d ns reported, its calls alone took %d ns" % (nm, dur, lo)
                elif dur > hi * 1.3 + 2e6 * calls / 4 + 3e6:
                    bad = "%s: %d ns reported for %d calls that took %d ns" % (nm, dur, calls, hi)
            if not bad:
                break
        c.validated += 1
        if bad:
            c.violation("durations: " + bad, s)

    # headless: which rules, how often, in which order
    n = 1500 if c.thorough else 120
    rnd = []
    for i in range(n):
        x = world.random_case(c.rng, "r%d" % i, nfiles=5, broken=.1)
        x["r"]["timing"] = True
        x["r"]["suppress"] = False
        rnd.append(x)
    model = world.model(c, [], rnd)
    ran = {x["id"]: o["ran"] for x, o in model}

    def table(r):
        return [(x["rule_name"], x["calls"], x["duration"]) for k, d in r["frames"] if k == 2 for x in d["rules"]]

    def extra(case, w, r):
        t, bad = table(r), []
        if sorted(x[0] for x in t) != sorted(ran[case["id"]]):
            bad.append("timing entries for %s, but %s ran" % (sorted(x[0] for x in t), sorted(ran[case["id"]])))
        if not ordered(t):
            bad.append("timing entries out of order: %s" % t)
        # the counts of the files alone add up
        tot = collections.Counter()
        p = w.payload()
        if p.get("version") != 2:
            return bad
        for f in {f for e in p["configs"] for f in e["file_paths"]}:
            r1 = w.run(b, payload=dict(p, configs=[dict(e, file_paths=[g for g in e["file_paths"] if g == f]) for e in p["configs"]]))
            tot.update({x[0]: x[1] for x in table(r1)})
        if tot != {x[0]: x[1] for x in t}:
            bad.append("calls per rule %s, but the files alone add up to %s" % ({x[0]: x[1] for x in t}, dict(tot)))
        # and do not depend on the number of threads
        for th in ("1", "8"):
            t2 = table(w.run(b, env={"GOMAXPROCS": th}))
            if sorted(x[:2] for x in t2) != sorted(x[:2] for x in t):
                bad.append("calls depend on GOMAXPROCS=%s: %s vs %s" % (th, sorted(x[:2] for x in t2), sorted(x[:2] for x in t)))
        return bad
    world.conform(c, b, model, extra=extra)


main("C08", body)
