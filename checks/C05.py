"""C05: switches add edits, timings or log lines and never change what is reported: every combination of switches on requests
of Headless.tla (whose outcome fixes what each combination must add) and on the corpus."""
import sys, os, json, random, collections, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import concurrent.futures as cf
import world, corpus

COMBOS = [dict(fix=a, sug=b, timing=t, log=l) for a, b, t, l in itertools.product((False, True), repeat=4)]


def args(f):
    return (["-fix"] if f["fix"] else []) + (["-fix-suggestions"] if f["sug"] else []) + (["-debug", "timings"] if f["timing"] else [])


def env(f):
    return {"OXC_LOG": "debug"} if f["log"] else {}


def bare(fr):
    return collections.Counter(canon({k: v for k, v in d.items() if k not in ("fixes", "suggestions")}) for t, d in fr if t == 1)


def edits(fr, what):
    return collections.Counter(canon([{k: v for k, v in d.items() if k not in ("fixes", "suggestions")}, d.get(what)]) for t, d in fr if t == 1)


def compare(runs):
    """runs: [(flags, result)]; what differs, or None."""
    f0, r0 = runs[0]
    base = bare(r0["frames"])
    ref = {}
    for f, r in runs:
        if r["rc"] or r["rest"] is not None:
            return "with %s: exit status %d, %s" % (f, r["rc"], r["err"][-300:])
        k = bare(r["frames"])
        if k != base:
            return "reports change between %s and %s: missing %s, unexpected %s" % (f0, f, list((base - k))[:3], list((k - base))[:3])
        for what, on in (("fixes", f["fix"]), ("suggestions", f["sug"])):
            if not on:
                bad = [d for t, d in r["frames"] if t == 1 and what in d]
                if bad:
                    return "with %s there are %s although nobody asked: %s" % (f, what, bad[0])
            else:
                e = edits(r["frames"], what)
                if what in ref and ref[what][1] != e:
                    return "%s differ between %s and %s: %s vs %s" % (what, ref[what][0], f, list(ref[what][1] - e)[:2], list(e - ref[what][1])[:2])
                ref.setdefault(what, (f, e))
        if bool([1 for t, _ in r["frames"] if t == 2]) != f["timing"]:
            return "with %s: timing report missing or not asked for" % f
    return None


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    n = 2500 if c.thorough else 130
    rnd = []
    while len(rnd) < n:
        x = world.random_case(c.rng, "r%d" % len(rnd), nfiles=6, broken=.2)
        if not (x["r"]["suppress"] and set(x["w"]["projects"]) & {"json", "extends"}):
            rnd.append(x)

    def extra(case, w, r):
        runs = [(f, w.run(b, args=args(f), env=env(f))) for f in COMBOS]
        c.count("runs compared", len(runs))
        p = compare(runs)
        return [p] if p else []
    world.conform(c, b, world.model(c, [], rnd), edits=True, extra=extra)

    # every rule on every program of the corpus, with the options its test uses
    S = corpus.snippets()
    rules = sorted({s["rule"] for s in S})
    root = os.path.join(c.tmp, "corpus")
    by = corpus.lay(root, S if c.thorough else c.rng.sample(S, 3600), chunk=900)
    cfg = []
    for p, s in by.items():
        cfg.append(dict(file_paths=[p], rules=[dict(name=r, options=s["options"]) if r == s["rule"] and s["options"] is not None else dict(name=r) for r in rules]))
    pl = dict(version=2, configs=cfg)
    with cf.ThreadPoolExecutor(3) as ex:
        runs = list(ex.map(lambda f: (f, headless(b, pl, args(f), env(f), cwd=root, timeout=600)), COMBOS))
    c.count("runs compared", len(runs))
    c.count("messages compared", sum(len(r["frames"]) for _, r in runs))
    c.validated += 1
    p = compare(runs)
    if p:
        c.violation("on the corpus: " + p, dict(payload=pl, problem=p))


main("C05", body)
