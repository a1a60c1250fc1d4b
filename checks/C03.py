"""C03: which rules and options apply to which file: requests of Headless.tla against the real program; then the corpus: what each rule
reports on each file is the same whatever else is requested."""
import sys, os, json, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import world, corpus


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    n = 8000 if c.thorough else 700
    rnd = [world.random_case(c.rng, "r%d" % i, nfiles=6, flags=False, errors=False) for i in range(n)]
    world.conform(c, b, world.model(c, ["SmallEntries"], rnd), kinds=("rule",))
    # every program of the corpus, every rule
    S = corpus.snippets()
    rules = sorted({s["rule"] for s in S})
    root = os.path.join(c.tmp, "corpus")
    by = corpus.lay(root, S, chunk=900)

    def rule(p, r):
        s = by[p]
        return dict(name=r, options=s["options"]) if r == s["rule"] and s["options"] is not None else dict(name=r)

    def ask(configs, threads):
        r = headless(b, dict(version=2, configs=configs), ("-fix", "-fix-suggestions"), {"GOMAXPROCS": threads}, cwd=root, timeout=300)
        if r["rc"]:
            c.violation("exit status %d on the corpus: %s" % (r["rc"], r["err"][-800:]), configs)
        return [(d["file_path"], d["rule"], canon([1, d])) for k, d in r["frames"] if k == 1 and d["kind"] == 0]
    base = collections.Counter(ask([dict(file_paths=[p], rules=[rule(p, r) for r in rules]) for p in by], "8"))
    for i in range(60 if c.thorough else 10):
        # some files only, in any number of entries and any order; every entry some rules, in any order
        share = c.rng.choice([.02, .1, .5, 1])
        picks = {}
        for p in by:
            if c.rng.random() < share or i == 0:
                picks[p] = c.rng.sample(rules, 1) if i == 0 else c.rng.sample(rules, c.rng.randint(0, len(rules)))
        plain, configs = {}, []
        for p, rs in picks.items():
            if by[p]["rule"] in rs and by[p]["options"] is not None or c.rng.random() < .5:
                configs.append(dict(file_paths=[p], rules=[rule(p, r) for r in rs]))
            else:
                plain.setdefault(tuple(rs), []).append(p)
        # files without own options may share an entry (and then have its rules)
        ks = list(plain)
        while ks:
            g = [ks.pop() for _ in range(min(len(ks), c.rng.choice([1, 2, 5, 30])))]
            fs = [p for k in g for p in plain[k]]
            rs = [r for r in g[0] if all(by[p]["rule"] != r or by[p]["options"] is None for p in fs)]
            for p in fs:
                picks[p] = rs
            configs.append(dict(file_paths=fs, rules=[dict(name=r) for r in rs]))
        c.rng.shuffle(configs)
        got = collections.Counter(ask(configs, c.rng.choice(["1", "3", "8"])))
        asked = {(p, r) for p, rs in picks.items() for r in rs}
        want = collections.Counter({k: n for k, n in base.items() if k[:2] in asked})
        c.count("files with some of the rules", len(picks))
        c.count("reports compared", sum(want.values()))
        if got != want:
            flat = lambda x: collections.Counter({k[2]: n for k, n in x.items()})
            for key_, (a, z, s) in corpus.differing(flat(want), flat(got), by).items():
                c.violation("%s: with every rule on every file %s, in a request of %d files %s" % (key_, a[:2], len(picks), z[:2]), dict(missing=a, unexpected=z, code=s and s["code"], configs=[e for e in configs if s and any("/s%d." % s["i"] in f for f in e["file_paths"])]), key=key_)
        c.validated += 1
    c.listed()


main("C03", body)
