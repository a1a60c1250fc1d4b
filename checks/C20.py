"""C20: whatever the program, linting it ends, and each report is one Report.tla accepts."""
import sys, os, re, collections, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import corpus, mutate, ruleopts

NOTE = """Programs: the corpus, and programs made from it by changing types, expressions, parameters and lines, by cutting and garbling, as
JavaScript with JSDoc types, and with other line terminators, under random options. A program on which the pinned TypeScript compiler itself crashes, with no rule enabled, is left out."""
CFG = "SPECIFICATION %s\nINVARIANT %s\n"


def variants(c, S):
    """[(name, items, switches)]"""
    codes = [s["code"] for s in S]
    r = c.rng
    mk = lambda f, **kw: [dict(s, code=f(s["code"]), **kw) for s in S]
    js = lambda s: dict(s, name="file.jsx" if s["name"].endswith("x") else "file.js")
    out = [("corpus", [dict(s) for s in S]),
           ("line ends", mk(lambda x: mutate.eol(x, r))),
           ("jsdoc", [js(dict(s, code=mutate.jsdoc(s["code"]))) for s in S])]
    for i in range(6 if c.thorough else 2):
        out.append(("recursive types %d" % i, [dict(code=x, name="file.ts", options=None, rule="none", tsconfig="tsconfig.json", i=900000 + n) for n, x in enumerate(mutate.recursive(r))]))
    for i in range(40 if c.thorough else 5):
        out.append(("typed %d" % i, mk(lambda x: mutate.typed(x, r, codes))))
        if i % 2 == 0:
            out.append(("garbled %d" % i, mk(lambda x: mutate.garbled(x, r))))
        if i % 4 == 1:
            out.append(("jsdoc typed %d" % i, [js(dict(s, code=mutate.jsdoc(mutate.typed(s["code"], r, codes)))) for s in S]))
        if i % 8 == 3:
            out.append(("garbled lines %d" % i, mk(lambda x: mutate.eol(mutate.garbled(x, r), r), tsconfig="tsconfig.minimal.json")))
    sets = [{k: o for k in list(ruleopts.OPTIONS) + ["return-await"] for o in [ruleopts.some(k, r)] if o is not None} for _ in range(12)]
    for _, items in out[3 if c.thorough else 1:]:
        for s in items:
            s["all"] = r.choice(sets)
    return out


def record(m, n):
    p = lambda x: [x["pos"], x["end"]]
    groups = ([[p(f["range"]) for f in m["fixes"]]] if m.get("fixes") else []) + [[p(f["range"]) for f in s["fixes"]] for s in m.get("suggestions") or []]
    return dict(n=n, at=p(m["range"]), labels=[p(x["range"]) for x in m.get("labeled_ranges") or []], groups=groups,
                texts=[len(m.get("rule") or ""), len(m["message"]["id"]), len(m["message"]["description"])]
                + [len(s["message"][k]) for s in m.get("suggestions") or [] for k in ("id", "description")])


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    c.tlc("Report", CFG % ("SpecB", "Means"), env={"LOG": os.devnull})
    S = [s for s in corpus.snippets() if not s.get("files")]
    rules = sorted({s["rule"] for s in S})

    def asked(s, r):
        o = s["options"] if r == s["rule"] and s["options"] is not None else s.get("all", {}).get(r)
        return dict(name=r) if o is None else dict(name=r, options=o)

    def lint(paths, opts, root, timeout=120):
        cfg = [dict(file_paths=[p], rules=[asked(opts[p], r) for r in rules]) for p in paths]
        return headless(b, dict(version=2, configs=cfg), ["-fix", "-fix-suggestions"], cwd=root, timeout=timeout)

    def own(paths, root):
        return headless(b, dict(version=2, configs=[dict(file_paths=paths, rules=[])], report_semantic=True, report_syntactic=True), [], cwd=root, timeout=120)["rc"]

    def settle(paths, by, root):
        """(frames, None), leaving out the programs on which the compiler itself crashes, or (frames, what crashes)"""
        R = lint(paths, by, root)
        if not R["rc"] and R["rest"] is None or c.left() < 120:
            return R["frames"], None
        dirs = {}
        for p in paths:
            dirs.setdefault(os.path.dirname(p), []).append(p)
        if len(dirs) > 1:
            frames, crash = [], None
            for d in sorted(dirs):
                f, x = settle(dirs[d], by, root)
                frames, crash = frames + f, crash or x
            # only all of them together crash: is it the compiler?
            if crash is None and c.left() >= 120 and not any(own(paths, root) for _ in range(3)):
                crash = R, [by[p]["code"] for p in paths]
            return frames, crash
        def narrow(bad):
            q = paths
            while len(q) > 1 and c.left() > 120:
                for h in (q[:len(q) // 2], q[len(q) // 2:]):
                    if bad(h):
                        q = h
                        break
                else:
                    break
            return q
        if own(paths, root):
            q = narrow(lambda h: own(h, root))
        else:
            q = narrow(lambda h: lint(h, by, root)["rc"])
        z = lint(q, by, root)
        if own(q, root):
            c.count("programs left out, the compiler itself crashes", len(q))
            for p in q:
                os.unlink(p)
            return settle([p for p in paths if p not in set(q)], by, root) if len(q) < len(paths) else ([], None)
        return R["frames"], (z if z["rc"] else R, [by[p]["code"] for p in q])

    def run(v):
        name, items = v
        root = os.path.join(c.tmp, re.sub(r"\W", "_", name))
        by = corpus.lay(root, items, chunk=900, force=False if "typed 1" in name else True)
        ls = {p: len(open(p, "rb").read()) for p in by}
        frames, crash = settle(sorted(by), by, root)
        shutil.rmtree(root, ignore_errors=True)
        recs = {}
        for t, m in frames:
            if t == 1:
                x = record(m, ls.get(m["file_path"], -1))
                recs.setdefault(canon(x), (x, m, by.get(m["file_path"], {})))
        return name, len(by), recs, crash, collections.Counter(m.get("rule") for t, m in frames if t == 1)
    recs, seen = {}, collections.Counter()
    with cf.ThreadPoolExecutor(4) as ex:
        for name, n, rs, crash, k in ex.map(run, variants(c, S)):
            seen.update(k)
            c.count("programs", n)
            c.validated += 1
            if crash:
                z, s = crash
                c.violation("linting (%s) does not end well: exit status %s, %s%s" % (name, z["rc"], z["err"][:600], " on " + repr(s[:20])[:800]), dict(items=s, err=z["err"][:50000]))
            for x in rs:
                recs.setdefault(x, rs[x])
    c.stats["reports"] = sum(seen.values())
    c.stats["rules that reported"] = len(seen)
    keys = sorted(recs)
    c.stats["distinct reports"] = len(keys)
    parts = [keys[i:i + 12000] for i in range(0, len(keys), 12000)]

    def judge(a):
        i, ks = a
        p = os.path.join(c.tmp, "log%d" % i)
        with open(p, "w") as f:
            f.write("".join(x + "\n" for x in ks))
        return i, c.tlc("Report", CFG % ("SpecAll", "Complete"), env={"LOG": p}, workers=1)[1]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, bad in ex.map(judge, enumerate(parts)):
            for x in bad:
                r, m, s = recs[parts[i][x["bad"] - 1]]
                c.violation("ill-formed report by %s on %r: %s" % (m.get("rule"), s.get("code", "")[:600], canon(m)[:900]), dict(report=m, item=s))
    for k in keys[:2000:500]:
        c.sample(recs[k][0])


main("C20", body)
