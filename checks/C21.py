"""C21: fixing round after round.  Rounds.tla's expressions, and the corpus, are linted and fixed until nothing is left to fix."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import collections, re, shutil
from vlib import *
import corpus

NOTE = """All expressions of up to 3 (4) nested wrappings and random ones of up to 9, for three rules, end in the expression Rounds.tla gives; all programs of the corpus: every edit alone, and all together round after round until nothing is left."""
WRAP = dict(tpl=["`${%s}`"], tpl2=["`${ %s }`", "`${(%s)}`"], ang=["(<string>%s)"], bang=["(%s)!"], eqt=["(%s === true)", "(%s == true)", "(true === %s)"], nef=["(%s !== false)", "(%s != false)", "(false !== %s)"], asb=["(%s as boolean)"], bangb=["(%s)!"], id=["id(%s)"], idb=["idb(%s)"],
            cat=["('q' + %s)"], no=["idb(!%s)"], has=["%s.includes('x')"], pick=["pick(%s)"], par=["(%s)"])
WRAP["as"] = ["(%s as string)"]
WRAP["and"] = ["idb(b && %s)"]
RULE = dict(tpl="no-unnecessary-template-expression", assertion="no-unnecessary-type-assertion", compare="no-unnecessary-boolean-literal-compare")
PRE = "export {};\ndeclare const s: string, b: boolean; declare function id(x: string): string; declare function idb(x: boolean): boolean; declare function pick(x: boolean): string;\n"


def written(ws):
    t = "s"
    for k in ws:
        t = k % t
    return t


def bare(t):
    """text up to parentheses and white space"""
    return re.sub(r"[\s()]", "", t)


def apply(code, diags):
    """The edits of the diagnostics that do not overlap, first come first served."""
    b, last, out = code.encode(), 0, b""
    for es in sorted(diags, key=lambda es: (min(e["range"]["pos"] for e in es), max(e["range"]["end"] for e in es))):
        es = sorted(es, key=lambda e: (e["range"]["pos"], e["range"]["end"]))
        if es[0]["range"]["pos"] < last or any(x["range"]["end"] > y["range"]["pos"] for x, y in zip(es, es[1:])):
            continue
        for e in es:
            out += b[last:e["range"]["pos"]] + e["text"].encode()
            last = e["range"]["end"]
    return (out + b[last:]).decode("utf-8", "replace")


class Lints:
    def __init__(self, c, b):
        self.c, self.b, self.n = c, b, 0

    def __call__(self, items):
        """{i: (reports of the rule, syntax errors)}"""
        d = "%s/l%d" % (self.c.tmp, self.n)
        self.n += 1
        where = corpus.lay(d, items, chunk=400)
        g = collections.defaultdict(list)
        for p, s in where.items():
            g[(s["rule"], canon(s["options"]))].append(p)
        cfg = [dict(file_paths=ps, rules=[dict(dict(name=r), **({} if o == "null" else {"options": json.loads(o)}))]) for (r, o), ps in g.items()]
        R = headless(self.b, dict(version=2, configs=cfg, report_syntactic=True), ["-fix", "-fix-suggestions"], timeout=max(60, self.c.left()))
        shutil.rmtree(d)
        out = collections.defaultdict(lambda: ([], []))
        if R["rc"]:
            self.c.violation("linting ends with exit status %d: %s" % (R["rc"], R["err"][-800:]), R["err"][-4000:])
        for t, m in R["frames"]:
            if t == 1 and m.get("file_path") in where:
                out[where[m["file_path"]]["i"]][0 if m.get("kind") == 0 else 1].append(m)
        return out


def rounds(c, lint, items, first, clean):
    """Lints and fixes until no fix is left; returns {i: the texts}."""
    texts = {s["i"]: [s["code"]] for s in items}
    cur, res = items, first
    for n in range(14):
        nxt = []
        for s in cur:
            ds = [m["fixes"] for m in res[s["i"]][0] if m.get("fixes")]
            if not ds:
                continue
            t = apply(s["code"], ds)
            if t in texts[s["i"]]:
                c.violation("fixing with %s comes back to the same program in round %d: %r" % (s["rule"], n + 1, t[:800]), dict(rule=s["rule"], options=s["options"], texts=texts[s["i"]]))
                continue
            texts[s["i"]].append(t)
            nxt.append(dict(s, code=t))
        if not nxt:
            return texts
        res = lint(nxt)
        for s in nxt:
            c.validated += 1
            if len(res[s["i"]][1]) > clean[s["i"]]:
                c.violation("applying the fixes of %s leaves a program that does not parse: %r from %r: %s" % (s["rule"], s["code"][:800], texts[s["i"]][-2][:800], [m["message"]["description"] for m in res[s["i"]][1]]), dict(rule=s["rule"], options=s["options"], texts=texts[s["i"]]))
        cur = nxt
    for s in cur:
        c.violation("fixing with %s has not ended after %d rounds: %r" % (s["rule"], 14, s["code"][:800]), dict(rule=s["rule"], options=s["options"], texts=texts[s["i"]]))
    return texts


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    r = c.rng
    lint = Lints(c, b)
    # ---- the model's expressions
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Depth = %d\n Walks = %d\nINVARIANTS Bound Typed Confluent Emit\nPROPERTY Shrinks\n"
    _, q = c.tlc("Rounds", cfg % (4 if c.thorough else 3, 1), workers=4)
    _, q2 = c.tlc("Rounds", cfg % (9, 6000 if c.thorough else 1000), args=["-seed", str(c.seed)], workers=1)
    q = sorted(q, key=canon)
    q = r.sample(q, min(len(q), 20000 if c.thorough else 4000)) + q2
    items, case = [], {}
    by = collections.defaultdict(list)
    for x in q:
        ws = [r.choice(WRAP[k]) for k in x["e"]]
        x["want"] = "const v%%d = %s;" % written([z for k, z in zip(x["e"], ws) if k in x["end"]])
        by[x["rule"]].append((x, written(ws)))
    for k, xs in sorted(by.items()):
        for a in range(0, len(xs), 100):
            i = 10 ** 6 + len(items)
            case[i] = xs[a:a + 100]
            items.append(dict(i=i, rule=RULE[k], options=None, name="file.ts", code=PRE + "".join("const v%d = %s;\n" % (j, t) for j, (_, t) in enumerate(case[i]))))
    first = lint(items)
    clean = collections.Counter({i: len(v[1]) for i, v in first.items()})
    if any(clean.values()):
        raise RuntimeError("a generated program does not parse")
    for s in items:
        lines = s["code"].split("\n")
        at = collections.Counter(s["code"].encode()[:m["range"]["pos"]].count(b"\n") for m in first[s["i"]][0])
        for j, (x, t) in enumerate(case[s["i"]]):
            c.validated += 1
            if at[j + 2] != x["n"]:
                c.violation("%s reports %d places in %s, not %d" % (s["rule"], at[j + 2], lines[j + 2], x["n"]), dict(case=x, text=t))
    for i, ts in rounds(c, lint, items, first, clean).items():
        end = ts[-1].split("\n")
        for j, (x, t) in enumerate(case[i]):
            want = x["want"].replace("%d", str(j))
            if bare(want) != bare(end[j + 2]):
                c.violation("fixing %r with %s ends in %r, not in %r" % (t, RULE[x["rule"]], end[j + 2], want), dict(case=x, texts=[z.split("\n")[j + 2] for z in ts]))
    c.count("expressions", len(q))
    # ---- the corpus
    S = [s for s in corpus.snippets() if not s.get("files")]
    first = lint(S)
    it = {s["i"]: s for s in S}
    clean = collections.Counter({i: len(v[1]) for i, v in first.items()})
    alone = []
    for i, (ds, _) in first.items():
        for m in ds:
            for kind, es in ([("fix", m["fixes"])] if m.get("fixes") else []) + [("suggestion", g["fixes"]) for g in m.get("suggestions") or []]:
                alone.append(dict(it[i], i=2 * 10 ** 6 + len(alone), orig=i, kind=kind, m=m, code=apply(it[i]["code"], [es])))
    res = lint(alone)
    for s in alone:
        c.validated += 1
        if len(res[s["i"]][1]) > clean[s["orig"]]:
            c.violation("the %s of %s (%s) leaves a program that does not parse: %r from %r: %s" % (s["kind"], s["rule"], s["m"]["message"]["id"], s["code"][:800], it[s["orig"]]["code"][:800], [m["message"]["description"] for m in res[s["i"]][1]]), dict(rule=s["rule"], options=s["options"], code=it[s["orig"]]["code"], fixed=s["code"]))
    rounds(c, lint, [it[i] for i, (ds, _) in sorted(first.items()) if any(m.get("fixes") for m in ds)], first, clean)
    c.count("edits alone", len(alone))
    c.sample(dict(wrappings=q[0]["e"], rule=q[0]["rule"]))


if __name__ == "__main__":
    main("C21", body)
