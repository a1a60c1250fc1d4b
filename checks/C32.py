"""C32: optional chains.  Chain.tla's conditions are linted; every edit offered is evaluated by node for every value of the operands."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import bisect, collections, re, shutil, subprocess
from vlib import *
from rulecases import edit

NOTE = """All conditions over paths of one link (thorough: a large sample of two) and random ones of up to four, each with guards that test for truth or compare with null loosely, 17 kinds of last operands and all values its types allow; every edit is evaluated by node. Guards that compare strictly are outside."""
LEAF = dict(num="number", str="string", bool="boolean", obj="{ z: 1 }", fn="(() => number)")
FIN = dict(v="%s", notnot="!!%s", eq1="%s === 1", leq1="%s == 1", ne1="%s !== 1", lne1="%s != 1", equ="%s === undefined", neu="%s !== undefined", eqn="%s === null", nen="%s !== null", leqn="%s == null", lnen="%s != null",
           tnum='typeof %s === "number"', tundef='typeof %s !== "undefined"', gt="%s > 0", z="%s.z")
FIN["not"] = "!%s"
DECL = """declare function take(x: unknown): void; declare const one: 1, oneu: number | undefined, onen: number | null, undefu: number | undefined, nulln: number | null, yes: boolean, no: boolean, other: { yes: boolean, no: boolean };
"""
JS = {"null": "null", "undefined": "undefined", "0": "0", "1": "1", "5": "5", "7": "7", "''": "''", "x": "'x'", "false": "false", "true": "true", "obj": "{ z: 1 }", "fn0": "(() => (calls++, 0))", "fn5": "(() => (calls++, 5))"}
FALSY = ("null", "undefined", "0", "''", "false")
EVAL = r"""
const cs = JSON.parse(require('fs').readFileSync(process.argv[2]));
let calls = 0;
const one = 1, oneu = 1, onen = 1, undefu = undefined, nulln = null, yes = true, no = false, other = { yes, no };
const same = (x, y) => JSON.stringify(x) === JSON.stringify(y) && typeof x === typeof y;
const run = (text, v) => { calls = 0; try { const base = eval('(' + v + ')'); const r = eval('(function (a) { "use strict"; return (' + text + '); })').call(base, base); return [0, r, calls]; } catch (e) { return [e instanceof TypeError ? 1 : 2, String(e), calls]; } };
const name = x => typeof x === 'function' ? 'fn' : typeof x === 'object' && x ? 'obj' : x === '' ? "''" : String(x);
console.log(JSON.stringify(cs.map(([o, n, vs]) => vs.map(v => {
  const p = run(o, v), q = n === null ? p : run(n, v);
  const out = p[0] ? (p[0] === 2 ? p[1] : 'throw') : name(p[1]);
  let bad = '';
  if (q[0] === 2) bad = q[1];
  else if (!p[0]) {
    if (q[0]) bad = 'throws ' + q[1];
    else if (!!p[1] !== !!q[1]) bad = 'becomes ' + name(q[1]);
    else if (p[1] && !same(p[1], q[1])) bad = 'becomes ' + name(q[1]);
    else if (p[2] !== q[2]) bad = 'makes ' + q[2] + ' calls instead of ' + p[2];
  }
  return [out, bad];
}))));
"""


def write(x, r):
    """(type of a, condition, [value of a]).  How a path is written is up to r."""
    n = len(x["links"])
    AND = x["dir"] == "and"
    root = r.choice(["a"] * 6 + ["this"])
    names = []
    for i in range(n):
        names.append(r.choice([".p%d"] * 5 + ["['p%d']", '["p%d"]']) % (i + 1))
    marks = r.random() < .12
    def path(i):
        t = root
        for j, k in enumerate(names[:i]):
            g = marks and x["links"][j]["g"] != "-"
            if g and r.random() < .3:
                t += "?." + k.lstrip(".")  # never cuts anything short: the guard has been passed
            elif g and k[0] == "." and r.random() < .3:
                t += "!" + k
            else:
                t += k
        return t
    ops = []
    def guard(i, k):
        p = path(i)
        if k == "t":
            return r.choice(["%s"] * 7 + ["(%s)"] + ([] if x["dir"] == "or" else ["!!%s"])) % p if AND else r.choice(["!%s"] * 5 + ["!(%s)"]) % p
        return r.choice(["%s != null", "%s != null", "%s != undefined", "null != %s", "undefined != %s"] if AND else ["%s == null", "%s == null", "%s == undefined", "null == %s"]) % p
    for i, l in enumerate(x["links"]):
        if l["g"] != "-":
            ops.append(guard(i, l["g"]))
    last = path(n)
    if x["call"] in ("t", "n"):
        ops.append(guard(n, x["call"]))
    if x["call"] != "no":
        last += "()"
    fin, plain = FIN[x["fin"]], not marks
    k = r.random()
    if k < .15 and fin.split()[-1] in ("1", "null", "undefined"):
        a, op, z = fin.split(" ", 2)
        fin = "%s %s %s" % (z, op, a) if a == "%s" else fin
    elif k < .25 and fin.split()[-1] in ("1", "undefined", "null"):
        a, op, z = fin.split(" ", 2)
        fin, plain = "%s %s %s" % (a, op, dict([("1", r.choice(["one", "oneu", "onen"])), ("undefined", r.choice(["undefu", "void 0"])), ("null", "nulln")])[z]), False
    ops.append(fin % last)
    if r.random() < .12:
        plain, e = False, "yes" if AND else "no"
        for j in range(r.randint(1, 2)):
            ops.insert(r.choice([0, len(ops)]), r.choice(["%s", "!!%s", "%s === " + "true", "other.%s"]) % e)
    def nul(s):
        return "".join(" | " + k for k in sorted(s))
    t = LEAF[x["leaf"]] + nul(x["lnul"])
    for i in range(n, 0, -1):
        t = "{ p%d: %s }%s" % (i, t, nul(x["links"][i - 1]["nul"]))
    vals = []
    for run in x["runs"]:
        d = run["d"] - 1 if run["d"] else n
        v = JS[run["v"]]
        for i in range(d, 0, -1):
            v = "{ p%d: %s }" % (i, v)
        vals.append(v)
    return t, (r.choice([" && "] * 4 + ["&&", "\n  && "]) if AND else r.choice([" || "] * 4 + ["||"])).join(ops), vals, root if plain else "other"


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    r = c.rng
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Links = %d\n Walks = %d\nINVARIANTS Agree Kept Guarded Foldable Unfoldable Right Emit\n"
    _, q = c.tlc("Chain", cfg % (1, 1), workers=4)
    _, q2 = c.tlc("Chain", cfg % (4, 40000 if c.thorough else 5000), args=["-seed", str(c.seed)], workers=1)
    q = sorted(q, key=canon)
    q = r.sample(q, min(len(q), 12000 if c.thorough else 4000)) + q2
    # what upstream's tests pin although it changes values: || ending in an operand that is not turned round
    cases = [(x,) + write(x, r) for x in q if scope(x)]
    root = os.path.join(c.tmp, "chain")
    os.makedirs(root)
    json.dump(dict(compilerOptions=dict(strict=True, target="esnext", lib=["esnext"], types=[], noEmit=True, moduleDetection="force")), open(root + "/tsconfig.json", "w"))
    configs, where = [], {}
    for f in range(0, len(cases), 400):
        p = root + "/f%d.ts" % f
        src, starts = "export {};\n" + DECL, []
        for i in range(f, min(len(cases), f + 400)):
            x, t, code, vals, base = cases[i]
            use = r.choice(["take(%s);", "if (%s) {}", "return %s;", "const q = %s;", "while (%s) break;", "(%s) ? 1 : 2;"])
            pre = "function f%d(%s: %s) { %s" % (i, "this" if "this" in code else "a", t, use[:use.index("%s")])
            starts.append((len(src) + len(pre), i))
            src += pre + code + use[use.index("%s") + 2:] + " }\n"
        open(p, "w").write(src)
        where[p] = starts
        configs.append(dict(file_paths=[p], rules=[dict(name="prefer-optional-chain")]))
    R = headless(b, dict(version=2, configs=configs), ["-fix", "-fix-suggestions"], timeout=max(60, c.left()))
    if R["rc"]:
        c.violation("linting ends with exit status %d: %s" % (R["rc"], R["err"][-800:]), R["err"][-4000:])
        return
    jobs, meta, reported, news = [], [], collections.Counter(), collections.defaultdict(list)
    for t, m in R["frames"]:
        if t != 1:
            continue
        starts = where[m["file_path"]]
        s, i = starts[bisect.bisect_right(starts, (m["range"]["pos"], 1 << 60)) - 1]
        x, ty, code, vals, base = cases[i]
        reported[i] += 1
        if m["range"]["end"] - s > len(code):
            c.violation("the report on %r reaches beyond the condition" % code, m)
            continue
        for kind, es in ([("fix", m["fixes"])] if m.get("fixes") else []) + [("suggestion", g["fixes"]) for g in m.get("suggestions") or []]:
            es = [dict(text=e["text"], range=dict(pos=e["range"]["pos"] - s, end=e["range"]["end"] - s)) for e in es]
            news[i].append(edit(code, es))
            jobs.append([untyped(code), untyped(news[i][-1]), vals])
            meta.append((kind, i))
    offered = {i for _, i in meta}
    for i in range(len(cases)):
        if i not in offered:
            jobs.append([untyped(cases[i][2]), None, cases[i][3]])
            meta.append(("", i))
    json.dump(jobs, open(root + "/jobs.json", "w"))
    open(root + "/eval.js", "w").write(EVAL)
    p = subprocess.run(["node", root + "/eval.js", root + "/jobs.json"], capture_output=True, text=True, timeout=max(60, c.left()))
    if p.returncode:
        raise RuntimeError("node: " + p.stderr[-2000:])
    for (kind, i), (code, new, vals), outs in zip(meta, jobs, json.loads(p.stdout)):
        x, ty = cases[i][:2]
        c.validated += 1
        for run, v, (o, bad) in zip(x["runs"], vals, outs):
            want = "fn" if run["o"].startswith("fn") else run["o"]
            if o != want and (("throw" in (o, want)) or not ("!!" in code or re.search(r"\b(yes|no)\b", code)) or (o in FALSY) != (want in FALSY)):
                raise RuntimeError("the model says %s is %s for %s, node says %s" % (code, run["o"], v, o))
            if bad:
                c.violation("%s on %r, a: %s, gives %r, which for a = %s %s instead of %s" % (kind, code, ty, new, v, bad, o), dict(type=ty, code=code, new=new, value=v, case=x))
                break
    for i, (x, ty, code, vals, base) in enumerate(cases):
        if "!!" in code or base != "a" or x["says"] == "open":
            continue
        if x["says"] == "no" and reported[i]:
            c.violation("%r, a: %s, is reported although a missing link would change its value" % (code, ty), dict(type=ty, code=code, case=x))
        if x["says"] == "yes" and not any("&&" not in n and "||" not in n for n in news[i]):
            c.violation("%r, a: %s, %s although every link is guarded and a chain would keep its value" % (code, ty, "is rewritten only in part" if reported[i] else "is not reported"), dict(type=ty, code=code, got=news[i], case=x))
    c.count("conditions", len(cases))
    c.count("edits", sum(1 for k, _ in meta if k))
    c.sample(dict(type=cases[0][1], code=cases[0][2]))
    shutil.rmtree(root, ignore_errors=True)


def untyped(code):
    return re.sub(r"(?<=[\w\])])!(?=\.|\[|\?\.|\(| |\)|$)", "", code)


def scope(x):
    return not (x["dir"] == "or" and x["fin"] in ("v", "notnot", "eqn", "z"))


if __name__ == "__main__":
    main("C32", body)
