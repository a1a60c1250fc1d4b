"""C38: array idioms.  Arrays.tla's states are linted by prefer-find, require-array-sort-compare, no-array-delete and no-for-in-array; suggestions are run by node."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch

NOTE = """Values of one or two of ten kinds (five of them arrays); a filter written in nine ways with an index of up to two (thorough: three) wrappings of 19 literals; deletions, sorts with both settings, for-in loops, in several spellings."""
TYPE = dict(numbers="number[]", strings="string[]", readonly="readonly number[]", tuple="[number, string]", pair="[string, string]", like="Like", record="Rec", map="Map<string, number>", null="null", undefined="undefined")
DECL = """interface Like { length: number; [i: number]: number; filter(f: unknown): Like; at(i: number): number; sort(): Like; toSorted(): Like }
interface Rec { [k: string]: any; }
declare const k: boolean;
"""
LIT = dict(number=lambda s, r: {"0": ["0", "0x0", "0.0", "0e5", "0b0"], "1": ["1", "1.0"], "0.5": ["0.5", ".5"], "NaN": ["NaN"], "Infinity": ["Infinity"]}[s], string=lambda s, r: ["'%s'" % s, '"%s"' % s, "`%s`" % s], bigint=lambda s, r: [s + "n"], boolean=lambda s, r: [s], null=lambda s, r: ["null"], undefined=lambda s, r: ["undefined"])


def index(x, r):
    """declarations, index expression"""
    v, s = x["lit"]
    e, pre, prim = r.choice(LIT[v](s, r)), "", True
    for i, w in enumerate(x["wraps"]):
        if w in ("minus", "plus"):
            sign = "-" if w == "minus" else "+"
            e, prim = sign + (e if prim else "(%s)" % e), False
        elif w == "paren":
            e, prim = "(%s)" % e, True
        elif w == "as":
            e, prim = "(%s as %s)" % (e, r.choice(["any", "never", "0"])), True
        elif w == "bang":
            e, prim = "%s!" % (e if prim else "(%s)" % e), True
        else:
            pre += "const K%d = %s; " % (i, e)
            e, prim = "K%d" % i, True
    return pre, e


PRED = ["y => P.includes(y as string)", "function (y) { return P.includes(y as string); }", "y => P.includes(y as string), null", "f"]


def take(x, r):
    pre, i = index(x, r)
    p = lambda: r.choice(PRED)
    dot = "?." if x["type"] & {"null", "undefined"} and r.random() < .7 else "."
    call = lambda: "x%sfilter(%s)" % (dot, p())
    sh = x["shape"]
    if sh == "plain":
        e = call()
    elif sh == "bracket":
        e = "x%s[%s](%s)" % ("?." if dot == "?." else "", r.choice(["'filter'", '"filter"', "`filter`"]), p())
    elif sh == "paren":
        e = "(%s)" % call() if r.random() < .6 else "((%s) /* [0] */)" % call()
    elif sh == "comma":
        e = r.choice(["(0, %s)", "(x, 0, %s)", "(k, (%s))"]) % call()
    elif sh == "both":
        e = r.choice(["(k ? %s : %s)", "(k ? (%s) : %s)", "(k ? %s : (0, %s))"]) % (call(), call())
    elif sh == "one":
        e = r.choice(["(k ? %s : x)", "(k ? x : %s)", "(k ? [] : %s)"]) % call()
    elif sh == "other":
        e = r.choice(["x%smap(%s)" % (dot, p()), "x%sfilter(%s).slice(0)" % (dot, p()), "x", "[...%s]" % call(), "x%sfilter?.(%s)" % (dot, p()), "(x, %s, x)" % call(), "(%s || x)" % call()])
    else:
        e = call()
    if sh == "stored":
        pre += "const z = %s; " % e
        e = "z"
    opt = sh == "optindex"
    if x["op"] == "key":
        return pre, "%s%s[%s]" % (e, "?." if opt else r.choice(["", "", "", " ", " /* . */ ", " // .\n", "/**/"]), i)
    if opt:
        return pre, "%s.at?.(%s)" % (e, i)
    return pre, r.choice(["%s.at(%s)", "%s\n.at(%s)", "%s['at'](%s)", "%s /* . */ .at(%s,)", "%s // [\n.at(%s)", "%s /* a */ /* b. */ .at(%s)"]) % (e, i)


EVAL = r"""
process.removeAllListeners('warning'); process.on('warning', () => {});
const { stripTypeScriptTypes } = require('module');
const jobs = JSON.parse(require('fs').readFileSync(process.argv[1], 'utf8'));
const make = t => { try { return eval(stripTypeScriptTypes('(function (x, f, P, k) {' + t + '})')); } catch (e) { return String(e); } };
const run = (f, j, k) => { if (typeof f === 'string') return f; try { const v = f(j.null ? undefined : [...j.s], y => j.P.includes(y), j.P, k); return v === undefined ? 'undefined' : v; } catch (e) { return 'throws ' + e.name; } };
console.log(JSON.stringify(jobs.map(j => { const a = make(j.a), b = make(j.b); return [run(a, j, true), run(b, j, true), run(a, j, false), run(b, j, false)]; })));
"""


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    r = c.rng
    _, q = c.tlc("Arrays", "SPECIFICATION Spec\nCONSTANTS\n Wraps = %d\nINVARIANTS Same Emit\n" % (3 if c.thorough else 2))
    q = sorted(q, key=canon)
    S = Batch(c, b, "arrays", DECL, per=400)
    jobs, values = [], []
    for x in q:
        x["type"] = set(x["type"])
        ty = sorted(x["type"])
        nul = x["type"] & {"null", "undefined"}
        for _ in range(3 if not x["wraps"] else 1 if len(x["wraps"]) > 2 else 2):
            r.shuffle(ty)
            t = " | ".join("(%s)" % TYPE[y] if "readonly" in TYPE[y] else TYPE[y] for y in ty)
            if r.random() < .2:
                sig = "<T extends %s>(x: T, f: any, P: string[])" % t
            else:
                sig = "(x: %s, f: any, P: string[])" % t
            op = x["op"]
            case = dict(x, type=ty)
            if op in ("key", "at"):
                pre, e = take(x, r)
                n = 1 if x["rep"] else 0
                text = "%sreturn %s%s%s;" % (pre, "\x01" * n, e, "\x02" * n)
                clean = text.replace("\x01", "").replace("\x02", "")
                if x["zero"] or r.random() < .3:
                    values.append((x, pre, index(x, r)))

                def after(m, new, x=case, t=clean):
                    jobs.append((x, t, new[new.index("/*<*/") + 5:new.rindex("/*>*/")], bool(set(x["type"]) & {"null", "undefined"})))
                S.add("prefer-find", None, "function g%s {/*<*/ %s /*>*/}" % (sig, text), [(0, "preferFind")] * n, case, after)
            elif op in ("sort", "sortstrings"):
                n = 1 if x["rep"] else 0
                call = r.choice(["%s.sort()", "%s.toSorted()", "%s['sort']()", "(%s).sort()", "%s?.sort()", "%s.sort?.()", "%s[`toSorted`]()"]) % "x"
                S.add("require-array-sort-compare", None if op == "sortstrings" and r.random() < .5 else {"ignoreStringArrays": op == "sortstrings"}, "function g%s { %s%s%s; x.sort((a, b) => 0); x.toString(); x.reverse(); x.toSorted(f); }" % (sig, "\x01" * n, call, "\x02" * n), [(0, "requireCompare")] * n, case)
            elif op == "delete":
                n = 1 if x["rep"] else 0
                i = r.choice(["0", "P.length", "i", "(i)", "i + 1", "i /* ] */", "P[0].length", "[1, 0][0]", "[0][0]"])
                e = r.choice(["x[%s]", "(x)[%s]", "(x[%s])", "((x[%s]))", "x /* [ */ [%s]"]) % i
                clean = "let i = 1; delete %s; return x;" % e

                def spliced(m, new, x=case, t=clean):
                    if not set(x["type"]) & {"readonly"}:
                        jobs.append((dict(x, index=t), t, new[new.index("/*<*/") + 5:new.rindex("/*>*/")], False))
                S.add("no-array-delete", None, "function g%s {/*<*/ let i = 1; %sdelete%s %s; return x; /*>*/}" % (sig, "\x01" * n, "\x02" * n, e), [(0, "noArrayDelete")] * n, case, spliced)
            else:
                n = 1 if x["rep"] else 0
                d = r.choice(["const i", "let i", "var i"])
                w = r.choice(["x", "(x)", "x!" if not nul else "x"])
                S.add("no-for-in-array", None, "function g%s { %sfor (%s in %s)%s { f(i); } for (const i of P) { f(i); } }" % (sig, "\x01" * n, d, w, "\x02" * n), [(0, "forInViolation")] * n, case)
    # no constants
    for t in ("function g(x: string[], k: 0) { return [x.filter(y => y)[k], x.filter(y => y).at(k)]; }", "function g(x: string[]) { let k = 0; return x.filter(y => y)[k]; }", "function g(x: string[]) { const { k } = { k: 0 }; return x.filter(y => y)[k]; }", "function g(x: string[], k = 0) { return x.filter(y => y)[k]; }", "const s = Symbol(); function g(x: any[]) { return [x.filter(y => y)[s as any], x.filter(y => y).at(s as any)]; }",
              "function g(x: string[]) { return [x.filter(y => y).at(), x.filter(y => y).at(0, 0), x.filter(y => y).at(...[0])]; }", "function g(x: string[], filter: any) { return [filter(x)[0], x[filter](x)[0], at(0)]; } declare function at(n: number): any;", "for (const k of [0]) { const v = [1].filter(y => y)[k]; }", "const k: number = k2, k2: number = k; const v = [1].filter(y => y)[k];", "const x = [1].filter?.(y => y)[0];"):
        S.add("prefer-find", None, t, [], dict(quiet=t))
    for v in ("NaN", "undefined"):
        for t in ("function g(x: string[], %s: number) { return x.filter(y => y).at(%s); }" % (v, v), "function g(x: string[]) { let %s = 1; return x.filter(y => y).at(%s); }" % (v, v), "function g(x: string[]) { const %s = 1; return x.filter(y => y).at(%s); }" % (v, v)):
            S.add("prefer-find", None, t, [], dict(quiet=t))
        t = "function g(x: string[]) { const %s = 0; return \x01x.filter(y => y)[%s]\x02; }" % (v, v)
        S.add("prefer-find", None, t, [(0, "preferFind")], dict(loud=t))
    S.run()
    os.makedirs(c.tmp, exist_ok=True)
    subjects = [[], ["p"], ["p", "q"], ["q", "p"], ["q", "r", "p"]]
    preds = [[], ["p"], ["q"], ["p", "q"], ["p", "q", "r"]]
    todo, owner = [], []
    for j in jobs:
        for _ in range(4):
            todo.append(dict(a=j[1], b=j[2], s=r.choice(subjects), P=r.choice(preds)))
            owner.append(j)
        if j[3]:
            todo.append(dict(a=j[1], b=j[2], s=[], P=[], null=True))
            owner.append(j)
    nj = len(todo)
    # the model's index values are JavaScript's
    for x, _, (pre, e) in values:
        todo.append(dict(a=pre + "const v = (%s) as any; return [typeof v, Object.is(v, -0) ? '-0' : String(v)];" % e, b="", s=[], P=[]))
    json.dump(todo, open(c.tmp + "/jobs.json", "w"))
    p = subprocess.run(["node", "-e", EVAL, c.tmp + "/jobs.json"], capture_output=True, text=True, timeout=max(60, c.left()))
    if p.returncode:
        raise RuntimeError("node: " + p.stderr[-2000:])
    res = json.loads(p.stdout)
    for (x, _, (pre, e)), w in zip(values, res[nj:]):
        v = [x["value"][0] if x["value"][0] != "null" else "object", x["value"][1]]
        if w[0] != v:
            raise RuntimeError("the model says that %s %s is %s; node says %s" % (pre, e, v, w[0]))
    for (x, t, new, nul), j, w in zip(owner, todo, res):
        c.validated += 1
        if x["op"] == "delete":
            if isinstance(w[0], list):
                k = [i for i, y in enumerate(w[0]) if y is None]
                w[0] = [y for y in w[0] if y is not None]
                w[2] = w[0]
        # a chain in parentheses fails for null and undefined; its replacement need not
        if any(w[i] != w[i + 1] and not str(w[i]).startswith("throws") for i in (0, 2)):
            c.violation("%r becomes %r, which for %s gives %s and not %s" % (t, new.strip(), (j["s"], j["P"], j.get("null", False)), [w[1], w[3]], [w[0], w[2]]), dict(case=x, code=t, fixed=new))
    c.count("edits evaluated", len(jobs))


if __name__ == "__main__":
    main("C38", body)
