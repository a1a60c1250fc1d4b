"""C36: nullish coalescing.  Nullish.tla's tests are linted; every suggestion is run by node on every value of the type."""
import sys, os, re, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch

NOTE = """||, ||=, conditional expressions and if statements; tests for truth, one comparison with null or undefined, or two joined by && or ||; subjects of every subset of null, undefined and one primitive type, and any; each option alone; in values, tests and Boolean(); every program in several spellings."""
RULE = "prefer-nullish-coalescing"
OPTS = dict(none=None, tests=dict(ignoreConditionalTests=False), primitives=dict(ignorePrimitives=True), strings=dict(ignorePrimitives=dict(string=True)), numbers=dict(ignorePrimitives=dict(number=True, bigint=True)), ternaries=dict(ignoreTernaryTests=True), ifs=dict(ignoreIfStatements=True), mixed=dict(ignoreMixedLogicalExpressions=True), boolean=dict(ignoreBooleanCoercion=True))
ID = {"or": "preferNullishOverOr", "orassign": "preferNullishOverOr", "ternary": "preferNullishOverTernary", "if": "preferNullishOverAssignment"}
TYPE = dict(N="null", U="undefined", A="any")
VALUE = {"null": "null", "undefined": "undefined"}
KIND = {"string": ("''", "'full'"), "number": ("0", "7"), "boolean": ("false", "true"), "bigint": ("0n", "7n")}
SUBJ = ["a", "a", "a", "o.a", "o.p.a", "o['a']", "o.p?.a", "l[0]", "l[i]"]
LEFT = ["a", "a", "a", "o.a", "o.p.a", "o['a']", "l[0]"]
RHS = ["b", "b", "f()", "(d, b)", "(b)", "o.b", "`other`", "'other'", "(k ? b : b)", "b.concat('')"]
LOW = ["b || d", "k ? b : d", "z = b", "b && b"]
VALUES = ["return %s;", "return [%s][0];", "return f(%s);", "return (%s);", "const v = %s; return v;", "return { v: %s }.v;", "return (() => %s)();", "return `${%s}`;", "return typeof (%s);", "return (%s) + '';", "if (k) { return %s; }", "return f((%s), 1);", "return [...[%s]];", "return Boolean((%s, d));", "if ((%s, d)) { return 1; } return 2;", "return f(%s) ? 1 : 2;", "return [%s] ? 1 : 2;", "return (k ? 1 : 2, %s);", "for (%s; d;) { return 1; } return 2;", "return k ? %s : 0;", "return k ? 0 : (%s);", "if (d) { f(); return %s; }", "return k && f(%s);", "switch (%s) { case 1: return 1; } return 2;"]
# || within other logical expressions
JOINED = ["return k || %s;", "return (%s) && k;", "return k && (%s);", "return (%s) || d;", "return !k || %s;", "return k || (%s);", "return f(k || %s);", "return (k || %s);"]
TESTS = ["if (%s) { return 1; } return 2;", "return (%s) ? 1 : 2;", "while (%s) { return 1; } return 2;", "for (; %s;) { return 1; } return 2;", "if (!(%s)) { return 1; } return 2;", "do { if (d === 'seen') return 1; d = 'seen'; } while (%s); return 2;", "if ((%s)) { return 1; } return 2;", "if (k ? (%s) : d) { return 1; } return 2;", "if (k ? d : (%s)) { return 1; } return 2;", "if ((d, %s)) { return 1; } return 2;", "if (k && (%s)) { return 1; } return 2;", "if (k || (%s)) { return 1; } return 2;", "return !(k && (%s)) ? 1 : 2;"]


def par(t, r, p=.1):
    while r.random() < p:
        t = "(%s)" % t
    return t


def write(x, r):
    """the body, with the reported place marked"""
    form, test = x["form"], x["test"]
    assign = form in ("if", "orassign")
    s = r.choice(LEFT if assign else SUBJ)

    def subj():
        q = s
        if r.random() < .15:
            q = {"o.a": "o['a']", "o['a']": "o.a", "o.p.a": "o.p['a']"}.get(q, q)
        return par(q, r, .08)

    other = r.choice({"a": ["o.c", "o.a", "b"], "l[0]": ["l[1]", "m[0]", "l[i]"], "l[i]": ["l[i + 1]", "m[i]", "l[0]"]}.get(s, ["a", "o.c", "o['c']", "o.p.c", "m[i]"] if "p" not in s else ["o.a", "o.p.c", "o.q.a", "o.p.p.a"]))

    def atom(y, w=None):
        p, q = w or subj(), y["what"]
        if r.random() < .25:
            p, q = q, p
        return "%s %s %s" % (p, y["op"], q)
    k = test["kind"]
    if k == "truth":
        t = subj()
    elif k == "not":
        t = "!" + subj()
    elif k == "one":
        t = atom(test["l"])
    else:
        t = "%s %s %s" % (atom(test["l"]), "&&" if k == "and" else "||", atom(test["r"], other if x["odd"] == "atom" else None))
    rhs = r.choice(["b && b", "(b && b)", "b && (b)"]) if x["odd"] == "and" else r.choice(RHS) if r.random() < .75 or x["opt"] == "mixed" else r.choice(LOW)
    m = (lambda y: "\x01%s\x02" % y) if x["rep"] else (lambda y: y)
    if form == "if":
        t = par(t, r, .08)
        lhs = other if x["odd"] == "branch" else subj()
        a = "%s %s %s" % (lhs, r.choice(["+=", "+=", "&&=", "-=", "*="]) if x["odd"] == "compound" else "=", rhs)
        a = r.choice(["%s;", "{ %s; }", "{ %s }", "(%s);", "{\n  %s;\n}"]) % a
        return "%s return %s;" % (m("if (%s) %s" % (t, a)), s), lhs
    if form in ("or", "orassign"):
        if rhs == "z = b" and form == "or":
            rhs = "(z = b)"
        if rhs.startswith("k ?") and form == "or":
            rhs = "(%s)" % rhs
        if rhs == "b || d" and form == "or" and "A" in x["type"]:
            rhs = "(b || d)"
        op = "||" if form == "or" else "||="
        l = subj()
        e = "%s %s %s" % (l, m(op), rhs)
        if form == "orassign" and r.random() < .5 and x["ctx"] == "value":
            return "%s; return %s;" % (e, s), None
    else:
        keep = other if x["odd"] == "branch" else subj()
        if r.random() < .1 and keep[-1] != ")":
            keep += "!"
        p, q = (keep, rhs) if x["keep"] == "then" else (rhs, keep)
        e = m("%s ? %s : %s" % (par(t, r, .08), p, q))
    if x["ctx"] == "test":
        around = r.choice(TESTS[:10] if x["opt"] == "mixed" else TESTS)
        if form == "orassign" and "%s" in around:
            around = around.replace("d, %s", "d, (%s)")
    elif x["ctx"] == "boolean":
        around = r.choice(["return Boolean(%s);", "return Boolean(k ? d : (%s));", "return Boolean(k %s (%%s));" % ("," if x["opt"] == "mixed" else "&&"), "return Boolean((%s));", "return Boolean((d, %s));", "return Boolean(k ? %s : d);"])
        if form == "orassign":
            around = around.replace("%s", "(%s)")
    elif form == "or" and x["odd"] == "no" and x["opt"] not in ("mixed", "primitives", "strings", "numbers") and r.random() < .3:
        around = r.choice(JOINED[:3] + JOINED[4:] if "A" in x["type"] else JOINED)
    else:
        around = r.choice(VALUES[:-1] if x["opt"] == "mixed" else VALUES)
    return around % e, None


EVAL = r"""
const jobs = JSON.parse(require('fs').readFileSync(process.argv[1], 'utf8'));
const run = (t, v, k) => { try { const o = { a: v, b: 'other', c: 'c', p: { a: v } }, l = [v, 'l1', v]; const x = new Function('a', 'b', 'd', 'o', 'l', 'k', 'f', 'i', 'z', t)(v, 'other', 'd', o, l, k, (y = 'other') => y, 0, 0); return JSON.stringify([x === undefined ? 'undefined' : x, o, l].map(y => y === undefined ? 'u' : y), (_, y) => y === undefined ? 'undef' : typeof y === 'bigint' ? y + 'n' : y); } catch (e) { return String(e); } };
console.log(JSON.stringify(jobs.map(j => j.values.map(v => { const w = eval(v); return [run(j.a, w, true) + run(j.a, w, false), run(j.b, w, true) + run(j.b, w, false)]; }))));
"""


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    r = c.rng
    _, q = c.tlc("Nullish", "SPECIFICATION Spec\nCONSTANTS\n Both = FALSE\nINVARIANTS Kept Missed Needed Emit\n")
    q = sorted(q, key=canon)
    S = Batch(c, b, "nullish", "", per=400)
    jobs = []
    for x in q:
        for _ in range(8 if c.thorough else 1 if x["test"]["kind"] in ("and", "or") else 2):
            t, _lhs = write(x, r)
            ty = sorted(x["type"])
            r.shuffle(ty)
            kind = r.choice(sorted(KIND))
            ty = " | ".join("unknown" if y == "A" and r.random() < .4 else TYPE.get(y, kind) for y in ty)
            opts = OPTS[x["opt"]]
            if x["opt"] == "strings":
                opts = dict(ignorePrimitives={kind: True})
            if x["opt"] == "numbers":
                opts = dict(ignorePrimitives={y: True for y in r.sample(sorted(set(KIND) - {kind}), r.randint(1, 3))})
            code = "function g(a: %s, b: string, d: string, o: { a: %s; b: string; c: %s; p: { a: %s; c: %s }; q: { a: %s } }, l: (%s)[], m: (%s)[], k: boolean, f: (x?: unknown, y?: number) => string, i: number, z: string) {/*<*/ %s /*>*/}" % ((ty,) * 8 + (t,))

            def after(m, new, x=x, t=t, kind=kind):
                jobs.append((x, kind, t.replace("\x01", "").replace("\x02", ""), new[new.index("/*<*/") + 5:new.rindex("/*>*/")]))
            S.add(RULE, opts, code, [(0, ID[x["form"]])] if x["rep"] else [], x, after)
    S.run(compare=lambda m, code, x: None if len(m.get("suggestions") or []) == 1 and not m.get("fixes") else "%d suggestions" % len(m.get("suggestions") or []))
    os.makedirs(c.tmp, exist_ok=True)
    vals = [sorted(x["before"]) for x, _, _, _ in jobs]
    js = lambda t: re.sub(r"(?<=[\w\])])!(?!=)", "", t)
    json.dump([dict(a=js(t), b=js(new), values=[VALUE.get(v) or KIND[kind][v == "full"] for v in vs]) for (_, kind, t, new), vs in zip(jobs, vals)], open(c.tmp + "/jobs.json", "w"))
    p = subprocess.run(["node", "-e", EVAL, c.tmp + "/jobs.json"], capture_output=True, text=True, timeout=max(60, c.left()))
    if p.returncode:
        raise RuntimeError("node: " + p.stderr[-2000:])
    for (x, kind, t, new), vs, res in zip(jobs, vals, json.loads(p.stdout)):
        c.validated += 1
        for v, (u, w) in zip(vs, res):
            if "Error" in w or x["before"][v] == x["after"][v] and u != w or "Error" in u:
                c.violation("%r becomes %r, which for %s (%s) gives %s and not %s" % (t.strip(), new.strip(), v, kind, w, u), dict(case=x, code=t, fixed=new, value=v))
                break
    c.count("edits evaluated", len(jobs))


if __name__ == "__main__":
    main("C36", body)
