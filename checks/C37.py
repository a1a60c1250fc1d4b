"""C37: conversions.  Conversions.tla's chains are linted; every suggestion is run by node on every value of the type."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch

NOTE = """Chains of up to two (thorough: three) of ten conversions to string, number, boolean and bigint, of values of one or two of ten kinds of types; each chain in several spellings of operand and surroundings."""
RULE = "no-unnecessary-type-conversion"
TYPE = dict(S="string", L="'x'", M="number", I="0 | 7", F="1.5", W="4294967297", B="boolean", G="bigint", N="null", U="undefined")
PREFIX = {"plus", "tildes", "bangs"}
SHADOW = {"String": "function String(x: unknown) { return x as string; }", "Number": "const Number = (x: unknown) => x as number;", "Boolean": "function Boolean(x: unknown) { return x as boolean; }", "BigInt": "const BigInt = (x: unknown) => x as bigint;"}
# operand, is it strong enough for every place, can it stand after a prefix operator
BASE = [("x", 2)] * 4 + [("o.x", 2), ("(x)", 2), ("o['x']", 2), ("f(x)", 2), ("((o.x))", 2), ("(0, x)", 2), ("(k ? x : o.x)", 2), ("k ? x : o.x", 0), ("(() => x)()", 2), ("l[0]", 2), ("new C(x).x", 2)]
# values around an operand of any strength, around a unary one, around one that is a call or name
ANY = ["return %s;", "return (%s);", "return [%s][0];", "return id(%s);", "return { v: %s }.v;", "const v = %s; return v;", "return [...[%s]];", "return k ? (%s) : 1;", "return [k, %s];", "return `${%s}`;", "return (() => %s)();", "return l.length && (%s);", "return [(%s)];", "let v; v = %s; return v;"]
UNARY = ["return typeof %s;", "return void 0 ?? %s;", "return -%s;", "return %s === y;", "return y === %s;", "return %s ? 1 : 2;", "return typeof(%s);", "return k && %s;", "return y || %s;", "return k ? %s : y;", "return k ? y : %s;", "return typeof%s;", "return%s;", "switch (y) { case%s: return 1; } return 2;"]
CALL = ["return %s.constructor.name;", "return %s['valueOf']();", "return %s.valueOf();"]


def write(x, r):
    """body, reported places in order of the chain"""
    base, strong = r.choice(BASE)
    e = base
    plain = base.isidentifier()
    n = len(x["chain"])
    marks = []
    for i, (c, rep) in enumerate(zip(x["chain"], x["rep"])):
        a, z = ("\x01", "\x02") if rep else ("", "")
        arg = e
        # 0: needs parentheses as an operand, 1: unary, 2: call or name
        if c in ("String", "Number", "Boolean", "BigInt"):
            e, strong = "%s%s%s(%s%s)" % (a, c, z, arg, r.choice(["", "", "", ","])), 2
        elif c == "toString":
            e, strong = "%s.%stoString()%s" % (arg if strong == 2 else "(%s)" % arg, a, z), 2
        elif c in PREFIX:
            sign = dict(plus="+", tildes="~~", bangs="!!")[c]
            if strong == 0 or strong == 1 and sign[0] == arg.replace("\x01", "")[0]:
                arg = "(%s)" % arg
            if sign == "+" and r.random() < .2:
                e = a + "+ " + z + arg
            else:
                e = a + sign + z + arg
            strong = 1
        elif c == "plusEmpty":
            arg = arg if strong else "(%s)" % arg
            e, strong = "%s%s + %s%s" % (arg, a, r.choice(["''", '""']), z), 0
        else:
            arg = arg if strong else "(%s)" % arg
            e, strong = "%s%s + %s%s" % (a, r.choice(["''", '""']), z, arg), 0
    around = r.choice(ANY + (UNARY if strong and e.replace("\x01", "")[0] in "+~!" else [y for y in UNARY if " %s" in y or "(%s)" in y or "!%s" in y] if strong else []) + (CALL * 2 if strong == 2 else []))
    if around in ("return typeof%s;", "return%s;") or "case%s" in around:
        around = around.replace("%s", "%s" if e.replace("\x01", "")[0] in "+~!" else " %s")
    return around % e


EVAL = r"""
process.removeAllListeners('warning'); process.on('warning', () => {});
const { stripTypeScriptTypes } = require('module');
const jobs = JSON.parse(require('fs').readFileSync(process.argv[1], 'utf8'));
const make = t => { try { return eval(stripTypeScriptTypes('(function (x, y, k, o, l, f, id, C) {' + t + '})')); } catch (e) { return String(e); } };
const show = v => typeof v === 'bigint' ? ['bigint', String(v)] : Array.isArray(v) ? v.map(show) : [v === null ? 'null' : typeof v, typeof v === 'object' ? JSON.stringify(v) : String(v)];
const run = (f, v) => { if (typeof f === 'string') return f; try { return show(f(v, v, true, { x: v }, [v], y => y, y => y, class { constructor(x) { this.x = x; } })); } catch (e) { return ['throws', e.name]; } };
console.log(JSON.stringify(jobs.map(j => { const a = make(j.a), b = make(j.b); return j.values.map(v => { const w = eval(v); return [run(a, w), run(b, w)]; }); })));
"""


def literal(v):
    return dict(string=json.dumps(v[1]), bigint=v[1] + "n").get(v[0], v[1])


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    r = c.rng
    _, q = c.tlc("Conversions", "SPECIFICATION Spec\nCONSTANTS\n Depth = %d\nINVARIANTS Identity Removable Emit\n" % (3 if c.thorough else 2))
    q = sorted(q, key=canon)
    if c.thorough:
        q = [x for x in q if len(x["chain"]) < 3 or r.random() < .5]
    S = Batch(c, b, "conversions", "declare class C<T> { constructor(x: T); x: T; }\ndeclare function id<T>(x: T): T;\n", per=400)
    jobs, bare = [], []
    for x in q:
        for _ in range(4 if len(x["chain"]) < 2 else 2):
            t = write(x, r)
            ty = sorted(x["type"])
            r.shuffle(ty)
            ty = " | ".join(TYPE[y] for y in ty)
            gen = r.random() < .2
            code = "function g%s(x: %s, y: %s, k: boolean, o: { x: %s }, l: [%s], f: (x: unknown) => %s) {/*<*/ %s /*>*/}" % (("<T extends %s>" % ty if gen else "",) + ("T" if gen else ty,) * 5 + (t,))
            clean = t.replace("\x01", "").replace("\x02", "")
            n = sum(x["rep"])

            def after(m, new, x=x, t=clean):
                jobs.append((x, t, new[new.index("/*<*/") + 5:new.rindex("/*>*/")]))
            S.add(RULE, None, code, [(i, "unnecessaryTypeConversion") for i in range(n)], x, after)
            bare.append((x, clean))
    # a function of that name is no conversion; nor are other numbers of arguments, and strings that are not empty
    P = "function g(x: string, n: number, b: boolean, z: bigint) { %s }"
    for t in ["%s let v = String(x);" % SHADOW["String"], "%s let v = Number(n);" % SHADOW["Number"], "%s let v = Boolean(b);" % SHADOW["Boolean"], "%s let v = BigInt(z);" % SHADOW["BigInt"], "let v = String(x, 1);", "let v = new String(x);", "let v = new Number(n);", "let v = new Boolean(b);", "let v = String();", "let v = globalThis.String(x);",
              "let v = x + ' ';", "let v = ' ' + x;", "let v = x.toString(1);", "let v = -n;", "let v = ~n;", "let v = !b;", "let v = !n;", "let v = !!n;", "let v = +x;", "let v = String(n);", "let v = n + '';", "n += '';", "let v = x.concat('');", "let v = x.valueOf();", "let v = parseInt(x);", "let v = String(...[x]);", "let v = Number(...([n] as const));", "x += 'y';", "let v = `${x}`;", "let v = x - 0;", "let v = n | 0;"]:
        S.add(RULE, None, P % t, [], dict(quiet=t))
    for t in ["o.x += '';", "let v = [-~i, ~-i, -!b, !-i, ~!b, !~i];", "let v = e.toString();", "let v = E.A.toString();", "let v = ~~w;", "let v = ~~m;"]:
        S.add(RULE, None, "enum E { A = 'a', B = 'b' } function g(o: { x: string }, i: 0 | 7, b: boolean, e: E, w: 2147483648, m: -2147483649 | 0) { %s }" % t, [], dict(quiet=t))
    for t in ["let v = \x01~~\x02w;", "let v = \x01~~\x02m;", "let v = \x01String\x02(e);", "let v = e\x01 + ''\x02;", "let v = \x01+\x02f;", "let v = \x01Number\x02(F.B);", "let v = \x01~~\x02F.B;"]:
        S.add(RULE, None, "enum E { A = 'a', B = 'b' } enum F { A, B } function g(e: E, f: F, w: 2147483647, m: -2147483648 | 0) { %s }" % t, [(0, "unnecessaryTypeConversion")], dict(code=t))
    # += gives the variable itself
    for t, w in (("\x01x += ''\x02; return x;", [" return x;", "x satisfies string; return x;"]), ("return (\x01x += ''\x02);", ["return (x);", "return (x satisfies string);"]), ("const v = [\x01x += \"\"\x02]; return v;", ["const v = [x]; return v;", "const v = [x satisfies string]; return v;"])):
        seen = []

        def both(m, new, t=t, w=w, seen=seen):
            seen.append(new[new.index("/*<*/") + 5:new.rindex("/*>*/")].strip())
            if len(seen) == 2 and seen != [y.strip() for y in w]:
                c.violation("suggestions for %r are %s" % (t, seen), dict(code=t))
        S.add(RULE, None, "function g(x: string, o: { x: string }) {/*<*/ %s /*>*/}" % t, [(0, "unnecessaryTypeConversion")], dict(code=t), both)
    S.run(compare=lambda m, code, x: None if [y["message"]["id"] for y in m.get("suggestions") or []] == ["suggestRemove", "suggestSatisfies"] and not m.get("fixes") else "suggestions are %s" % [y["message"]["id"] for y in m.get("suggestions") or []])
    os.makedirs(c.tmp, exist_ok=True)
    vals = [[v for v, _ in x["table"]] for x, _, _ in jobs]
    json.dump([dict(a=t, b=new, values=[literal(v) for v in vs]) for (_, t, new), vs in zip(jobs, vals)] + [dict(a="return [0][0];", b=t, values=[literal(v) for v, _ in x["table"]]) for x, t in bare if t.startswith("return [0][0]")], open(c.tmp + "/jobs.json", "w"))
    # the model's conversions are JavaScript's
    K = dict(String="String(x)", toString="x.toString()", plusEmpty="x + ''", emptyPlus="'' + x", Number="Number(x)", plus="+x", tildes="~~x", Boolean="Boolean(x)", bangs="!!x", BigInt="BigInt(x)")
    pure = []
    for x in q:
        t = "x"
        for k in x["chain"]:
            t = K[k].replace("x", "(%s)" % t)
        pure.append(dict(a="return %s;" % t, b="return x;", values=[literal(v) for v, _ in x["table"]]))
    json.dump(pure, open(c.tmp + "/pure.json", "w"))

    def node(name):
        p = subprocess.run(["node", "-e", EVAL, c.tmp + "/" + name], capture_output=True, text=True, timeout=max(60, c.left()))
        if p.returncode:
            raise RuntimeError("node: " + p.stderr[-2000:])
        return json.loads(p.stdout)
    for x, res in zip(q, node("pure.json")):
        for (v, w), (g, _) in zip(x["table"], res):
            if w != g:
                raise RuntimeError("the model says that %s turns %s into %s; node says %s" % (x["chain"], v, w, g))
    for (x, t, new), vs, res in zip(jobs, vals, node("jobs.json")):
        c.validated += 1
        for v, (u, w) in zip(vs, res):
            if u != w:
                c.violation("%r becomes %r, which for %s gives %s and not %s" % (t.strip(), new.strip(), v, w, u), dict(case=x, code=t, fixed=new, value=v))
                break
    c.count("edits evaluated", len(jobs))


if __name__ == "__main__":
    main("C37", body)
