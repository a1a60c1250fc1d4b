"""C26: the no-unsafe-* rules.  Flow.tla's types, patterns and chains against the five rules."""
import sys, os, re, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch

NOTE = """Walks over sender and receiver types nested to depth 3 (thorough 4) through 9 generics, unions, functions and objects, at 30 positions; patterns to depth 3; chains of up to 6 (thorough 8) steps, with and without allowOptionalChaining."""
PRE = """interface Box<T> { get(): T; put(x: T): void }
declare class Cls<T> { private t: T; constructor(t?: T); m(): T }
type ASet<T> = Set<T>;
interface O { a: any; o: O; fa(): any; fo(): O; l: O[] }
interface SubFn extends Function { extra: 1 }
interface CallVoid extends Function { (): void }
interface CallNum extends Function { (): number }
interface Constr extends Function { new (): O }
declare const anyv: any;
declare let anyl: any;
declare const ov: O;
declare const i: number;
declare function take(...x: unknown[]): void;
"""
QUIET = ["function q() { return; }", "class Z { constructor() { return; } get g(): void { return; } }", "void import('nothing');", "const { ...rest } = ov;", "let rs; ({ ...rs } = ov);", "const [, q] = [1, 2];",
         "const id = <T,>(x: T): T => x;", "class Z2 extends Set<any> { constructor() { super(); } }", "JSON.parse('1') as unknown;", "const u: unknown = anyv;", "let u2: unknown; u2 = anyv;", "declare const zz: typeof anyv.a;", "void import.meta;",
         "function* gq() { yield anyv; yield* [1]; }", "const un = (): unknown => anyv;", "const an = (): any => anyv;", "async function au(): Promise<unknown> { return anyv; }", "async function aa(): Promise<any> { return anyv; }", "const [, ] = [1];", "for (const x of [1]) { take(x); }",
         "declare function dd(a: any, b: unknown): void; dd(anyv, anyv);", "take(anyv);", "interface Ex extends O { }", "enum En { A = 1 }", "anyv;", "if (anyv) { }", "void anyv;", "switch (anyv) { case anyv: }", "throw anyv;", "anyv instanceof Set;", "`${anyv}`;", "anyv as O;", "(<O>anyv).o;", "const fn = function () { };", "label: for (;;) { break label; }",
         "const e0 = [];", "const o0 = {};", "function none(...x: never[]) { }", "new Set;", "new Map<string, any>();", "const { length } = 'abc';", "delete ov.a;", "ov.fa;", "take(...[1, 2]);", "take?.(1);", "class S3 { static { take(1); } x = 1; #y = this.x; }"]


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    rng = c.rng
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Mode = \"%s\"\n Depth = %d\n Walks = %d\nINVARIANTS Safe OnceInARow Disjoint Emit\n"
    run = lambda m, d, n: c.tlc("Flow", cfg % (m, d, n), args=["-seed", str(c.seed)], workers=1)[1]
    flows = run("flow", 4 if c.thorough else 3, 14000 if c.thorough else 4000)
    pats = run("pattern", 4 if c.thorough else 3, 8000 if c.thorough else 2000)
    chains = run("chain", 8 if c.thorough else 6, 6000 if c.thorough else 2500)
    calls = run("call", 1, 1)

    def ty(t):
        a = [ty(x) for x in t["a"]]
        h = t["h"]
        if h in ("num", "str"):
            return dict(num="number", str="string")[h]
        if h == "Array":
            return rng.choice(["%s[]", "Array<%s>"]) % a[0]
        if h == "RArr":
            return rng.choice(["(readonly %s[])", "ReadonlyArray<%s>"]) % a[0]
        if h == "Set":
            return rng.choice(["Set<%s>", "ASet<%s>"]) % a[0]
        if h in ("Tup1", "Tup2"):
            return "[%s]" % ", ".join(a)
        if h == "Opt":
            return rng.choice(["(%s | undefined)", "(undefined | %s)"]) % a[0]
        if h == "Fn":
            return "(() => %s)" % a[0]
        if h == "Obj1":
            return "{ p: %s }" % a[0]
        if h == "Obj":
            return "{ p: %s; q: %s }" % tuple(a)
        return h + ("<%s>" % ", ".join(a) if a else "")

    def sender(t, spelled):
        """(declarations, expression, is an identifier)"""
        k = rng.randrange(8)
        if k == 0:
            return "declare const w: { s: %s };\n" % spelled, "w.s", False
        if k == 1:
            return "declare function s(): %s;\n" % spelled, "s()", False
        if k == 2:
            return "declare const s: %s;\n" % spelled, "(s)", False
        if k == 3:
            return "", "(anyv as %s)" % spelled, False
        if k == 4 and t["h"] in ("Set", "Cls") or k == 5 and t["h"] in ("Set", "Cls", "Map"):
            return "", "new %s<%s>()" % (t["h"], ", ".join(ty(x) for x in t["a"])), False
        return "declare const s: %s;\n" % spelled, "s", True

    F = Batch(c, b, "flow", PRE, per=700)
    E = lambda s: "\x01%s\x02" % s
    for x in flows:
        S, R = ty(x["s"]), ty(x["r"])

        def one(rule, verdict, texts, more=None):
            d, e, ident = sender(x["s"], S)
            m = (lambda s: E(s)) if verdict else (lambda s: s)
            ts = texts(e, m, ident)
            F.add(rule, None, d + rng.choice([t for t in ts if t]), [(0, verdict)] if verdict else [], x)
        A, G, V = "no-unsafe-assignment", "no-unsafe-argument", "no-unsafe-return"
        eq = lambda m: m("=")
        one(A, x["basic"], lambda e, m, n: ["const x: %s %s %s;\n" % (R, eq(m), e), "let x: %s%s%s;\n" % (R, eq(m), e), "declare let x: %s; x %s %s;\n" % (R, eq(m), e), "declare const x: { p: %s }; x.p %s %s;\n" % (R, eq(m), e),
                                            "class K { p: %s %s %s; }\n" % (R, eq(m), e), "class K { static readonly p: %s %s %s; }\n" % (R, eq(m), e), "class K { #p: %s %s %s; accessor q = 1; }\n" % (R, eq(m), e), "class K { accessor p: %s %s %s; }\n" % (R, eq(m), e),
                                            "function f(a: number, p: %s %s %s) {}\n" % (R, eq(m), e), "take((p: %s %s %s) => 1);\n" % (R, eq(m), e), "class K { constructor(private p: %s %s %s) {} m(q = 1) {} }\n" % (R, eq(m), e)])
        if rng.random() < .6:
            one(A, x["basic"], lambda e, m, n: ["const o: { p: %s } = { p%s %s };\n" % (R, m(":"), e), "declare function f(o: { p: %s; q: 1 }): void; f({ q: 1, p%s %s });\n" % (R, m(":"), e), "const o: { y: 1; g: { p: %s } } = { y: 1, g: { p %s %s } };\n" % (R, m(":"), e),
                                                "declare let z: unknown; const o: { y: unknown; p: %s } = { y: z = 1, p%s %s };\n" % (R, m(":"), e), "declare let z: unknown; const o: { p: %s; y: unknown } = { p%s %s, y: (z = 1) };\n" % (R, m(":"), e),
                                                "const o: { s: %s } = { %s };\n" % (R, m("s")) if n else None, "const o: { s: %s }[] = [{ %s }];\n" % (R, m("s")) if n else None])
        if rng.random() < .25:
            one(A, x["none"], lambda e, m, n: ["const x %s %s;\n" % (eq(m), e), "class K { p %s %s; }\n" % (eq(m), e), "take({ p%s %s });\n" % (m(":"), e), "function f(p %s %s) {}\n" % (eq(m), e), "for (let x %s %s; ;) break;\n" % (eq(m), e), "take(%s);\n" % e if not x["none"] else None])
            spread = x["s"]["h"] == "any" or x["s"]["h"] in ("Array", "RArr") and x["s"]["a"][0]["h"] == "any"
            one(A, "unsafeArraySpread" if spread else "", lambda e, m, n: ["take([%s%s]);\n" % (m("..."), e), "const x: unknown[] = [1, %s%s, 2];\n" % (m("..."), e), "take([[%s%s]]);\n" % (m("..."), e)])
            one(A, "", lambda e, m, n: ["declare let x: %s; x ??= %s;\n" % (R, e), "declare let x: %s; x += %s;\n" % (R, e), "take({ ...%s });\n" % e, "for (const x of %s) {}\n" % e])
        one(G, x["arg"], lambda e, m, n: ["declare function f(p: %s): void; f(%s);\n" % (R, m(e)), "declare function f(a: number, p: %s): void; f(1, %s);\n" % (R, m(e)), "declare const k: { m(p: %s, q?: 1): void }; k.m(%s);\n" % (R, m(e)), "declare class K { constructor(p: %s); } new K(%s);\n" % (R, m(e)),
                                          "declare function f(...p: %s[]): void; f(%s);\n" % (R, m(e)), "declare function f(...p: [number, %s]): void; f(1, %s);\n" % (R, m(e)),
                                          "declare function f(...p: [%s, number]): void; f(%s, 2);\n" % (R, m(e)), "declare function f<T>(q: T, p: %s): T; f(() => 1, %s);\n" % (R, m(e)), "declare function f(t: TemplateStringsArray, n: number, p: %s): void; f`a${1}${%s}`;\n" % (R, m(e)),
                                          "declare function f(this: void, p: %s): void; f(%s);\n" % (R, m(e)), "declare function f(p: %s): void; f?.(%s);\n" % (R, m(e)), "declare function f(...p: %s[]): void; f(undefined as never, %s);\n" % (R, m(e))])
        if rng.random() < .3:
            one(G, x["opt"], lambda e, m, n: ["declare function f(p?: %s): void; f(%s);\n" % (R, m(e)), "declare function f(a: number, p?: %s): void; f(1, %s);\n" % (R, m(e))])
            one(G, "", lambda e, m, n: ["declare function f<T>(p: T): void; f(%s);\n" % e, "anyv(%s);\n" % e, "take(%s);\n" % e, "declare function f(...p: any[]): void; f(%s, %s);\n" % (e, e)])
            d, e, _ = sender(x["s"], S)
            v = x["spread"]
            F.add(G, None, d + rng.choice(["declare function f(...p: %s[]): void; f(%s);\n", "declare function f(p: %s, q: " + R + "): void; f(%s);\n", "declare function f(n: 1, ...p: %s[]): void; f(1, %s);\n", "declare class K { constructor(...p: %s[]); } new K(%s);\n"]) %
                  (R, ("\x01...%s\x02" if v else "...%s") % e), [(0, i) for i in v], x)
        arrow, ret = lambda m: m("=>"), lambda m: m("return")

        def fns(sig, pre):
            return lambda e, m, n: ["%sfunction f()%s { %s %s; }\n" % (pre, sig, ret(m), e), "%sfunction f()%s { if (i) { %s (%s); } throw 1; }\n" % (pre, sig, ret(m), e), "take(%s()%s %s %s);\n" % (pre, sig, arrow(m), e) if sig else "const f = %s() %s %s;\n" % (pre, arrow(m), e),
                                    "const f = %sfunction ()%s { %s %s };\n" % (pre, sig, ret(m), e), "class K { %sm()%s { %s %s; } }\n" % (pre, sig, ret(m), e), "const o = { %sm()%s { return 1 as never; }, %sn()%s { %s %s; } };\n" % (pre, sig, pre, sig, ret(m), e),
                                    "class K { get p()%s { %s %s; } }\n" % (sig, ret(m), e) if not pre else None, "const f = %s()%s %s { %s %s; };\n" % (pre, sig, "=>", ret(m), e)]

        def contextual(R, pre):
            return lambda e, m, n: ["const f: () => %s = %s() %s %s;\n" % (R, pre, arrow(m), e), "const f: () => %s = %sfunction () { %s %s; };\n" % (R, pre, ret(m), e), "declare function g(f: () => %s): void; g(%s() %s %s);\n" % (R, pre, arrow(m), e),
                                    "declare class G { constructor(n: 1, f: (x: number) => %s); } new G(1, %sx %s %s);\n" % (R, pre, arrow(m), e), "let f: () => %s; f = %s() %s %s;\n" % (R, pre, arrow(m), e), "class K { f: () => %s = %s() => { %s %s; }; }\n" % (R, pre, ret(m), e)]
        for k, t in (("ret", fns(": " + R, "")), ("aret", fns(": Promise<%s>" % R, "async ")), ("ctx", contextual(R, "")), ("actx", contextual("Promise<%s>" % R, "async ")), ("free", fns("", "")), ("afree", fns("", "async "))):
            if k == "actx" and x["r"]["h"] == "unknown" or rng.random() > (.25 if "free" in k else .6):
                continue
            one(V, x[k], t)
    F.run()
    for j, x in enumerate([dict(s=dict(h="Map", a=[dict(h="any", a=[]), dict(h="any", a=[])]))]):
        M = Batch(c, b, "map", PRE)
        for e in ("new Map()", "(new Map())", "new Map"):
            M.add("no-unsafe-assignment", None, "const x: Map<string, number> = %s;\n" % e, [], x)
            M.add("no-unsafe-argument", None, "declare function f(m: Map<string, number>): void; f(%s);\n" % e, [], x)
            M.add("no-unsafe-return", None, "const f = (): Map<string, number> => %s;\n" % e, [], x)
        M.run()
    P = Batch(c, b, "pattern", PRE, per=700)
    for x in pats:
        bad = {tuple(p): i for p, i in x["reps"]}
        asg = rng.random() < .4 and '"H"' not in json.dumps(x["p"]) and all(k != "unsafeArrayPatternFromTuple" or sub(x["p"], q)["h"] == "n" for k, q in [(k, q) for q, k in x["reps"]])
        names = []

        def pat(p, path, last=True):
            if p["h"] in ("n", "R"):
                n = "v%d" % len(names)
                names.append(n)
                t = ("o." + n if asg and rng.random() < .5 else n)
                t = "..." + t if p["h"] == "R" else t
            elif p["h"] == "H":
                t = ""
            elif p["h"] == "A":
                es = [pat(q, path + (i + 1,)) for i, q in enumerate(p["a"])]
                t = "[%s]" % (", ".join(es) + (rng.choice(["", ","]) if p["a"][-1]["h"] not in "RH" else "," if p["a"][-1]["h"] == "H" else ""))
            else:
                es = []
                for i, q in enumerate(p["a"]):
                    k = "pq"[i]
                    if q["h"] == "n" and rng.random() < .4 and k not in names:
                        names.append(k)
                        es.append(mark(k, path + (i + 1,)))
                    elif q["h"] == "R":
                        es.append(pat(q, path + (i + 1,)))
                    else:
                        es.append(rng.choice(["%s: ", "'%s': ", "['%s']: ", "%s:"]) % k + pat(q, path + (i + 1,)))
                if not any(q["h"] == "R" for q in p["a"]) and rng.random() < .3:
                    es.reverse()
                t = "{ %s }" % ", ".join(es)
            return mark(t, path)

        KIND = dict(unsafeArrayPattern="\x03", unsafeArrayPatternFromTuple="\x04", anyAssignment="\x05")

        def mark(t, path):
            return "\x01" + KIND[bad[path]] + t + "\x02" if path in bad and bad[path] != "anyAssignment" else t
        t = pat(x["p"], ())
        want = []
        top = bad.get(()) == "anyAssignment"
        m = "\x01\x05=\x02" if top else "="
        e = rng.choice(["s", "(s)", "f()", "w.s"])
        d = {"s": "declare const s: %s;\n", "(s)": "declare const s: %s;\n", "f()": "declare function f(): %s;\n", "w.s": "declare const w: { s: %s };\n"}[e] % ty(x["t"])
        if asg:
            d += "declare let o: Record<string, unknown>%s;\n" % "".join(", %s: unknown" % n for n in names)
            t = "(%s %s %s);\n" % (t, m, e)
            if top and x["p"]["h"] == "n":
                continue
        else:
            t = rng.choice(["const %s %s %s;\n", "let %s %s %s;\n"] + ["function g(%s %s %s) {}\n"] * (e != "f()")) % (t, m, e)
        want = [(j, {v: k for k, v in KIND.items()}[t[m.end()]]) for j, m in enumerate(re.finditer("\x01", t))]
        t = re.sub("[\x03-\x05]", "", t)
        P.add("no-unsafe-assignment", None, d + t, want, x)
    P.run()
    K = Batch(c, b, "chain", PRE, per=700)
    # programs in which no any flows anywhere
    for t in QUIET:
        for rule in ("no-unsafe-assignment", "no-unsafe-argument", "no-unsafe-return", "no-unsafe-call", "no-unsafe-member-access"):
            K.add(rule, None, t + "\n", [], dict(quiet=t))
    seen = set()
    for x in chains:
        for rule, ids in (("no-unsafe-member-access", ("unsafeMemberExpression", "unsafeComputedMemberAccess")), ("no-unsafe-call", ("unsafeCall", "unsafeNew", "unsafeTemplateTag"))):
            ranges = []  # (start, end, id)
            t = "ov" if x["base"] == "O" else "anyv"

            def wrapped(pre, post):
                nonlocal t, ranges
                t = pre + t + post
                ranges = [(s + len(pre), e + len(pre), i) for s, e, i in ranges]
            for op in x["ops"]:
                o, n, m = op["o"], op["o"]["n"], op["o"]["m"]
                whole = len(t)
                rep = op["rep"] if op["rep"] in ids else ""
                if n in ("dot", "qdot"):
                    sep = "?." if n == "qdot" else rng.choice([".", "\n ."]) if o["n"] == "dot" else "."
                    if rep:
                        ranges.append((whole + len(sep), whole + len(sep) + len(m), rep))
                    t += sep + m
                elif n == "idx":
                    sep = "?.[" if o["q"] else "["
                    m = m.replace("anyv++", "anyl++")
                    for i in (rep, op["idx"] if op["idx"] in ids else ""):
                        if i:
                            ranges.append((whole + len(sep), whole + len(sep) + len(m), i))
                    t += sep + m + "]"
                elif n in ("call", "qcall"):
                    if rep:
                        ranges.append((0, whole, rep))
                    t += rng.choice(["()", "(1)"]) if n == "call" else "?.()"
                elif n == "new":
                    wrapped("new (", ")()")
                    if rep:
                        ranges.append((0, len(t), rep))
                elif n == "tag":
                    if rep:
                        ranges.append((0, whole, rep))
                    t += "`t`"
                elif n == "paren":
                    wrapped("(", ")")
                elif n == "bang":
                    t += "!"
                elif n == "asany":
                    wrapped("(", " as any)")
                elif n == "aso":
                    wrapped("(", " as O)")
            want, code = marked(t, ranges)
            o = rng.choice([None, {}, {"allowOptionalChaining": False}]) if rule == "no-unsafe-call" or not x["allow"] else {"allowOptionalChaining": True}
            if rule == "no-unsafe-call" and rng.random() < .5:
                continue
            o = None if rule == "no-unsafe-call" else o
            key = canon([rule, o, code])
            if key not in seen:
                seen.add(key)
                K.add(rule, o, rng.choice(["take(%s);\n", "const x: unknown = %s;\n", "if (%s) {}\n"]) % code, want, x)
    T = dict(any="any", Function="Function", fn="() => void", cls="typeof Cls")
    for x in calls:
        t = T.get(x["c"], x["c"])
        d, g = "declare const v: %s;\n" % t, "%s"
        if t == "TFunction":
            d, g = "", "function g<T extends Function>(v: T) { %s }"
        m = E if x["bad"] else (lambda s: s)
        for e in ("v", "(v)", "w.v"):
            dd = d if e != "w.v" else d.replace("const v: %s" % t, "const w: { v: %s }" % t)
            if t == "TFunction" and e == "w.v":
                continue
            if x["new"]:
                K.add("no-unsafe-call", None, dd + g % ("%s;" % m("new %s()" % e)) + "\n", [(0, "unsafeNew")] if x["bad"] else [], x)
            else:
                K.add("no-unsafe-call", None, dd + g % ("%s();" % m(e)) + "\n", [(0, "unsafeCall")] if x["bad"] else [], x)
                K.add("no-unsafe-call", None, dd + g % ("%s`t${1}`;" % m(e)) + "\n", [(0, "unsafeTemplateTag")] if x["bad"] else [], x)
                K.add("no-unsafe-call", None, dd + g % ("%s?.(1);" % m(e)) + "\n", [(0, "unsafeCall")] if x["bad"] else [], x)
    K.run()


def sub(p, path):
    for i in path:
        p = p["a"][i - 1]
    return p


def marked(t, ranges):
    """text with marks, and what is wanted, for ranges [(start, end, id)] that nest"""
    spans = sorted(set((s, e) for s, e, _ in ranges), key=lambda r: (r[0], -r[1]))
    num = {r: i for i, r in enumerate(spans)}
    out = []
    for k in range(len(t) + 1):
        out += ["\x02"] * sum(1 for s, e in spans if e == k)
        out += ["\x01"] * sum(1 for s, e in spans if s == k)
        out.append(t[k:k + 1])
    return [(num[s, e], i) for s, e, i in ranges], "".join(out)


main("C26", body)
