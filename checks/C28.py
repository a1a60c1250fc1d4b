"""C28: awaiting.  ReturnAwait.tla, Async.tla and AsyncFn.tla against return-await, require-await, await-thenable and promise-function-async; their fixes are applied."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch, strip

NOTE = """return-await: all nestings of up to 3 constructs (4 in thorough runs), random ones of up to 8 with conditional values of all kinds; require-await and await-thenable: all histories of up to 5 events, random ones of up to 16; promise-function-async: all unions of up to 3 members, all options."""
PRE = """declare const p: Promise<number>, u: Promise<number> | number, n: number, a: any, k: unknown, o: { p: Promise<number> };
declare const h: { then(cb: (v: number) => void): void }, m: { then(): void };
declare function c(): boolean;
declare function nn(): number;
declare function pf(): Promise<number>;
declare const res: Disposable & AsyncDisposable, rs: Disposable[];
declare let v: any;
"""
WRAP = "namespace N%d {\nfunction outer<T, TP extends Promise<number>, TN extends number>(t: T, tp: TP, tn: TN) {\n%s\n}}\n"
TS = dict(lib=["esnext"], target="esnext")


class Names:
    def __init__(self):
        self.i = 0

    def __call__(self, s):
        self.i += 1
        return "%s%d" % (s, self.i)


# ---------------------------------------------------------------- return-await
def value(q, at, r, path=()):
    if q["k"] == "cond":
        x, y = value(q["x"], at, r, path + (1,)), value(q["y"], at, r, path + (2,))
        t = "%s ? %s : %s" % (r.choice(["c()", "(c())", "nn() > 1"]), r.choice(["(%s)" if q["x"]["k"] == "cond" else "%s", "(%s)"]) % x, r.choice(["%s", "(%s)"]) % y)
        return r.choice([t, t, t, "(%s)" % t]) if path else t
    t = q["t"]
    await_ = q["k"] == "await"
    high = {"P": ["p", "pf()", "new Promise<number>(() => {})", "o.p", "o['p']", "p!", "(p)", "p.then(() => 1)"], "H": ["h"], "U": ["u", "u!"], "TP": ["tp"], "N": ["n", "'s'", "null", "[p]", "{ p }"], "TN": ["tn"], "M": ["m"], "A": ["a", "a.b()"], "K": ["k"], "T": ["t"]}
    low = {"P": ["p as Promise<number>", "c() && p", "v = p", "c() ? p : p", "<Promise<number>>p", "p satisfies Promise<number>"], "U": ["c() && p", "nn() || p"], "N": ["n + 1", "c() && n", "!c", "typeof p", "void p"]}
    if await_:
        s = r.choice(high[t] + ["(%s)" % x for x in low.get(t, [])])
        s = "await " + s
    else:
        s = r.choice(high[t] + [x for x in low.get(t, []) if "?" not in x])
    wrap = False
    if not path and not await_ and t == "N" and s.startswith("{"):
        wrap = True
    if s.startswith("(") and s.endswith(")") and not await_ and at.count(path):
        # the report is about what is in the parentheses
        return "(\x01%s\x02)" % s[1:-1] if s == "(p)" else "\x01%s\x02" % s
    s = "\x01" * at.count(path) + s + "\x02" * at.count(path)
    if wrap:
        return "(%s)" % s
    if path and (" = " in s or " as " in s or " satisfies " in s):
        return "(%s)" % s
    return "(%s)" % s if r.random() < .12 else s


def nest(stack, inner, r, name, asyn=False, incase=False):
    """the program: constructs around the innermost statement"""
    if not stack:
        s = inner
        if r.random() < .15:
            s = r.choice(["const %s = 1; " % name("k"), "if (c()) { } ", "{ using %s = res; } " % name("q"), "try { } catch { } ", "function %s() { using z = res; } " % name("g")]) + s
        return s
    x, rest = stack[0], stack[1:]
    if x in ("afun", "sfun"):
        b = nest(rest, inner, r, name, x == "afun")
        w = dict(afun=["async function %F() { %B }", "const %F = async function () { %B };", "const %F = async () => { %B };", "class %F { async m() { %B } }", "class %F { static async m() { %B } }", "const %F = { async m() { %B } };", "async function* %F() { %B }", "class %F { x = async () => { %B } }", "v(async () => { %B });", "class %F { static { v = async () => { %B }; } }", "async function %F(y: number): Promise<any> { %B }"],
                 sfun=["function %F() { %B }", "const %F = function () { %B };", "const %F = () => { %B };", "class %F { m() { %B } }", "class %F { get m(): any { %B } }", "class %F { set m(q: any) { %B } }", "class %F { constructor() { %B } }", "function* %F() { %B }", "const %F = { m() { %B }, get z(): any { %B2 } };", "class %F { static x = () => { %B } }"])[x]
        return r.choice(w).replace("%B2", "return 1;").replace("%F", name("F")).replace("%B", b)
    b = nest(rest, inner, r, name, asyn, x == "block")
    use = lambda: r.choice(["using", "await using"] if asyn else ["using"])
    if x == "using":
        return "%s %s = res; %s" % (use(), name("r"), b)
    if x == "uselater":
        return "%s %s %s = res;" % (b, use(), name("r"))
    if x == "usedbefore":
        return "{ %s %s = res; } %s" % (use(), name("r"), b)
    if x == "usefor":
        return "for (%s %s of rs) { %s }" % (use(), name("r"), b)
    if x == "block":
        w = ["{ %s }", "if (c()) { %s }", "if (c()) { } else { %s }", "for (;c();) { %s }", "for (const x of rs) { %s }", "while (c()) { %s }", "do { %s } while (c())", name("L") + ": { %s }", "switch (nn()) { case 1: { %s } }", "for (const x in o) { %s }", "if (c()) { v = 1; } else if (nn() > 2) { %s }"]
        if not rest:
            w += ["switch (nn()) { case 1: break; default: %s }", "if (c()) %s", "if (c()) v = 1; else %s", "for (const x of rs) %s"] if inner == b else []
        return r.choice(w) % b
    return r.choice(dict(tryc=["try { %s } catch { }", "try { %s } catch (e) { v = e; }"], tryf=["try { %s } finally { }"], trycf=["try { %s } catch { } finally { v = 1; }"],
                         catch=["try { v(); } catch { %s }", "try { v(); } catch (e) { %s }"], catchf=["try { v(); } catch { %s } finally { }"],
                         fin=["try { v(); } finally { %s }"], finc=["try { v(); } catch { } finally { %s }"])[x]) % b


def squeeze(s):
    return re.sub(r"[\s()]+", "", s)


def returns(c, b):
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Depth = %d\n Walks = %d\nINVARIANTS Agrees Sides Emit\nPROPERTY Neutral\n"
    _, q = c.tlc("ReturnAwait", cfg % (4 if c.thorough else 3, 1))
    _, q2 = c.tlc("ReturnAwait", cfg % (8, 40000 if c.thorough else 4000), args=["-seed", str(c.seed)], workers=1)
    q = sorted(q, key=canon)
    if len(q) > 30000:
        q = c.rng.sample(q, 30000)
    B = Batch(c, b, "ra", PRE, TS, per=500, wrap=WRAP)
    seen = set()
    for x in q + q2:
        o = c.rng.choice(sorted(x["r"]))
        opts = None if o == "in-try-catch" and c.rng.random() < .5 else o
        rs = sorted(x["r"][o], key=lambda r: r["at"])
        at = [tuple(r["at"]) for r in rs]
        v = value(x["q"], at, c.rng)
        name = Names()
        if x["arrow"]:
            v = "(%s)" % v if v.replace("\x01", "").startswith("{") else v
            stack, inner = x["s"][:-1], c.rng.choice(["const %s = async () => %s;" % (name("A"), v), "v(async () => %s);" % v, "class %s { x = async () => %s }" % (name("A"), v)])
        else:
            stack, inner = x["s"], "return %s;" % v
        code = nest(stack, inner, c.rng, name)
        key = strip(code)[0]
        if (key, o) in seen:
            continue
        seen.add((key, o))
        B.add("return-await", opts, code, [(i, r["id"]) for i, r in enumerate(rs)], dict(case=x, option=o, fixes=[r["fix"] for r in rs]))

    def compare(m, code, data):
        es = m.get("fixes") or []
        sg = m.get("suggestions") or []
        want = {(r["id"], r["fix"]) for r in data["case"]["r"][data["option"]]}
        got = bool(es)
        if (m["message"]["id"], got) not in want or (not got and len(sg) != 1):
            return "%s comes with %d fixes and %d suggestions" % (m["message"]["id"], len(es), len(sg))
        from rulecases import edit
        after = edit(code, es or sg[0]["fixes"])
        s, e = m["range"]["pos"], m["range"]["end"]
        inside = code[s:e]
        if m["message"]["id"] == "requiredPromiseAwait":
            exp = code[:s] + "await " + inside + code[e:]
            if re.match(r"c\(\) &&|v =|nn\(\) \|\||<|.* (as|satisfies) ", inside):
                exp = code[:s] + "await (" + inside + ")" + code[e:]
                if after != exp:
                    return "the edit gives %r" % after
        else:
            exp = code[:s] + inside[len("await"):] + code[e:]
        if squeeze(after) != squeeze(exp):
            return "the edit gives %r" % after
    B.run(compare)


# ---------------------------------------------------------------- require-await, await-thenable
PRE2 = PRE + """declare const as: AsyncIterable<number>, ss: number[], bs: AsyncIterable<number> | number[];
declare const ad: AsyncDisposable, sd: Disposable, bd: AsyncDisposable | Disposable;
"""
TYPES = dict(P=["p", "pf()", "o.p", "h", "tp"], U=["u"], N=["n", "'s'", "m", "tn", "(n)"], A=["a"], K=["k"], T=["t"])


def histories(c, b):
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Length = %d\n Deep = %d\n Walks = %d\nINVARIANT Emit\nPROPERTIES Outer Said Once\n"
    _, q = c.tlc("Async", cfg % (6 if c.thorough else 5, 2, 1))
    _, q2 = c.tlc("Async", cfg % (16, 4, 20000 if c.thorough else 2500), args=["-seed", str(c.seed)], workers=1)
    q = sorted(q, key=canon)
    if len(q) > 20000:
        q = c.rng.sample(q, 20000 if c.thorough else 8000)
    ends = {}
    for x in q2:
        ends[canon(x["log"])] = x
    q2 = [x for k, x in ends.items()]
    for rule in ("require-await", "await-thenable"):
        B = Batch(c, b, rule, PRE2, TS, per=500, wrap=WRAP)
        seen = set()
        for x in q + q2:
            code, ids = history(x, rule, c.rng)
            if strip(code)[0] in seen:
                continue
            seen.add(strip(code)[0])
            B.add(rule, None, code, ids, x)
        B.run(removes)


def removes(m, code, data):
    """the one suggestion takes the word away"""
    from rulecases import edit
    sg = m.get("suggestions") or []
    s, e = m["range"]["pos"], m["range"]["end"]
    id_ = m["message"]["id"]
    if m.get("fixes"):
        return "comes with a fix"
    if len(sg) != 1:
        return "comes with %d suggestions" % len(sg)
    word = "async" if id_ == "missingAwait" else "await"
    inside = re.search(r"\b%s\b" % word, code[s:e])
    k = s + inside.start() if inside and id_ != "awaitUsingOfNonAsyncDisposable" else code.rindex(word, 0, s)
    exp = code[:k] + code[k + 5:]
    if word == "async":
        head, rest = exp[:e - 5], exp[e - 5:]
        rest = re.sub(r"^(\(\): )Promise<(\w+)>", r"\1\2", rest)
        rest = re.sub(r"^(\(\): )AsyncGenerator<", r"\1Generator<", rest)
        head = re.sub(r"(\(\): )Promise<(\w+)>(\s*=>)$", r"\1\2\3", head)
        exp = head + rest
    norm = lambda t: re.sub(r"\s+", "", t).replace(";", "")
    after = edit(code, sg[0]["fixes"])
    if norm(after) != norm(exp):
        return "the suggestion gives %r" % after


def history(x, rule, r):
    name = Names()
    idle, vain = set(x["idle"]), set(x["vain"])
    want = []
    ra = rule == "require-await"

    def mark(i, s, id_):
        hit = i in idle if ra else i in vain
        if hit:
            want.append(id_)
            return "\x01%s\x02" % s
        return s

    def run(i):
        """statements of events from i (0-based) up to the matching leave; returns (text, next)"""
        out = []
        log = x["log"]
        while i < len(log):
            e, t = log[i]["e"], log[i]["t"]
            n = i + 1
            if e == "leave":
                return " ".join(out), n
            M = lambda s, id_: mark(n, s, id_)
            if e == "fun":
                f = name("F")
                asyn, gen = t.startswith("async"), t.endswith("gen")
                kind = r.choice(["decl", "expr", "method", "omethod"] + (["arrow", "arrow", "field"] if not gen else []) + (["getter", "ctor", "setter"] if t == "sync" else []))
                pre = "async " if asyn else ""
                star = "*" if gen else ""
                ret = r.choice(["", "", ": Promise<any>" if not gen else ": AsyncGenerator<any>"]) if asyn else ""
                head = M if ra else (lambda s, id_: s)
                # marks are numbered by where they begin: the head comes before the body except for arrow functions, where it comes before the body too
                h = dict(decl=lambda: head("%sfunction%s %s" % (pre, star, f), "missingAwait") + "()", expr=lambda: "const %s = " % f + head("%sfunction%s " % (pre, star), "missingAwait") + "()",
                         method=lambda: "class %s { " % f + head("%s%sm" % (pre, star), "missingAwait") + "()", omethod=lambda: "const %s = { " % f + head("%s%sm" % (pre, star), "missingAwait") + "()",
                         arrow=lambda: "const %s = %s()%s " % (f, pre, ret) + head("=>", "missingAwait"), field=lambda: "class %s { x = %s()" % (f, pre) + head("=>", "missingAwait"),
                         getter=lambda: "class %s { get m(): any" % f, setter=lambda: "class %s { set m(q: any)" % f, ctor=lambda: "class %s { constructor()" % f)[kind]()
                if kind == "arrow" and ret == "":
                    h = h.replace("() \x01=>", "()\x01=>").replace("() =>", "()=>")
                elif kind == "arrow":
                    h = h.replace("> \x01=>", ">\x01=>")
                if kind == "getter":
                    h = h.replace("m(", "m(")
                b, i = run(n)
                if kind in ("decl", "expr", "method", "omethod"):
                    h += ret
                out.append(h + " { " + b + " }" + dict(decl="", expr=";", method=" }", omethod=" };", arrow=";", field=" }", getter=" }", setter=" }", ctor=" }")[kind])
                continue
            i = n
            T = lambda: r.choice(TYPES[t])
            I = lambda: dict(async_="as", async1="as", sync="ss", both="bs", any="a").get(t if t != "async" else "async1")
            D = lambda: {"async": "ad", "sync": "sd", "both": "bd", "any": "a"}[t]
            if e == "await":
                a = r.choice(["%s;", "v(%s);", "v = %s;", "const " + name("k") + " = %s;", "if (%s) { }", "v = [%s];", "for (const z of v) { %s; }", "v = `${%s}`;", "({ q: %s });"])
                out.append(a % ((M("await", "await") if not ra else "await") + " " + T()))
            elif e == "return":
                out.append(r.choice(["if (c()) return %s;", "if (c()) { return %s; }", "try { return %s; } catch { }"]) % T())
            elif e == "yield":
                out.append("yield %s;" % (r.choice(["1", "'s'", "2n"]) if t == "literal" else T()))
            elif e == "delegate":
                out.append("yield* %s;" % I())
            elif e == "forawait":
                s = "for await (%s of %s)" % (r.choice(["const " + name("z"), "v", "let " + name("z")]), I())
                out.append((M(s, "forAwaitOfNonAsyncIterable") if not ra else s) + r.choice([" { }", " v = 1;"]))
            elif e == "using":
                s = D()
                out.append("await using %s = %s;" % (name("w"), M(s, "awaitUsingOfNonAsyncDisposable") if not ra else s))
            elif e == "stmt":
                out.append(r.choice(["v = 1;", "if (c()) { v(); }", "v(() => p);", "pf();"]))
            elif e == "arrow":
                f, s = (M("=>", "missingAwait") if ra else "=>"), T()
                out.append(r.choice(["const " + name("g") + " = async ()%s %s;", "v(async ()%s %s);"]) % (f, r.choice([s, s, "(%s)" % s])))
            elif e == "arrowawait":
                out.append(r.choice(["const " + name("g") + " = async () => %s %s;", "v(async () => (%s %s));"]) % (M("await", "await") if not ra else "await", T()))
            elif e == "empty":
                out.append(r.choice(["async function %s() { }", "const %s = async () => { };", "class %s { async m() { } }", "const %s = async function () { /* nothing */ };"]) % name("g"))
        return " ".join(out), i
    text, _ = run(0)
    return text, list(enumerate(want))


# ---------------------------------------------------------------- promise-function-async, Promise.all and its like
PRE3 = """declare class S<X> extends Promise<X> { own: 1 }
declare class Deferred<X> { value: X }
declare class E<X> extends Deferred<X> { more: X }
declare const c: boolean;
declare let v: any;
declare function mk<X>(): X;
"""
NAME = dict(P="Promise<number>", S="S<number>", D="Deferred<number>", E="E<number>", N="number", O="{ other: 2 }", A="any", K="unknown")
SWITCH = dict(arrow="checkArrowFunctions", decl="checkFunctionDeclarations", expr="checkFunctionExpressions", method="checkMethodDeclarations")


def typ(q, r, inner=False):
    if q["k"] == "leaf":
        return NAME[q["x"]]
    s = (" | " if q["k"] == "or" else " & ").join(typ(x, r, True) for x in q["a"])
    return "(%s)" % s if inner and (q["k"] == "and" or r.random() < .3) else s


def parts(q):
    return parts(q["a"][0]) + parts(q["a"][1]) if q["k"] == "or" else [q]


def functions(c, b):
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Mode = \"%s\"\n Depth = %d\nINVARIANTS Narrower MoreNames Off Emit\n"
    _, q = c.tlc("AsyncFn", cfg % ("fn", 4 if c.thorough else 3))
    q = sorted(q, key=canon)
    if len(q) > 20000:
        q = c.rng.sample(q, 20000)
    B = Batch(c, b, "pfa", PRE3, TS, per=200)
    r = c.rng
    for x in q:
        f, o = x["f"], x["opt"]
        name = Names()
        kind = r.choice(sorted(SWITCH))
        opts = {SWITCH[kind]: f["checked"]}
        for k in SWITCH.values():
            if k not in opts and r.random() < .4:
                opts[k] = r.random() < .5
        if f["checked"] and r.random() < .7:
            del opts[SWITCH[kind]]
        if not o["any"] or r.random() < .4:
            opts["allowAny"] = o["any"]
        if o["named"]:
            opts["allowedPromiseNames"] = r.choice([["Deferred"], ["Other", "Deferred"]])
        # never an async function that declares a type an async function cannot have: it does not matter to the rule
        ret = ": " + typ(x["t"], r) if f["explicit"] else ""
        if ret and kind != "arrow" and r.random() < .1:
            ret = ": (%s)" % ret[2:]
        ps = parts(x["t"])
        if f["explicit"]:
            body = "return v;"
        elif len(ps) == 1 or r.random() < .4 or any(p["k"] == "and" for p in ps) or {p["x"] for p in ps} & {"S", "E"}:
            # (the type inferred from several return statements leaves out subtypes of others)
            body = "return mk<%s>();" % typ(x["t"], r)
        else:
            body = " ".join("if (c) return mk<%s>();" % typ(p, r) for p in ps[:-1]) + " return mk<%s>();" % typ(ps[-1], r)
        A = "async " if f["async"] else ""
        arrow1 = body.startswith("return ") and r.random() < .5
        w = dict(arrow=["const %N = \x01\x03%A(%Q)%R => %B\x02;", "v(\x01\x03%A(%Q)%R => %B\x02);"], expr=["const %N = \x01\x03%Afunction (%Q)%R { %S }\x02;", "v(\x01\x03%Afunction %N(%Q)%R { %S }\x02);"],
                 decl=["\x01\x03%Afunction %N(%Q)%R { %S }\x02", "\x01export \x03%Afunction %N(%Q)%R { %S }\x02"],
                 method=["class %N { \x01\x03%Am(%Q)%R { %S }\x02 }", "class %N { \x01static \x03%Am(%Q)%R { %S }\x02 }", "class %N { \x01private \x03%A['m'](%Q)%R { %S }\x02 }", "const %N = { \x01\x03%Am(%Q)%R { %S }\x02 };", "class %N { \x01\x03%A#m(%Q)%R { %S }\x02 }"])[kind]
        t = r.choice(w).replace("%N", name("F")).replace("%A", A).replace("%Q", r.choice(["", "q: number"])).replace("%R", ret).replace("%B", body[7:-1] if arrow1 else "{ %s }" % body).replace("%S", body)
        fixed = re.sub(r"\s+", "", t.replace("\x03", "async ").replace("\x01", "").replace("\x02", ""))
        t = t.replace("\x03", "")
        if x["v"] == "none":
            t = t.replace("\x01", "").replace("\x02", "")
        B.add("promise-function-async", opts or None, t, [] if x["v"] == "none" else [(0, "missingAsync" if x["v"] == "unfixed" else x["v"])], dict(v=x["v"], fixed=fixed))

    def compare(m, code, data):
        from rulecases import edit
        es, sg = m.get("fixes") or [], m.get("suggestions") or []
        if (bool(es), len(sg)) != {"unfixed": (False, 0), "missingAsync": (True, 0), "missingAsyncHybridReturn": (False, 1)}[data["v"]]:
            return "comes with %d fixes and %d suggestions" % (len(es), len(sg))
        if data["v"] != "unfixed" and re.sub(r"\s+", "", edit(code, es or sg[0]["fixes"])) != data["fixed"]:
            return "the edit gives %r" % edit(code, es or sg[0]["fixes"])
    B.run(compare)

    _, q = c.tlc("AsyncFn", cfg % ("all", 4 if c.thorough else 3))
    B = Batch(c, b, "agg", PRE2, TS, per=300, wrap=WRAP)
    names = dict(P=["p", "pf()", "h", "tp"], U=["u"], N=["n", "m", "tn", "'s'"], B=["(c() ? n : 's')"], A=["a"], K=["k"])
    types = dict(P="Promise<number>", U="Promise<number> | boolean", N="number", B="number | string", A="any", K="unknown")
    for x in sorted(q, key=canon):
        m = r.choice(["all", "allSettled", "any", "race"])
        call = r.choice(["Promise.%s", "Promise['%s']", "(Promise.%s)", "Promise?.%s"]) % m
        t = "%s([%s]);" % (call, ", ".join(("\x01%s\x02" if i + 1 in x["bad"] else "%s") % r.choice(names[e]) for i, e in enumerate(x["list"])))
        B.add("await-thenable", None, t, [(i, "invalidPromiseAggregatorInput") for i in range(len(x["bad"]))], x)
        # the same as a tuple, and as an array of the union
        t = "%s(%s);" % (call, ("\x01%s\x02" if x["whole"] else "%s") % ("mk2<[%s]>()" % ", ".join(types[e] for e in x["list"])))
        B.add("await-thenable", None, t, [(0, "invalidPromiseAggregatorInput")] if x["whole"] else [], x)
        arr = x["whole"] and not x["any"] and not x["unk"]
        t = "%s(%s);" % (call, ("\x01%s\x02" if arr else "%s") % ("mk2<%s>()" % (r.choice(["(%s)[]", "readonly (%s)[]", "Array<%s>", "Iterable<%s>", "Set<%s>"]) % " | ".join(types[e] for e in x["list"]))))
        B.add("await-thenable", None, t, [(0, "invalidPromiseAggregatorInput")] if arr else [], x)
        B.add("await-thenable", None, "%s([%s]);" % (r.choice(["Promise.resolve", "v.all", "o.p.then"]), ", ".join(r.choice(names[e]) for e in x["list"])), [], x)
    B.prelude += "declare function mk2<X>(): X;\n"
    B.run()


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    returns(c, b)
    histories(c, b)
    functions(c, b)


if __name__ == "__main__":
    main("C28", body)
