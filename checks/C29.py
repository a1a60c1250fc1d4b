"""C29: members that could be readonly.  ClassMembers.tla's classes against prefer-readonly; the fixes are applied."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch, strip

NOTE = """All classes with one member and up to one use of it (8 ways of using it, 9 places, nested classes) and pairs of members with a use, and random ones of up to 5 members and 8 uses; each use is written in one of many ways, through this, another instance, a subclass, a type parameter or an intersection."""
PRE = "declare function c(): boolean; declare function f(...a: any[]): any; declare const xs: any[]; declare const ob: any; declare let z: any;\n"

HOW = dict(
    assign=["%s = ob;", "%s = %s0;", "(%s) = ob;", "z = %s = ob;", "f(%s = ob);", "if (c()) %s = ob;", "%s! = ob;", "(%s as any) = ob;", "((%s)) = ob;"],
    update=["%s++;", "--%s;", "%s += 1;", "%s ??= ob;", "%s &&= ob;", "%s **= 2;", "(%s)++;", "++(%s);", "%s ||= ob;", "%s!--;", "f(%s++);", "%s >>>= 1;", "(%s) -= 1;"],
    destruct=["[%s] = xs;", "[z, %s] = xs;", "[%s = 1] = xs;", "[...%s] = xs;", "({ a: %s } = ob);", "({ a: %s = 1 } = ob);", "({ ...%s } = ob);", "[[%s]] = xs;", "({ a: [%s] } = ob);", "({ a: { b: %s } } = ob);", "[{ a: %s }] = xs;", "[(%s)] = xs;", "({ a: (%s) } = ob);", "[[%s] = [1]] = xs;", "({ a: { b: %s } = {} } = ob);", "f([%s] = xs);"],
    loop=["for (%s of xs) { f(); }", "for (%s in ob) { f(); }", "for ([%s] of xs) { f(); }", "for ({ a: %s } of xs) { f(); }", "for ((%s) of xs) { f(); }"],
    delete=["delete %s;", "delete (%s);", "f(delete %s);"],
    use=["f(%s);", "z = %s;", "if (%s) f();", "f(-%s);", "f(!%s, ~%s0);", "f(typeof %s);", "f(%s === 1);", "%s();", "f(void %s);", "f([%s], { a: %s0 });", "z += %s;", "return %s;", "`${%s}`;", "z = %s || 1;", "f(...[%s]);", "f(%s as any);", "new (%s)();", "f({ ...%s });"],
    deep=["%s.y = 1;", "%s[0] = 1;", "%s.y++;", "delete %s.y;", "[%s.y] = xs;", "({ a: %s.y } = ob);", "[%s[0]] = xs;", "[xs[%s]] = xs;", "({ [%s]: z } = ob);", "for (%s.y of xs) { f(); }", "%s.push(1);", "delete %s[0];", "xs[%s] = 1;", "[...%s.y] = xs;", "(%s.y) = 1;", "[%s.y.z = 1] = xs;", "f(%s).y = 2;", "xs[%s]++;"],
    source=["[z] = %s;", "({ a: z } = %s);", "const { a } = %s;", "const [b] = %s;", "for (const q of %s) { f(); }", "for (z in %s) { f(); }", "({ a: z = %s } = ob);", "[z = %s] = xs;", "const { aa = %s } = ob;", "z ??= %s;", "[z = [%s]] = xs;", "z = [%s];", "z = { a: %s };"])


def use(u, ms, r, names):
    m = ms[u["m"] - 1]
    C, n, pos = m["cls"], names[u["m"] - 1], u["pos"]
    static = m["kind"] in ("static", "hashstatic")
    own = pos.startswith("B") == (C == "B")     # `this` may be of the member's class here
    if static:
        recv = [C, C, "k" + C] + (["this"] if own and pos == "staticblock" else [])
        # of both sides at once: only where the other side has no member of the name, and `this` is not being constructed
        if pos not in ("ctor", "Bctor") and not any(k == n and q["cls"] == C and q["kind"] not in ("static", "hashstatic") for q, k in zip(ms, names)) and n[0] != "#":
            recv += ["v" + C]
    else:
        recv = ["i" + C, "g%s()" % C, "s" + C] + ["w" + C] + (["t" + C, "t" + C] if pos in ("method", "Bmethod") else [])
        if own and pos != "staticblock":
            recv += ["this"] * 4
        if pos not in ("ctor", "Bctor") and not any(k == n and q["cls"] == C and q["kind"] in ("static", "hashstatic") for q, k in zip(ms, names)) and n[0] != "#":
            recv += ["v" + C]
    e = "%s.%s" % (r.choice(recv), n)
    if r.random() < .05:
        e = "(%s).%s" % (e.rsplit(".", 1)[0], n)
    t = r.choice(HOW[u["how"]])
    t = t.replace("%s0", e).replace("%s", e)
    if "return" in t and pos not in ("method", "Bmethod"):
        t = "f(%s);" % e
    if r.random() < .25 and not t.startswith("return"):
        t = r.choice(["if (c()) { %s }", "try { %s } catch {}", "for (;;) { %s }", "{ %s }"]) % t
    if r.random() < .2 and not t.startswith("return"):
        # what is over before the use does not matter, nor what comes after it
        t = "%s %s" % tuple(r.sample([t, r.choice(["(() => {})();", "f(function () { });", "f({ m() { } });", "f({ get g() { return 1; } });", "f(class { constructor() { } q = 1; });", "function nf() { }", "f(async () => { (() => { })(); });"])], 2)) if t.startswith("{") or t.endswith(";") or t.endswith("}") else t
    return t


def members(cls, x, r, names, want):
    out, params = [], []
    for i, m in enumerate(x["ms"]):
        if m["cls"] != cls:
            continue
        n = names[i]
        init = dict(none="", value=" = " + r.choice(["1", "'s'", "true", "f()", "[1]", "1 + 1"]), lambda_=" = " + r.choice(["() => 1", "async () => 1", "(x: any) => { return x }", "() => { }"]), fn=" = " + r.choice(["function () { }", "(() => 1)", "f(() => 1)"]))[dict(lambda_="lambda_").get(m["init"], m["init"] + "_" if m["init"] == "lambda" else m["init"])]
        mods = [m["vis"]] if m["vis"] in ("private", "protected") or (m["vis"] == "public" and (m["kind"] == "param" or r.random() < .5)) else []
        if m["kind"] in ("static", "hashstatic"):
            mods.append("static")
        if m["ro"] != "no":
            mods.append(m["ro"])
        ty = ": any" if m["init"] in ("none", "lambda") or r.random() < .5 else ""
        q = "" if init or m["kind"] == "param" or m["vis"] == "hash" or m["ro"] == "accessor" else r.choice(["", "", "?", "!" if "static" not in mods else ""])
        nm = n
        if m["kind"] in ("prop", "static") and r.random() < .1:
            nm = "'%s'" % n
        head = " ".join(mods + [nm])
        if i + 1 in x["rep"]:
            head = "\x01" + head + "\x02"
            want.append(i)
        if m["kind"] == "param":
            params.append(head + ty + init)
        else:
            if q and not ty:
                ty = ": any"
            out.append(head + q + ty + init + ";")
    return out, params


def klass(cls, x, r, names, want, uses, innertext):
    """text of one class; order of members decides the numbering of marks, so want is filled in the order of the text"""
    p = "B" if cls == "B" else ""
    code = {k: [t for pos, t in uses if pos == p + k] for k in ("ctor", "ctorfn", "method", "init", "staticblock")}
    own, mine = [], []
    out, params = members(cls, x, r, names, own)
    body = list(code["ctor"])
    for t in code["ctorfn"]:
        # `this` does not reach into these
        ways = ["(() => { %s })();", "f(() => { %s });", "const l = async () => { %s };"]
        if "this" not in t:
            ways += ["function ff() { %s }", "f(function () { %s });", "f({ m() { %s } });", "f({ get g() { %s return 1; } });", "f({ set g(v: any) { %s } });"]
        body.append("{ %s }" % (r.choice(ways) % t))
    if innertext and x["inner"] == "ctor":
        body.insert(r.randrange(len(body) + 1), innertext)
    super_ = ""
    rest = []
    for t in code["method"]:
        ways = ["m%d() { %s }", "async m%d() { %s }", "get g%d(): any { %s return 1; }", "set g%d(v: any) { %s }", "private p%d() { %s }", "* gen%d(): any { %s }", "a%d = () => { %s };"]
        if re.search(r"\bt[AB]\b", t):
            ways = ["m%%d<TA extends %s, TB extends %s>(tA: TA, tB: TB) { %%s }" % ("A", "B" if cls == "B" else "A")]
        rest.append(r.choice(ways) % (len(rest), t))
    for t in code["init"]:
        rest.append("l%d = (() => { %s });" % (len(rest), t) if r.random() < .7 else "h%d = function (this: any) { %s };" % (len(rest), t) if "this" not in t else "l%d = [() => { %s }];" % (len(rest), t))
    for t in code["staticblock"]:
        rest.append("static { %s }" % t)
    if innertext and x["inner"] == "method":
        rest.append("mi() { %s }" % innertext)
    if innertext and x["inner"] == "init":
        rest.append("ni = () => { %s };" % innertext)
    ctor = ["constructor(%s) { %s }" % (", ".join(params), " ".join(body))] if params or body or r.random() < .3 else []
    parts = out + ctor + rest
    r.shuffle(parts)
    return "class %s { %s }" % (cls, "\n  ".join(parts))


def program(x, r):
    ms = x["ms"]
    names = []
    for i, m in enumerate(ms):
        base = r.choice(["x", "y", "x%d" % i])
        n = ("#" if m["vis"] == "hash" else "") + base
        # no two members of the same class and side with one name; static and instance #names must differ too
        taken = {(q["cls"], q["vis"] == "hash" or q["kind"] == "static", k) for q, k in zip(ms, names)}
        if (m["cls"], m["vis"] == "hash" or m["kind"] == "static", n) in taken or any(k == n and q["cls"] == m["cls"] and (q["vis"] == "hash" or m["kind"] == "param" or q["kind"] == "param") for q, k in zip(ms, names)):
            n = ("#" if m["vis"] == "hash" else "") + "x%d" % i
        names.append(n)
    # members of A seen from inside B with a #name B has too would be shadowed
    for i, m in enumerate(ms):
        if m["vis"] == "hash" and m["cls"] == "B" and any(k == names[i] and q["cls"] == "A" for q, k in zip(ms, names)):
            names[i] = "#b%d" % i
    uses = [(u["pos"], use(u, ms, r, names)) for u in x["us"]]
    r.shuffle(uses)
    want = []
    inner = ""
    if x["inner"] != "none":
        inner = klass("B", x, r, names, want, uses, "") + "\nclass SB extends B { own = 1; }\nconst kB = B; let iB!: B; let sB!: SB; let wB!: B & { more: 1 }; let vB!: B & typeof B; function gB(): B { return ob; }\n"
    a = klass("A", x, r, names, want, uses, inner)
    t = a + "\nclass SA extends A { own = 1; }\nconst kA = A; let iA!: A; let sA!: SA; let wA!: A & { more: 1 }; let vA!: A & typeof A; declare function gA(): A;"
    return t, names


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    r = c.rng
    cfg = "SPECIFICATION Spec\nCONSTANTS\n MaxMembers = %d\n MaxUses = %d\n Walks = %d\nINVARIANTS Never Emit\nPROPERTIES Shrinks Looks\n"
    _, q = c.tlc("ClassMembers", cfg % (2, 1, 1))
    _, q2 = c.tlc("ClassMembers", cfg % (5, 8, 12000 if c.thorough else 1500), args=["-seed", str(c.seed)], workers=1)
    q = sorted(q, key=canon)
    q = r.sample(q, min(len(q), 40000 if c.thorough else 6000)) + [x for x in q2 if len(x["us"]) > 1]
    B = Batch(c, b, "cls", PRE, per=120)
    for x in q:
        code, names = program(x, r)
        n = code.count("\x01")
        B.add("prefer-readonly", dict(onlyInlineLambdas=True) if x["only"] else r.choice([None, dict(onlyInlineLambdas=False)]), code, [(k, "preferReadonly") for k in range(n)], dict(x, names=names))

    def compare(m, code, x):
        es = m.get("fixes") or []
        if not es or es[0]["text"] != "readonly " or es[0]["range"]["pos"] != es[0]["range"]["end"]:
            return "the fix does not insert readonly: %s" % canon(es)[:300]
        p = es[0]["range"]["pos"]
        if not (m["range"]["pos"] <= p < m["range"]["end"]) or code[p:m["range"]["end"]].strip("'\"") not in x["names"]:
            return "readonly is not inserted before the name: %s" % canon(es)[:300]
        c.stats["fixes"] = c.stats.get("fixes", 0) + 1
    B.run(compare)


main("C29", body)
