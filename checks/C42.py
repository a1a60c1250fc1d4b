"""C42: functions whose result is dropped.  Callbacks.tla's functions are handed to places of many kinds and linted by no-misused-promises and strict-void-return."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch, strip

NOTE = """One or two wanted signatures of ten results, functions given by reference, as expression, block (up to two returns) or generator, async or annotated, in some fifty places, all options; quick runs draw from the combinations."""
TYPES = dict(void=["void", "void", "V"], undefined=["undefined"], null=["null"], never=["never"], any=["any"], unknown=["unknown"], number=["number", "'a'", "{ then: number }", "{ then(): void }"],
             promise=["Promise<void>", "Promise<number>", "P", "PromiseLike<void>", "Thenable"], maybe=["void | Promise<void>", "V | P"], mixed=["void | number", "number | V"])
VALUES = dict(void=["vd()", "(vd)()", "o.vd()"], undefined=["und()", "void 0", "undefined"], null=["nul()", "null"], never=["fail()"], any=["anyf()", "(1 as any)", "o.any"], unknown=["unk()"], number=["num()", "o.num", "(num())", "`a${k}`"],
              promise=["prom()", "(prom())", "prom2()", "o.then()"], maybe=["maybe()"], mixed=["mix()"])
DECL = """type V = void; type P = Promise<void>; interface Thenable { then(f: (x: number) => void, g: () => void): void }
declare const k: boolean, ks: number[];
declare function vd(): void; declare function und(): undefined; declare function nul(): null; declare function fail(): never; declare function anyf(): any; declare function unk(): unknown;
declare function num(): number; declare function prom(): Promise<number>; declare function prom2(): Promise<void>; declare function maybe(): void | Promise<void>; declare function mix(): void | number;
declare function mk<T>(): T;
declare const o: { vd(): void; any: any; num: number; then(): Promise<string> };
declare global { namespace JSX { interface Element {} interface ElementAttributesProperty { props: {} } interface IntrinsicElements { div: any } } }
"""
# template, option of no-misused-promises or None, message, what strict-void-return asks: "void", "arg" or None, which functions fit
# T: a type; G: what is given; METHOD(m): the function as a method m, with the marks of its own
V, A, P, R, I, J = ("variables", "voidReturnVariable"), ("arguments", "voidReturnArgument"), ("properties", "voidReturnProperty"), ("returns", "voidReturnReturnValue"), ("inheritedMethods", "voidReturnInheritedMethod"), ("attributes", "voidReturnAttribute")
N = (None, None)
PLACES = [
    ("const f: $T = $G;", V, "void"), ("let f: $T = $G, h = 1;", V, "void"), ("let f: ($T) = $G;", V, "void"), ("let f: $T | undefined = $G;", V, "void"), ("let f: Readonly<{ f: $T }>['f'] = $G;", V, "void"), ("for (let f: $T = $G; k;) {}", V, "void"),
    ("let f: $T; f = $G;", V, "void"), ("declare const x: { m: $T }; x.m = $G;", V, "void"), ("declare const x: { m: $T }; x['m'] = $G;", V, "void"), ("declare let x: ($T)[]; x[0] = $G;", V, "void"), ("declare const x: { m?: $T }; x.m ??= $G;", V, "void"), ("function q(f: $T) { f ||= $G; }", V, "void"),
    ("class C { m: $T = vd as any; n() { this.m = $G; } }", V, "void"), ("declare const x: { m: { n: $T } }; (x.m.n) = $G;", V, "void"), ("declare const x: Record<string, $T>; x[num()] = $G;", V, "void"),
    ("const x: { m: $T } = { m: $G };", P, "void"), ("const x: { m?: $T; n: number } = { n: 1, m: $G };", P, "void"), ("const x: { a: { m: $T } } = { a: { m: $G } };", P, "void"), ("const x: { 'a-b': $T } = { 'a-b': $G };", P, "void"), ("const x: { [k: string]: $T } = { m: $G };", P, "void"),
    ("declare function take(x: { m: $T }): void; take({ m: $G });", P, "void"), ("declare let x: { m: $T }; x = { m: $G };", P, "void"), ("const x: { m: $T }[] = [{ m: $G }];", P, "void"), ("const x = { m: $G } satisfies { m: $T };", P, "void"), ("function q(): { m: $T } { return { m: $G }; }", P, "void"), ("const x: { 1: $T } = { 1: $G };", P, "void"), ("const x: { m: $T } = { ['m']: $G };", P, "void"),
    ("const x: { s: $T } = { $S };", P, "void"), ("declare function take(x: { s: $T; n: number }): void; take({ n: 1, $S });", P, "void"),
    ("const x: { m: $T } = { $M };", P, "void"), ("declare function take(x: { m: $T }): void; take({ $M });", P, "void"), ("declare let x: { m?: $T; n: 1 }; x = { n: 1, $M };", P, "void"), ("const x: { m: $T } = ({ $M, });", P, "void"),
    ("declare function take(f: $T): void; take($G);", A, "arg"), ("declare function take(n: number, f: $T): void; take(1, $G);", A, "arg"), ("declare class C { constructor(f: $T); } new C($G);", A, "arg"), ("declare const x: { take(f: $T): void }; x.take($G);", A, "arg"), ("declare const x: { take(f: $T): void } | undefined; x?.take($G);", A, "opt"),
    ("declare function take(f?: $T): void; take($G);", A, "arg"), ("declare function take(...fs: ($T)[]): void; take($G);", A, "void"), ("declare function take(...fs: [number, $T]): void; take(1, $G);", A, "void"), ("declare function take(n: number, ...fs: ($T)[]): void; take(1, mk<any>(), $G);", A, "void"), ("declare const take: (f: $T) => number; k && take($G);", A, "arg"),
    ("declare const take: { (f: $T): void }; take($G, 1);", A, "arg"),
    ("$O take($G);", A, "arg"), ("$K new K($G);", A, "arg"),
    ("function q(): $T { return $G; }", R, "void"), ("function q(): ($T) { return $G; }", R, "void"), ("const q = (): $T => { return $G; };", R, "void"), ("const q: () => $T = () => { return $G; };", R, "void"), ("class C { q(): $T { return $G; } }", R, "void"), ("async function q(): Promise<$T> { return $G; }", R, "void"), ("class C { get q(): $T { return $G; } }", R, "void"),
    ("const q = function (): $T | undefined { if (k) return undefined; return $G; };", R, "void"), ("const q: { q(): $T } = { q() { return $G; } };", R, "void"), ("function q(): $T { try { return $G; } finally { vd(); } }", R, "void"), ("function q(): { (): number } | { h: $T }['h'] { return $G; }", None, None), ("function q(x: number): $T { switch (x) { case 1: return $G; default: return mk<any>(); } }", R, "void"),
    ("const q = (): $T => $G;", N, "void"), ("const q: () => $T = () => $G;", N, "void"), ("const q: ($T)[] = [$G];", N, "void"), ("const q: [number, $T] = [1, $G];", N, "void"), ("class C { m: $T = $G; }", N, "void"), ("class C { static m: $T = $G; }", N, "void"), ("const q = async (): Promise<$T> => $G;", N, "void"),
    ("const f = $G;", N, None), ("const f = ($G) as any as $T;", N, None), ("declare function take(f: any): void; take($G);", N, None), ("declare function take(f: unknown, g?: $T): void; take($G);", N, None), ("const x: { m: $T } = { n: $G } as any;", N, None), ("vd; ($G);", N, None), ("const x: { m: $T } & any = { m: $G };", N, None), ("class C { m = $G; }", N, None), ("const x: { n: $T } = { $M } as any;", N, None),
    ("class C { $M }", N, None), ("interface B { m: $T } class C { $M }", N, None), ("interface B { m: $T } class C implements B { m: any; static $M }", N, None),
    ("interface B { m: $T } class C implements B { $M }", I, "void"), ("declare class B { m: $T } class C extends B { $M }", I, "void"), ("interface B { m: $T } const C = class implements B { $M };", I, "void"), ("interface B { 'm': $T; n: number } class C implements B { n = 1; $M }", I, "void"), ("$B class C implements B { $M }", I, "void"), ("interface A { m: $T } interface B extends A {} class C implements B { $M }", I, "void"),
    ("interface B { m: $T } interface Z { z: 1 } class C implements Z, B { z = 1 as const; $M }", I, "void"), ("interface B<X> { m: X } class C implements B<$T> { $M }", I, "void"), ("declare class B { m?: $T } class C extends B { $M }", I, "void"),
    ("interface B { m: $T } class C implements B { $F }", I, "void"), ("declare class B { m: $T } class C extends B { $F }", I, "void"), ("$B class C implements B { $F }", I, "void"),
    ("interface B { m: $T } interface C extends B { $D }", I, None), ("interface B { m: $T } interface C extends B { $E }", I, None), ("declare class B { m: $T } declare class C extends B { $E }", I, None),
]
PLACES = [p for p in PLACES if p[1] is not None]
X = [("declare function X(p: { m: $T }): JSX.Element; <X m={$G} />;", J, "void"), ("declare function X(p: { m?: $T; n: number }): JSX.Element; <X n={1} m={$G}></X>;", J, "void"), ("declare function X(p: { m: $T }): JSX.Element; <div><X m={$G} /></div>;", J, "void"), ("<div m={$G} />;", N, None), ("declare function X(p: { m: any, n?: $T }): JSX.Element; <X m={$G} />;", N, None)]
NAMES = ["node", "ann", "arrow", "head", "body", "r0", "r1", "member"]


def mark(name, text):
    return "%s%s%s" % (chr(5) + name + chr(6), text, chr(7))


def render(text, want):
    """keeps the marks in want (name -> message) and gives their order"""
    out, stack, order = [], [], []
    for t in re.split("(\x05[a-z0-9]+\x06|\x07)", text):
        if t.startswith("\x05"):
            n = t[1:-1]
            stack.append(n in want)
            if n in want:
                order.append(n)
                out.append("\x01")
        elif t == "\x07":
            if stack.pop():
                out.append("\x02")
        else:
            out.append(t)
    return "".join(out), [(i, want[n]) for i, n in enumerate(order)]


class Writer:
    def __init__(self, x, r):
        self.x, self.r = x, r

    def type(self, ret):
        return self.r.choice(TYPES[ret])

    def fntype(self, rets):
        r = self.r
        rets = sorted(rets)
        r.shuffle(rets)
        fs = ["() => " + self.type(k) for k in rets]
        if len(fs) == 2:
            w = r.randrange(3)
            if w == 0:
                return "{ %s }" % " ".join("(): %s;" % f[6:] for f in fs)
            return " | ".join("(%s)" % f for f in fs)
        return r.choice(["(%s)", "(%s)", "{ (): %s }", "(%s)"]) .replace("(): %s", "(): " + fs[0][6:]).replace("%s", fs[0])

    def value(self, k):
        return self.r.choice(VALUES[k])

    def block(self):
        x, r = self.x, self.r
        out = []
        if r.random() < .2:
            out.append(r.choice(["const d = () => num();", "function d() { return prom(); }", "vd();", "const d = { e() { return num(); } };", "class D { d() { return prom(); } }", "const d = function () { return 1; };"]))
        if x["form"] == "gen":
            return " ".join(out + [r.choice(["", "yield prom();", "yield 1;", "return;"])])
        n = len(x["rets"])
        for i, k in enumerate(x["rets"]):
            s = mark("r%d" % i, "return" + (" " + self.value(k) if k else "") + ";")
            if i < n - 1 or r.random() < .3:
                s = r.choice(["if (k) %s", "if (k) { %s }", "for (const z of ks) { %s }", "while (k) %s", "try { if (k) %s } finally { vd(); }", "switch (ks[0]) { case 1: %s }", "L: if (k) { %s }"] if i < n - 1 else ["{ %s }", "try { %s } finally { vd(); }", "{ vd(); %s }", "do { %s } while (true);"]) % s
            out.append(s)
        return " ".join(out)

    def annotation(self):
        x = self.x
        if not x["ann"]:
            return ""
        t = self.r.choice(["Promise<void>", "Promise<number>", "P"]) if x["async"] and x["ann"] == "promise" else self.type(x["ann"])
        return ": " + mark("ann", t)

    def result(self):
        return self.type(self.x["rets"][0])

    def given(self):
        x, r = self.x, self.r
        asy = "async " if x["async"] else ""
        self.where = "ann" if x["ann"] else "node"
        if x["form"] == "ref":
            e = mark("node", r.choice(["g", "g", "mk<() => %s>()" % self.result(), "x1.g", "(g as () => %s)" % self.result(), "x1['g']"]))
            mine = "declare const g: () => %s; declare const x1: { g: () => %s };\n" % (self.result(), self.result())
            if r.random() < .2 and "g as" not in e:
                mine = mine.replace("declare const g: () => ", "declare function g(): ", 1)
            if e.startswith("\x05node\x06(g as"):
                e = e.replace("\x05node\x06(", "(\x05node\x06").replace(")\x07", "\x07)")
            self.before += mine
            return e
        par = r.choice(["", "", "a?: any", "...a: any[]", "a = () => 1"])
        if x["form"] == "expr":
            self.where = "ann" if x["ann"] else "arrow"
            e = self.value(x["rets"][0])
            while e.startswith("(") and e.endswith("))") or e.startswith("(1"):
                e = self.value(x["rets"][0])
            return self.wrap(mark("node", "%s(%s)%s %s %s" % (asy, par, self.annotation(), mark("arrow", "=>"), mark("body", e))))
        if x["form"] == "block" and r.random() < .5:
            self.where = "ann" if x["ann"] else "arrow"
            return self.wrap(mark("node", "%s(%s)%s %s { %s }" % (asy, par, self.annotation(), mark("arrow", "=>"), self.block())))
        self.where = "ann" if x["ann"] else "head"
        return self.wrap(mark("node", mark("head", "%sfunction%s %s" % (asy, "*" if x["form"] == "gen" else "", r.choice(["", "h"]))) + "(%s)%s { %s }" % (par, self.annotation(), self.block())))

    def wrap(self, e):
        return self.r.choice(["%s", "%s", "%s", "(%s)", "((%s))", "( /*c*/ %s )"]) % e

    def method(self, cls):
        x, r = self.x, self.r
        self.where = "ann" if x["ann"] else "head"
        mod = r.choice(["", "", "public "]) if cls else ""
        return mark("node", mark("head", "%s%s%s%s" % (mod, "async " if x["async"] else "", "*" if x["form"] == "gen" else "", r.choice(["m", "m", "'m'", '"m"']))) + "(%s)%s { %s }" % (r.choice(["", "a?: any"]), self.annotation(), self.block()))

    def write(self, place):
        x, r = self.x, self.r
        t = place[0]
        self.before = ""
        w = sorted(x["wanted"])
        if "$O" in t or "$K" in t or "$B" in t:
            ks = list(w)
            r.shuffle(ks)
            one = lambda k: "() => " + self.type(k)
            if "$O" in t:
                t = t.replace("$O", " ".join("declare function take(f: %s): void;" % one(k) for k in ks))
            elif "$K" in t:
                t = t.replace("$K", "declare class K { %s }" % " ".join("constructor(f: %s);" % one(k) for k in ks))
            else:
                t = t.replace("$B", "interface B { %s }" % " ".join("m(): %s;" % self.type(k) for k in ks))
        t = t.replace("$T", "@T@")
        ft = self.fntype(w)
        if r.random() < .2:
            self.before += "type W = %s;\n" % ft
            ft = "W"
        if "$G" in t:
            t = t.replace("$G", self.given())
        elif "$S" in t:
            self.where = "node"
            self.before += "declare const s: () => %s;\n" % self.result()
            t = t.replace("$S", mark("node", "s"))
        elif "$M" in t:
            t = t.replace("$M", self.method("class" in t))
        elif "$F" in t:
            g = self.given()
            t = t.replace("$F", mark("member", r.choice(["m = %s;", "public m = %s;", "'m' = %s;", "readonly m = %s;"]) % g))
            self.where = "member"
        elif "$D" in t:
            self.where = "ann"
            t = t.replace("$D", "m(): %s;" % mark("ann", self.result()))
        elif "$E" in t:
            self.where = "member"
            t = t.replace("$E", mark("member", "m: () => %s;" % self.result()))
        return self.before + t.replace("@T@", ft)

    def fits(self, place):
        x, t = self.x, place[0]
        if "$S" in t or "$D" in t or "$E" in t:
            return x["form"] == "ref"
        if "$M" in t:
            return x["form"] in ("block", "gen")
        return True


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    r = c.rng
    _, q = c.tlc("Callbacks", "SPECIFICATION Spec\nCONSTANTS\n MaxReturns = 2\nINVARIANTS Dropped Quiet Heard Option Welcome Emit\nCHECK_DEADLOCK FALSE\n")
    q = sorted(q, key=canon)
    loud = [x for x in q if x["misused"]]
    strict = [x for x in q if x["onlyVoid"] or x["voidish"]]
    refs = [x for x in q if x["form"] == "ref"]
    pick = []
    for xs, n in ((q, 2500), (loud, 4000), (strict, 5000), (refs, 1500)):
        pick += r.choices(xs, k=n * (20 if c.thorough else 1))
    S = Batch(c, b, "callbacks", DECL, per=300)
    SX = Batch(c, b, "attributes", DECL, per=300, ext=".tsx", tsopts=dict(jsx="preserve"))
    for x in pick:
        w = Writer(x, r)
        jsx = r.random() < .08
        place = r.choice([p for p in (X if jsx else PLACES) if w.fits(p)])
        text = w.write(place)
        opt, msg = place[1]
        # no-misused-promises
        all_ = ["arguments", "attributes", "inheritedMethods", "properties", "returns", "variables"]
        o = r.randrange(8)
        on = True
        if o == 0:
            options, on = dict(checksVoidReturn=False), False
        elif o == 1 and opt:
            options, on = dict(checksVoidReturn={opt: False}), False
        elif o == 2:
            options = dict(checksVoidReturn={k: False for k in all_ if k != opt and r.random() < .8})
        elif o == 3:
            options = dict(checksVoidReturn=True, checksConditionals=r.random() < .5)
        else:
            options = r.choice([None, {}, dict(checksVoidReturn={}), dict(checksSpreads=False)])
        hit = x["misused"] and on and opt
        t, want = render(text, {w.where: msg} if hit else {})
        (SX if jsx else S).add("no-misused-promises", options, t, want, x)
        # strict-void-return
        any_ = r.random() < .5
        asked = place[2] == "void" and x["onlyVoid"] or place[2] == "arg" and (x["onlyVoid"] or x["voidish"]) or place[2] == "opt" and x["onlyVoid"]
        if place[2] == "opt" and x["voidish"] and not x["onlyVoid"]:
            continue
        found = {k: m for k, m in (x["strictAny"] if any_ else x["strict"])} if asked else {}
        t, want = render(text, found)
        (SX if jsx else S).add("strict-void-return", dict(allowReturnAny=True) if any_ else r.choice([None, {}, dict(allowReturnAny=False)]), t, want, x)
    S.run()
    SX.run()


if __name__ == "__main__":
    main("C42", body)
