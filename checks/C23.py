"""C23: floating promises.  Floating.tla's expressions, written as statements, against the rule; its suggestions are applied and judged again."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch

NOTE = """All expressions of up to 2 steps with all options and random ones of up to 8; each place is written in one of several spellings."""
N = 40
PRE = """declare class SafePromise<T> extends Promise<T> { safe: 1 }
declare class Thenable { private own: 1; then(a: (v: number) => void, b?: (e: unknown) => void): Thenable }
declare function safe(): Promise<number>;
declare function pcall(): Promise<number>;
declare function ncall(): number;
declare const f: () => number;
declare const fs: [() => number];
declare let v: any;
declare const nt: number | { then(a: number, b: (e: unknown) => void): void }, ntup: number | [number, string], narr: number | number[] | readonly [1], nobj: number | { then2: 1 }, nt2: number | { then(a: (v: number) => void, b: string): void };
""" + "".join("declare const p%d: Promise<number>, u%d: Promise<number> | undefined, arr%d: Promise<number>[], rarr%d: readonly Promise<number>[], uarr%d: Promise<number>[] | undefined, n%d: number, h%d: Thenable, s%d: SafePromise<number>, c%d: boolean, tup%d: [number, Promise<number>];\n" % ((i,) * 10) for i in range(N))
PREC = dict(comma=0, assign=1, cond=2, qq=3, **{"or": 3, "and": 4}, void=9, **{"await": 9}, catch=20, then=20, **{"finally": 20})
KIND = dict(plain="floating", array="floatingPromiseArray", useless="floatingUselessRejectionHandler")


class Writer:
    def __init__(self, rng):
        self.r, self.n, self.aw = rng, 0, 0

    def leaf(self, k):
        self.n = (self.n + 1) % N
        r, n = self.r, self.n
        return dict(p="p%d", new="new Promise<number>(() => {})", pcall="pcall()", iife=r.choice(["(async () => 1)()", "(async function () { return 2; })()", "((async () => 1))()"]), safecall="safe()", arr=r.choice(["arr%d", "rarr%d", "[p%d]"]),
                    tup="tup%d", n=r.choice(["n%d", "n%d", "(n%d + 1)"] + ([] if self.aw else ["nt", "nt2", "ntup", "narr", "nobj"])), ncall="ncall()", u="u%d", uarr="uarr%d", h="h%d", s="s%d")[k].replace("%d", str(n))

    def sub(self, q, least, at, mixes=()):
        """q as an operand that binds at least as tightly"""
        t = self.expr(q, at)
        return "(%s)" % t if PREC.get(q["k"], 30) < least or q["k"] in mixes else t

    def expr(self, q, at):
        """at: the path of the reported node inside q, None if it is elsewhere"""
        k = q["k"]
        go = lambda i: at[1:] if at and at[0] == i else None
        r = self.r
        if k == "paren":
            t = "(%s)" % self.expr(q["x"], go(1))
        elif k in ("catch", "then", "finally"):
            o = self.sub(q["x"], 20, go(1))
            if q["x"]["k"] == "new" and r.random() < .5:
                o = "(%s)" % o
            opt = "?" if q["u"] else ""
            m = r.choice([".%s" % k, "['%s']" % k, ".%s" % k, ".%s" % k])
            if opt:
                m = "?" + (m if m[0] == "." else "." + m)
            fn = lambda: r.choice(["f", "() => 1", "function () { return 2; }", "(f)"])
            non = lambda: r.choice(["undefined", "null"])
            h = q.get("h")
            a = {"none": "", "fn": fn, "non": non, "spread": lambda: "...fs"}[h] if k == "catch" else None
            if k == "catch":
                a = a() if a else ""
            elif k == "then":
                first = r.choice([fn, fn, non])() if q["x"]["k"] != "h" else fn()
                a = {"none": lambda: r.choice([first, first, "...fs" if q["x"]["k"] != "h" else first]), "fn": lambda: first + ", " + fn(), "non": lambda: fn() + ", " + non(), "spread": lambda: r.choice(["...fs, ", first + ", "]) + ("f" if False else "...fs")}[h]()
            else:
                a = r.choice(["f", "() => {}", ""])
            t = "%s%s(%s)" % (o, m, a)
        elif k in ("void", "await"):
            self.aw += k == "await"
            t = k + " " + self.sub(q["x"], 9, go(1))
            self.aw -= k == "await"
        elif k == "assign":
            t = "v = " + self.sub(q["x"], 1, go(1))
        elif k == "comma":
            t = self.sub(q["x"], 0, go(1)) + ", " + self.sub(q["y"], 1, go(2))
        elif k == "cond":
            self.n = (self.n + 1) % N
            t = "c%d ? " % self.n + self.sub(q["x"], 1, go(1)) + " : " + self.sub(q["y"], 1, go(2))
        elif k in ("and", "or", "qq"):
            mix = ("and", "or") if k == "qq" else ("qq",)
            t = self.sub(q["x"], PREC[k], go(1), mix) + {"and": " && ", "or": " || ", "qq": " ?? "}[k] + self.sub(q["y"], PREC[k] + 1, go(2), mix)
        else:
            t = self.leaf(k)
        return "\x01%s\x02" % t if at == [] else t


def types(q):
    """parts of the type (the model's T), to know where `?.` is needed"""
    k = q["k"]
    if "x" in q:
        a = types(q["x"])
    if "y" in q:
        b = types(q["y"])
    if k in ("catch", "then", "finally"):
        q["u"] = "U" in a
        return ({"H"} if k == "then" and "H" in a else {"P"}) | (a & {"U"})
    if k == "void":
        return {"U"}
    if k == "await":
        return {"N" if x in "PSH" else x for x in a}
    if k in ("paren", "assign"):
        return a
    if k == "comma":
        return b
    norm = lambda t: t - ({"S"} if "P" in t else set()) - ({"Z"} if "N" in t else set())
    falsy = lambda t: t & {"U", "Z"} | ({"Z"} if "N" in t else set())
    if k == "cond":
        return norm(a | b)
    if k == "and":
        return a if a <= {"U", "Z"} else (falsy(a) | b) - ({"Z"} if "N" in b else set())
    if k == "or":
        return norm((a - {"U", "Z"}) | b) if falsy(a) else a
    if k == "qq":
        return norm((a - {"U"}) | b) if "U" in a else a
    return dict(arr={"A"}, tup={"A"}, n={"N"}, ncall={"N"}, u={"P", "U"}, uarr={"A", "U"}, h={"H"}, s={"S"}).get(k, {"P"})


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Depth = %d\n Wide <- %s\n Opts <- %s\n Walks = %d\nINVARIANTS Await Void Caught Parens More Emit\n"
    _, q = c.tlc("Floating", cfg % (2, "Few", "OneOpt", 1))
    _, q1 = c.tlc("Floating", cfg % (1, "Leaves", "AllOpts", 1))
    _, q2 = c.tlc("Floating", cfg % (8, "Leaves", "AllOpts", 50000 if c.thorough else 2000), args=["-seed", str(c.seed)], workers=1)
    cases = q + q1 + q2
    if not c.thorough:
        cases = c.rng.sample(sorted(cases, key=canon), min(len(cases), 45000))
    wrap = "namespace N%d {\nasync function g() {\n  %s;\n}\n}\n"
    B, again = Batch(c, b, "first", PRE, wrap=wrap), Batch(c, b, "second", PRE, wrap=wrap)
    for x in cases:
        types(x["e"])
        o, v = x["o"], x["v"]
        opts = {"ignoreVoid": o["void"], "ignoreIIFE": o["iife"], "checkThenables": o["then"]}
        if o["safe"]:
            opts["allowForKnownSafePromises"] = [{"from": "file", "name": "SafePromise"}]
        if o["safecall"]:
            opts["allowForKnownSafeCalls"] = [{"from": "file", "name": ["safe"]}]
        t = Writer(c.rng).expr(x["e"], v["at"] if v["kind"] != "nil" else None)

        def after(m, text, x=x, opts=opts):
            if not x["arr"]:
                again.add("no-floating-promises", opts, text, [], ["suggested", x])
        B.add("no-floating-promises", opts, t, [(0, KIND[v["kind"]] + ("Void" if o["void"] else ""))] if v["kind"] != "nil" else [], x, after)

    def compare(m, text, data):
        n = len(m.get("suggestions") or [])
        want = 0 if data["v"]["kind"] == "array" else 2 if data["o"]["void"] else 1
        return None if n == want else "%d suggestions, %d expected" % (n, want)
    B.run(compare)
    c.stats["suggestions applied"] = len(again.cases)
    again.run()


main("C23", body)
