"""C24: boolean positions.  Booleans.tla's types under options, and its conditions, against strict-boolean-expressions."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch

NOTE = """Types: all of up to 2 of 23 parts and a sample of those of 3 and 4, under a sample of the 256 option settings (all for single parts).  Conditions: all of up to 2 steps in 10 kinds of place, and random ones of up to 7."""
PRE = """enum E { A, B }
enum S { A = 'a', B = '' }
declare let v: any;
declare function call(x: unknown): number;
declare function assert(x: unknown): asserts x;
declare function take(x: unknown): void;
"""
TYPE = dict(true="true", false="false", empty='""', word='"a"', string="string", zero="0", one="1", number="number", bigzero="0n", bigone="1n", bigint="bigint", null="null", undefined="undefined", void="void", object="{ x: 1 }",
            function="(() => void)", symbol="symbol", E="E", S="S", brandstring='(string & { brand: 1 })', brandbool='(true & { brand: 1 })', any="any", unknown="unknown")
# other types of the same kind
ALSO = dict(object=["object", "string[]", "(new () => 1)", "Map<string, 1>", "{}[]", "readonly [1]", "{ [k: string]: 1 }", "typeof E", "Date"], string=["`a${string}`", "Uppercase<string>", "`${number}`"], number=["number"], word=['"b"', "`c`", '"0"', '" "'], one=["2", "-1", "0.5"], bigone=["2n", "-1n"], empty=["``"], bigzero=["0n"],
            function=["((a: 1) => 2)", "{ (): 1 }", "typeof assert"])
OPT = dict(any="allowAny", nboolean="allowNullableBoolean", nenum="allowNullableEnum", nnumber="allowNullableNumber", nobject="allowNullableObject", nstring="allowNullableString", number="allowNumber", string="allowString")
WHERE = ["if (%s) {}", "while (%s) {}", "do {} while (%s)", "for (; %s;) {}", "take(%s ? 1 : 2)", "take(!%s)", "take(%s && 1)", "take(%s || 1)", "assert(%s)", "if ((%s) && true) {}", "if (true || %s) {}"]
PREC = dict(comma=0, assign=1, tern=2, qq=3, **{"or": 3, "and": 4}, eq=6, cmp=6, **{"not": 9})


class Writer:
    def __init__(self):
        self.n, self.decl = 0, []

    def new(self, t):
        self.n += 1
        self.decl.append("declare const %s: %s;" % ("abxn"[self.n % 4] + str(self.n), t))
        return "abxn"[self.n % 4] + str(self.n)

    def sub(self, q, least, at, mixes=()):
        t = self.expr(q, at)
        return "(%s)" % t if PREC.get(q["k"], 30) < least or q["k"] in mixes else t

    def expr(self, q, at):
        k = q["k"]
        go = lambda i: {a[1:]: m for a, m in at.items() if a and a[0] == i}
        if k == "n":
            t = self.new("number")
        elif k == "b":
            t = self.new("boolean")
        elif k == "zero":
            t = self.new("0")
        elif k == "cmp":
            t = self.new("number") + " > 1"
        elif k == "paren":
            t = "(%s)" % self.expr(q["x"], go(1))
        elif k == "not":
            t = "!" + self.sub(q["x"], 9, go(1))
        elif k == "call":
            t = "call(%s)" % self.sub(q["x"], 1, go(1))
        elif k == "assign":
            t = "v = " + self.sub(q["x"], 1, go(1))
        elif k == "tern":
            c = self.sub(q["c"], 3, go(3))
            t = "%s ? %s : %s" % (c, self.sub(q["x"], 1, go(1)), self.sub(q["y"], 1, go(2)))
        else:
            mix = ("and", "or") if k == "qq" else ("qq",)
            op = {"and": " && ", "or": " || ", "qq": " ?? ", "comma": ", ", "eq": " === "}[k]
            t = self.sub(q["x"], PREC[k], go(1), mix) + op + self.sub(q["y"], PREC[k] + 1, go(2), mix)
        return "\x01%s\x02" % t if () in at else t


def places(q, at, path=()):
    """messages in the order in which the ranges begin"""
    k = q["k"]
    here = [at[path]] if path in at else []
    for f, i in (("c", 3), ("x", 1), ("y", 2)):
        if f in q:
            here += places(q[f], at, path + (i,))
    return here


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    ct = "SPECIFICATION SpecT\nCONSTANTS\n Sets <- %s\n Opts <- %s\n Depth = 0\n Walks = 1\nINVARIANTS Looser EmitT\n"
    cc = "SPECIFICATION SpecC\nCONSTANTS\n Sets = {}\n Opts = {}\n Depth = %d\n Walks = %d\nINVARIANTS Covers Not Parens EmitC\n"
    _, q = c.tlc("Booleans", ct % ("Small", "AllOpts"))
    _, q1 = c.tlc("Booleans", ct % ("Large", "SomeOpts"), args=["-seed", str(c.seed)])
    singles = [x for x in q if len(x["t"]) == 1]
    if not c.thorough:
        q = c.rng.sample(sorted(q, key=canon), 12000)
    T = Batch(c, b, "types", PRE, per=2000)
    for x in sorted(singles + q + q1, key=canon):
        ts = [c.rng.choice(ALSO[a]) if a in ALSO and c.rng.random() < .3 and not (a == "string" and (len(x["t"]) > 2 or "S" in x["t"])) else TYPE[a] for a in x["t"]]
        c.rng.shuffle(ts)
        ty = " | ".join(ts)
        o = {OPT[k]: v for k, v in x["o"].items()}
        w = c.rng.choice(WHERE)
        form = c.rng.randrange(4)
        decl, v = [("declare const x: %s;\n" % ty, "x"), ("declare const y: { p: %s };\n" % ty, "y.p"), ("declare function z(): %s;\n" % ty, "z()"), ("function gen<T extends %s>(x: T) {\n" % ty, "x")][form]
        if form == 3 and (len(x["t"]) > 1 or x["t"][0] in ("any", "unknown")):
            decl, v, form = "declare const x: %s;\n" % ty, "x", 0
        s = decl + w % ("\x01%s\x02" % v) + ";\n" + ("}\n" if form == 3 else "")
        T.add("strict-boolean-expressions", o, s, [] if x["v"] == "ok" else [(0, "conditionError" + x["v"])], x)
    T.run()
    _, e = c.tlc("Booleans", cc % (2, 1))
    _, e2 = c.tlc("Booleans", cc % (7, 12000 if c.thorough else 1500), args=["-seed", str(c.seed)], workers=1)
    if not c.thorough:
        e = c.rng.sample(sorted(e, key=canon), 15000)
    P = Batch(c, b, "places", PRE, per=400)
    for x in e + e2:
        top = c.rng.choice(["if", "while", "do", "for", "tern", "assert", "stmt", "return", "arg", "init"])
        at = {tuple(r["at"]): r["m"] for r in x["cond" if top in ("if", "while", "do", "for", "tern", "assert") else "value"]}
        W = Writer()
        t = W.expr(x["e"], at)
        wrapped = lambda least: "(%s)" % t if PREC.get(x["e"]["k"], 30) < least else t
        s = {"if": lambda: "if (%s) {}" % t, "while": lambda: "while (%s) {}" % t, "do": lambda: "do {} while (%s)" % t, "for": lambda: "for (let i = 0; %s; i++) {}" % t, "tern": lambda: "v = %s ? 1 : 2" % wrapped(3), "assert": lambda: "assert(%s)" % wrapped(1),
             "stmt": lambda: t, "return": lambda: "return %s" % t, "arg": lambda: "take(%s)" % wrapped(1), "init": lambda: "const init = %s" % wrapped(1)}[top]()
        P.add("strict-boolean-expressions", {"allowNumber": False}, "\n".join(W.decl) + "\nfunction g() {\n" + s + ";\n}\n", [(i, "conditionError" + m) for i, m in enumerate(places(x["e"], at))], x)
    P.run()


main("C24", body)
