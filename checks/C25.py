"""C25: operand types of +, of template literals and of unary minus.  Operands.tla's operands under options against the three rules."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch

NOTE = """30 kinds of part.  Plus: all pairs of single parts under all options and a sample of pairs of unions of up to 3; template literals and minus: all unions of up to 2 parts and a sample of those of 3 and 4 under a sample of options."""
PRE = """enum E { A, B }
enum S { A = 'a', B = 'b' }
class MyError extends Error { own = 1 }
class Box { private b = 1 }
declare function take(x: unknown): void;
declare function tag(x: TemplateStringsArray, ...y: unknown[]): string;
"""
TYPE = dict(string="string", word='"a"', tmpl="`x${string}`", S="S", number="number", one="1", E="E", bigint="bigint", bigone="1n", boolean="boolean", true="true", null="null", undefined="undefined", symbol="symbol", object="{ x: 1 }",
            date="Date", regexp="RegExp", error="Error", myerror="MyError", arrstr="string[]", arrobj="{ x: 1 }[]", arrnum="readonly (number | undefined)[]", arr2="string[][]", tup="[number, RegExp]", fn="(() => void)", box="Box", brandstring="(string & { brand: 1 })",
            any="any", unknown="unknown", never="never")
POPT = dict(boolean="allowBoolean", nullish="allowNullish", any="allowAny", regexp="allowRegExp", both="allowNumberAndString")
TOPT = dict(number="allowNumber", boolean="allowBoolean", nullish="allowNullish", any="allowAny", never="allowNever", regexp="allowRegExp", array="allowArray")


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Mode = \"%s\"\n POpts <- %s\n TOpts <- %s\nINVARIANTS Symmetric Looser Members Emit\n"
    _, q = c.tlc("Operands", cfg % ("singles", "AllP", "OneT"), args=["-seed", str(c.seed)])
    _, q2 = c.tlc("Operands", cfg % ("mixed", "AllP" if c.thorough else "SomeP", "OneT"), args=["-seed", str(c.seed)])
    _, q3 = c.tlc("Operands", cfg % ("alone", "OneP", "SomeT"), args=["-seed", str(c.seed)])
    cut = lambda x, n: sorted(x, key=canon) if c.thorough else c.rng.sample(sorted(x, key=canon), min(n, len(x)))

    def operand(t, name):
        ts = [TYPE[a] for a in t]
        c.rng.shuffle(ts)
        ty = " | ".join(ts)
        form = c.rng.randrange(5)
        if form == 4 and len(t) == 1 and not set(t) & {"any", "unknown", "never"}:
            return "", name, ("<T%s extends %s>" % (name, ty), "%s: T%s" % (name, name))
        return [("declare const %s: %s;\n" % (name, ty), name, None), ("declare const %s: { p: %s };\n" % (name, ty), name + ".p", None), ("declare function %s(): %s;\n" % (name, ty), name + "()", None), ("declare const %s: (%s)[];\n" % (name, ty), "(%s[0])" % name, None), ("declare const %s: %s;\n" % (name, ty), "(%s)" % name, None)][form]

    B = Batch(c, b, "plus", PRE, per=1000)
    for x in cut(q, 15000) + cut(q2, 15000):
        dl, vl, gl = operand(x["l"], "a")
        dr, vr, gr = operand(x["r"], "b")
        m = lambda v, on: "\x01%s\x02" % v if on else v
        o = {POPT[k]: v for k, v in x["op"].items()}
        p = x["plus"]
        form, skip = c.rng.randrange(4), c.rng.random() < .2
        compound = form == 0 and x["l"] == x["l"] and c.rng.random() < .5
        o["skipCompoundAssignments"] = skip
        if compound:
            vl, dl, gl = "w", "", None
            ts = [TYPE[a] for a in x["l"]]
            dl = "declare let w: { p: %s };\n" % " | ".join(ts)
            vl = "w.p"
            p = [] if skip else p
        whole = m(m(vl, "left" in p) + (" += " if compound else " + ") + m(vr, "right" in p), set(p) & {"mismatched", "bigintAndNumber"})
        s = dl + dr
        gs = [g for g in (gl, gr) if g]
        if gs:
            s += "function f<%s>(%s) { take(%s); }\n" % (", ".join(g[0][1:-1] for g in gs), ", ".join(g[1] for g in gs), whole)
        else:
            s += "take(%s);\n" % whole
        want = [(i, "invalid") for i, _ in enumerate(v for v in ("left", "right") if v in p)] or [(0, v) for v in p]
        B.add("restrict-plus-operands", o, s, want, x)
    B.run()
    T = Batch(c, b, "template", PRE, per=1000)
    U = Batch(c, b, "minus", PRE, per=1000)
    seen = set()
    for x in cut(q3, 30000) + cut(q, 3000):
        o = {TOPT[k]: v for k, v in x["ot"].items() if k in TOPT}
        if x["ot"]["allow"]:
            o["allow"] = [[], [{"from": "file", "name": "Box"}], []][x["ot"]["allow"]]
        key = canon([x["l"], o])
        if key in seen:
            continue
        seen.add(key)
        d, v, g = operand(x["l"], "a")
        form = c.rng.randrange(5)
        inner = "\x01%s\x02" % v if not x["tok"] else v
        t = ["`${%s}`", "`a${%s}b`", "`${'x'}-${%s}`", "`\n${ %s }${1}`", "`${`${%s}`}`"][form] % inner
        want = [] if x["tok"] else [(0, "invalidType")]
        if form == 3 and not o["allowNumber"]:
            t = "`${ %s }`" % inner
        if c.rng.random() < .1:
            t, want = "tag`${%s}`" % v, []
        T.add("restrict-template-expressions", o, d + ("function f%s(%s) { take(%s); }\n" % (g[0], g[1], t) if g else "take(%s);\n" % t), want, x)
        if "brandstring" in x["l"] or canon(x["l"]) in seen:
            continue
        seen.add(canon(x["l"]))
        v2 = "-" + v
        v2 = v2 if x["minus"] else "\x01%s\x02" % v2
        U.add("no-unsafe-unary-minus", None, d + ("function f%s(%s) { take(%s); }\n" % (g[0], g[1], v2) if g else "take(%s);\n" % v2), [] if x["minus"] else [(0, "unaryMinus")], x)
    T.run()
    U.run()


main("C25", body)
