"""C22: switch exhaustiveness.  Switch.tla's switches, written as programs, against the rule; its suggestions are applied and judged again."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch, strip

NOTE = """All types of up to 2 members of 17 kinds with all options, and a sample of types of 3, 4 and 6 members; up to 3 (6) cases, 5 kinds of default, 6 ways of giving the value its type."""
PRE = """enum E { A, B, }
enum F { 'x y', z }
declare const sym: unique symbol;
"""
TYPE = [None, '"a"', '"b"', "1", "2n", "true", "false", "null", "undefined", "E.A", "E.B", "typeof sym", '("k" & { brand: 1 })', "RegExp", "(() => void)", "{ x: number }", "Exclude<F, F.z>", "F.z"]
LABEL = [None, '"a"', "'b'", "1", "2n", "true", "false", "null", "undefined", "E.A", "E.B", "sym", '"k"', "/x/", "f", "o", "F['x y']", "F.z"]
NAME = [None, '"a"', '"b"', "1", "2n", "true", "false", "null", "undefined", "E.A", "E.B", "typeof sym", '"k"', 0, 0, 0, '(typeof F)["x y"]', "F.z"]


def code(x, form, marks=True):
    t = " | ".join(TYPE[a] for a in x["t"]) if not {16, 17} <= set(x["t"]) else " | ".join(["F"] + [TYPE[a] for a in x["t"] if a < 16])
    head, v = [("declare const v: %s;\n" % t, "v"), ("type T = %s;\ndeclare const o1: { readonly p: T };\n" % t, "o1.p"), ("declare function g(): %s;\n" % t, "g()"),
               ("declare let w: { a: (%s)[] };\n" % t, "w.a[0]!" if not set(x["t"]) & {7, 8} else "w.a[0]"), ("function h<T extends %s>(v: T) {\n" % t, "v"), ("declare const v: { q: %s } & { z: 1 };\n" % t, "(v.q)")][form]
    cl = ["  case %s: break;" % LABEL[a] for a in x["cs"]]
    d = "  \x01default: break;\x02" if x["dangerous"] else "  default: break;"
    if x["d"] == 1:
        cl.append(d)
    elif x["d"] == 2:
        cl.insert(0, d)
    elif x["d"] in (3, 4):
        t = ["// no default", "/* No Default */", "// skip  default", "//NO DEFAULT"][form % 2 if x["d"] == 3 else 2]
        cl.append("  " + ("\x01%s\x02" % t if x["dangerous"] else t))
    n = 1 if x["missing"] else 0
    n += 1 if x["needs"] else 0
    s = head + "switch (" + "\x01" * n + v + "\x02" * n + ") {\n" + "\n".join(cl) + "\n}\n" + ("}\n" if form == 4 else "")
    want = ([(0, "switchIsNotExhaustive")] if x["missing"] else []) + ([(n - 1, "switchIsNotExhaustive")] if x["needs"] else []) + ([(n, "dangerousDefaultCase")] if x["dangerous"] else [])
    return s, want


def options(o, rng):
    r = {"allowDefaultCaseForExhaustiveSwitch": o["allow"], "considerDefaultExhaustiveForUnions": o["consider"], "requireDefaultForNonUnion": o["require"]}
    if o["pat"]:
        r["defaultCaseCommentPattern"] = "^skip\\s+default"
    return r


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Types <- %s\n MaxCases = %d\n Opts <- %s\nINVARIANTS Filled OneSide Emit\nPROPERTY Monotone\n"
    _, q = c.tlc("Switch", cfg % ("Small", 3, "AllOpts"), args=["-seed", str(c.seed)])
    _, q2 = c.tlc("Switch", cfg % ("Big", 6, "AllOpts" if c.thorough else "ThreeOpts"), args=["-seed", str(c.seed)])
    if not c.thorough:
        q = c.rng.sample(sorted(q, key=canon), 30000)
        q2 = c.rng.sample(sorted(q2, key=canon), min(len(q2), 15000))
    for tag, strict in (("strict", True),):
        B, again = Batch(c, b, tag, PRE), Batch(c, b, tag + "2", PRE)

        def compare(m, text, data):
            x = data[0]
            if m["message"]["id"] != "switchIsNotExhaustive":
                return None
            names = sorted(m["message"]["description"].split("Cases not matched: ")[1].split(" | "))
            return None if names == ["default"] and x["needs"] or names == sorted(NAME[a] for a in x["missing"]) else "names %s, missing are %s" % (names, [NAME[a] for a in x["missing"]])
        for x in q + q2:
            form = c.rng.randrange(6)
            if form == 4 and 13 in x["t"]:
                form = 0
            s, want = code(x, form)
            o = options(x["o"], c.rng)

            def after(m, text, x=x, o=o, form=form):
                if x["needs"]:
                    return
                y = dict(x, cs=x["cs"] + x["missing"], missing=[], dangerous=False)
                # with every member covered, a default clause may be too much now
                dang = not x["o"]["allow"] and not set(x["t"]) & {13, 14, 15} and (x["d"] in (1, 2) or x["d"] == 3 and not x["o"]["pat"] or x["d"] == 4 and x["o"]["pat"])
                if dang and x["d"] in (1, 2):
                    text = text.replace("default: break;", "\x01default: break;\x02")
                elif dang:
                    return
                again.add("switch-exhaustiveness-check", o, text, [(0, "dangerousDefaultCase")] if dang else [], ("suggested", y))
            B.add("switch-exhaustiveness-check", o, s, want, (x, form), after)
        B.run(compare)
        c.stats["suggestions applied"] = len(again.cases)
        again.run()


main("C22", body)
