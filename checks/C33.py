"""C33: enums.  Enums.tla's enums and comparisons against no-mixed-enums and no-unsafe-enum-comparison; the suggestions are applied."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch, strip

NOTE = """All enums of up to 5 (7) members in up to 4 declarations and random ones of up to 12, each member written in one of many ways; all pairs of types of up to 3 (4) parts in all together out of 25 kinds, and random ones of up to 8; suggestions are compared with the model's and applied."""
PRE = """declare const anyv: any; declare const unk: unknown; declare function num(): number; declare function str(): string; declare const bign: bigint;
declare enum Other { N = 5, M = 6 } declare enum OtherS { S = 'q', T = 'r' }
enum EN { A = 0, B } enum EN2 { A, B = 7 } const enum ES { A = 'a', B = "b" } declare enum ES2 { A = 'a', Z = 'y' } enum EM { A = 0, S = 'a' } enum EC { 'with space' = 0 }
namespace K { export enum EN { A = 0, B = 1 } export enum EN2 { A, B = 7 } export enum ES { A = `a`, B = 'b' } export enum ES2 { A = 'a', Z = 'y' } export enum EM { A, S = 'a' } export enum EC { ['with space'] } }
namespace K { export enum EN { C = 4 } }
interface O { o: 1 } interface Br { brand: 1 }
"""
MEMBER = dict(N=[None, None, None, "0", "1", "-1", "1 + 2", "~1", "(3)", "'x'.length", "Other.N", "num()", "1 << 2", "Other['M']", "+'3'", "0x10", "1e3"], S=["'x'", '"y"', "`z`", "'x' + 'y'", "`x${'y'}`", "OtherS.S", "('x')", "str()", "''", "OtherS['T']", "(`k`)", "'x'.toString()"], X=["anyv", "bign", "unk", "{}", "null", "(anyv)", "1n"])
ATOM = dict(NA="EN.A", NB="EN.B", MC="EC", N2A="EN2.A", SA="ES.A", SB="ES.B", S2A="ES2.A", MA="EM.A", MS="EM.S", number="number", zero="0", one="1", string="string", sa="'a'", sz="'z'", any="any", unknown="unknown", obj="O", null="null", undefined="undefined", true="true", bigint="bigint",
            brand="(number & Br)", sbrand="(string & Br)", tmpl="`t-${string}`")
OFFER = dict(NA="EN.A", NB="EN.B", N2A="EN2.A", SA="ES.A", SB="ES.B", S2A="ES2.A", MA="EM.A", MS="EM.S", MC="EC['with space']")


def enum(x, r):
    ds, v = x["ds"], x["v"]
    out, want, n = [], [], 0
    names = ["m%d" % i for i in range(20)]
    for d, odd in zip(ds, v):
        ms = []
        for i, k in enumerate(d):
            name = names.pop(0)
            if r.random() < .15:
                name = "'%s-q'" % name
            e = r.choice(MEMBER[k])
            m = "%s%s" % (name, "" if e is None else r.choice([" = ", "="]) + ("\x01%s\x02" % e if odd == i + 1 else e))
            if e is None and odd == i + 1:
                m = "\x01%s\x02" % m
            ms.append(m)
        if odd:
            want.append((n, "mixed"))
            n += 1
        body = r.choice([", ", ",\n  "]).join(ms) + ("," if ms and r.random() < .2 else "")
        out.append("enum E { %s }" % body)
    how = r.choice(["plain", "plain", "const", "declare", "export", "between", "elsewhere"] + (["spread"] if len(out) > 1 else []))
    if how == "const":
        t = "\n".join("const " + x for x in out)
    elif how == "declare":
        t = "\n".join("declare " + x for x in out)
    elif how == "export":
        t = "\n".join("export " + x for x in out)
    elif how == "between":
        t = "namespace E { export const zz = 'z'; }\n" + "\n".join("%s\nnamespace E { export const z%d = 1; }" % (x, i) for i, x in enumerate(out))
    elif how == "elsewhere":
        t = "namespace Away { export enum E { q = 'q', qq = 'r' } function f() { enum E { z, zz } } }\n" + "\n".join(out)
    elif how == "spread":
        t = "\n".join("namespace Q { export %s }" % x for x in out)
    else:
        t = "\n".join(out)
    return t, want


def written(s, ns, r, single):
    """(expression, declarations, is a literal)"""
    def atom(a):
        t = ATOM[a]
        return (ns + t) if a in OFFER else t
    s = sorted(s)
    r.shuffle(s)
    if len(s) == 1:
        a = s[0]
        if single:
            e = ATOM[a]
            return e, "", True
        if a in OFFER and r.random() < .4:
            return r.choice([ns + OFFER[a], "(" + ns + OFFER[a] + ")"]), "", False
        if a in ("null", "undefined", "true") and r.random() < .3:
            return a, "", False
    parts = [atom(a) for a in s]
    for e, ms in (("EN", {"NA", "NB"}), ("ES", {"SA", "SB"}), ("EM", {"MA", "MS"})):
        if ns == "" and ms <= set(s) and r.random() < .7:
            parts = [e] + [atom(a) for a in s if a not in ms]
    t = " | ".join(parts)
    v = "v%d" % r.randrange(10 ** 6)
    k = r.randrange(5)
    if k == 0:
        return v + ".p", "declare const %s: { p: %s };\n" % (v, t), False
    if k == 1:
        return v + "()", "declare function %s(): %s;\n" % (v, t), False
    if k == 2 and s not in (["brand"], ["sbrand"]):  # an aliased intersection is another type to the compiler
        return "(%s)" % v, "type T%s = %s;\ndeclare const %s: T%s;\n" % (v, t, v, v), False
    if k == 3 and s[0] not in ("any", "unknown"):
        return "%s[0]!" % v if not {"null", "undefined", "any", "unknown"} & set(s) else v + "[0]", "declare const %s: [%s];\n" % (v, t), False
    return v, "declare const %s: %s;\n" % (v, t), False


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    r = c.rng
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Mode = \"%s\"\n Members = %d\n Parts = %d\n Walks = %d\nINVARIANTS Symmetric Own NoEnums Settled Emit\nPROPERTY Kept\n"
    _, q = c.tlc("Enums", cfg % ("mixed", 6 if c.thorough else 4, 0, 1))
    _, q2 = c.tlc("Enums", cfg % ("mixed", 12, 0, 8000 if c.thorough else 1500), args=["-seed", str(c.seed)], workers=1)
    B = Batch(c, b, "mixed", PRE.split("enum EN {")[0])
    q = sorted(q, key=canon)
    q = r.sample(q, min(len(q), 40000 if c.thorough else 8000)) + q2
    for x in q:
        code, want = enum(x, r)
        B.add("no-mixed-enums", None, code, want, x)
    B.run()
    _, q = c.tlc("Enums", cfg % ("cmp", 0, 4 if c.thorough else 3, 1))
    _, q2 = c.tlc("Enums", cfg % ("cmp", 0, 8, 20000 if c.thorough else 3000), args=["-seed", str(c.seed)], workers=1)
    q = sorted(q, key=canon)
    bad = [x for x in q if x["bad"]]
    q = bad + r.sample([x for x in q if not x["bad"]], min(len(q) - len(bad), 60000 if c.thorough else 8000)) + q2
    B = Batch(c, b, "cmp", PRE)
    for x in q:
        ns = r.choice(["", "", "K."])
        x = dict(x, l=sorted(x["l"]), r=sorted(x["r"]), ns=ns, offers=None)
        lit = {"zero", "one", "sa", "sz"}
        a, da, la = written(x["l"], ns, r, len(x["l"]) == 1 and set(x["l"]) <= lit and r.random() < .6)
        z, dz, lz = written(x["r"], ns, r, len(x["r"]) == 1 and set(x["r"]) <= lit and r.random() < .6)
        k = r.random()
        if k < .15:
            body = r.choice(["", " break;", " { f(); }"])
            pre = r.choice(["", "default: ", "case null: "])
            code = "%s%sswitch (%s) { %s%s }" % (da, dz, a, pre if pre != "case null: " or not {"null", "unknown", "any"} & set(x["l"]) else "", "\x01case %s:%s\x02" % (z, body))
            id, offers = "mismatchedCase", None
            bad = x["bad"]
        elif k < .22:
            op = r.choice(["+", "&&", "||", "??", "|", ",", "instanceof", "in"])
            code, bad, offers, id = "%s%s(%s %s %s);" % (da, dz, a, op, z), False, None, ""
        else:
            op = r.choice(["<", "<=", ">", ">=", "==", "===", "!=", "!=="])
            e = "%s %s %s" % (a, op, z)
            code = da + dz + r.choice(["if (%s) {}", "const q = %s;", "while (!(%s)) break;", "(%s);", "f(() => %s);", "%s && f();"]) % ("\x01" + e + "\x02" if x["bad"] else e)
            id, bad = "mismatchedCondition", x["bad"]
            offers = (lz, sorted(x["offr"]), la, sorted(x["offl"]), a, op, z)
        if not bad:
            code = code.replace("\x01", "").replace("\x02", "")
        x["offers"] = offers
        B.add("no-unsafe-enum-comparison", None, code, [(0, id)] if bad else [], x)

    def compare(m, code, x):
        got = m.get("suggestions") or []
        if x["offers"] is None:
            return "suggestions on a case" if got else None
        lz, offr, la, offl, a, op, z = x["offers"]
        e = "%s %s %s" % (a, op, z)
        ok = ["%s %s %s%s" % (a, op, x["ns"], OFFER[o]) for o in offr] if lz and offr else ["%s%s %s %s" % (x["ns"], OFFER[o], op, z) for o in offl] if la and offl else []
        if not ok:
            return "an enum value is offered though no literal stands for one: %s" % canon(got)[:300] if got else None
        if not got and x["ns"]:
            return None  # a name that has to be qualified may be left to the user
        if len(got) != 1 or got[0]["message"]["id"] != "replaceValueWithEnum":
            return "expected one suggestion, got %s" % canon(got)[:300]
        for f in got[0]["fixes"]:
            t = code[:f["range"]["pos"]] + f["text"] + code[f["range"]["end"]:]
            if not any(code.replace(e, o) == t for o in ok):
                return "the suggestion gives %r, not one of %s" % (t, ok)
        c.stats["suggestions"] = c.stats.get("suggestions", 0) + 1
    B.run(compare)


main("C33", body)
