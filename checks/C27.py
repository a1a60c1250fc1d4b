"""C27: duplicate and redundant members of unions and intersections.  Constituents.tla's types against the two rules; the fixes are applied."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch, strip, edit

NOTE = """All unions and intersections of up to 4 plain members (5 in thorough runs), and random ones of up to 6 members with nested ones of the same kind; every fix offered is applied (one by one and all together) and the members left are compared in order."""
PRE = "interface A1 { x: 1 }\ntype A2 = A1;\ninterface B { y: 1 }\ninterface C { z: 1 }\ntype F = () => void;\n"
TEXT = dict(a="'a'", b="'b'", one="1", two="2", string="string", number="number", undefined="undefined", A1="A1", A2="A2", arr="string[]", F="F", any="any", unknown="unknown", never="never", true="true", false="false", boolean="boolean", bigone="1n", bigint="bigint", B="B", C="C")
OTHER = {"'a'": '"a"', "string[]": "Array<string>"}


def plain(m):
    return dict(xs=[plain(x) for x in m["xs"]]) if m["xs"] else m["a"]


def leaves(text):
    """the members of a type text, in order; None if it is not well formed"""
    toks = re.findall(r"\s+|'[^']*'|\"[^\"]*\"|[\w<>\[\]]+|.", text)
    toks = [t for t in toks if not t.isspace()]
    pos = 0

    def union(depth):
        nonlocal pos
        out = []
        if toks[pos:pos + 1] and toks[pos] in "|&":
            pos += 1
        while True:
            if pos >= len(toks):
                return None
            if toks[pos] == "(":
                pos += 1
                x = union(depth + 1)
                if x is None or toks[pos:pos + 1] != [")"]:
                    return None
                pos += 1
                out += x
            elif toks[pos] in ("|", "&", ")"):
                return None
            else:
                out.append(toks[pos])
                pos += 1
            if toks[pos:pos + 1] and toks[pos] in "|&":
                pos += 1
                continue
            return out
    x = union(0)
    return x if pos == len(toks) else None


def write(m, op, at, rng, path=()):
    sep = rng.choice([" | ", "|", "\n  | "]) if op == "union" else rng.choice([" & ", "&"])
    if isinstance(m, str):
        t = TEXT[m]
        if rng.random() < .2:
            t = OTHER.get(t, t)
        if rng.random() < .06:
            t = "(%s)" % t
    else:
        t = "(%s)" % sep.join(write(x, op, at, rng, path + (i + 1,)) for i, x in enumerate(m["xs"]))
        if rng.random() < .08:
            t = "(%s)" % t
    return "\x01" * at.count(path) + t + "\x02" * at.count(path)


def kept(ms, gone, path=()):
    out = []
    for i, m in enumerate(ms):
        p = path + (i + 1,)
        if p not in gone:
            out += [TEXT[m]] if isinstance(m, str) else kept(m["xs"], gone, p)
    return out


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Rule = \"%s\"\n Length = %d\n Walks = %d\nINVARIANTS First Flatly Order Emit\nPROPERTY Grows\n"
    for rule, name in (("dup", "no-duplicate-type-constituents"), ("red", "no-redundant-type-constituents")):
        _, q = c.tlc("Constituents", cfg % (rule, (5 if c.thorough else 4) if rule == "dup" else 3, 1))
        _, q2 = c.tlc("Constituents", cfg % (rule, 6, 8000 if c.thorough else 1000), args=["-seed", str(c.seed)], workers=1)
        if not c.thorough:
            q = c.rng.sample(sorted(q, key=canon), min(8000, len(q)))
        B = Batch(c, b, rule, PRE, per=1000)
        codes = set()
        for x in sorted(q, key=canon) + q2:
            x["ms"] = [plain(m) for m in x["ms"]]
            sep = c.rng.choice([" | ", " |\n    "]) if x["op"] == "union" else " & "
            opts = None
            if rule == "dup":
                at = [tuple(r["at"]) for r in x["r"]]
                gone = {tuple(r["at"]) for r in x["r"] if r["fix"]}
                off = c.rng.random()
                if off < .1:
                    opts = {"ignoreUnions": True, "ignoreIntersections": c.rng.random() < .5}
                elif off < .2:
                    opts = {"ignoreIntersections": True}
                if opts and opts.get("ignoreUnions" if x["op"] == "union" else "ignoreIntersections"):
                    at, gone = [], set()
                ids = [(i, "duplicate") for i in range(len(at))]
            else:
                rs = sorted(x["r"], key=lambda r: r["at"])
                at, gone = [(r["at"],) for r in rs], set()
                ids = [(i, r["m"].split(":")[0]) for i, r in enumerate(rs)]
            lead = c.rng.choice(["", "| ", ""]) if x["op"] == "union" else ""
            t = lead + sep.join(write(m, x["op"], at, c.rng, (i + 1,)) for i, m in enumerate(x["ms"]))
            if rule == "red":
                # a nested union is looked at for itself, too: only what is said of the outer one is compared
                nested = any(not isinstance(m, str) for m in x["ms"])
                if nested and x["op"] == "inter" and any(len(set(m["xs"])) < 2 for m in x["ms"] if not isinstance(m, str)):
                    continue
                if nested:
                    # through aliases instead of in parentheses
                    al, ts = "", []
                    for i, m in enumerate(x["ms"]):
                        k = "\x01" * at.count((i + 1,)), "\x02" * at.count((i + 1,))
                        if isinstance(m, str):
                            ts.append(k[0] + TEXT[m] + k[1])
                        else:
                            al += "type U%d = %s;\n" % (i, " | ".join(sorted({TEXT[a] for a in m["xs"]})))
                            ts.append(k[0] + "U%d" % i + k[1])
                    # what the aliases themselves are reported for goes elsewhere
                    import itertools
                    # (an alias of boolean itself is neither a primitive nor two literals to the rule, as upstream: not specified)
                    if any(alias_red(m["xs"]) or set(m["xs"]) <= {"true", "false", "boolean", "never"} for m in x["ms"] if not isinstance(m, str)):
                        continue
                    t = sep.join(ts)
                    B.add(name, None, al + "type T = %s;\n" % t, ids, (x, None))
                    continue
            if rule == "red" and x["op"] == "union" and c.rng.random() < .15:
                # a return type may hold a never
                keep = [i for i, r in enumerate(rs) if r["m"] != "overridden"]
                at = [at[i] for i in keep]
                t = lead + sep.join(write(m, x["op"], at, c.rng, (i + 1,)) for i, m in enumerate(x["ms"]))
                code = c.rng.choice(["declare function f(): %s;\n", "type T = { m(): %s };\n", "declare function f(): (%s);\n"]) % t
                if strip(code)[0] not in codes:
                    codes.add(strip(code)[0])
                    B.add(name, opts, code, [(n, ids[i][1]) for n, i in enumerate(keep)], (x, gone))
                continue
            code = c.rng.choice(["type T = %s;\n", "declare const v: %s;\n", "declare function f(p: %s): void;\n", "class K<P extends %s> {}\n"]) % t
            if strip(code)[0] in codes:
                continue
            codes.add(strip(code)[0])
            B.add(name, opts, code, ids, (x, gone))
        if rule == "dup":
            run_with_fixes(c, B)
        else:
            B.run()


def alias_red(xs):
    s = set(xs)
    lits = {"a": "string", "b": "string", "one": "number", "two": "number", "true": "boolean", "false": "boolean", "bigone": "bigint"}
    return len(s) > 1 and (s & {"any", "unknown", "never"} or any(lits.get(a) in s for a in s))


def run_with_fixes(c, B):
    texts = {}

    def compare(m, code, data):
        key = code
        texts.setdefault(key, []).append(m)
        return None
    B.run(compare)
    want = {}
    for rule, o, code, ids, data, after in B.cases:
        want.setdefault(strip(code)[0], data)
    for code, ms in texts.items():
        x, gone = want[code]
        body = lambda t: re.search(r"(?s)(?:type T = |const v: |\(p: |P extends )(.*?)(?:;\n$|\): void;\n$|> \{\}\n$)", t).group(1)
        norm = lambda ls: None if ls is None else [{'"a"': "'a'", "Array<string>": "string[]"}.get(l, l) for l in ls]
        c.count("types fixed")
        with_fix = [m for m in ms if m.get("fixes")]
        if len(with_fix) != len(gone):
            c.violation("no-duplicate-type-constituents on %r: %d of %d reports carry a fix, expected %d" % (code, len(with_fix), len(ms), len(gone)), dict(code=code, got=ms, case=x))
            continue
        if not with_fix:
            continue
        got = norm(leaves(body(edit(code, [e for m in with_fix for e in m["fixes"]]))))
        if got != kept(x["ms"], gone):
            c.violation("no-duplicate-type-constituents on %r: the fixes give %r, members %s expected" % (code, edit(code, [e for m in with_fix for e in m["fixes"]]), kept(x["ms"], gone)), dict(code=code, got=ms, case=x))


main("C27", body)
