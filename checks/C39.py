"""C39: conditions decided by types.  Decided.tla's conditions are linted by no-unnecessary-condition; reports are compared exactly."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch

NOTE = """Values of one or two of sixteen kinds, any, unknown, never and type parameters in conditions of seven places with up to two negations, pairs under && and ||, loops in three modes, ??, ??=, ||=, &&=, comparisons with six constants, predicates of array methods, type guards, elements of arrays and tuples, optional chains of up to two (thorough: three) links."""
RULE = "no-unnecessary-condition"
TYPE = dict(string="string", emptyS="''", aS="'a'", number="number", zero="0", one="1", bigint="bigint", zeroB="0n", oneB="1n", true="true", false="false", object="Ob", function="(() => void)", symbol="symbol", null="null", undefined="undefined", any="any", unknown="unknown", never="never", param="T")
CONST = dict(null=["null"], undefined=["undefined"], one=["1", "1.0"], aS=["'a'", '"a"'], true=["true"], zeroB=["0n"], zero=["0"], false=["false"])
ID = dict(truthy="alwaysTruthy", falsy="alwaysFalsy", never="never", nullish="alwaysNullish", nonnull="neverNullish", literals="comparisonBetweenLiteralTypes", overlap="noOverlapBooleanExpression", unneeded="neverOptionalChain", guard="typeGuardAlreadyIsType")


def typ(t, r):
    t = sorted(t)
    r.shuffle(t)
    if sorted(t) == ["false", "true"] and r.random() < .6:
        return "boolean"
    return " | ".join(TYPE[x] for x in t)


class Text:
    """builds code with marks in order of their starts"""
    def __init__(self):
        self.ids = []

    def mark(self, what, e):
        if what == "open":
            return e
        self.ids.append(ID[what])
        return "\x01%s\x02" % e


def neg(n, e, r):
    for _ in range(n):
        e = "!" + (e if r.random() < .8 else "(%s)" % e)
    return e


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    r = c.rng
    _, q = c.tlc("Decided", "SPECIFICATION Spec\nCONSTANTS\n Links = %d\nINVARIANTS ChainSound CompareSound Emit\n" % (3 if c.thorough else 2))
    q = sorted(q, key=canon)
    keep = 1 if c.thorough else .5
    S = Batch(c, b, "decided", "declare const no: unknown;\ninterface Ob { p: string }\n", per=500)
    for x in q:
        if x["family"] in ("pair", "compare", "cond", "pred", "guard") and r.random() > keep:
            continue
        T, f, rep = Text(), x["form"], x["rep"]
        v = r.choice(["x", "x", "o.x", "x"])
        w = r.choice(["y", "o.y"])
        fam = x["family"]
        opts = None
        if fam in ("cond", "loop"):
            e = v
            if fam == "loop":
                if f["literal"]:
                    e = r.choice(CONST[x["type"][0]])
                opts = dict(allowConstantLoopConditions={"never": r.choice(["never", False]), "always": r.choice(["always", True]), "literals": "only-allowed-literals"}[f["mode"]])
            e = neg(f["negs"], e, r)
            if r.random() < .15:
                e = "(%s)" % e
            e = T.mark(rep[0], e) if rep else e
            p = f["place"]
        elif fam == "pair":
            # in the order of the text: the left operand is judged by the operator, the right one by the place
            l = T.mark(rep[0], neg(f["left"], v, r))
            g = T.mark(rep[1], neg(f["right"], w, r))
            e = "%s %s %s" % (l, "&&" if f["op"] == "and" else "||", g)
            e = "!" * f["negs"] + ("(%s)" % e if f["negs"] or r.random() < .3 else e)
            p = f["place"]
        elif fam == "nullish":
            op = dict(coalesce="??", assign="??=", orassign="||=", andassign="&&=")[f["place"]]
            t = "const z = %s %s %s;" % (T.mark(rep[0], v), op, r.choice(["y", "f()", "null!"]))
            p = None
        elif fam == "compare":
            k = r.choice(CONST[x["other"][0]])
            l, g = (k, v) if f["swapped"] else (v, k)
            t = "const z = %s %s %s;" % (l, T.mark(rep[0], f["place"]), g)
            if f["place"] == "===" and rep[0] != "open" and r.random() < .3:
                T = Text()
                t = "switch (%s) { case %s: f(); }" % (v, T.mark(rep[0], k))
            p = None
        elif fam == "pred":
            p = None
            call = "const z = (null! as %s).%s(%%s);" % (r.choice(["string[]", "readonly number[]", "[1, 2]", "Array<unknown>"]), f["method"])
            if f["place"] == "name":
                h = r.choice(["h", "w.h", "h"])
                if rep[0] != "open":
                    T.ids.append(ID[rep[0]] + "Func")
                    h = "\x01%s\x02" % h
                t = "const h = (q: unknown) => x; const w = { h }; " + call % h
            elif f["place"] == "arrow":
                t = call % (r.choice(["() => ", "q => ", "(q, i) => "]) + T.mark(rep[0], "x"))
            else:
                t = call % (r.choice(["() => ", "function (q) ", "function () "]) + T.mark(rep[0], "{ return x; }"))
        elif fam == "guard":
            p = None
            a = T.mark(rep[0], v)
            args = ["p0: unknown", "p1: unknown"][:f["arg"]]
            n = "p%d" % (f["arg"] - 1)
            res = {"is": "%s is %s" % (n, typ(x["other"], r)), "asserts": "asserts %s is %s" % (n, typ(x["other"], r)), "plain": "asserts %s" % n}[f["place"]]
            opts = dict(checkTypePredicates=True) if f["on"] else r.choice([None, dict(checkTypePredicates=False)])
            t = "function is(%s): %s { throw 0; } %sis(%s);" % (", ".join(args), res, "const z = " if f["place"] == "is" else "", ", ".join(["no"] * (f["arg"] - 1) + [a]))
        elif fam == "elem":
            p = None
            ty = dict(array="E[]", readonly="readonly E[]", generic="Array<E>", first="[E, E]", second="readonly [string, E]", index="[E, E]")[f["base"]]
            i = dict(first="0", second="1", index="i").get(f["base"]) or r.choice(["0", "i", "i + 1"])
            e = "%s[%s]" % (r.choice(["e", "e", "(e)"]), i)
            if f["place"] == "cond":
                e = neg(r.randrange(3), "\x00", r)
                T.ids = [ID["falsy" if e.count("!") % 2 else "truthy"]] if rep[0] != "open" else []
                e = e.replace("\x00", "e[%s]" % i)
                t = r.choice(["if (%s) f();", "const z = %s ? 1 : 2;", "while (%s) f();"]) % (e if rep[0] == "open" else "\x01%s\x02" % e)
            elif f["place"] == "coalesce":
                t = "const z = %s ?? no;" % T.mark(rep[0], e)
            else:
                t = "const z = %s%sp;" % (e, T.mark(rep[0], "?."))
            S.add(RULE, None, "interface E { p: string } function g(e: %s, i: number, f: () => any) { %s }" % (ty, t), [(j, k) for j, k in enumerate(T.ids)], x)
            continue
        else:
            if any(not m["opt"] and (f["nullable"] if i == 0 else x["chain"][i - 1]["nullable"]) for i, m in enumerate(x["chain"])):
                continue
            # the rule takes elements in front of ?. for possibly missing
            if any(d == "unneeded" and any(m["link"] == "elem" for m in x["chain"][:i]) for i, d in enumerate(rep)):
                continue
            nul = lambda: r.choice([" | null", " | undefined", " | null | undefined"])
            ty = "string"
            e = "x"
            for m in reversed(x["chain"]):
                ty = "(%s%s)" % (ty, nul() if m["nullable"] else "")
                ty = {"prop": "{ p: %s }", "elem": "{ 'q': %s }", "call": "(() => %s)"}[m["link"]] % ty
            ty += nul() if f["nullable"] else ""
            for m, d in zip(x["chain"], rep):
                dot = T.mark(d, "?.") if m["opt"] else ""
                e += dict(prop=(dot or ".") + "p", elem=dot + "['q']", call=dot + "()")[m["link"]]
            S.add(RULE, None, "function g(x: %s) { return %s; }" % (ty, e), [(i, k) for i, k in enumerate(T.ids)], x)
            continue
        if p:
            t = {"if": "if (%s) { f(); }", "cond": "const z = %s ? 1 : 2;", "while": "while (%s) { f(); }", "do": "do { f(); } while (%s);", "for": "for (;%s;) { f(); }", "or": "const z = %s || no;", "and": "const z = %s && no;"}[p] % e
        gen = "T" if "param" in x["type"] or "param" in x["other"] else ""
        ty, to = typ(x["type"], r), typ(x["other"], r)
        if not gen and x["type"] != ["never"] and not {"any", "unknown"} & set(x["type"]) and r.random() < .15:
            gen = "T extends " + ty
            ty = "T"
        S.add(RULE, opts, "function g%s(x: %s, y: %s, o: { x: %s; y: %s }, f: () => any) { %s }" % ("<%s>" % gen if gen else "", ty, to, ty, to, t), [(i, k) for i, k in enumerate(T.ids)], x)
    S.run()


if __name__ == "__main__":
    main("C39", body)
