"""C30: errors.  Thrown.tla's expressions, thrown and rejected with, against only-throw-error and prefer-promise-reject-errors."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch, strip

NOTE = """All expressions of up to 1 step with every binder and option, random ones of up to 6 steps; each type is written in one of several ways."""
PRE = """class SubError extends Error { code = 1; own = 2 }
class SubSub extends SubError { }
interface ErrorIface extends Error { extra: 1 }
class Fake { name = ''; message = '' }
namespace Own { export class Error { name = ''; message = ''; stack?: string } export class Promise<T> { static reject(x: unknown): void { } constructor(f: (a: () => void, b: (x: unknown) => void) => void) { } value?: T } }
class Allowed { allowed = 1 }
class MyPromise<T> extends Promise<T> { }
declare function c(): boolean;
declare function mk<X>(): X;
declare let v: any;
declare const fs: [() => number], prom: Promise<number>, non: { catch(f: (e: any) => void): void; then(f: unknown, g: (e: any) => void): void };
"""
WRAP = "namespace N%d {\nfunction outer<T, TE extends Error, TS extends SubError>(t: T, te: TE, ts: TS) {\n%s\n}}\n"
VALUES = dict(E=["new Error()", "Error('x')", "new TypeError()", "new SubError()", "new SubSub()", "te", "ts", "mk<Error | TypeError>()", "mk<ErrorIface>()", "mk<Error & { code: 1 }>()", "mk<AggregateError>()", "new DOMExceptionLike()"],
              R=["mk<Readonly<Error>>()", "mk<Readonly<SubError>>()", "mk<Readonly<Error> | Readonly<TypeError>>()", "mk<Readonly<Readonly<Error>>>()"],
              S=["mk<string>()", "mk<number>()"], O=["mk<Own.Error>()", "new Fake()", "{ message: '' }", "() => new Error()", "Error", "[new Error()]", "mk<Promise<Error>>()", "mk<Partial<Error>>()", "Symbol()"], U=["undefined", "void 0", "mk<undefined>()"], A=["v", "mk<any>()", "v.x"], K=["mk<unknown>()"], L=["new Allowed()", "mk<Allowed>()"])
# where nothing is asked of truth, everything that is not an error will do
OBJECTS = ["t", "mk<Error | string>()", "'s'", "1", "null", "`x`", "mk<null>()", "mk<Error | null>()", "true", "mk<boolean>()"]
CAST = dict(E=["Error", "SubError"], A=["any"], S=["string", "Error | string"], O=["Own.Error", "string[]"])
PREC = dict(comma=0, assign=1, cond=2, qq=3, **{"or": 3, "and": 4}, cast=6)


class Writer:
    def __init__(self, rng, name):
        self.r, self.name, self.bound = rng, name, False

    def expr(self, q, least=0, truth=False, mixes=()):
        r, k = self.r, q["k"]
        if k == "leaf":
            t = r.choice(VALUES[q["t"]])
            if q["t"] == "S" and not truth and r.random() < .6:
                t = r.choice(OBJECTS)
            if q["t"] == "O":
                if t[0] in "({" and (least > 1 or t[0] == "{"):
                    t = "(%s)" % t
            return t.replace("new DOMExceptionLike()", "new RangeError()")
        if k == "bound":
            return self.name
        x = lambda *a, **b: self.expr(q["x"][0], *a, **b)
        y = lambda *a, **b: self.expr(q["y"][0], *a, **b)
        if k == "paren":
            return "(%s)" % x(0, truth)
        if k == "assign":
            t = "v = %s" % x(1, truth)
        elif k == "cast":
            if truth:
                t = "%s as %s" % (self.cast(x), {"S": "string", "O": "Own.Error"}[q["t"]] if q["t"] in "SO" else self.r.choice(CAST[q["t"]]))
            else:
                t = r.choice(["%s as " + r.choice(CAST[q["t"]])]) % self.cast(x)
        elif k == "comma":
            t = "%s, %s" % (x(1), y(1, truth))
        elif k == "cond":
            t = "c() ? %s : %s" % (x(2, truth), y(2, truth))
        else:
            m = ("or", "and") if k == "qq" else ("qq",)
            t = "%s %s %s" % (x(PREC[k], True, m), {"or": "||", "qq": "??", "and": "&&"}[k], y(PREC[k] + 1, truth, m))
        return "(%s)" % t if PREC[k] < least or k in mixes else t

    def cast(self, x):
        return "(%s as any)" % x(7)


def statement(x, r, text):
    """the statement in the place that binds the name"""
    b = x["bind"]
    t = None
    for q in walk(x["e"]):
        if q["k"] == "bound":
            t = q["t"]
    ann = {None: "any", "A": "any", "K": "unknown", "S": "string", "E": "Error", "O": "any"}[t]
    inner = text
    if r.random() < .2:
        inner = r.choice(["if (c()) { %s }", "v(() => { %s });", "(function () { %s })();", "try { %s } finally { }", "for (;;) { %s }"]) % text
    if b == "none":
        return inner
    if b == "catch":
        return "try { v(); } catch (%s) { %s }" % (r.choice(["bb: " + ann] + (["bb"] if ann == "unknown" or t is None else [])), inner)
    arrow = r.choice(["(bb: %s) => { %s }", "((bb: %s) => { %s })", "async (bb: %s) => { %s }", "(bb: %s, more?: any) => { %s }"]) % (ann, inner)
    call = lambda o, m: r.choice(["%s.%s", "%s['%s']", "(%s.%s)", "%s?.%s", "(%s)['%s']"]) % (o, m)
    P = r.choice(["prom", "mk<Promise<string>>()", "Promise.resolve(1)", "prom.then(fs[0])", "mk<Promise<string> | number>()" if False else "prom"])
    if b == "handler":
        return "%s(%s);" % (call(P, "catch"), arrow)
    if b == "thenhandler":
        return "%s(%s, %s);" % (call(P, "then"), r.choice(["null", "undefined", "() => 1", "fs[0]"]), arrow)
    if b == "function":
        return "%s(function (bb: %s) { %s });" % (call(P, "catch"), ann, inner)
    if b == "then":
        return r.choice(["%s(%s);" % (call(P, "then"), arrow), "%s(%s);" % (call(P, "finally"), arrow), "v.catch(%s);" % arrow, "v(%s);" % arrow, "const h = %s; prom.catch(h);" % arrow, "%s(null, %s);" % (call(P, "catch"), arrow), "new v.catch(%s);" % arrow])
    if b == "spread":
        return "prom.then(...fs, %s);" % arrow
    if b == "notpromise":
        return r.choice(["non.catch(%s);", "non.then(null, %s);"]) % arrow
    if b == "second":
        return "%s((aa, bb: %s) => { %s });" % (call("v", "catch"), ann, inner) if False else "(prom as any as { then: Promise<number>['then'] & ((f: any, g: (a: any, b: any) => void) => void) }).then(1, (aa: any, bb: %s) => { %s });" % (ann, inner)
    if b == "rest":
        return "prom.catch((...bb: any[]) => { %s });" % inner
    return "try { v(); } catch (b2: any) { const bb: %s = b2; %s }" % (ann, inner)


def walk(q):
    yield q
    for s in q["x"] + q["y"]:
        yield from walk(s)


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Depth = %d\n Walks = %d\nINVARIANTS Monotone Strict Emit\n"
    _, q = c.tlc("Thrown", cfg % (1, 1))
    _, q2 = c.tlc("Thrown", cfg % (6, 20000 if c.thorough else 3000), args=["-seed", str(c.seed)], workers=1)
    q = sorted(q, key=canon)
    if len(q) > 12000:
        q = c.rng.sample(q, 60000 if c.thorough and len(q) > 60000 else len(q) if c.thorough else 12000)
    r = c.rng
    T = Batch(c, b, "throw", PRE, dict(lib=["esnext"]), per=500, wrap=WRAP)
    seen = set()
    for x in q + q2:
        o = x["opt"]
        opts = {}
        for k, n in (("any", "allowThrowingAny"), ("unknown", "allowThrowingUnknown"), ("rethrow", "allowRethrowing")):
            if not o[k] or r.random() < .3:
                opts[n] = o[k]
        if o["allow"]:
            opts["allow"] = [r.choice(["Allowed", dict(name=["Other", "Allowed"], **{"from": "file"})])]
        w = Writer(r, "bb")
        t = w.expr(x["e"])
        hit = {"none": ("", "", "", ""), "undef": ("\x01", "", "", "\x02"), "object": ("", "\x01", "\x02", "")}[x["throw"]]
        code = statement(x, r, hit[0] + "throw " + hit[1] + t + hit[2] + ";" + hit[3])
        if (code, canon(opts)) in seen:
            continue
        seen.add((code, canon(opts)))
        T.add("only-throw-error", opts or None, code, [] if x["throw"] == "none" else [(0, x["throw"])], x)
    T.run()
    R = Batch(c, b, "reject", PRE, dict(lib=["esnext"]), per=500, wrap=WRAP)
    for x in q + q2:
        o = x["opt"]
        if "R" in x["t"] and len(x["t"]) > 1:
            continue    # errors beside read-only errors: not specified
        opts = {}
        for k, n in (("any", "allowThrowingAny"), ("unknown", "allowThrowingUnknown")):
            if o[k] or r.random() < .3:
                opts[n] = o[k]
        if o["allow"]:
            opts["allow"] = [r.choice(["Allowed", dict(name=["Other", "Allowed"], **{"from": "file"})])]
        empty = r.random() < .1
        want = x["reject"]
        t = Writer(r, "bb").expr(x["e"], 1)
        if empty:
            t = ""
            opts["allowEmptyReject"] = o["rethrow"]
            want = "none" if o["rethrow"] else "reject"
        elif r.random() < .1:
            t += ", 1"
        kind = r.choice(["static", "static", "executor", "executor", "neither"])
        M = ("\x01", "\x02") if want == "reject" and kind != "neither" else ("", "")
        if kind == "static":
            s = M[0] + r.choice(["Promise.reject", "Promise['reject']", "(Promise.reject)", "Promise?.reject", "(Promise).reject", "MyPromise.reject", "globalThis.Promise.reject", "Promise.reject<number>"]) + "(%s)" % t + M[1] + ";"
        elif kind == "executor":
            call = M[0] + r.choice(["rej", "rej", "(rej)", "rej?."]) + "(%s)" % t + M[1]
            s = r.choice(["new Promise<void>((res, rej) => { %s; });", "new Promise<void>((res, rej) => %s);", "new Promise<void>(function (res, rej) { %s; });", "new Promise<void>(((res, rej) => { %s; }));", "new Promise<void>(async (res, rej) => { await 1; %s; });",
                          "new MyPromise<void>((res, rej) => { %s; });" if False else "new Promise<void>(function named(res, rej) { v(() => { %s; }); });", "new (Promise)<void>((res, rej) => { if (c()) { %s; } });", "v = new Promise<void>((res, rej, ...more) => { %s; });" if False else "v = new Promise<void>((_, rej) => { %s; });"]) % call
        else:
            s = r.choice(["Own.Promise.reject(%s);", "v.reject(%s);", "Promise.resolve(mk<any>(), %s);" if t else "Promise.resolve(%s);", "new Own.Promise((res, rej) => { rej(%s); });", "new Promise<void>((rej, res) => { rej(%s); });" if t else "v(%s);", "new Promise<void>((res, rej) => { { const rej: any = v; rej(%s); } });", "function f(res: any, rej: any) { rej(%s); }", "v((res: any, rej: any) => { rej(%s); });", "new Promise<void>((res, rej) => { v((rej: any) => { rej(%s); }); });"]) % t
        code = statement(x, r, s)
        R.add("prefer-promise-reject-errors", opts or None, code, [(0, "rejectAnError")] if M[0] else [], x)
    R.run()


if __name__ == "__main__":
    main("C30", body)
