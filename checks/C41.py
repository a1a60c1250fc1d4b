"""C41: expressions that give nothing.  VoidExpr.tla's expressions are linted by no-confusing-void-expression and no-meaningless-void-operator; every edit is run by node."""
import sys, os, re, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch, strip

NOTE = """Seven kinds of calls under up to two (thorough: three) of eight wrappers in seven kinds of places (some ninety spellings), all options; quick runs draw from the combinations."""
DECL = """declare let r: any, k: boolean, g: any;
declare function log(...a: unknown[]): void;
declare function log2(): void; declare function log3(): void;
declare function und(...a: unknown[]): undefined; declare function und2(): undefined;
declare function fail(): never; declare function anyf(): any; declare function num(): number; declare function mix(): number | void; declare function prom(): Promise<void>;
declare function id<T>(x: T): T; declare function take(f: () => void): void; declare function takeU(f: () => unknown): void; declare function takeM(f: (() => void) | (() => number)): void;
declare const o: { log(): void; und(): undefined; q: any };
declare class K { constructor(x?: unknown); log(): void }
type V = void; type F = () => void; type U = undefined;
"""
CORE = dict(void=["log()"] * 5 + ["(log)()", "[log][0]()", "o.log()", "o['log']()", "log`t`", "log``", "(0, log)()", "(() => { log(); })()", "new K().log()", "(function () { log(); })()", "log(1, 2)", "(log as F)()", "log!()", "log?.()"],
            undefined=["und()", "und()", "o.und()", "und``", "(und)()", "[und][0]()"], never=["fail()", "(fail)()"], any=["anyf()"], number=["num()", "(num)()"], mixed=["mix()"], promise=["prom()", "(prom)()"])
# not at the beginning of a statement
CORE2 = ["function () { log(); }()", "class { static m() { log(); } }.m()", "function h() { log(); }()"]
BOOL = ["x", "x", "x", "!!x", "(x)", "[x][0]", "/t/.test(String(x))", "+x > 0", "`${x}` === 'true'", "id(x)", "-x < 0"]
BOOL2 = ["function () { return x; }()"]
ARROW = {True: ["const f = (): void =>@; r = (f as any)();", "const f = (): number | void =>@; r = (f as any)();", "const f: F =@() =>@; r = (f as any)();", "take(g = (): V =>@); r = g();", "const f = (() =>@) as F; r = (f as any)();", "const f: { m: () => void } = { m: () =>@ }; r = (f as any).m();", "const f: [() => void] = [() =>@]; r = (f as any)[0]();",
                "const f: F | (() => number) = () =>@; r = (f as any)();", "const f: (() => number | void) | string = () =>@; r = (f as any)();", "const f = { m: (): V =>@ }; r = (f as any).m();", "class C { m: F = () =>@ } r = (new C() as any).m();", "const f: F = (k ? () =>@ : () => {}); r = (f as any)();"],
         False: ["const f = () =>@; r = (f as any)();", "const f = () =>@; r = (f as any)();", "const f = (): any =>@; r = (f as any)();", "const f = (): unknown =>@; r = (f as any)();", "const f: () => unknown = () =>@; r = (f as any)();", "const f = (): U =>@; r = (f as any)();", "const f: F = (): any =>@; r = (f as any)();", "r = ((() =>@) as any)();",
                 "const f = { m: () =>@ }; r = (f as any).m();", "class C { m = () =>@ } r = (new C() as any).m();", "const f: any = () =>@; r = (f as any)();", "const f: () => () => void = () => (): any =>@; r = (f as any)()();"]}
AARROW = {True: ["const f: F = async () =>@; r = await (f as any)();"], False: ["const f = async () =>@; r = await (f as any)();", "const f = async (): Promise<void> =>@; r = await (f as any)();", "const f: () => Promise<void> = async () =>@; r = await (f as any)();", "const f: F = async (): Promise<any> =>@; r = await (f as any)();"]}
FN = {True: ["function f(): void { @ } r = (f as any)();", "function f(): number | V { @ } r = (f as any)();", "const f = function (): void { @ }; r = (f as any)();", "const f: F = function () { @ }; r = (f as any)();", "const f = (): void => { @ }; r = (f as any)();", "const f: F = () => { @ }; r = (f as any)();", "class C { m(): void { @ } } r = (new C() as any).m();", "class C { static m(): V { @ } } r = (C as any).m();", "const f = { m(): void { @ } }; r = (f as any).m();", "class C { get p(): void { @ } } r = (new C() as any).p;", "function f(): any { const h: F = () => { @ }; return h; } r = (f as any)()();", "const f: { m: F } = { m: function () { @ } }; r = (f as any).m();"],
      False: ["function f() { @ } r = (f as any)();", "function f() { @ } r = (f as any)();", "const f = function () { @ }; r = (f as any)();", "const f = () => { @ }; r = (f as any)();", "function f(): any { @ } r = (f as any)();", "class C { m() { @ } } r = (new C() as any).m();", "class C { static m() { @ } } r = (C as any).m();", "const f = { m() { @ } }; r = (f as any).m();", "const f: { m(): void } = { m() { @ } }; r = (f as any).m();", "class C { get p() { @ } } r = (new C() as any).p;", "function* f() { @ } r = (f as any)().next().value;", "const f: F = (): any => { @ }; r = (f as any)();", "function f(): F { function h(): any { @ } return h; } r = (f as any)()();", "r = ((function () { @ }) as any)();", "class C { #m() { @ } n() { return (this.#m as any)(); } } r = (new C() as any).n();"]}
AFN = {True: ["const f: F = async () => { @ }; r = await (f as any)();", "const f: F = async function () { @ }; r = await (f as any)();"], False: ["async function f() { @ } r = await (f as any)();", "async function f(): Promise<void> { @ } r = await (f as any)();", "const f = async () => { @ }; r = await (f as any)();", "class C { async m() { @ } } r = await (new C() as any).m();"]}
PLACE = ["{ @ }", "@ log3();", "if (k) @", "if (k) @ else log3();", "if (!k) log3(); else @", "switch (1 as number) { case 1: @ }", "switch (1 as number) { default: { @ } }", "try { @ } finally { log3(); }", "L: @", "for (;;) @", "do @ while (k);", "while (k) { @ }", "try { throw 1; } catch { @ }", "if (k) { log3(); @ }", "if (k) { @ } log3();"]
BEFORE = ["", "", "", "log3();", "g = 1\n", "g = num\n", "g = [num]\n", "log3()\n", "g = function () {}\n", "if (k) {}\n"]
# places of a value; * : an operand that needs no parentheses
OTHER = ["r = @;", "r = [@];", "r = { p: @ };", "r = String(@);", "r = `a${@}b`;", "r = !*;", "r = typeof *;", "if (@) { r = 1; } else { r = 2; }", "while (@) { break; }", "r = * && 3;", "r = * || 3;", "r = (*) ?? 3;", "r = * ? 3 : 4;", "r = (3, @);", "for (@; false;) {}", "r = id<any>(@);", "r = [...[@]];", "r = * === undefined;", "r = undefined == *;", "switch (@) { case undefined: r = 1; }", "r = { [String(@)]: 1 };", "r = (((a = @) => a) as any)();", "r = new (class { p = @ })().p;", "r = * as any;", "r = * satisfies unknown;", "o.q = @; r = o.q;", "throw @;", "r = -*;", "const [a = @] = [] as any; r = a;", "r ??= @;", "r = k ? [@] : 1;", "for (; @;) { break; }", "r = `${@}`;", "new K(@);", "r = String(@, 2);", "let a = @, b = a; r = b;"]
VOID = ["#;", "#;", "r = #;", "r = [#];", "r = ((() => #) as any)();", "function f() { return #; } r = (f as any)();", "k && #;", "r = typeof #;", "r = String(#);", "r = k ? # : 1;", "r = !#;", "if (k) #; else log3();", "r = (#, 3);", "r = (#);", "#, r = 1;"]
RUN = r"""
process.removeAllListeners('warning'); process.on('warning', () => {});
const { stripTypeScriptTypes } = require('module');
const jobs = JSON.parse(require('fs').readFileSync(process.argv[1], 'utf8'));
const head = `let r, k = true, g, E = []; const bump = n => { E.push(n); if (E.length > 50) throw new Error('too many'); };
const log = (...a) => bump('log'), log2 = () => bump('log2'), log3 = () => bump('log3'), und = (...a) => bump('und'), und2 = () => bump('und2'), fail = () => { bump('fail'); throw 'failed'; }, anyf = () => (bump('any'), 1), num = () => (bump('num'), 1), mix = () => (bump('mix'), 1), prom = async () => bump('prom');
const id = x => x, take = f => {}, takeU = take, takeM = take, o = { log, und, q: 0 }; class K { constructor(x) { E.push(String(x)); } log() { log(); } }
`;
let cur = "", done = false;
const show = v => v === undefined ? 'undefined' : v instanceof Promise ? 'promise' : JSON.stringify(v) ?? String(v);
const make = (t) => { try { return eval('(async (' + 'x0, x1, x2, n0, n1, n2' + ') => {' + head + 'try { await (async () => {' + stripTypeScriptTypes('async function main() {' + t + '\n}').slice(0) + '\nawait main(); })(); } catch (e) { r = e === "failed" ? "throws" : e === undefined ? "thrown undefined" : "error " + (e.name ?? e); if (e && e.name === "SyntaxError") throw e; return [r, E]; } if (r instanceof Promise) { try { await r; r = "promise"; } catch { r = "rejected"; } } return [show(r), E]; })'); } catch (e) { return String(e); } };
(async () => {
  const out = [];
  process.on("exit", () => { if (!done) console.error("stuck at", cur); });
  for (const j of jobs) {
    cur = JSON.stringify(j.codes);
    const fs = j.codes.map(make), res = [];
    for (const b of j.bits) {
      const row = [];
      for (const f of fs) {
        if (typeof f === 'string') { row.push([f, []]); continue; }
        const n = i => b[i] ? 5 : null;
        row.push(await f(!!b[0], !!b[1], !!b[2], n(0), n(1), n(2)));
      }
      res.push(row);
    }
    out.push(res);
  }
  done = true; console.log(JSON.stringify(out));
})().catch(e => { console.error(e, cur); process.exit(1); });
"""


class Writer:
    def __init__(self, x, r):
        self.x, self.r, self.ids = x, r, []

    def mark(self, e, rep):
        if not rep[0]:
            return e
        self.ids.append(rep)
        return "\x01%d:%s\x02" % (len(self.ids) - 1, e)

    def expr(self, heads):
        """text, strength: 2 for calls and parentheses, 1 for await, 0 below"""
        x, r = self.x, self.r
        cs = CORE[x["core"]]
        if x["core"] == "void" and r.random() < .15 and (heads or x["path"] and x["path"][0] in ("paren", "and", "or", "nullish", "then", "else")):
            cs = CORE2
        e, s = self.mark(r.choice(cs), x["rep"][0]), 2
        last = "core"
        n = len(x["path"])
        for i, w in enumerate(x["path"]):
            def strong(k=2):
                return e if s >= k and r.random() < .9 else "(%s)" % e
            bs = BOOL + (BOOL2 if heads or i < n - 1 and False else [])
            v = r.choice(bs).replace("x", "x%d" % i)
            if w == "paren":
                e, s = "(%s)" % e, 2
            elif w == "await":
                e, s = self.mark("await %s" % strong(), x["rep"][i + 1]), 1
            elif w in ("and", "or"):
                inner = e if s >= 1 or (last == "and" and r.random() < .5) else "(%s)" % e
                e, s = "%s %s %s" % (v, dict([("and", "&&"), ("or", "||")])[w], inner), 0
            elif w == "nullish":
                v = r.choice(["n", "n", "(n)", "[n][0]", "id(n)"]).replace("n", "n%d" % i)
                e, s = "%s ?? %s" % (v, strong(1)), 0
            elif w == "then":
                e, s = "%s ? %s : 7" % (v, e), 0
            elif w == "else":
                e, s = "%s ? 7 : %s" % (v, e), 0
            else:
                t = self.mark("und2()" if x["core"] == "undefined" else "log2()", x["rep"][i + 1])
                # marks are numbered where they stand
                e, s = "%s ? %s : %s" % (v, e, t), 0
            last = w
        return e, s

    def write(self):
        x, r = self.x, self.r
        k = x["ender"]
        asy = "await" in x["path"]
        before = r.choice(BEFORE)
        if k in ("stmt", "commaLeft"):
            e, s = self.expr(False)
            t = r.choice(["@;", "@;", "if (k) @;", "L: @;", "{ @ }", "for (const z of [1]) @;", "if (!k) {} else @;", "do @; while (!k);"] if k == "stmt" else ["r = (@, 3);", "@, r = 3;", "for (; @, false;) {}", "if (@, k) { r = 1; }", "r = ((@), [1]);"])
            return t.replace("@", e)
        if k == "other":
            t = r.choice(OTHER)
            e, s = self.expr("*" not in t and not t.startswith("@"))
            if t == "r = (((a = @) => a) as any)();" and asy or t == "r = new (class { p = @ })().p;" and asy:
                t = "r = @;"
            return t.replace("@", e).replace("*", e if s == 2 else "(%s)" % e)
        if k == "void":
            t = r.choice(VOID)
            if asy:
                t = t.replace("() => #)", "async () => #)").replace("function f", "async function f")
            e, s = self.expr(True)
            if s == 0 or r.random() < .1:
                e = "(%s)" % e
            v = "void" + r.choice([" ", " ", "  ", "\n", "/*c*/", " /* c */ "] + ([""] if re.match(r"(\x01\d+:)?[(\[`]", e) else [])) + e
            m = x["meaning"]
            self.void = m
            v = "\x03%s\x04" % v
            if t.startswith(("#",)):
                t = before + t
            return t.replace("#", v)
        if k == "arrow":
            t = r.choice((AARROW if asy else ARROW)[x["fv"]])
            e, s = self.expr(True)
            if r.random() < .1:
                e = r.choice(["(%s)", "((%s))", "( %s /*c*/ )"]) % e
            return t.replace("=@", "= ").replace("=>@", "=>" + r.choice([" ", " ", "", "\n", " /*c*/ "]) + e)
        t = r.choice((AFN if asy else FN)[x["fv"]])
        e, s = self.expr(True)
        if r.random() < .1:
            e = "(%s)" % e
        ret = "return" + (r.choice([" ", " ", " ", "/*c*/"]) if not re.match(r"(\x01\d+:)?[(\[`]", e) else r.choice(["", " "])) + e
        p = "@" if k == "final" else r.choice(PLACE)
        if k == "final" or p in ("{ @ }", "@ log3();", "if (k) { log3(); @ }", "if (k) { @ } log3();", "try { @ } finally { log3(); }", "while (k) { @ }"):
            ret = before + ret
        if p.startswith("do @"):
            ret += ";"
        else:
            ret += r.choice([";", ";", "\n"])
        return t.replace("@", p.replace("@", ret))


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    r = c.rng
    _, q = c.tlc("VoidExpr", "SPECIFICATION Spec\nCONSTANTS\n Depth = %d\nINVARIANTS EditsKeep EditsWhereTheyKeep VoidKeeps Strict Emit\nCHECK_DEADLOCK FALSE\n" % (3 if c.thorough else 2))
    q = sorted(q, key=canon)
    loud = [x for x in q if any(y[0] for y in x["rep"]) or x["meaning"]]
    edits = [x for x in loud if any(y[1] for y in x["rep"]) or x["meaning"]]
    pick = []
    for xs, n in ((q, 4000), (loud, 4000), (edits, 4000)):
        pick += r.sample(xs, min(len(xs), n * (6 if c.thorough else 1)))
    S = Batch(c, b, "void", DECL, per=300, wrap="async function N%d(x0: boolean, x1: boolean, x2: boolean, n0: number | null, n1: number | null, n2: number | null) {\n%s\n}\n")
    jobs = []
    for x in pick:
        w = Writer(x, r)
        text = w.write()
        for rule in ["no-confusing-void-expression"] + (["no-meaningless-void-operator"] if x["ender"] == "void" else []):
            if rule == "no-confusing-void-expression":
                t = re.sub("[\x03\x04]", "", text)
                reps = [w.ids[int(i)] for i in re.findall("\x01(\\d+):", t)]
                t = re.sub("\x01\\d+:", "\x01", t)
                want = [(i, y[0]) for i, y in enumerate(reps)]
                opts = dict(ignoreArrowShorthand=x["opts"]["arrow"], ignoreVoidOperator=x["opts"]["op"], ignoreVoidReturningFunctions=x["opts"]["fn"])
                for o in list(opts):
                    if not opts[o] and r.random() < .4:
                        del opts[o]
                if not opts and r.random() < .5:
                    opts = None
            else:
                t = re.sub("\x01\\d+:|\x02", "", text)
                never = r.random() < .5
                hit = x["meaning"] == "always" or x["meaning"] == "never" and never
                t = t.replace("\x03", "\x01" if hit else "").replace("\x04", "\x02" if hit else "")
                want = [(0, "meaninglessVoidOperator")] if hit else []
                reps = [("meaninglessVoidOperator", True)] if hit else []
                opts = r.choice([None, {}, dict(checkNever=False)]) if not never else dict(checkNever=True)
            code, rs = strip(t)
            job = dict(code=code, new=[], x=x, rule=rule)
            jobs.append(job)
            S.add(rule, opts, t, want, dict(edits={"%d-%d" % tuple(p): bool(y[1]) for p, y in zip(rs, reps)}, meaning=x["meaning"] if rule != "no-confusing-void-expression" else None),
                  lambda m, new, job=job: job["new"].append(new))

    def compare(m, code, d):
        fix, sug = bool(m.get("fixes")), bool(m.get("suggestions"))
        e = d["edits"]["%d-%d" % (m["range"]["pos"], m["range"]["end"])]
        if (fix or sug) != e:
            return "there is %s edit: %s" % ("an" if fix or sug else "no", m["message"])
        if e and sug != (m["message"]["id"] == "invalidVoidExprWrapVoid" or d["meaning"] == "never"):
            return "the edit is a %s" % ("suggestion" if sug else "fix")
    S.run(compare)
    os.makedirs(c.tmp, exist_ok=True)
    n = 8
    for j in jobs:
        k = len(j["x"]["path"])
        j["bits"] = [[bool(i >> p & 1) for p in range(k)] for i in range(1 << k)]
    parts = [jobs[i::n] for i in range(n)]
    ps = []
    for i, part in enumerate(parts):
        json.dump([dict(codes=[j["code"]] + j["new"], bits=j["bits"]) for j in part], open("%s/jobs%d.json" % (c.tmp, i), "w"))
        ps.append(subprocess.Popen(["node", "--unhandled-rejections=none", "-e", RUN, "%s/jobs%d.json" % (c.tmp, i)], stdout=open("%s/out%d" % (c.tmp, i), "w"), stderr=open("%s/err%d" % (c.tmp, i), "w")))
    for p in ps:
        if p.wait(timeout=max(60, c.left())):
            raise CheckError("node: " + "".join(open("%s/err%d" % (c.tmp, i)).read()[-1500:] for i in range(n)))
    for i, part in enumerate(parts):
        for j, res in zip(part, json.load(open("%s/out%d" % (c.tmp, i)))):
            x = j["x"]
            table = {canon(b): v for b, v in (x["table"] if isinstance(x["table"], list) and x["table"] and isinstance(x["table"][0], list) and len(x["table"][0]) == 2 else [])}
            bad = set()
            for bits, row in zip(j["bits"], res):
                if row[0][0].startswith(("SyntaxError", "error ReferenceError", "error SyntaxError")):
                    raise CheckError("%r does not run: %s" % (j["code"], row[0][0]))
                if x["ender"] in ("arrow", "final", "return") and x["table"]:
                    w = value(x, bits)
                    if w != row[0][0]:
                        raise CheckError("%r gives %s for %s, in the model %s" % (j["code"], row[0], bits, w))
                for new, got in zip(j["new"], row[1:]):
                    c.validated += 1
                    if got != row[0] and new not in bad:
                        bad.add(new)
                        c.violation("%s: %r becomes %r, which for %s gives %s and not %s" % (j["rule"], j["code"], new, bits, got, row[0]), dict(case=x, code=j["code"], fixed=new, bits=bits))
    c.count("programs run", len(jobs))
    c.count("edits run", sum(len(j["new"]) for j in jobs))


def value(x, bits):
    t = x["table"]
    if isinstance(t, dict):
        # functions over 1..n come as objects keyed by the printed sequence
        return t["<<" + ", ".join("TRUE" if y else "FALSE" for y in bits) + ">>"]
    raise CheckError("table: %s" % canon(t)[:200])


if __name__ == "__main__":
    main("C41", body)
