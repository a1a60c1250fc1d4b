"""C35: questions to strings.  Rewrites.tla's questions are linted; every edit offered is evaluated by node on every subject."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch

NOTE = """All 19 forms of question with needles of up to 3 characters, as they are, off by one and negated, each written in many ways (over 30 pairs of characters, kinds of literals, variables, ways to write the pattern, the subject and the surroundings); subjects are all strings of up to 4 characters. Needles are not empty, patterns have no flags, or i, m or g (not rewritten)."""
PRE = "declare const s: string, o: { s: string; p: { s: string }; n: string }, k: boolean, q: string | undefined;\ndeclare function id<T>(x: T): T;\n"
PLAIN, SPECIAL = "yzQ01_ -,A~é", "$.*/'\"\\\n([{|+?^)]}`\t\r\x07"
SRC = dict(index0="prefer-string-starts-ends-with", testPart="prefer-includes", indexOfNeg="prefer-includes", indexOfSign="prefer-includes")
ID = dict(startsWith="preferStartsWith", endsWith="preferEndsWith", includes="preferIncludes")
AROUND = ["%s", "%s", "[%s]", "id(%s)", "(%s)", "(%s) && k", "k || %s", "!(%s)", "`${%s}`", "typeof (%s)", "%s ? 1 : 2", "k === (%s)", "(%s) + ''", "{ a: %s }", "k ? %s : %s0", "[...[%s]]", "(() => %s)()", "(0, %s)", "void 0 ?? (%s)", "-(%s)"]
# patterns that are no plain text
QUIET = ["/\\\\./.test(s)", "/y.z/.test(s)", "/y\\d/.test(s)", "/[y]/.test(s)", "/(y)/.test(s)", "/y|z/.test(s)", "/y*/.test(s)", "/\\by/.test(s)", "/^y|z/.test(s)", "/^\\\\.y/.test(s)", "/y+$/.test(s)", "/y{2}/.test(s)", "/\\x79/.test(s)", "/\\u0079/.test(s)", "/^[y]/.test(s)", "/y\\b$/.test(s)",
         "s.match(/^y.z/) !== null", "s.match(/^y|z/) === null", "s.match(/y?$/) !== null", "s.match(/^\\s/) !== null", "s.match(/^y/g) !== null", "s.indexOf('y', 1) === 0", "s.indexOf('y') > 1", "s.slice(0) === 'y'", "s.slice(0, 2, ) === 'y'", "s.substr(0, 1) === 'y'", "s.charAt(1) === 'y'",
         "s.slice(-1) === 'yz'", "s.slice(0, 1) === 'yz'", "s.slice(o.s.length - 1) === 'y'", "s[o.s.length - 1] === 'y'", "s[s.length - 2] === 'y'", "s[s.length] === 'y'", "s.lastIndexOf('y') === 0", "s.match('^y') !== 'y'", "s.indexOf('y') === 1", "s.indexOf('y') > 0", "s.indexOf('y') <= 0", "s.indexOf('y') >= 1", "s.indexOf('y') < -1", "s.indexOf('y') < 1",
         "s.indexOf('y') + 1 === 0", "/y/.exec(s) !== null", "/y/i.test(s)", "/^y/i.test(s)", "/y$/m.test(s)", "s.search('y') === 0", "'y' === s.at(0)", "s.slice(1, 2) === 'y'", "s.slice(s.length - 1, 1) === 'y'", "s.slice(s.length - 1, 0) === 'y'", "s.substring(s.length - 1, 0) === 'y'", "s.slice(-1, 0) !== 'y'", "s.slice(-1, -1) === 'y'", "s.slice(0, 0) === 'y'", "s.slice(0, -1) === 'y'", "s.substring(1, 0) === 'y'", "s.substring(1, s.length) === 'y'", "s.slice(1) === 'y'", "s.slice(+1) === 'y'", "s.slice(s.length + 1) === 'y'", "s.slice(0, 1 - s.length) === 'y'", "s.slice(1, s.length) === 'y'", "s[-1] === 'y'", "s[1] === 'y'", "s.charAt(s.length) === 'y'", "s.charAt(-1) === 'y'", "s[s.length + 1] === 'y'", "s.indexOf('y') === -0 - 1", "s[0] > 'y'", "s.slice(0, 1) > 'y'", "s.indexOf('y') > 0", "s.match(/^y/) === true", "o.p.s[s.length - 1] === 'y'", "s.slice(o.s.length - 1) === 'y'", "s.slice(0, o.s.length) === 'y'", "s.slice(0, s.length) === 'y'", "s.startsWith('y') === k", "s.lastIndexOf('y') === s.length - 2", "s.lastIndexOf('y') === o.s.length - 1", "s.lastIndexOf('y') === 1 - s.length", "s.slice(s.length - 1, s.length - 1) === 'y'"]


def quote(t, r):
    q = r.choice("''\"`")
    out = ""
    for ch in t:
        out += {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\x07": "\\x07", "\\": "\\\\", "é": "\\xe9"}.get(ch, "\\" + ch if ch == q or ch == "$" and q == "`" else ch)
    return q + out + q


def pattern(t, r):
    out = ""
    for ch in t:
        out += {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\x07": "\x07", "é": "_"}.get(ch) or ("\\" + ch if ch in "$.*/\\([{|+?^)]}" or ch in "'\"`" and r.random() < .4 else ch)
    return out


def write(x, ch, r):
    """(declarations, marked expression, is it reported, by which message)"""
    f, n, neg, off = x["form"], "".join(ch[y] for y in x["x"]), x["neg"], x["off"]
    k = len(n)
    subj = r.choice(["s", "s", "o.s", "o.p.s", "o['s']"])
    decl, hit = [], not off
    part = f in ("testPart", "indexOfNeg", "indexOfSign")
    mem = lambda m: "['%s']" % m if not part and r.random() < .1 else "." + m
    eq = r.choice(["==", "==="]) if not neg else r.choice(["!=", "!=="])
    if f in ("testStart", "testEnd", "testPart", "matchStart", "matchEnd"):
        p = pattern(n, r)
        p = ("^" if f.endswith("Start") or off else "") + p + ("$" if f.endswith("End") or off else "")
        if f.endswith("Start") and n.endswith("$"):
            hit = False
        w = r.randrange(4)
        if w < 2 or part and w == 2:
            e = "/%s/" % p
        else:
            e = "new RegExp(%s)" % json.dumps(p).replace("\\u0007", "\\x07")
        if w in (1, 3) or part and w == 2:
            decl.append("const pt = %s;" % e)
            if e[0] == "n" and r.random() < .1:
                decl = ["const pt = %s, 'i');" % e[:-1]]
                return decl, "pt.test(%s)" % subj, False, x, True
            if r.random() < .2:
                decl = ["let pt = %s; pt = /other/;" % e.replace("RegExp", "RegExp")]
                hit = False
                x = dict(x, moved=True)
            e = "pt"
        if f.startswith("match"):
            c = "%s%s(%s) %s null" % (subj, mem("match"), e, eq)
            if len(eq) == 2 and r.random() < .3:
                c = c[:-4] + r.choice(["undefined", "null"])
            # asks whether there is a match
            c = c.replace(" == ", " \x00 ").replace(" === ", " \x00= ").replace(" != ", " == ").replace(" !== ", " === ").replace(" \x00 ", " != ").replace(" \x00= ", " !== ")
        else:
            arg = r.choice([subj, subj, "(%s)" % subj, "%s + ''" % subj, "id(%s)" % subj, "k ? %s : %s" % (subj, subj), "`${%s}`" % subj, "%s || ''" % subj, "%s.concat('')" % subj, "(%s + '')" % subj])
            c = "%s%s(%s)" % (e, mem("test"), arg)
        return decl, c, hit, x, len(decl) and "moved" in x
    w = r.randrange(4)
    lit = quote(n, r)
    if w == 0:
        decl.append("const nd = %s;" % lit)
        needle = "nd"
    elif w == 1 and f not in ("slice0", "substring0", "sliceNeg", "sliceLen", "sliceLenLen", "substringLen") and all(z in PLAIN for z in n):
        decl.append("let nd = 'other'; nd = %s;" % lit)
        needle = "nd"
    else:
        needle = lit
    length = "%d" % k if r.random() < .5 else needle + ".length" if r.random() < .9 else "(%s.length)" % needle
    num = lambda i: r.choice(["%d", "%d", "(%d)"]) % i
    if f in ("index0", "charAt0", "indexEnd", "charAtEnd"):
        i = num(off) if f.endswith("0") else r.choice(["%s.length - %d", "(%s.length - %d)"]) % (subj, 1 + off)
        c = ("%s[%s]" if f.startswith("index") else "%s.charAt(%s)") % (subj, i) + " %s %s" % (eq, needle)
    elif f == "indexOf0":
        c = "%s%s(%s) %s %s" % (subj, mem("indexOf"), needle, eq, num(off))
    elif f in ("slice0", "substring0"):
        c = "%s%s(%s, %s) %s %s" % (subj, mem(f[:-1]), num(off), length, eq, needle)
    elif f == "sliceNeg":
        c = "%s%s(-%s) %s %s" % (subj, mem("slice"), length if not off else k + 1, eq, needle)
    elif f in ("sliceLen", "substringLen"):
        c = "%s%s(%s.length - %s) %s %s" % (subj, mem(f[:-3]), subj, length if not off else k + 1, eq, needle)
    elif f == "sliceLenLen":
        c = "%s%s(%s.length - %s, %s.length%s) %s %s" % (subj, mem("slice"), subj, length, subj, "" if not off else " - 1", eq, needle)
    elif f == "lastIndexOf":
        c = "%s%s(%s) %s %s.length - %s%s" % (subj, mem("lastIndexOf"), needle, eq, subj, needle + ".length" if w else "nd.length" if needle == "nd" else length, " - 1" if off else "")
    elif f == "indexOfNeg":
        op = r.choice((["!==", "!="] if off else ["!==", "!=", ">"]) if not neg else (["===", "=="] if off else ["===", "==", "<="]))
        c = "%s.indexOf(%s) %s %d" % (subj, needle, op, off - 1)
    else:
        c = "%s.indexOf(%s) %s %d" % (subj, needle, "<" if neg else ">=", off)
    return decl, c, hit, x, False


EVAL = r"""
const jobs = JSON.parse(require('fs').readFileSync(process.argv[2], 'utf8'));
const id = x => x;
const run = (text, subjects) => {
  let f;
  try { f = new Function('s', 'o', 'k', 'id', text); } catch (e) { return String(e); }
  return subjects.map(s => { try { return JSON.stringify([f(s, { s, p: { s }, n: '' }, true, id), f(s, { s, p: { s }, n: '' }, false, id)].map(v => v === undefined ? null : typeof v === 'number' ? String(v) : v)); } catch (e) { return 'throws ' + e.name; } });
};
console.log(JSON.stringify(jobs.map(j => ({ bare: run(j.decl + ' return (' + j.bare + ');', j.subjects), a: run(j.a, j.subjects), b: run(j.b, j.subjects) }))));
"""


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    r = c.rng
    _, q = c.tlc("Rewrites", "SPECIFICATION Spec\nCONSTANTS\n Needle = 3\n Subject = 4\nINVARIANTS Same Needed Order Emit\n")
    q = sorted(q, key=canon)
    S = Batch(c, b, "strings", PRE, per=400)
    jobs = []
    for x in q:
        for _ in range(40 if c.thorough else 8):
            pool = PLAIN if r.random() < .5 else PLAIN + SPECIAL
            ch = dict(zip("ab", r.sample(pool if not x["form"].startswith(("test", "match")) else pool.replace("é", ""), 2)))
            decl, e, hit, y, moved = write(x, ch, r)
            around = r.choice(AROUND)
            rule = SRC.get(x["form"], SRC["index0"])
            single = x["form"] in ("index0", "indexEnd")
            opts = None
            if single:
                a = r.choice([None, "never", "always"])
                opts = a and {"allowSingleElementEquality": a}
                hit = hit and a != "always"
            mid = "preferStringIncludes" if x["form"] == "testPart" else ID[x["method"]]
            marked = "\x01%s\x02" % e
            n = around.count("%s") if "%s0" not in around else 1
            whole = around.replace("%s0", "k").replace("%s", marked if hit else e)
            text = "%s let v = %s;" % (" ".join(decl), whole)
            job = dict(x=x, ch=ch, decl=" ".join(decl), bare=e, text=text)

            def after(m, new, job=job):
                jobs.append(dict(job, new=new))
            S.add(rule, opts, text, [(i, mid) for i in range(text.count("\x01"))], x, after)
    for t in QUIET:
        for rule in ("prefer-string-starts-ends-with", "prefer-includes"):
            S.add(rule, None, "let v = %s;" % t, [], dict(quiet=t))
    # positions count UTF-16 units; one element compared with more than one is reported, but there is no edit
    for n in ["😀", "yé", "日本", "'"]:
        u = len(n.encode("utf-16-le")) // 2
        for k in range(1, 5):
            for t, mid in (("s.slice(0, %d) === %s", "preferStartsWith"), ("s.substring(0, %d) !== %s", "preferStartsWith"), ("s.slice(-%d) == %s", "preferEndsWith"), ("s.slice(s.length - %d) != %s", "preferEndsWith")):
                e = t % (k, json.dumps(n))
                S.add(SRC["index0"], None, "let v = %s;" % (e if k != u else "\x01%s\x02" % e), [(0, mid)] if k == u else [], dict(needle=n, k=k))
        if u > 1:
            for t, mid in (("s[0] === %s", "preferStartsWith"), ("s.charAt(0) != %s", "preferStartsWith"), ("s[s.length - 1] === %s", "preferEndsWith")):
                e = t % json.dumps(n)

                def none(m, new, e=e):
                    c.violation("an edit is offered for %s, which asks for one character: %r" % (e, new), dict(code=e))
                S.add(SRC["index0"], None, "let v = \x01%s\x02;" % e, [(0, mid)], dict(needle=n), none)
    # a missing subject
    opt = []
    for op in ("=== -1", "== -1", "<= -1", "< 0", "!== -1", "!= -1", "> -1", ">= 0"):
        t = "q?.indexOf('y') " + op
        S.add("prefer-includes", None, "let v = \x01%s\x02;" % t, [(0, ID["includes"])], dict(optional=op), lambda m, new, t=t, op=op: opt.append((op, t, new)))
    # what has indexOf need not have includes, or one of another kind
    T = "class A<T> { indexOf(x: T): number { return 0; } includes(x: T): boolean { return true; } } interface B extends A<string> { } "
    for ty, val, hit in (("number[]", "1", 1), ("readonly string[]", "'a'", 1), ("Uint8Array", "1", 1), ("[number, string]", "1", 1), ("A<number>", "1", 1), ("B", "'a'", 1), ("string | string[]", "'a'", 1), ("{ indexOf(x: number): number; includes(x: number): boolean }", "1", 1), ("{ indexOf(x: number): number; includes(x: number): boolean; includes(x: string): boolean }", "1", 1),
                         ("{ indexOf(x: number): number }", "1", 0), ("{ indexOf(x: number): number; includes(x: string): boolean }", "1", 0), ("{ indexOf(x: number): number; includes: boolean }", "1", 0), ("{ indexOf(x: number, f?: number): number; includes(x: number): boolean }", "1", 0), ("{ indexOf(x: number): number; includes(): boolean }", "1", 0),
                         ("{ indexOf(x: number): number; includes(x?: number): boolean }", "1", 0), ("any", "1", 0), ("A<number> | { indexOf(x: number): number }", "1", 0), ("string[] | { indexOf(x: string): number; includes(x: number): boolean }", "'a'", 0)):
        for op in ("=== -1", "!= -1", "< 0"):
            e = "a.indexOf(%s) %s" % (val, op)
            want = "a.includes(%s)" % val if op[0] == "!" else "!a.includes(%s)" % val

            def inc(m, new, e=e, want=want):
                if want + ";" not in new:
                    c.violation("the edit of %s gives %r" % (e, new), dict(code=e))
            S.add("prefer-includes", None, T + "declare const a: %s; let v = %s;" % (ty, "\x01%s\x02" % e if hit else e), [(0, ID["includes"])] if hit else [], dict(type=ty), inc)
    S.run()
    # every edit is evaluated for all subjects
    js = lambda t: t.replace("\x01", "").replace("\x02", "") + " return v;"
    os.makedirs(c.tmp, exist_ok=True)
    out = []
    words = [""]
    for _ in range(4):
        words += [w + d for w in words if len(w) == _ for d in "ab"]
    # lastIndexOf finds a needle that is one longer at -1
    fits = lambda j, w: j["x"]["form"] != "lastIndexOf" or len(w) != len(j["x"]["x"]) - 1
    for j in jobs:
        out.append(dict(decl=j["decl"], bare=j["bare"], a=js(j["text"]), b=js(j["new"]), subjects=["".join(j["ch"][d] for d in w) for w in words if fits(j, w)]))
    open(c.tmp + "/eval.js", "w").write(EVAL)
    json.dump(out, open(c.tmp + "/jobs.json", "w"))
    p = subprocess.run(["node", c.tmp + "/eval.js", c.tmp + "/jobs.json"], capture_output=True, text=True, timeout=max(60, c.left()))
    if p.returncode:
        raise RuntimeError("node: " + p.stderr[-2000:])
    for j, o, res in zip(jobs, out, json.loads(p.stdout)):
        c.validated += 1
        yes = {"".join(w) for w in j["x"]["yes"]}
        want = [json.dumps([w in yes] * 2, separators=(",", ":")) for w in words if fits(j, w)]
        if res["bare"] != want:
            raise RuntimeError("the model's answers to %s %s are not node's: %s" % (j["decl"], j["bare"], [(w, g) for w, g, z in zip(o["subjects"], res["bare"], want) if g != z][:5]))
        if res["a"] != res["b"]:
            bad = res["b"] if isinstance(res["b"], str) else [(s, p, q) for s, p, q in zip(o["subjects"], res["a"], res["b"]) if p != q][:4]
            c.violation("the edit of %r gives %r, which has other values: %s" % (j["text"].replace("\x01", "").replace("\x02", ""), j["new"], bad), dict(case=j["x"], code=o["a"], fixed=o["b"]))
    c.count("edits evaluated", len(jobs))
    json.dump([dict(a="let v = %s;" % t, b=new) for _, t, new in opt], open(c.tmp + "/opt.json", "w"))
    p = subprocess.run(["node", "-e", OPT, c.tmp + "/opt.json"], capture_output=True, text=True, timeout=max(60, c.left()))
    if p.returncode:
        raise RuntimeError("node: " + p.stderr[-2000:])
    for (op, t, new), same in zip(opt, json.loads(p.stdout)):
        if not same:
            c.violation("the edit of %r, %r, is truthy for other q, undefined or not" % (t, new), dict(code=t, fixed=new), key="optional chain:" + op)


OPT = r"""
const jobs = JSON.parse(require('fs').readFileSync(process.argv[1], 'utf8'));
const run = (t, q) => { try { return !!new Function('q', t + ' return v;')(q); } catch (e) { return String(e); } };
console.log(JSON.stringify(jobs.map(j => [undefined, '', 'y', 'zy', 'z'].every(q => run(j.a, q) === run(j.b, q)))));
"""


if __name__ == "__main__":
    main("C35", body)
