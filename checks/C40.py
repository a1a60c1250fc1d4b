"""C40: consistent returns.  Functions written by Returns.tla are linted by consistent-return with both settings."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from rulecases import Batch, strip

NOTE = """Functions of up to four statements and branches (returns with a value, with undefined or with none, throw, break) in up to three nested structured statements or functions, in ten forms and with seventeen return types; all of them in thorough runs, drawn in quick ones."""
DECL = """declare const k: boolean, n: number, a: number[], u: undefined, v: any, m: number | undefined;
declare function w(): void;
declare function fail(): never;
type V = void; type P = Promise<void>; type N = number | undefined;
"""
PLAIN = ["", "", ": number | undefined", ": any", ": unknown", ": undefined", ": Promise<void>", ": P", ": N", ": () => void"]
VOID = [": void", ": number | void", ": V", ": V | undefined"]
APLAIN = ["", "", ": Promise<number | undefined>", ": Promise<undefined>", ": Promise<any>"]
AVOID = [": Promise<void>", ": Promise<number | void>", ": P", ": Promise<V | undefined>", ": P | Promise<number>"]


class Writer:
    def __init__(self, toks, o, r):
        self.toks, self.o, self.r, self.i, self.n = toks, o, r, 0, 0
        self.want, self.names, self.marks, self.labels = [], [], 0, []

    def mark(self, rep, s, what):
        """numbers are given in the order of beginnings: call before the inside is written"""
        if not rep:
            return s
        self.want.append((self.marks, rep))
        self.names.append(what)
        self.marks += 1
        return "\x01%s\x02" % s

    def fn(self):
        r, o = self.r, self.o
        t = self.toks[self.i]
        self.i += 1
        rep = t["rep"][o]
        self.n += 1
        name = "f%d" % self.n
        form = r.choice(["decl", "decl", "expr", "named", "arrow", "arrow", "method", "class", "callback", "iife", "static", "private", "over"] + ([] if t["void"] else ["get", "set", "gen", "clsget"]))
        sync = form in ("get", "set", "gen", "clsget", "over") or r.random() < .7
        if form == "iife" and self.i > 1:
            # one that is not asynchronous is part of the control flow it stands in
            sync = False
        pre = "" if sync else "async "
        ann = r.choice((VOID if t["void"] else PLAIN) if sync else AVOID if t["void"] else APLAIN)
        if form in ("get", "clsget"):
            ann = r.choice(["", ": any", ": N", ": Promise<void>"])
        elif form in ("set", "gen"):
            ann = ""
        what = (pre.capitalize() + "function" if pre else "Function") + (" '%s' " % (name if form != "private" else "#" + name) if form in ("decl", "named", "method", "class", "get", "set", "gen", "clsget", "static", "private", "over") else "")
        head, tail = "", ""
        if form == "decl":
            sig = "%sfunction %s()%s " % (pre, name, ann)
        elif form == "over":
            head = "function %s(): number; function %s(x: 1): %s; " % (name, name, r.choice(["void", "V | 1"]) if t["void"] else r.choice(["any", "undefined", "() => void"]))
            sig = "function %s(x?: 1): any " % name
            ann = "o"
        elif form == "gen":
            sig = "function* %s() " % name
        elif form == "expr":
            head, tail = "const %s = " % name, ";"
            sig = "%sfunction ()%s " % (pre, ann)
        elif form == "named":
            head, tail = "const g%s = " % name, ";"
            sig = "%sfunction %s()%s " % (pre, name, ann)
        elif form == "arrow":
            head, tail = "const %s = " % name, ";"
            sig = "%s()%s => " % (pre, ann)
        elif form == "callback":
            head, tail = "a.forEach(", ");"
            sig = r.choice(["%s()%s => ", "%sfunction ()%s "]) % (pre, ann)
        elif form == "iife":
            head, tail = "(", ")();"
            sig = r.choice(["%s()%s => ", "%sfunction ()%s "]) % (pre, ann)
        elif form in ("method", "get", "set"):
            head, tail = "const o%s = { p: 1, " % name, " };"
            sig = "%s()%s " % (pre + name, ann) if form == "method" else "get %s()%s " % (name, ann) if form == "get" else "set %s(x) " % name
        else:
            head, tail = "class C%s { p = 1; " % name, " }"
            sig = dict(clsget="get %s()%s " % (name, ann), static="static %s%s()%s " % (pre, name, ann), private="%s#%s()%s " % (pre, name, ann)).get(form, "%s%s()%s " % (pre, name, ann))
        outer, self.ctx = getattr(self, "ctx", None), (what, ann)
        labels, self.labels = self.labels, []
        place = len(self.names)
        if rep:
            self.mark(rep, "", what)
        inner = self.block("endfn")
        self.i += 1
        self.ctx, self.labels = outer, labels
        s = sig + "{ %s }" % inner
        return head + ("\x01%s\x02" % s if rep else s) + tail

    def block(self, *ends):
        out = []
        while self.toks[self.i]["t"] not in ends:
            out.append(self.stmt())
        return " ".join(out)

    def body(self, *ends):
        """a block, in braces where it needs them"""
        i = self.i
        s = self.block(*ends)
        if self.i == i + 1 and self.toks[i]["t"] in ("value", "empty", "undefined", "throw", "break", "breaklabel") and self.r.random() < .5:
            return s
        return "{ %s }" % s

    def stmt(self):
        r, t = self.r, self.toks[self.i]
        x = t["t"]
        if x == "fn":
            return self.fn()
        self.i += 1
        if x in ("value", "empty", "undefined"):
            what, ann = self.ctx
            if x == "empty":
                s = "return;"
            elif x == "undefined":
                s = "return %s;" % r.choice(["undefined", "undefined", "void 0", "u", "(undefined)"])
            else:
                s = "return %s;" % r.choice(["1", "v", "m", "null", "undefined as any", "() => { return; }", "''", "k ? undefined : 1", "function () { if (k) { return; } }"] + (["w()"] if ann else []))
            return self.mark(t["rep"][self.o], s, what)
        if x == "throw":
            return r.choice(["throw 1;", "throw new Error();"])
        if x == "break":
            return "break;"
        if x == "breaklabel":
            return "break %s;" % self.labels[-1]
        if x == "if":
            s = "if (k) " + self.body("else", "close")
            if self.toks[self.i]["t"] == "else":
                self.i += 1
                s += " else " + self.body("close")
            self.i += 1
            return s
        if x in ("while", "forever", "label"):
            if x == "label":
                self.n += 1
                self.labels.append("L%d" % self.n)
                s = "%s: { %s }" % (self.labels[-1], self.block("close"))
                self.labels.pop()
            elif x == "forever" and r.random() < .3:
                s = "do { %s } while (true);" % self.block("close")
            else:
                h = r.choice(["while (true) ", "for (;;) ", "for (; true;) "] if x == "forever" else ["while (k) ", "for (; k;) ", "for (const z of a) ", "for (const z in a) "])
                s = h + self.body("close")
            self.i += 1
            return s
        if x == "do":
            s = "do { %s } while (k);" % self.block("close")
            self.i += 1
            return s
        if x == "try":
            s = "try { %s }" % self.block("catch", "finally")
            c = self.toks[self.i]["t"] == "catch"
            self.i += 1
            s += " %s { %s }" % (r.choice(["catch", "catch (e)"]) if c else "finally", self.block("close"))
            if c and r.random() < .3:
                s += " finally { %s }" % r.choice(["", "w();"])
            self.i += 1
            return s
        if x == "switch":
            s, j = "switch (n) { case 0: ", 0
            while True:
                s += self.block("case", "default", "close")
                e = self.toks[self.i]["t"]
                self.i += 1
                j += 1
                if e == "close":
                    return s + " }"
                s += " case %d: " % j if e == "case" else " default: "
        raise RuntimeError(x)


def compare(m, code, data):
    want = data["names"].get("%d-%d" % (m["range"]["pos"], m["range"]["end"]))
    d = m["message"]["description"]
    if want and not (d + " ").startswith(want):
        return "the message is %r, for %s" % (d, want)


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    r = c.rng
    _, q = c.tlc("Returns", "SPECIFICATION Spec\nCONSTANTS\n Size = 4\n Depth = 3\nINVARIANTS Consistent Emit\nCHECK_DEADLOCK FALSE\n")
    q = sorted(map(canon, q))
    size = lambda s: sum(s.count('"t": "%s"' % t) for t in ("value", "empty", "undefined"))
    rich = [s for s in q if size(s) > 1]
    loud = [s for s in rich if "ReturnValue" in s]
    small = [s for s in q if s.count('"t"') <= 6]
    pick = []
    for xs, k in ((q, 3000), (rich, 5000), (loud, 5000), (small, 3000)):
        pick += r.sample(xs, min(k, len(xs)))
    if c.thorough:
        pick = q + loud
    S = Batch(c, b, "returns", DECL, per=400)
    for s in pick:
        toks = json.loads(s)
        for o in (0, 1) if c.thorough and "Value" in s else (r.randrange(2),):
            w = Writer(toks, o, r)
            text = w.fn()
            if w.i != len(toks):
                raise RuntimeError("not all written: " + s)
            # numbers of marks: as they begin
            code, rs = strip(text)
            S.add("consistent-return", dict(treatUndefinedAsUnspecified=True) if o else r.choice([None, {}, dict(treatUndefinedAsUnspecified=False)]), text, w.want,
                  dict(names={"%d-%d" % tuple(rs[i]): n for i, n in enumerate(w.names)}))
    S.run(compare)
    c.count("functions written", len(q))


if __name__ == "__main__":
    main("C40", body)
