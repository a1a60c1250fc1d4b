"""Small programs with the reports expected of one rule, linted in bulk.

A program is text in which the ranges to be reported stand between marks: \\x01 begins a range, \\x02 ends it, ranges are numbered from 0 by
where they begin.  Expected: list of (range number, message id)."""
import collections, json, os, re, shutil
import vlib
from vlib import canon


def strip(code):
    """(text without marks, [(start, end)])"""
    out, opened, ranges = [], [], []
    n = 0
    for part in re.split("([\x01\x02])", code):
        if part == "\x01":
            opened.append(len(ranges))
            ranges.append([n, None])
        elif part == "\x02":
            ranges[opened.pop()][1] = n
        else:
            out.append(part)
            n += len(part)
    return "".join(out), ranges


def edit(text, edits):
    out, last = "", 0
    # insertions at one place stand in the order in which they are given
    for e in sorted(edits, key=lambda e: (e["range"]["pos"], e["range"]["end"])):
        out += text[last:e["range"]["pos"]] + e["text"]
        last = e["range"]["end"]
    return out + text[last:]


class Batch:
    def __init__(self, c, binary, name, prelude="", tsopts=None, ext=".ts", per=250, wrap="namespace N%d {\n%s\n}\n", module=True):
        self.c, self.b, self.root = c, binary, os.path.join(c.tmp, name)
        self.prelude, self.ext, self.per, self.wrap, self.module = prelude, ext, per, wrap, module
        self.tsopts = dict(dict(strict=True, target="esnext", lib=["esnext"], types=[], noEmit=True, moduleDetection="force"), **(tsopts or {}))
        self.cases = []

    def add(self, rule, options, code, want, data=None, after=None):
        """after(message, text of the program after the fix or suggestion): called for every edit the rule offers"""
        assert code.isascii(), code
        self.cases.append((rule, options, code, want, data, after))

    def run(self, compare=None, report=True):
        """Lints everything; calls violation for each program whose reports differ.  compare(message) may return an extra complaint."""
        c = self.c
        os.makedirs(self.root, exist_ok=True)
        json.dump(dict(compilerOptions=self.tsopts), open(self.root + "/tsconfig.json", "w"))
        groups = collections.OrderedDict()
        for x in self.cases:
            groups.setdefault((x[0], canon(x[1])), []).append(x)
        configs, where, texts = [], {}, {}
        n = 0
        for (rule, _), xs in groups.items():
            for i in range(0, len(xs), self.per):
                p = "%s/f%d%s" % (self.root, n, self.ext)
                n += 1
                t = ("export {};\n" if self.module else "") + self.prelude
                spans = []
                for j, x in enumerate(xs[i:i + self.per]):
                    code, rs = strip(x[2])
                    w = self.wrap % (j, "\x00")
                    k = w.index("\x00")
                    start = len(t) + k
                    t += w[:k] + code + w[k + 1:]
                    spans.append((start, start + len(code), code, rs, x))
                open(p, "w").write(t)
                where[p] = spans
                r = dict(name=rule)
                if xs[0][1] is not None:
                    r["options"] = xs[0][1]
                configs.append(dict(file_paths=[p], rules=[r]))
        R = vlib.headless(self.b, dict(version=2, configs=configs), ["-fix", "-fix-suggestions"], timeout=max(60, c.left()))
        if R["rc"]:
            c.violation("linting ends with exit status %d: %s" % (R["rc"], R["err"][-800:]), R["err"][-4000:])
            shutil.rmtree(self.root, ignore_errors=True)
            return
        got = collections.defaultdict(list)
        for t, m in R["frames"]:
            if t == 1:
                got[m["file_path"]].append(m)
        for p, spans in where.items():
            ms = sorted(got[p], key=lambda m: m["range"]["pos"])
            i = 0
            for start, end, code, rs, (rule, options, _, want, data, after) in spans:
                mine = []
                while i < len(ms) and ms[i]["range"]["pos"] < start:
                    c.violation("unexpected report before %r: %s" % (code, canon(ms[i])[:600]), ms[i])
                    i += 1
                while i < len(ms) and ms[i]["range"]["pos"] < end:
                    mine.append(ms[i])
                    i += 1
                c.validated += 1
                for m in mine:
                    shift(m, start)
                a = sorted((m["range"]["pos"], m["range"]["end"], m["message"]["id"]) for m in mine)
                b = sorted((rs[k][0], rs[k][1], x) for k, x in want)
                if a != b:
                    c.violation("%s%s on %r: expected %s, got %s" % (rule, "" if options is None else " with " + json.dumps(options), code, [(code[s:e][:60], k) for s, e, k in b], [(code[s:e][:60], k) for s, e, k in a]),
                                dict(rule=rule, options=options, prelude=self.prelude, code=code, want=b, got=mine, case=data))
                    continue
                for m in mine:
                    why = compare and compare(m, code, data)
                    if why:
                        c.violation("%s%s on %r: %s" % (rule, "" if options is None else " with " + json.dumps(options), code, why), dict(rule=rule, options=options, code=code, got=m, case=data))
                    if after:
                        for es in ([m["fixes"]] if m.get("fixes") else []) + [s["fixes"] for s in m.get("suggestions") or []]:
                            after(m, edit(code, es))
            for m in ms[i:]:
                c.violation("unexpected report after all programs: %s" % canon(m)[:600], m)
        c.sample(dict(rule=self.cases[0][0], code=strip(self.cases[c.rng.randrange(len(self.cases))][2])[0]) if self.cases else None)
        shutil.rmtree(self.root, ignore_errors=True)


def shift(m, by):
    if isinstance(m, dict):
        if set(m) == {"pos", "end"}:
            m["pos"] -= by
            m["end"] -= by
        else:
            for v in m.values():
                shift(v, by)
    elif isinstance(m, list):
        for v in m:
            shift(v, by)
