"""Renders the worlds and requests of Headless.tla to files and payloads, runs the real binary and reads its messages back
into the specification's alphabet."""
import collections, concurrent.futures as cf, copy, json, os, shutil
import vlib

MARKS = {  # one line each; X is replaced by the line's number, DEP by the imported function
    "ok": "export const okX = X;",
    "del": "delete [X, 2][0];",
    "throw": "function tX() { throw 'X'; }",
    "throwunknown": "function uX(/** @type {unknown} */ e: unknown) { throw e; }",
    "float": "Promise.resolve(X);",
    "voidfloat": "void Promise.resolve(X);",
    "iife": "(async () => { await Promise.resolve(X); })();",
    "await": "async function aX() { await X; }",
    "forin": "for (const kX in [X, 2]) { kX; }",
    "tmplnum": "export const sX = `a${X}`;",
    "tmplobj": "export const sX = `a${{ k: X }}`;",
    "brackets": "({ k: X })['k'];",
    "use": "DEP();",
    "awaituse": "async function bX() { await DEP(); }",
    "mismatch": "const nX: number = 'X';",
    "undef": "missingX;",
    "nullstr": "const zX: string = null;",
    "variance": "const yX: (a: string | number) => void = (a: string) => {};",
    "es2023": "[X].toSorted;",
    "implicit": "function hX(a) { return a; }",
    "noinit": "class PX { p: number; }",
    "catchany": "try { } catch (e) { e.pX; }",
    "dom": "document;",
    "badconst": "const qX = ;",
    "badparen": "if (Math.random() { }",
}
TSONLY = ("mismatch", "undef", "nullstr", "variance", "es2023", "implicit", "noinit", "catchany", "dom", "badconst", "badparen")
JSMARKS = dict(MARKS, nullstr="const zX = null;", variance="const yX = 1;", noinit="class PX { p; }", throwunknown="function uX(/** @type {unknown} */ e) { throw e; }", mismatch="/** @type {number} */ const nX = 'X';")
# rule and option set of the specification -> options
OPTIONS = {
    ("no-floating-promises", "strict"): dict(ignoreVoid=False),
    ("no-floating-promises", "lax"): dict(ignoreIIFE=True),
    ("only-throw-error", "strict"): dict(allowThrowingAny=False, allowThrowingUnknown=False),
    ("restrict-template-expressions", "strict"): dict(allowNumber=False),
}
OPTS = {"no-floating-promises": ["default", "strict", "lax"], "only-throw-error": ["default", "strict"], "restrict-template-expressions": ["default", "strict"],
        "no-array-delete": ["default"], "await-thenable": ["default"], "no-for-in-array": ["default"], "dot-notation": ["default"]}
GOOD = dict(target="es2022", module="esnext", moduleResolution="bundler", lib=["es2022"], types=[], strict=True, allowJs=True, noEmit=True, allowUnreachableCode=True)


def tsconfig(kind, extra=None):
    o = dict(GOOD)
    d = dict(compilerOptions=o)
    d.update(extra or {})
    if kind == "option":
        o["target"] = "es1999"
    elif kind == "unknown":
        o["bogusOption"] = True
    elif kind == "extends":
        d["extends"] = "./missing.base.json"
    elif kind == "conflict":
        o.update(sourceMap=True, inlineSourceMap=True)
    elif kind == "base":
        d["extends"] = "./base.json"
    t = json.dumps(d, indent=1)
    if kind == "json":
        t = t[:-1] + ' "broken" 1 ]'
    return t


class World:
    """Files of a case on disk; root is a fresh directory."""

    def __init__(self, case, root, layout=0):
        self.w, self.r, self.root, self.layout = case["w"], case["r"], root, layout
        n = len(self.w["projects"])
        self.pdir = {}
        for p in range(1, n + 1):
            self.pdir[p] = (self.pdir[p - 1] + "/in" if layout % 2 and p > 1 else root) + "/p%d" % p
        # project-less files: beside the projects, or inside the first one but excluded from it
        self.pdir[0] = root + "/loose" if not (layout & 2 and n and self.w["projects"][0] == "ok") else self.pdir[1] + "/loose"
        self.excl = self.pdir[0] != root + "/loose"
        self.path = {}
        for i, f in enumerate(self.w["files"], 1):
            self.path[i] = "%s/f%d.%s" % (self.pdir[f["proj"]], i, "js" if f["js"] else "ts")
        self.by = {v: k for k, v in self.path.items()}
        # the config file at fault
        self.cfg = {self.pdir[p] + ("/base.json" if self.w["projects"][p - 1] == "base" else "/tsconfig.json"): p for p in range(1, n + 1)}

    def text(self, i, marks, exp):
        f = self.w["files"][i - 1]
        t = [(JSMARKS if f["js"] else MARKS)[m].replace("X", str(k)).replace("DEP", "dep%d" % (f["dep"] or 0)) for k, m in enumerate(marks, 1)]
        if any(m in ("use", "awaituse") for m in marks):
            rel = os.path.relpath(self.path[f["dep"]], os.path.dirname(self.path[i]))
            rel = rel[:-3]
            t.append("import { val as dep%d } from '%s';" % (f["dep"], rel if rel.startswith(".") else "./" + rel))
        t.append("export function val() { return %s; }" % ("Promise.resolve(1)" if exp == "promise" else "1"))
        return "\n".join(t) + "\n"

    def write(self, overrides=False):
        """overrides: write the overridden contents instead of the original ones."""
        for p, d in self.pdir.items():
            os.makedirs(d, exist_ok=True)
            if p:
                with open(d + "/tsconfig.json", "w") as f:
                    f.write(tsconfig(self.w["projects"][p - 1], dict(exclude=["loose"]) if p == 1 and self.excl else None))
                    if self.w["projects"][p - 1] == "base":
                        with open(d + "/base.json", "w") as f:
                            json.dump(dict(compilerOptions=dict(moduleDetection="sometimes")), f)
        ov = {o["f"]: o for o in self.r["over"]} if overrides else {}
        for i, f in enumerate(self.w["files"], 1):
            s = ov.get(i, f)
            with open(self.path[i], "w") as h:
                h.write(self.text(i, s["marks"], s["exp"]))

    def rules(self, rs):
        out = []
        for x in rs:
            d = dict(name=x["n"])
            if (x["n"], x["o"]) in OPTIONS:
                d["options"] = OPTIONS[(x["n"], x["o"])]
            out.append(d)
        return out

    def payload(self, over=True):
        r = self.r
        if r["version"] == 1:
            return dict(files=[dict(file_path=self.path[f], rules=[x["n"] for x in e["rules"]]) for e in r["entries"] for f in e["files"]])
        d = dict(version=r["version"], configs=[dict(file_paths=[self.path[f] for f in e["files"]], rules=self.rules(e["rules"])) for e in r["entries"]])
        if r["syn"]:
            d["report_syntactic"] = True
        if r["sem"]:
            d["report_semantic"] = True
        if over and r["over"]:
            d["source_overrides"] = {self.path[o["f"]]: self.text(o["f"], o["marks"], o["exp"]) for o in r["over"]}
        return d

    def args(self):
        r = self.r
        return (["-fix"] if r["fix"] else []) + (["-fix-suggestions"] if r["sug"] else []) + (["-debug", "timings"] if r["timing"] else [])

    def run(self, binary, payload=None, args=None, env=None, timeout=120):
        e = dict(env or {})
        if self.r["suppress"]:
            e["OXLINT_TSGOLINT_DANGEROUSLY_SUPPRESS_PROGRAM_DIAGNOSTICS"] = "true"
        return vlib.headless(binary, self.payload() if payload is None else payload, self.args() if args is None else args, e, cwd=self.root, timeout=timeout)

    def read(self, res, disk=False):
        """Messages in the specification's alphabet: Counter of (k, f, r, l); f/l are -1 when they name nothing known."""
        texts = {}
        ov = {o["f"]: o for o in self.r["over"]}
        out = collections.Counter()
        for kind, d in res["frames"]:
            if kind != 1:
                continue
            fp = d.get("file_path")
            if d["kind"] == 0 or (d["kind"] == 1 and d["message"]["id"].startswith("TS")):
                f = self.by.get(fp, -1)
                l = -1
                if f > 0 and d.get("range"):
                    if f not in texts:
                        s = ov.get(f, self.w["files"][f - 1])
                        texts[f] = self.text(f, s["marks"], s["exp"]).encode()
                    if 0 <= d["range"]["pos"] <= d["range"]["end"] <= len(texts[f]):
                        l = texts[f][:d["range"]["pos"]].count(b"\n") + 1
                out[("rule" if d["kind"] == 0 else "ts", f, d.get("rule") if d["kind"] == 0 else d["message"]["id"], l, "fixes" in d, "suggestions" in d)] += 1
            else:
                out[("tsconfig", self.cfg.get(fp, -1), d["message"]["id"], 0, False, False)] += 1
        return out


INV = "INVARIANTS Outcome RefusedSilently TimingOnce OnlyRequested OnlyConfigured BrokenSilent ErrorsAsAsked Emit\n"


def model(c, families=(), cases=(), name="cases"):
    """Evaluates the specification: families are exhaustively explored named case sets, cases are given ones.
    Returns [(case, expected outcome)], the outcome as TLC emitted it."""
    out = []
    for fam in families:
        _, em = c.tlc("Headless", "SPECIFICATION Spec\nCONSTANT Cases <- %s\n%s" % (fam, INV))
        seen = {}
        for o in em:
            k = vlib.canon(o["c"])
            if k in seen and expected(seen[k][1]) != expected(o):
                raise vlib.CheckError("the specification's outcome is not unique")
            seen[k] = (dict(id="%s-%d" % (fam, len(seen)), w=o["c"][0], r=o["c"][1]), o)
        out += seen.values()
    if cases:
        p = os.path.join(c.tmp, name + ".ndjson")
        by = {}
        with open(p, "w") as f:
            for x in cases:
                by[x["id"]] = x
                f.write(json.dumps(dict(id=x["id"], w=x["w"], r=x["r"])) + "\n")
        _, em = c.tlc("Headless", "SPECIFICATION SpecOne\nCONSTANT Cases <- FromFile\n%s" % INV, env={"CASES": p})
        if len(em) != len(by):
            raise vlib.CheckError("%d outcomes for %d cases" % (len(em), len(by)))
        out += [(by[o["id"]], o) for o in em]
    return out


def expected(o, kinds=("rule", "ts", "tsconfig"), edits=True):
    return norm(collections.Counter({(k, f, r, l, x, s): n for k, f, r, l, n, x, s in o["out"]}), kinds, edits)


def norm(cnt, kinds=("rule", "ts", "tsconfig"), edits=True):
    """Restricts to the given kinds; of tsconfig messages only presence counts."""
    out = collections.Counter()
    for k, n in cnt.items():
        if k[0] in kinds:
            key = k if edits else k[:4]
            out[key] = 1 if k[0] == "tsconfig" else out[key] + n
    return out


def conform(c, binary, pairs, kinds=("rule", "ts", "tsconfig"), edits=False, extra=None, what=""):
    """Runs every case and compares what the real program delivers with the specification's outcome."""
    exp = {x["id"]: o for x, o in pairs}
    for case, w, res in run_all(c, binary, [x for x, _ in pairs], lambda case, w: run_one(w, binary, case, extra)):
        o = exp[case["id"]]
        r, more = res
        c.validated += 1
        for m in more:
            c.violation(what + m, dict(case=case, payload=w.payload(), messages=show(w.read(r))))
        msg = None
        if r["rest"] is not None:
            msg = "the output does not end with a complete message: %r" % r["rest"][:200]
        elif (r["rc"] != 0) != (o["fin"] == ["error"]):
            msg = "exit status %d: %s" % (r["rc"], r["err"][-600:])
        elif [k for k, _ in r["frames"] if k != 1] != [dict(error=0, timing=2)[x] for x in o["fin"]]:
            msg = "kinds of messages %s, expected to end with %s" % ([k for k, _ in r["frames"]][-5:], o["fin"])
        else:
            got, want = norm(w.read(r), kinds, edits), expected(o, kinds, edits)
            if got != want:
                msg = "missing %s, unexpected %s" % (show(want - got), show(got - want))
        c.count("messages", len(r["frames"]))
        c.sample(dict(request=w.r, messages=show(w.read(r))[:8]))
        if msg:
            c.violation("%s%s; request %s" % (what, msg, json.dumps(w.payload())[:700]), dict(case=case, payload=w.payload(), texts={w.path[i]: w.text(i, f["marks"], f["exp"]) for i, f in enumerate(w.w["files"], 1)}, problem=msg))


def run_one(w, binary, case, extra):
    r = w.run(binary)
    return r, (extra(case, w, r) or []) if extra else []


def run_all(c, binary, cases, fn, procs=8, layouts=4):
    """fn(case, world) for each case in a fresh directory, in parallel; yields (case, world, result)."""
    def one(ic):
        i, case = ic
        root = os.path.join(c.tmp, "w%d" % i)
        w = World(case, root, case.get("layout", 0))
        w.write()
        try:
            return case, w, fn(case, w)
        finally:
            shutil.rmtree(root, ignore_errors=True)
    with cf.ThreadPoolExecutor(procs) as ex:
        yield from ex.map(one, enumerate(cases))


RULES = list(OPTS)
MARKN = [m for m in MARKS]


def random_case(rng, id, nproj=3, nfiles=5, broken=0.0, over=False, errors=True, flags=True, dup=True, v1=0.0):
    np = rng.randint(0, nproj)
    kinds = ["json", "option", "unknown", "extends", "conflict", "base"]
    projects = [rng.choice(kinds) if rng.random() < broken else "ok" for _ in range(np)]
    nf = rng.randint(1, nfiles)
    marks = [m for m in MARKN if m not in ("use", "awaituse") and (errors or m not in TSONLY)]

    def content(dep):
        # at most one syntax error, at the end: recovery must not swallow other marks
        ms = [rng.choice([m for m in marks if m not in ("badconst", "badparen")] + (["use", "use", "awaituse"] if dep else [])) for _ in range(rng.randint(0, 6))]
        if errors and rng.random() < .3:
            ms.append(rng.choice(["badconst", "badparen"]))
        return ms
    files = []
    for i in range(nf):
        dep = rng.randint(1, nf)
        if dep == i + 1:
            dep = 0
        proj = rng.randint(0, np)
        # an unreadable tsconfig cannot allow JavaScript: whose such a file is then is not specified
        js = rng.random() < .2 and (proj == 0 or projects[proj - 1] != "json")
        files.append(dict(proj=proj, marks=content(dep), dep=dep, exp=rng.choice(["promise", "number"]), js=js))
    ov = []
    if over:
        for f in range(1, nf + 1):
            if rng.random() < .5:
                ov.append(dict(f=f, marks=content(files[f - 1]["dep"]), exp=rng.choice(["promise", "number"])))
    isv1 = rng.random() < v1
    entries = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        fs = [f for f in range(1, nf + 1) if rng.random() < .6]
        rng.shuffle(fs)
        if isv1:
            fs = [rng.randint(1, nf)]
        rs = [dict(n=n, o="default" if isv1 else rng.choice(OPTS[n])) for n in rng.sample(RULES, rng.randint(0, len(RULES)))]
        entries.append(dict(files=fs, rules=rs))
    fl = lambda p=.5: flags and not isv1 and rng.random() < p
    r = dict(entries=entries, over=[] if isv1 else ov, syn=fl(), sem=fl(), timing=flags and rng.random() < .4, fix=flags and rng.random() < .4, sug=flags and rng.random() < .4,
             suppress=broken > 0 and rng.random() < .4, version=1 if isv1 else 2)
    return dict(id=id, w=dict(projects=projects, files=files), r=r, layout=rng.randrange(4))


def show(cnt):
    return sorted(map(list, cnt.items()), key=str)
