"""C19: the command line.  Cli.tla's runs replayed against the real program; every box printed for many programs compared with Box.tla's."""
import sys, os, re, collections, random, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import corpus

NOTE = """Cli.tla: project layouts over eleven files, argument vectors over ten --debug values and seven ways to name the tsconfig. Box.tla: texts of up to 5 characters
(definitions), corpus and generated programs with all line terminators (replay). Timing figures and colours are not judged."""
CFG_CLI = "SPECIFICATION Spec\nCONSTANTS\n Worlds <- %s\n Argvs <- %s\nINVARIANTS OwnFilesOnly AllOwnFiles NothingOnError Ends Emit\n"
CFG_BOX = "SPECIFICATION %s\nCONSTANTS\n MaxLen = %d\n Most = %d\n Alphabet = {0, 1, 2, 3, 4, 7}\nINVARIANT %s\n"
OPTS = dict(target="esnext", module="esnext", moduleResolution="bundler", moduleDetection="force", types=[], noEmit=True, strict=True)
MARKS = {"r/a.ts": 1, "r/sub/b.ts": 2, "r/sub/deep/e.ts": 3, "r/node_modules/m/index.ts": 5, "r/sub/node_modules/k/index.ts": 7, "r/node_modulesx/c.ts": 4, "r/x/node_modules.ts": 0,
         "rx/d.ts": 6, "out/o.ts": 8, "r/types.d.ts": 0, "r/sub-b/f.ts": 1}


def tsconfig(kind, up):
    d = dict(compilerOptions=dict(OPTS))
    if kind == "broken":
        return '{ "compilerOptions": '
    if kind == "conflict":
        d["compilerOptions"].update(sourceMap=True, inlineSourceMap=True)
    if kind == "nofiles":
        d["include"] = ["nothing/*"]
    if kind == "only-a":
        d["files"] = ["a.ts"]
    if kind == "outside":
        d["include"] = ["**/*", up + "rx/*", up + "out/*"]
    if kind == "modules":
        d["include"], d["exclude"] = ["**/node_modules/*/*"], []
    return json.dumps(d)


def tree(root, w):
    for f, n in MARKS.items():
        imp = w["imports"] if f == "r/a.ts" else w["simports"] if f == "r/sub/b.ts" else []
        t = "await 1;\n" * n
        for g in imp:
            nm = re.search(r"node_modules/(\w+)/index", g)
            rel = nm.group(1) if nm else os.path.relpath(g, os.path.dirname(f)).removesuffix(".ts")
            t += "import '%s';\n" % (rel if nm or rel.startswith(".") else "./" + rel)
        put(root, f, t if f.endswith(".d.ts") else t + "export {};\n")
    for d, k, up in (("r", w["root"], "../"), ("r/sub", w["sub"], "../../")):
        if k != "absent":
            put(root, d + "/tsconfig.json", tsconfig(k, up))


def put(root, p, t):
    p = os.path.join(root, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", newline="") as f:
        f.write(t)


SGR = re.compile(rb"\x1b\[[0-9;:]*m")


def plain(o):
    # the underlined part becomes \x01...\x02, all other control sequences go
    return SGR.sub(b"", re.sub(rb"\x1b\[4m(.*?)\x1b\[0m", b"\x01\\1\x02", o, flags=re.S))


HEAD = re.compile(rb"^  (\S+)  \xe2\x80\x94 (.*)$", re.S)
LOC = re.compile(rb"^  \xe2\x95\xad\S*\( (.*):(\d+):(\d+) \)")
ROW = re.compile(rb"^  \xe2\x94\x82 +(\d+) \xe2\x94\x82  (.*)$", re.S)
BAR, END = b"    \xe2\x94\x82", b"  \xe2\x95\xb0"


def boxes(o):
    """What is printed on stdout: ([(rule, message, file, line, col, rows or None if too big)], other lines); None if it does not parse."""
    out, other = [], []
    L = plain(o).split(b"\n")
    i = 0
    while i < len(L):
        m = HEAD.match(L[i])
        if not m:
            if L[i]:
                other.append(L[i].decode("utf-8", "replace"))
            i += 1
            continue
        rule, msg = m.groups()
        i += 1
        while i < len(L) and L[i].startswith(BAR):
            msg += b"\n" + L[i][len(BAR) + len(rule) + 1:]
            i += 1
        m = LOC.match(L[i]) if i < len(L) else None
        if not m:
            return None
        f, l, c = m.groups()
        i += 1
        rows = []
        while i < len(L) and not L[i].startswith(END):
            r = ROW.match(L[i])
            if r:
                rows.append((int(r.group(1)), r.group(2)))
            elif b"range is too big" in L[i]:
                rows = None
            else:
                return None
            i += 1
        if i == len(L):
            return None
        out.append((rule.decode(), msg.decode("utf-8", "replace"), f.decode(), int(l), int(c), None if rows is None else tuple(rows)))
        i += 1
    return out, other


FOUND = re.compile(r"^Found (\d+) (errors?) \(linted (\d+) (files?) with (\d+) rules? in \S+ using (\d+) threads?\)$")


def cli(b, args, cwd, procs=None):
    e = {k: v for k, v in os.environ.items() if k not in ("OXC_LOG", "GOMAXPROCS")}
    if procs:
        e["GOMAXPROCS"] = str(procs)
    try:
        return subprocess.run([b, *args], cwd=cwd, env=e, capture_output=True, stdin=subprocess.DEVNULL, timeout=200)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(args, -9, b"", b"no answer within 200 s")


def runs(c, b):
    _, q = c.tlc("Cli", CFG_CLI % ("FewWorlds", "PlainArgvs"))
    _, q2 = c.tlc("Cli", CFG_CLI % ("TwoWorlds", "Argv"))
    if c.thorough:
        cases = q + q2
    else:
        cases = c.rng.sample(sorted(q, key=canon), 900) + c.rng.sample(sorted(q2, key=canon), 350)

    def one(ix):
        i, x = ix
        root = os.path.join(c.tmp, "node_modules/w%d" % i if x["w"]["within"] else "cli%d" % i)
        tree(root, x["w"])
        a, r = x["a"], root + "/r"
        args = []
        if a["ts"] != "none":
            args += ["-tsconfig", {"here": "tsconfig.json", "abs": r + "/tsconfig.json", "sub": "sub/tsconfig.json", "dotsub": "./x/../sub/tsconfig.json", "missing": "tsconfig.nope.json", "folder": "sub"}[a["ts"]]]
        if a["debug"] != "none":
            args += ["--debug=" + a["debug"]] if i % 2 else ["-debug", a["debug"]]
        args += ["-list-files"] * a["list"] + ["-singleThreaded"] * a["st"] + ["--help" if i % 2 else "-h"] * a["help"]
        p = cli(b, args, r, 3)
        shutil.rmtree(root, ignore_errors=True)
        bad = []
        if p.returncode != x["exit"]:
            bad.append("exit status %d, not %d" % (p.returncode, x["exit"]))
        if x["exit"] or x["help"]:
            if plain(p.stdout).strip():
                bad.append("unexpected output %r" % p.stdout[:200])
            t = p.stderr.decode("utf-8", "replace").split("type-aware", 1)[-1].strip()
            if not re.search(r"Usage|usage" if x["help"] else r"\w{4}", t):
                bad.append("nothing explained on standard error: %r" % p.stderr[:300])
            return x, args, p, bad
        y = boxes(p.stdout)
        if y is None:
            return x, args, p, bad + ["cannot read the output %r" % p.stdout[:300]]
        base = "r/sub" if a["ts"] in ("sub", "dotsub") else "r"
        rel = {f: os.path.relpath(f, base) for f in x["chosen"]}
        want = collections.Counter(("await-thenable", rel[f], l, 1) for f in x["chosen"] for l in range(1, MARKS[f] + 1))
        got = collections.Counter((m[0], m[2], m[3], m[4]) for m in y[0])
        if got != want:
            bad.append("reports missing %s, unexpected %s" % (sorted((want - got).items())[:5], sorted((got - want).items())[:5]))
        f = [m for m in map(FOUND.match, y[1]) if m]
        listed = sorted(l[len("Found file: "):] for l in y[1] if l.startswith("Found file: "))
        if listed != (sorted(rel.values()) if x["list"] else []):
            bad.append("listed %s, not %s" % (listed, sorted(rel.values())))
        if len(f) != 1 or (int(f[0][1]), int(f[0][3]), int(f[0][6])) != (x["errors"], len(x["chosen"]), 1 if a["st"] else 3) or (f[0][2] == "error") != (x["errors"] == 1) or (f[0][4] == "file") != (len(x["chosen"]) == 1):
            bad.append("summary %r, not %d reports in %d files by %d threads" % ([l for l in y[1] if l.startswith("Found ") and "file:" not in l], x["errors"], len(x["chosen"]), 1 if a["st"] else 3))
        if ("Rule timings:" in y[1]) != (x["timings"] and bool(x["chosen"])):
            bad.append("timings %sprinted" % ("" if "Rule timings:" in y[1] else "not "))
        return x, args, p, bad
    with cf.ThreadPoolExecutor(8) as ex:
        for x, args, p, bad in ex.map(one, enumerate(cases)):
            c.validated += 1
            c.count("command lines")
            c.sample(dict(args=args, world=x["w"], exit=x["exit"], linted=x["chosen"]))
            if bad:
                c.violation("tsgolint %s in %s: %s" % (args, canon(x["w"]), "; ".join(bad)), dict(case=x, out=p.stdout.decode("utf-8", "replace")[-3000:], err=p.stderr.decode("utf-8", "replace")[-2000:]))


def klass(ch):
    n = len(ch.encode("utf-8", "surrogatepass"))
    if ch in "\r\n":
        return 2 if ch == "\r" else 3
    if ch in "\u2028\u2029":
        return 4
    if n == 1:
        return 1 if ch in "\t\x0b\x0c " else 0
    if n == 2:
        return 8 if ch in "\x85\xa0" else 5
    if n == 3:
        return 9 if ch.isspace() else 6
    return 7


def gen(rng):
    ABC = ["x", "yy", " ", "\t", "  ", "\n", "\n", "\r\n", "\r", "\u2028", "\u2029", "é", "\U0001F600", "中", "*", "/ "]
    word = lambda n: "".join(rng.choice(ABC) for _ in range(rng.randint(0, n)))
    safe = lambda t: t.replace("*/", "*").replace("/*", "/")
    pre = "/*%s*/" % safe(word(9)) if rng.random() < .8 else ""
    nl = rng.choice(["", "\n", "\n" + rng.choice(["  ", "\t", "\t\t"]), "\r\n  ", "\r", "\u2028 "])
    body = safe(word(rng.choice([4, 12, 40])))
    post = rng.choice(["", ";", ";\n", ";\r\n\r\n", "\n\n\n", " /*%s*/" % safe(word(6))])
    two = ""
    if rng.random() < .3:
        two = "\n" * rng.randint(1, 3) + "await (2)" + rng.choice(["", "\n", " ;"])
    return pre + nl + "await (1/*%s*/)" % body + post + two


def printed(c, b):
    c.tlc("Box", CFG_BOX % ("SpecSmall", 6 if c.thorough else 5, 3, "Sane"), env={"LOG": ""})
    skip = {int(k.split(":")[1]) for f in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] for k in f["keys"] if k.startswith("corpus:")}
    S = [dict(s, tsconfig="tsconfig.minimal.json") for s in corpus.snippets() if not s.get("files") and s["i"] not in skip]
    S = c.rng.sample(S, len(S) if c.thorough else 1300)
    for s in S[::3]:
        s["code"] = s["code"].replace("\n", c.rng.choice(["\r\n", "\r", "\u2028"]))
    n = 20000 if c.thorough else 1500
    G = [dict(code=gen(c.rng), name="file.ts", i=i, tsconfig="tsconfig.minimal.json") for i in range(n)]
    log, meta = [], []
    for tag, items in (("corpus", S), ("generated", G)):
        root = os.path.join(c.tmp, tag)
        by = corpus.lay(root, items)
        for d in sorted({os.path.dirname(p) for p in by}):
            fs = sorted(p for p in by if os.path.dirname(p) == d)
            for p in fs:
                with open(p, "w", newline="") as f:
                    f.write(by[p]["code"])
            names = sorted({s["rule"] for s in corpus.snippets()})
            R = headless(b, dict(version=2, configs=[dict(file_paths=fs, rules=[dict(name=r) for r in names])]), cwd=d)
            P = cli(b, [], d)
            if R["rc"] or P.returncode:
                c.violation("%s: headless ends with %d, the command line with %d: %s" % (tag, R["rc"], P.returncode, (R["err"] + P.stderr.decode("utf-8", "replace"))[-800:]), tag)
                continue
            y = boxes(P.stdout)
            if y is None:
                c.violation("%s: cannot read what the command line printed" % tag, P.stdout[-3000:].decode("utf-8", "replace"))
                continue
            frames = [m for t, m in R["frames"] if t == 1]
            f = [m for m in map(FOUND.match, y[1]) if m]
            if len(f) != 1 or int(f[0][1]) != len(frames) or int(f[0][3]) != len(fs):
                c.violation("%s: summary %r after %d reports in %d files" % (tag, y[1][-3:], len(frames), len(fs)), y[1][-5:])
            seen = {}
            for m in frames:
                k = (m["file_path"], m["range"]["pos"], m["range"]["end"])
                if k not in seen:
                    t = by[k[0]]["code"]
                    seen[k] = len(log)
                    log.append(dict(t=[klass(ch) for ch in t], s=k[1], e=k[2]))
            meta.append((tag, d, by, frames, seen, y[0]))
    want = {}
    keys = list(range(len(log)))
    parts = [keys[i::8] for i in range(8)]

    def ask(ks):
        lp = tempfile.NamedTemporaryFile("w", dir=c.tmp, delete=False, suffix=".log")
        with lp:
            lp.write("".join(canon(log[k]) + "\n" for k in ks))
        _, out = c.tlc("Box", CFG_BOX % ("SpecLog", 0, 13, "Emit"), env={"LOG": lp.name}, workers=1)
        return {ks[x["k"] - 1]: x["box"] for x in out}
    with cf.ThreadPoolExecutor(8) as ex:
        for w in ex.map(ask, parts):
            want.update(w)
    if len(want) != len(log):
        raise CheckError("Box.tla answered %d of %d" % (len(want), len(log)))

    def rows(t, bx):
        if bx["big"]:
            return None
        return tuple((n, t[a:z] if u == v else t[a:u] + b"\x01" + t[u:v] + b"\x02" + t[v:z]) for n, a, z, u, v in bx["rows"])
    for tag, d, by, frames, seen, got in meta:
        exp = collections.Counter()
        for m in frames:
            bx = want[seen[m["file_path"], m["range"]["pos"], m["range"]["end"]]]
            t = by[m["file_path"]]["code"].encode("utf-8", "surrogatepass")
            exp[m["rule"], m["message"]["description"], os.path.relpath(m["file_path"], d), bx["line"], bx["col"], rows(t, bx)] += 1
        got = collections.Counter(got)
        c.count("boxes compared", sum(exp.values()))
        c.validated += 1
        if exp != got:
            a, z = sorted((exp - got).items(), key=repr), sorted((got - exp).items(), key=repr)
            c.violation("%s programs: %d boxes differ, first expected %r, got %r" % (tag, len(a) + len(z), a[:1], z[:1]), dict(expected=[repr(v) for v in a[:20]], got=[repr(v) for v in z[:20]]))


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    printed(c, b)
    runs(c, b)


main("C19", body)
