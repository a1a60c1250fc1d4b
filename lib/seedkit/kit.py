"""Builds the real tsgolint from /repo's working tree (typescript-go's pinned revision from the module cache, with the
repository's patches laid over it) and talks to it.  Everything is built in, and removed with, a scratch directory."""
import atexit, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile

REPO = os.environ.get("DEMO_REPO", "/repo")
BUILD = tempfile.mkdtemp(prefix="demo-")
atexit.register(lambda: shutil.rmtree(BUILD, ignore_errors=True))
TSGO = "github.com/microsoft/typescript-go"
HEAVY = ["checker", "tsoptions", "modulespecifiers", "printer", "transformers/...", "compiler", "ls/...", "format",
         "diagnosticwriter", "project/...", "vfs/wrapvfs", "vfs/cachedvfs", "collections"]
SUMS = ['github.com/dlclark/regexp2/v2 v2.7.1 h1:yqDtwI1ptXXvEUNpYTk2lad4jLtAcKqkzepn4savSk4=', 'github.com/dlclark/regexp2/v2 v2.7.1/go.mod h1:avUrQvPaLz2DrFNHJF0taWAFFX2C1GMSSoeiqFjcBmU=', 'golang.org/x/mod v0.39.0 h1:UF5zwQdCRRUpHfyPwr7d4UrGiVeldIsogtzWVnczL74=', 'golang.org/x/mod v0.39.0/go.mod h1:bvIbwjQ0HUFFf5AKukeeYQG4ZBUG9yxQbR9aEweIwYY=', 'golang.org/x/sync v0.22.0 h1:SZjpbeLmrCk4xhRSZFNZW5gFUeCeFgjekvI/+gfScek=', 'golang.org/x/sync v0.22.0/go.mod h1:9xrNwdLfx4jkKbNva9FpL6vEN7evnE43NNNJQ2LF3+0=', 'golang.org/x/sys v0.47.0 h1:o7XGOvZQCADBQQ4Y7VNq2dRWQR7JmOUW8Kxx4ZsNgWs=', 'golang.org/x/sys v0.47.0/go.mod h1:4GL1E5IUh+htKOUEOaiffhrAeqysfVGipDYzABqnCmw=', 'golang.org/x/text v0.41.0 h1:vz/seA0lnX87Othu2f/0L24RcgrXD9/YFTSuGjj3rH8=', 'golang.org/x/text v0.41.0/go.mod h1:jvf1O8ajNzZqhSrQBPbutR/EB83Cc0CFrezNQIwbb5M=', 'golang.org/x/tools v0.49.0 h1:3NI7VXzL9+1WZD52Dx2ttoPwD5DWrFGpl9mFZDlmisI=', 'golang.org/x/tools v0.49.0/go.mod h1:SJNXV9DBKT0UbdttsQjbfJlAE/q+y36++zo3uL3N0Oo=']


class BuildError(Exception):
    pass


def modroot():
    for c in (os.environ.get("GOMODCACHE_REAL"), os.path.expanduser("~/go/pkg/mod"), "/root/go/pkg/mod"):
        if c and os.path.isdir(c):
            return c
    raise BuildError("no Go module cache")


def goroot():
    for g in ("/opt/veriftools/go1.26.10",):
        if os.path.isdir(g):
            return g
    raise BuildError("no Go toolchain")


def esc(s):
    return re.sub(r"[A-Z]", lambda m: "!" + m.group(0).lower(), s)


def write_if_changed(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        if open(path, "rb").read() == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def prepare(extra=None):
    """Writes overlay.json, m.mod, m.sum; returns (env, overlay path).  extra: {virtual path in /repo: real file}."""
    os.makedirs(BUILD, exist_ok=True)
    mr = modroot()
    gomod = open(os.path.join(REPO, "go.mod")).read()
    m = re.search(re.escape(TSGO) + r" (v\S+)", gomod)
    if not m:
        raise BuildError("go.mod does not name typescript-go")
    ver = m.group(1)
    D = os.path.join(mr, esc(TSGO) + "@" + ver)
    if not os.path.isdir(D):
        raise BuildError("no " + D)
    # patched copies
    patches = sorted(glob.glob(os.path.join(REPO, "patches", "*.patch")))
    text = "".join(open(p, encoding="utf-8", errors="surrogateescape").read() for p in patches)
    files = sorted(set(re.findall(r"^(?:\+\+\+ b/|--- a/)(\S+)", text, re.M)))
    key = hashlib.sha256((ver + text).encode("utf-8", "surrogateescape")).hexdigest()
    T = os.path.join(BUILD, "ts")
    stamp = os.path.join(BUILD, "ts.key")
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        shutil.rmtree(T, ignore_errors=True)
        for f in files:
            src = os.path.join(D, f)
            if os.path.exists(src):
                os.makedirs(os.path.dirname(os.path.join(T, f)), exist_ok=True)
                shutil.copyfile(src, os.path.join(T, f))
        for p in patches:
            r = subprocess.run(["patch", "-p1", "-s", "-f", "-i", p], cwd=T, capture_output=True, text=True)
            if r.returncode:
                raise BuildError("patch %s does not apply:\n%s%s" % (p, r.stdout, r.stderr))
        with open(stamp, "w") as f:
            f.write(key)
    rep = {}
    for r, _, fs in os.walk(T):
        for f in fs:
            p = os.path.join(r, f)
            rel = os.path.relpath(p, T)
            if f.endswith((".orig", ".rej")) or rel.startswith("internal/collections/"):
                continue
            rep[os.path.join(D, rel)] = p
    # `just init` copies typescript-go's internal/collections into the repository
    for f in os.listdir(os.path.join(D, "internal/collections")):
        if f.endswith("_test.go") or not f.endswith(".go"):
            continue
        src = os.path.join(D, "internal/collections", f)
        if os.path.exists(os.path.join(T, "internal/collections", f)):
            src = os.path.join(T, "internal/collections", f)
        if not os.path.exists(os.path.join(REPO, "internal/collections", f)):
            rep[os.path.join(REPO, "internal/collections", f)] = src
    for k, v in (extra or {}).items():
        rep[os.path.join(REPO, k)] = v
    overlay = os.path.join(BUILD, "overlay.json")
    write_if_changed(overlay, json.dumps({"Replace": rep}, indent=1, sort_keys=True))
    add = []
    for m in re.finditer(r"^\s*(?:require )?([\w./-]+) (v\d\S+)", gomod, re.M):
        n, v = m.groups()
        d = os.path.join(mr, esc(n) + "@" + v)
        if TSGO + "/shim" not in n and os.path.isdir(d):
            add.append("replace %s => %s" % (n, d))
    write_if_changed(os.path.join(BUILD, "m.mod"), gomod + "\n" + "\n".join(add) + "\n")
    sums = set(open(os.path.join(REPO, "go.sum")).read().splitlines())
    sums |= set(SUMS)
    write_if_changed(os.path.join(BUILD, "m.sum"), "\n".join(sorted(x for x in sums if x)) + "\n")
    # A module cache under another name, so that the go command accepts an overlay over the real one
    gmc = os.path.join(BUILD, "gomodcache")
    os.makedirs(gmc, exist_ok=True)
    link = os.path.join(gmc, "cache")
    if not os.path.islink(link):
        os.symlink(os.path.join(mr, "cache"), link)
    gr = goroot()
    env = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
    env.update(GOROOT=gr, PATH=gr + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), GOTOOLCHAIN="local", GOPROXY="off",
               CGO_ENABLED="0", GOWORK="off", GOMODCACHE=gmc, GOFLAGS="-mod=mod -modfile=" + BUILD + "/m.mod", GOGC="500",
               HOME=os.environ.get("HOME", "/root"), GONOSUMDB="*", GOSUMDB="off")
    return env, overlay


def gcflags():
    fl = "-N -l -dwarf=false"
    return ["-gcflags=%s/internal/%s=%s" % (TSGO, h, fl) for h in HEAVY] + [
        "-gcflags=%s/shim/...=%s" % (TSGO, fl), "-gcflags=github.com/typescript-eslint/tsgolint/...=%s" % fl]


def build():
    env, overlay = prepare()
    b = os.path.join(BUILD, "tsgolint.bin")
    r = subprocess.run(["go", "build", "-overlay", overlay] + gcflags() + ["-ldflags=-s -w", "-o", b, "./cmd/tsgolint"], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode:
        sys.exit("build failed:\n" + r.stdout + r.stderr)
    return b


def gotest(files, pkg, run="TestDemo", timeout=250, args=()):
    """files: {virtual path below the repository: real file}; runs a test of pkg with them laid over it."""
    env, overlay = prepare(files)
    return subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "%ds" % timeout, "-overlay", overlay] + gcflags() + ["-run", run, *args, pkg], cwd=REPO, env=env).returncode


BIN = None


def headless(payload, args=(), env=None, timeout=100):
    """(exit status, [(kind, message)], stderr) of `tsgolint headless`."""
    global BIN
    BIN = BIN or build()
    e = {k: v for k, v in os.environ.items() if k not in ("OXC_LOG", "GOMAXPROCS")}
    e.update(env or {})
    data = payload if isinstance(payload, bytes) else json.dumps(payload).encode()
    try:
        p = subprocess.run([BIN, "headless", *args], input=data, capture_output=True, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        return -9, [], "no answer"
    o, i, frames = p.stdout, 0, []
    while i < len(o):
        if i + 5 > len(o):
            return p.returncode, frames + [(-1, "cut off")], p.stderr.decode("utf-8", "replace")
        n, t = struct.unpack_from("<IB", o, i)
        try:
            frames.append((t, json.loads(o[i + 5:i + 5 + n].decode())))
        except ValueError:
            return p.returncode, frames + [(-1, "cut off")], p.stderr.decode("utf-8", "replace")
        i += 5 + n
    return p.returncode, frames, p.stderr.decode("utf-8", "replace")


def lay(files):
    """Writes {relative path: text} to a fresh directory; returns its path."""
    d = tempfile.mkdtemp(dir=BUILD)
    for f, t in files.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t if isinstance(t, str) else json.dumps(t))
    return d


TS = {"compilerOptions": {"strict": True, "target": "es2022", "lib": ["es2022", "esnext.disposable"], "module": "esnext", "moduleResolution": "bundler", "types": [], "noEmit": True}}


def lint(code, rule, options=None, name="a.ts", tsconfig=TS, more={}, args=("-fix", "-fix-suggestions")):
    """The rule's reports on one file: [(id, text of the range, fixes, suggestions)]."""
    d = lay({name: code, "tsconfig.json": tsconfig, **more})
    p = os.path.join(d, name)
    r = {"name": rule} if options is None else {"name": rule, "options": options}
    rc, fr, err = headless({"version": 2, "configs": [{"file_paths": [p], "rules": [r]}]}, args)
    if rc:
        sys.exit("linting failed: %s" % err[-1000:])
    b = code.encode()
    return [(m["message"]["id"], b[m["range"]["pos"]:m["range"]["end"]].decode(), m.get("fixes"), m.get("suggestions")) for k, m in fr if k == 1]


def ids(*a, **k):
    return sorted((x[0], x[1]) for x in lint(*a, **k))


def fixed(code, rule, options=None, **k):
    """The code after applying all its fixes."""
    es = sorted(((f["range"]["pos"], f["range"]["end"], f["text"]) for x in lint(code, rule, options, **k) for f in x[2] or []), reverse=True)
    b = code.encode()
    for s, e, t in es:
        b = b[:s] + t.encode() + b[e:]
    return b.decode()


def expect(got, want, what=""):
    if got != want:
        sys.exit("%s\n got: %r\nwant: %r" % (what, got, want))
