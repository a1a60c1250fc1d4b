"""Builds the real tsgolint code (all of it, including what /opt/vp/build.sh leaves out) from /repo's working tree.

The typescript-go submodule is absent here, but the pinned, unpatched revision is in the Go module cache.  The patches
in /repo/patches are applied to copies of the few files they touch, and `go build -overlay` lays those copies over the
module cache.  Nothing is written to /repo or to the module cache.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
TSGO = "github.com/microsoft/typescript-go"
HEAVY = ["checker", "tsoptions", "modulespecifiers", "printer", "transformers/...", "compiler", "ls/...", "format",
         "diagnosticwriter", "project/...", "vfs/wrapvfs", "vfs/cachedvfs", "collections"]


class BuildError(Exception):
    pass


def modroot():
    for c in (os.environ.get("GOMODCACHE_REAL"), os.path.expanduser("~/go/pkg/mod"), "/root/go/pkg/mod"):
        if c and os.path.isdir(c):
            return c
    raise BuildError("no Go module cache")


def goroot():
    for g in ("/opt/veriftools/go1.26.10",):
        if os.path.isdir(g):
            return g
    raise BuildError("no Go toolchain")


def esc(s):
    return re.sub(r"[A-Z]", lambda m: "!" + m.group(0).lower(), s)


def write_if_changed(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        if open(path, "rb").read() == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def prepare(extra=None):
    """Writes overlay.json, m.mod, m.sum; returns (env, overlay path).  extra: {virtual path in /repo: real file}."""
    os.makedirs(BUILD, exist_ok=True)
    mr = modroot()
    gomod = open(os.path.join(REPO, "go.mod")).read()
    m = re.search(re.escape(TSGO) + r" (v\S+)", gomod)
    if not m:
        raise BuildError("go.mod does not name typescript-go")
    ver = m.group(1)
    D = os.path.join(mr, esc(TSGO) + "@" + ver)
    if not os.path.isdir(D):
        raise BuildError("no " + D)
    # patched copies
    patches = sorted(glob.glob(os.path.join(REPO, "patches", "*.patch")))
    text = "".join(open(p, encoding="utf-8", errors="surrogateescape").read() for p in patches)
    files = sorted(set(re.findall(r"^(?:\+\+\+ b/|--- a/)(\S+)", text, re.M)))
    key = hashlib.sha256((ver + text).encode("utf-8", "surrogateescape")).hexdigest()
    T = os.path.join(BUILD, "ts")
    stamp = os.path.join(BUILD, "ts.key")
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        shutil.rmtree(T, ignore_errors=True)
        for f in files:
            src = os.path.join(D, f)
            if os.path.exists(src):
                os.makedirs(os.path.dirname(os.path.join(T, f)), exist_ok=True)
                shutil.copyfile(src, os.path.join(T, f))
        for p in patches:
            r = subprocess.run(["patch", "-p1", "-s", "-f", "-i", p], cwd=T, capture_output=True, text=True)
            if r.returncode:
                raise BuildError("patch %s does not apply:\n%s%s" % (p, r.stdout, r.stderr))
        with open(stamp, "w") as f:
            f.write(key)
    rep = {}
    for r, _, fs in os.walk(T):
        for f in fs:
            p = os.path.join(r, f)
            rel = os.path.relpath(p, T)
            if f.endswith((".orig", ".rej")) or rel.startswith("internal/collections/"):
                continue
            rep[os.path.join(D, rel)] = p
    # `just init` copies typescript-go's internal/collections into the repository
    for f in os.listdir(os.path.join(D, "internal/collections")):
        if f.endswith("_test.go") or not f.endswith(".go"):
            continue
        src = os.path.join(D, "internal/collections", f)
        if os.path.exists(os.path.join(T, "internal/collections", f)):
            src = os.path.join(T, "internal/collections", f)
        if not os.path.exists(os.path.join(REPO, "internal/collections", f)):
            rep[os.path.join(REPO, "internal/collections", f)] = src
    for k, v in (extra or {}).items():
        rep[os.path.join(REPO, k)] = v
    overlay = os.path.join(BUILD, "overlay.json")
    write_if_changed(overlay, json.dumps({"Replace": rep}, indent=1, sort_keys=True))
    add = []
    for m in re.finditer(r"^\s*(?:require )?([\w./-]+) (v\d\S+)", gomod, re.M):
        n, v = m.groups()
        d = os.path.join(mr, esc(n) + "@" + v)
        if TSGO + "/shim" not in n and os.path.isdir(d):
            add.append("replace %s => %s" % (n, d))
    write_if_changed(os.path.join(BUILD, "m.mod"), gomod + "\n" + "\n".join(add) + "\n")
    sums = set(open(os.path.join(REPO, "go.sum")).read().splitlines())
    sums |= set(open(os.path.join(VERIF, "lib", "extra.sum")).read().splitlines())
    write_if_changed(os.path.join(BUILD, "m.sum"), "\n".join(sorted(x for x in sums if x)) + "\n")
    # A module cache under another name, so that the go command accepts an overlay over the real one
    gmc = os.path.join(BUILD, "gomodcache")
    os.makedirs(gmc, exist_ok=True)
    link = os.path.join(gmc, "cache")
    if not os.path.islink(link):
        os.symlink(os.path.join(mr, "cache"), link)
    gr = goroot()
    env = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
    env.update(GOROOT=gr, PATH=gr + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), GOTOOLCHAIN="local", GOPROXY="off",
               CGO_ENABLED="0", GOWORK="off", GOMODCACHE=gmc, GOFLAGS="-mod=mod -modfile=" + BUILD + "/m.mod", GOGC="500",
               HOME=os.environ.get("HOME", "/root"), GONOSUMDB="*", GOSUMDB="off")
    return env, overlay


def gcflags():
    fl = "-N -l -dwarf=false"
    return ["-gcflags=%s/internal/%s=%s" % (TSGO, h, fl) for h in HEAVY] + [
        "-gcflags=%s/shim/...=%s" % (TSGO, fl), "-gcflags=github.com/typescript-eslint/tsgolint/...=%s" % fl]


def drivers():
    """Virtual packages: /verif/drivers/<name>/*.go appear as /repo/internal/zzverif/<name>; drivers/cmdovl joins
    package main of cmd/tsgolint for target ovl only."""
    extra = {}
    for p in glob.glob(os.path.join(VERIF, "drivers", "*", "*.go")):
        d = os.path.basename(os.path.dirname(p))
        if d == "cmdovl":
            continue
        else:
            extra["internal/zzverif/%s/%s" % (d, os.path.basename(p))] = p
    return extra


def build(targets, quiet=True):
    """targets: names among 'tsgolint' and driver names.  Returns {name: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env, overlay = prepare(drivers())
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        out = {}
        procs = []
        for t in targets:
            if t == "ovl":
                continue
            pkg = "./cmd/tsgolint" if t == "tsgolint" else "./internal/zzverif/" + t
            b = os.path.join(BUILD, "bin", t)
            cmd = ["go", "build", "-overlay", overlay] + gcflags() + ["-ldflags=-s -w", "-o", b, pkg]
            out[t] = b
            procs.append((t, subprocess.Popen(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        errs = []
        if "ovl" in targets:
            d = os.path.join(VERIF, "drivers", "cmdovl")
            v = "cmd/tsgolint/zz_verif_ovl.go", "cmd/tsgolint/zz_verif_main.go"
            b = os.path.join(BUILD, "bin", "ovl")
            out["ovl"] = b
            rep = json.load(open(overlay))
            rep["Replace"].update({os.path.join(REPO, x): os.path.join(d, os.path.basename(x)) for x in v})
            write_if_changed(overlay + ".ovl", json.dumps(rep))
            cmd = ["go", "build", "-overlay", overlay + ".ovl"] + gcflags() + ["-ldflags=-s -w", "-o", b]
            # the overlay file system alone, as the repository's own test build does; the whole package if that has become impossible
            r = subprocess.run(cmd + ["cmd/tsgolint/overlayfs.go"] + list(v), cwd=REPO, env=env, capture_output=True, text=True)
            if r.returncode:
                del rep["Replace"][os.path.join(REPO, v[1])]
                write_if_changed(overlay + ".ovl", json.dumps(rep))
                r = subprocess.run(cmd + ["./cmd/tsgolint"], cwd=REPO, env=env, capture_output=True, text=True)
            if r.returncode:
                errs.append("ovl:\n" + r.stdout + r.stderr)
        for t, p in procs:
            o, _ = p.communicate()
            if p.returncode:
                errs.append("%s:\n%s" % (t, o[-4000:]))
            elif o and not quiet:
                print(o)
        if errs:
            raise BuildError("build failed: " + "\n".join(errs))
        return out


if __name__ == "__main__":
    try:
        import time
        t0 = time.time()
        print(build(sys.argv[1:] or ["tsgolint"]))
        print("%.1fs" % (time.time() - t0))
    except BuildError as e:
        print("BUILD ERROR", e, file=sys.stderr)
        sys.exit(3)
