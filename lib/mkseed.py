"""mkseed.py ID: finishes /verif/seeded/ID (patch.diff, demo.py, meta.json present): adds kit.py and demo.sh, then confirms in a
scratch worktree that the patch applies and builds, the stable tests pass, and the demo passes without and fails with it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedrepo"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(i):
    d = os.path.join(V, "seeded", i)
    shutil.copy(os.path.join(V, "lib", "seedkit", "kit.py"), d)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if not os.path.isdir(W):
        sh("git clone -q /repo " + W)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd", cwd=W)
    env = dict(os.environ, DEMO_REPO=W)
    a = sh("%s/demo.sh" % d, cwd=W, env=env)
    p = sh("git apply %s/patch.diff" % d, cwd=W)
    if p.returncode:
        return "patch does not apply: " + p.stderr
    b = sh("%s/demo.sh" % d, cwd=W, env=env)
    t = sh("export GOROOT=/opt/veriftools/go1.26.10 PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0; cp go.mod /tmp/sr.mod; sort -u go.sum /opt/vp/mod/extra.sum > /tmp/sr.sum; GOFLAGS='-mod=mod -modfile=/tmp/sr.mod' go test -vet=off -count=1 cmd/tsgolint/overlayfs.go cmd/tsgolint/overlayfs_test.go", cwd=W)
    shutil.rmtree(os.path.join(d, "__pycache__"), ignore_errors=True)
    g = sh("gofmt -l cmd internal", cwd=W)
    m = json.load(open(os.path.join(d, "meta.json")))
    assert set(m) >= {"property", "needs", "what_it_breaks"}
    if a.returncode or b.returncode == 0 or "build failed" in b.stdout + b.stderr or t.returncode:
        return "unchanged %d, patched %d, tests %d\n%s\n%s\n%s" % (a.returncode, b.returncode, t.returncode, a.stderr[-800:], b.stderr[-1500:], t.stdout[-500:])
    return "ok: " + (b.stdout + b.stderr).strip()[-300:]


for i in sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded"))):
    print(i, one(i), flush=True)
