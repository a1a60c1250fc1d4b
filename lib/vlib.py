"""Common machinery of the checks: TLC runs, driver processes, verdicts, evidence."""
import collections, json, os, random, re, shutil, signal, struct, subprocess, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
TLA = os.path.join(VERIF, "tla")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check could not decide: error exit, never a violation."""


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.validated = 0
        self.samples = []
        self.stats = collections.OrderedDict()
        self.violations = []
        self.known = []
        self.assumptions = []
        base = os.path.join(B.BUILD, "work")
        os.makedirs(base, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.kf = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == prop]

    def left(self):
        return (840 if not self.thorough else 6 * 3600) - (time.time() - self.t0)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- verdicts ------------------------------------------------------------------------------
    def violation(self, what, data=None, key=None):
        """what: one line; data: JSON for the replay file; key: identity used by the known-findings file."""
        for k in self.kf:
            if key is not None and key in k["keys"]:
                if k not in self.known:
                    self.known.append(k)
                return
        self.violations.append((what, data))
        if len(self.violations) <= 10:
            self.log("violation:", what[:1500])

    def listed(self):
        """Reports the listed findings of this property whether or not this run met them (they may need a schedule)."""
        self.known = list(self.kf)

    def sample(self, s, cap=6):
        self.nsample = getattr(self, "nsample", 0) + 1
        if len(self.samples) < cap:
            self.samples.append(s)
        elif self.rng.randrange(self.nsample) < cap:
            self.samples[self.rng.randrange(cap)] = s

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   samples=self.samples or ["none"])
        cov.update(self.stats)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            f.write(json.dumps(ev, indent=1)[:60000])
        shutil.rmtree(self.tmp, ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            d = os.path.join(B.BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%d.json" % (self.prop, os.getpid()))
            with open(p, "w") as f:
                json.dump([dict(what=w, data=x) for w, x in self.violations[:50]], f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
            return 1
        self.log("held: %d model states, %d scenarios replayed" % (self.states, self.validated))
        return 0

    # ---- TLC -----------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, consts=None, args=(), timeout=None, workers=8, env=None, ok=(0,), count=True, heap="6g", props=None, spec=None):
        """Runs TLC on tla/<module>.tla. cfg: name in tla/ or generated text (has newline). Returns (stdout, cases)."""
        work = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        if cfg is None:
            cfg = module + ".cfg"
        if "\n" in cfg:
            cp = os.path.join(work, module + ".cfg")
            open(cp, "w").write(cfg)
        else:
            cp = os.path.join(TLA, cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + work, "-DTLA-Library=" + TLA, "-cp", JARS, "tlc2.TLC", "-config", cp, "-metadir", os.path.join(work, "meta"),
               "-workers", str(workers), "-noGenerateSpecTE", "-deadlock"] + list(args) + [os.path.join(TLA, module + ".tla")]
        to = timeout or max(10, self.left())
        t = time.time()
        outp = os.path.join(work, "out.txt")
        with open(outp, "w") as of:
            try:
                r = subprocess.run(cmd, cwd=work, env=e, stdout=of, stderr=subprocess.STDOUT, timeout=to)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s after %ds" % (module, to))
        out, cases = [], []
        for line in open(outp, errors="replace"):
            if line.startswith('"{') or line.startswith('"['):
                cases.append(json.loads(json.loads(line)))
            else:
                out.append(line)
        out = "".join(out)
        if rc not in ok:
            raise CheckError("TLC exit %d on %s:\n%s" % (rc, module, out[-3000:]))
        m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found", out)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
            if count:
                self.states += dist
                self.transitions += gen
        self.log("TLC %s: rc=%d %.1fs, %d cases, %s" % (module, rc, time.time() - t, len(cases), m[-1] if m else "no state count"))
        self.last_rc = rc
        return out, cases

    # ---- real code -----------------------------------------------------------------------------
    def build(self, *targets):
        t = time.time()
        try:
            b = B.build(targets)
        except B.BuildError as e:
            raise CheckError(str(e))
        self.log("built %s in %.1fs" % (" ".join(targets), time.time() - t))
        return b

    def driver(self, binary, cases, args=(), env=None, timeout=None, procs=1):
        """Feeds JSON lines to a driver, returns one decoded answer per line (in order)."""
        if procs > 1 and len(cases) > procs:
            import concurrent.futures as cf
            n = (len(cases) + procs - 1) // procs
            parts = [cases[i:i + n] for i in range(0, len(cases), n)]
            with cf.ThreadPoolExecutor(procs) as ex:
                return [x for part in ex.map(lambda c: self.driver(binary, c, args, env, timeout), parts) for x in part]
        data = "".join(json.dumps(c) + "\n" for c in cases).encode()
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run([binary, *args], input=data, capture_output=True, env=e, timeout=timeout or max(10, self.left()))
        except subprocess.TimeoutExpired:
            raise CheckError("driver %s timed out" % binary)
        outs = r.stdout.decode("utf-8", "surrogateescape").split("\n")
        res = [json.loads(x) for x in outs if x.strip()]
        if r.returncode or len(res) != len(cases):
            raise DriverCrash(binary, r.returncode, r.stderr.decode("utf-8", "replace"), res)
        return res


class DriverCrash(CheckError):
    def __init__(self, binary, rc, err, res):
        super().__init__("driver %s: exit %d after %d answers:\n%s" % (binary, rc, len(res), err[-3000:]))
        self.rc, self.err, self.res = rc, err, res


def headless(binary, payload, args=(), env=None, cwd=None, timeout=120):
    """Runs `tsgolint headless`; returns dict(rc, frames=[(kind, obj)], rest=undecodable tail, err, raw)."""
    e = {k: v for k, v in os.environ.items() if k not in ("OXC_LOG", "GOMAXPROCS")}
    e.update(env or {})
    data = payload if isinstance(payload, bytes) else json.dumps(payload).encode()
    try:
        p = subprocess.run([binary, "headless", *args], input=data, capture_output=True, env=e, cwd=cwd, timeout=timeout)
    except subprocess.TimeoutExpired:
        # no answer: as if it had been killed
        return dict(rc=-9, frames=[], rest=b"", err="no answer within %d s" % timeout, raw=b"")
    o, i, frames, rest = p.stdout, 0, [], None
    while i < len(o):
        if i + 5 > len(o):
            rest = o[i:]
            break
        n, t = struct.unpack_from("<IB", o, i)
        body = o[i + 5:i + 5 + n]
        if len(body) < n:
            rest = o[i:]
            break
        try:
            frames.append((t, json.loads(body.decode("utf-8"))))
        except ValueError:
            rest = o[i:]
            break
        i += 5 + n
    return dict(rc=p.returncode, frames=frames, rest=rest, err=p.stderr.decode("utf-8", "replace"), raw=o)


def main(prop, fn):
    c = Check(prop)

    def bye(*a):
        shutil.rmtree(c.tmp, ignore_errors=True)
        os._exit(4)
    signal.signal(signal.SIGTERM, bye)
    try:
        fn(c)
        rc = c.finish()
    except DriverCrash as e:
        if any(x in e.err for x in ("panic:", "fatal error:", "runtime error", "DATA RACE", "SIGSEGV")) and "driver:" not in e.err:
            # the code under test took the process down
            c.violation("the code under test crashed: " + str(e)[:1500], str(e))
            rc = c.finish()
        else:
            print("CHECK-ERROR %s: %s" % (prop, e), file=sys.stderr)
            shutil.rmtree(c.tmp, ignore_errors=True)
            rc = 3
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e), file=sys.stderr)
        shutil.rmtree(c.tmp, ignore_errors=True)
        rc = 3
    except Exception:
        traceback.print_exc()
        shutil.rmtree(c.tmp, ignore_errors=True)
        rc = 3
    sys.stdout.flush()
    os._exit(rc)


def canon(x):
    return json.dumps(x, sort_keys=True)
