"""C01: the output stream: Stream.tla's plans (messages of chosen sizes from several workers) rendered to programs whose
diagnostics have those sizes and delivered to a prompt or slow reader; requests and refusals of Headless.tla and Payload.tla
checked for framing, shape and ending."""
import sys, os, json, random, collections, subprocess, time, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import concurrent.futures as cf
import world, frames, C02docs

UNIT = 4096 * 100 // 5


def slow(binary, payload, args, cwd, env, chunk, pause, limit):
    """Like vlib.headless, with a reader that takes its time at the start and between chunks."""
    e = dict(os.environ)
    e.update(env)
    p = subprocess.Popen([binary, "headless", *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=e)
    p.stdin.write(json.dumps(payload).encode())
    p.stdin.close()
    time.sleep(.4)
    out, t0 = [], time.time()
    while True:
        d = os.read(p.stdout.fileno(), chunk)
        if not d:
            break
        out.append(d)
        if time.time() - t0 < limit:
            time.sleep(pause)
    err = p.stderr.read()
    return p.wait(), b"".join(out), err.decode("utf-8", "replace")


def decode(o):
    i, fr = 0, []
    while i < len(o):
        n = int.from_bytes(o[i:i + 4], "little")
        if i + 5 + n > len(o):
            return fr, o[i:]
        try:
            fr.append((o[i + 4], json.loads(o[i + 5:i + 5 + n].decode())))
        except ValueError:
            return fr, o[i:]
        i += 5 + n
    return fr, None


def volume(c, b, cases):
    """Messages of given lengths: dot-notation names the property, so a property of n characters makes a message of about n."""
    def one(ix):
        i, x = ix
        rng = random.Random("v%d/%d" % (c.seed, i))
        root = os.path.join(c.tmp, "v%d" % i)
        os.makedirs(root)
        want, paths = collections.Counter(), []
        for w, sizes in enumerate(x["plan"]):
            p = "%s/w%d.ts" % (root, w)
            lines = ["declare const o: any;"]
            for n, z in enumerate(sizes):
                # around the thresholds: the frame has about 150 to 200 further bytes
                size = max(1, z if x.get("exact") else z * UNIT + rng.choice([0, 0, -300, -200, -150, -100, -4096, -4300, rng.randint(-5000, 500)]))
                name = "n%d_%d_" % (w, n) + "x" * size
                lines.append("o['%s'];" % name)
                want[(p, name)] += 1
            lines.append("export {};")
            with open(p, "w") as f:
                f.write("\n".join(lines) + "\n")
            paths.append(p)
        pl = dict(version=2, configs=[dict(file_paths=paths, rules=[dict(name="dot-notation")])])
        args = (["-fix"] if x.get("fix") else []) + (["-debug", "timings"] if x["timing"] else [])
        env = {"GOMAXPROCS": rng.choice("12348")}
        if x.get("slow"):
            rc, raw, err = slow(b, pl, args, root, env, *x["slow"])
            fr, rest = decode(raw)
        else:
            r = headless(b, pl, args, env, cwd=root)
            rc, fr, rest, err = r["rc"], r["frames"], r["rest"], r["err"]
        shutil.rmtree(root)
        bad = None
        got = collections.Counter()
        for k, d in fr:
            bad = bad or frames.shape(k, d)
            if k == 1 and not bad:
                q = d["message"]["description"].split('"')
                nm = [t for t in d["message"]["description"].replace("'", " ").replace('"', " ").replace("`", " ").replace("[", " ").replace("]", " ").replace(".", " ").split() if t.startswith("n") and "_" in t]
                got[(d["file_path"], nm[0] if nm else "?")] += 1
        kinds = [k for k, _ in fr]
        if not bad:
            if rc:
                bad = "exit status %d: %s" % (rc, err[-300:])
            elif rest is not None:
                bad = "incomplete or damaged message after %d complete ones" % len(fr)
            elif kinds != [1] * sum(want.values()) + [2] * bool(x["timing"]):
                bad = "%d messages (kinds %s at the end), expected %d diagnostics%s" % (len(kinds), kinds[-3:], sum(want.values()), " and a final timing report" if x["timing"] else "")
            elif got != want:
                bad = "diagnostics lost or repeated: %d missing, %d unexpected" % (sum((want - got).values()), sum((got - want).values()))
        return x, bad, len(fr)
    with cf.ThreadPoolExecutor(8) as ex:
        for x, bad, n in ex.map(one, enumerate(cases)):
            c.validated += 1
            c.count("messages", n)
            c.sample(dict(stream=str(x)[:300]))
            if bad:
                c.violation("stream %s: %s" % (str(x)[:300], bad), x)


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    _, plans = c.tlc("Stream", "SPECIFICATION Spec\nCONSTANT Workers = {1, 2}\nCONSTANT Plans <- Two\nCONSTANT Cap = 2\nCONSTANT Buf = 5\nCONSTANT Low = 2\nINVARIANTS Everything TimingLast Fits Orderly Emit\nPROPERTY Ends\n")
    seen, cases = set(), []
    for x in plans:
        k = canon(x)
        if k not in seen:
            seen.add(k)
            cases.append(dict(plan=[list(x["plan"][str(w)]) if isinstance(x["plan"], dict) else x["plan"][w - 1] for w in (1, 2)], timing=x["timing"]))
    for x in cases:
        x["fix"] = c.rng.random() < .5
    if not c.thorough:
        cases = c.rng.sample(cases, 220)
    # many messages, more than the channel holds, and readers that lag behind
    many = [dict(plan=[[c.rng.choice([1, 5, 40, 300]) for _ in range(k)] for _ in range(w)], exact=True, timing=i % 2 == 0, fix=i % 3 == 0)
            for i, (k, w) in enumerate([(1, 1), (3000, 8), (6000, 3), (9000, 1), (400, 30), (0, 3), (5000, 2)] * (4 if c.thorough else 1))]
    slowly = [dict(plan=[[c.rng.choice([1, 50, 3000, 5000, 9000]) for _ in range(k)] for _ in range(w)], exact=True, timing=i % 2 == 0, slow=s)
              for i, (k, w, s) in enumerate([(2500, 4, (65536, .002, 4)), (700, 8, (1000, .0005, 4)), (20, 2, (7, .01, 2)), (5200, 2, (300000, .01, 4))] * (3 if c.thorough else 1))]
    # frames exactly around the places where the buffer is flushed
    edge = [dict(plan=[[a + d for d in range(-420, 20, 10)]], exact=True, timing=True, fix=False) for a in (4096, 4096 * 99, 4096 * 100)]
    volume(c, b, many + slowly + edge + cases)

    # requests of all kinds
    def extra(case, w, r):
        return [m for m in (frames.shape(k, d) for k, d in r["frames"]) if m]
    n = 4000 if c.thorough else 400
    rnd = []
    while len(rnd) < n:
        x = world.random_case(c.rng, "r%d" % len(rnd), nfiles=6, broken=.3, v1=.1, over=c.rng.random() < .3)
        if x["r"]["suppress"] and set(x["w"]["projects"]) & {"json", "extends"}:
            continue
        if c.rng.random() < .1 and x["r"]["version"] == 2:
            x["r"]["version"] = c.rng.choice([3, 7, 1000, -1])
        rnd.append(x)
    world.conform(c, b, world.model(c, [], rnd), edits=True, extra=extra)

    # refused documents
    _, docs = c.tlc("Payload", "SPECIFICATION Spec\nINVARIANTS Decided NothingLintedUnlessAccepted OnlyKnownVersions Emit\n")
    docs = [x for x in docs if x["verdict"] != "accept"]
    root = os.path.join(c.tmp, "docs")
    os.makedirs(root)
    for f in ("a.ts", "b.ts"):
        open(root + "/" + f, "w").write("delete [1, 2][0];\nexport {};\n")
    todo = docs if c.thorough else c.rng.sample(docs, 300)

    def one(x):
        return x, headless(b, C02docs.render(x["d"], root), ["-debug", "timings"] if len(canon(x["d"])) % 2 else [], cwd=root)
    with cf.ThreadPoolExecutor(8) as ex:
        for x, r in ex.map(one, todo):
            c.validated += 1
            kinds = [k for k, _ in r["frames"]]
            if r["rc"] == 0 or r["rest"] is not None or kinds not in ([], [0]) or any(frames.shape(k, d) for k, d in r["frames"]):
                c.violation("a refused request ends with status %d and messages %s" % (r["rc"], r["frames"][:3]), x)
    # options that do not exist
    for args in (["-debug", "nonsense"], ["-nonsense"], ["-debug", "timings,nonsense"], ["-fix=maybe"]):
        r = headless(b, dict(version=2, configs=[dict(file_paths=[root + "/a.ts"], rules=[dict(name="no-array-delete")])]), args, cwd=root)
        kinds = [k for k, _ in r["frames"]]
        if r["rc"] == 0 or kinds not in ([], [0]) or r["rest"] is not None:
            c.violation("with options %s: status %d and messages %s" % (args, r["rc"], r["frames"][:3]), dict(args=args))
        c.validated += 1


main("C01", body)
