"""C04: the outcome is a function of the request, whatever the schedule, the number of threads and the order of files:
Headless.tla's outcome (explored over all orders of projects and files) against runs of the real program with permuted
requests and different thread counts; then the whole corpus under the same variations."""
import sys, os, json, random, collections, shutil
import concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import world, corpus
from frames import key


def disjoint(rng, case):
    """Every file in one entry only, so that entries may be reordered."""
    seen = set()
    for e in case["r"]["entries"]:
        e["files"] = [f for f in dict.fromkeys(e["files"]) if f not in seen]
        seen |= set(e["files"])
    return case


def permuted(rng, payload):
    p = json.loads(json.dumps(payload))
    if "configs" in p:
        rng.shuffle(p["configs"])
        for e in p["configs"]:
            # a file named twice is still one file
            rng.shuffle(e["file_paths"])
            if e["file_paths"] and rng.random() < .3:
                e["file_paths"].append(rng.choice(e["file_paths"]))
    else:
        rng.shuffle(p["files"])
    return p


THREADS = [None, "1", "2", "3", "5", "8", "16"]


def variants(c, b):
    def extra(case, w, r):
        rng = random.Random(case["id"])
        base, pl, bad = key(r["frames"]), w.payload(), []
        for _ in range(3):
            p, t = permuted(rng, pl), rng.choice(THREADS)
            r2 = w.run(b, payload=p, env={"GOMAXPROCS": t} if t else None)
            k2 = key(r2["frames"])
            if k2 != base or r2["rc"] != r["rc"]:
                bad.append("with the order %s and GOMAXPROCS=%s: missing %s, unexpected %s, exit status %d" % (json.dumps(p)[:500], t, list(base - k2)[:4], list(k2 - base)[:4], r2["rc"]))
            c.count("runs compared")
        return bad
    return extra


GLOB = ["var shared%d = 'x';", "var shared%d = 1;", "var shared%d = new Error('x');", "var shared%d: any;", "declare function shared%d(): Promise<void>;",
        "function shared%d() { return 1; }", "interface Shared%d { a: number }", "interface Shared%d { a: string }", "type Shared%d = Promise<number>;", "namespace Shared%d { export const x = 1; }", "enum Shared%d { A }", "enum Shared%d { B = 'b' }"]
USES = ["function f%s() { throw shared0; }", "function g%s() { shared1; shared2 as any; }", "const v%s: Shared1 = null!; v%s as Shared2; ",
        "async function h%s(a: Shared0) { await a; await shared1; }", "for (const k%s in shared0) { `${shared1}${shared2}`; }", "function i%s() { if (shared0) { shared1 + shared2; } }"]


def globals_(c, b, n):
    c.log("globals")
    """Scripts declare the same globals in different ways: which one counts must not change."""
    rules = ["only-throw-error", "await-thenable", "restrict-template-expressions", "strict-boolean-expressions", "restrict-plus-operands", "no-unsafe-type-assertion", "no-floating-promises", "no-base-to-string", "no-mixed-enums"]
    def one(i):
        rng = random.Random("g%d/%d" % (c.seed, i))
        root = os.path.join(c.tmp, "g%d" % i)
        os.makedirs(root + "/p")
        for d in (root + "/p", root + "/l", root + "/l/in"):
            os.makedirs(d, exist_ok=True)
        json.dump(dict(compilerOptions=dict(world.GOOD)), open(root + "/p/tsconfig.json", "w"))
        paths = []
        for d in ("p", "l", "l/in"):
            for j in range(rng.randint(1, 5)):
                p = "%s/%s/%s%d.ts" % (root, d, rng.choice("abc"), j)
                t = [rng.choice(GLOB) % rng.randrange(3) for _ in range(rng.randint(0, 3))]
                for u in rng.sample(USES, rng.randint(0, 4)):
                    t.append(u.replace("%s", "%s%d" % (d.replace("/", ""), j)))
                open(p, "w").write("\n".join(t) + "\n")
                paths.append(p)
        pl = dict(version=2, configs=[dict(file_paths=paths, rules=[dict(name=r) for r in rules])], report_semantic=True, report_syntactic=True)
        runs = collections.OrderedDict()
        for t in [None, "1", "8", None, "3", None]:
            p = permuted(rng, pl)
            r = headless(b, p, (), {"GOMAXPROCS": t} if t else None, cwd=root)
            runs.setdefault(canon(sorted(key(r["frames"]).items())), []).append((t, p, r))
        files = {p: open(p).read() for p in paths}
        shutil.rmtree(root)
        return runs, files
    with cf.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(one, range(n)))
    for runs, files in results:
        c.count("runs compared", 6)
        if len(runs) > 1:
            a, z = list(runs.values())[:2]
            ka, kz = key(a[0][2]["frames"]), key(z[0][2]["frames"])
            c.violation("scripts sharing globals are judged differently: %s vs %s (GOMAXPROCS %s/%s, file order changed)" % (list(ka - kz)[:3], list(kz - ka)[:3], a[0][0], z[0][0]),
                        dict(payloads=[a[0][1], z[0][1]], files=files))
        c.validated += 1


def whole(c, b):
    c.log("whole")
    S = corpus.snippets()
    rules = sorted({s["rule"] for s in S})
    # modules, and scripts sharing one global scope
    for force, n, part in ((True, 24 if c.thorough else 6, S), (False, 24 if c.thorough else 4, c.rng.sample(S, 500))):
        root = os.path.join(c.tmp, "corpus%d" % force)
        by = corpus.lay(root, part, chunk=900, force=force)
        loose = {}
        for s in c.rng.sample(part, 200):
            if s.get("files"):
                continue
            os.makedirs(root + "/loose", exist_ok=True)
            p = "%s/loose/z%d%s" % (root, s["i"], s["name"][s["name"].index("."):])
            open(p, "w").write(s["code"] + ("\nexport {};" if force else ""))
            loose[p] = s
        paths = list(by) + list(loose)
        pl = dict(version=2, configs=[dict(file_paths=paths, rules=[dict(name=r) for r in rules])], report_semantic=True, report_syntactic=True)
        base = None
        for i in range(n):
            p, t = permuted(c.rng, pl), THREADS[(i * 3) % len(THREADS)]
            r = headless(b, p, ("-fix", "-fix-suggestions"), {"GOMAXPROCS": t} if t else None, cwd=root, timeout=300)
            if r["rc"]:
                c.violation("exit status %d on the corpus: %s" % (r["rc"], r["err"][-800:]), dict(threads=t))
                return
            k = key(r["frames"])
            c.count("runs compared")
            c.count("messages compared", len(r["frames"]))
            if base is None:
                base = k
            elif base != k:
                for key_, (a, z, s) in corpus.differing(base, k, {**by, **loose}).items():
                    c.violation("%s with GOMAXPROCS=%s or another file order: once %s, then %s" % (key_, t, a[:2], z[:2]), dict(missing=a, unexpected=z, code=s and s["code"], threads=t), key=key_)
        c.validated += 1
    c.listed()


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    n = 3000 if c.thorough else 220
    rnd = [disjoint(c.rng, world.random_case(c.rng, "r%d" % i, nfiles=8, broken=.2)) for i in range(n)]
    rnd = [x for x in rnd if not (x["r"]["suppress"] and set(x["w"]["projects"]) & {"json", "extends"})]
    world.conform(c, b, world.model(c, ["SmallEntries"] if c.thorough else [], rnd), edits=True, extra=variants(c, b))
    globals_(c, b, 300 if c.thorough else 40)
    whole(c, b)


main("C04", body)
