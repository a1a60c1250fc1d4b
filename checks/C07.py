"""C07: source overrides: requests of Headless.tla with overrides against its outcome and against the same contents on disk;
overridden imports, ambient declarations, JSON modules, package and project configuration; the corpus overridden by itself."""
import sys, os, json, random, collections, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import concurrent.futures as cf
import world, corpus
from frames import key


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            st = os.lstat(p)
            out[p] = (open(p, "rb").read(), st.st_mtime_ns, st.st_ino)
        out[d] = tuple(sorted(ds + fs))
    return out


def relate(b, root, files, over, payload, args=(), env=None):
    """files: on disk; over: overrides.  None, or how the two ways of providing the contents differ."""
    def put(fs):
        for p, t in fs.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", newline="") as f:
                f.write(t)
    put(files)
    before = snapshot(root)
    r = headless(b, dict(payload, source_overrides=over), args, env, cwd=root)
    if snapshot(root) != before:
        return "a request with overrides changes files on disk", r, None
    put(over)
    r2 = headless(b, payload, args, env, cwd=root)
    k, k2 = key(r["frames"]), key(r2["frames"])
    if k != k2 or r["rc"] != r2["rc"]:
        return "overridden and written contents are judged differently: only when overridden %s, only when written %s (status %d, %d %s)" % (list(k - k2)[:3], list(k2 - k)[:3], r["rc"], r2["rc"], r["err"][-200:]), r, r2
    return None, r, r2


# pieces for worlds whose files influence each other in every way
def pieces(rng, root):
    val = lambda: rng.choice(["Promise<number>", "number", "string", "Error", "any", "boolean", "number[]", "unknown", "string | undefined", "() => void", "() => Promise<void>"])
    def v():
        t = rng.randint(0, 9)
        return {
            "p/dep.ts": "export declare const dep: %s;\nexport class C { private x = 1; m(): %s { return null! } }\n" % (val(), val()),
            "p/mid.ts": rng.choice(["export * from './dep';", "export { dep } from './dep';\nexport class C {}", "export declare const dep: %s; export class C {}" % val(), ""]) + "\n",
            "p/global.d.ts": "declare const amb: %s;\ninterface Window2 { w: %s }\n" % (val(), val()),
            "p/script.ts": "var scr: %s;\nfunction fn(): %s { return null! }\n" % (val(), val()),
            "p/data.json": rng.choice(['{"a": 1}', '{"a": "x"}', '{"a": [1]}', '{}']),
            "node_modules/pkg/index.d.ts": "export declare const pk: %s;\n" % val(),
            "node_modules/pkg/other.d.ts": "export declare const pk: %s;\n" % val(),
            "node_modules/pkg/package.json": json.dumps(dict(name="pkg", version="1.0.0", types=rng.choice(["index.d.ts", "other.d.ts"]))),
            "p/tsconfig.json": json.dumps(dict(compilerOptions=dict(world.GOOD, resolveJsonModule=True, strict=rng.random() < .7, noUncheckedIndexedAccess=rng.random() < .5))),
            "p/use.ts": "import { dep, C } from './mid';\nimport d from './data.json';\nimport { pk } from 'pkg';\nimport { lo } from '../l/loose';\n" + body(rng) + "export {};\n",
            "l/loose.ts": "import { dep } from '../p/dep';\nexport declare const lo: %s;\n" % val() + "dep;\n" + body(rng, ["dep", "lo"]),
            "l/glob.ts": "var scr2: %s;\n" % val(),
            "l/glob2.ts": "throw scr2;\nscr2;\n`${scr2}`;\n",
        }
    return v


def body(rng, names=("dep", "C", "d.a", "pk", "lo", "amb", "scr", "fn()", "new C().m()")):
    out = []
    for _ in range(rng.randint(2, 8)):
        n = rng.choice(list(names))
        out.append(rng.choice(["%s;", "throw %s;" if False else "function t%d() { throw %%s; }" % rng.randrange(10**6), "`${%s}`;", "async function a%d() { await %%s; }" % rng.randrange(10**6), "if (%s) { }", "void %s;", "const q%d = %%s + 1;" % rng.randrange(10**6), "for (const k%d in %%s) { k%d; }" % ((rng.randrange(10**6),) * 2), "delete %s[0];"]) % n)
    return "\n".join(out) + "\n"


RULES = ["no-floating-promises", "only-throw-error", "restrict-template-expressions", "await-thenable", "strict-boolean-expressions", "restrict-plus-operands", "no-for-in-array", "no-array-delete", "prefer-readonly", "no-confusing-void-expression", "no-unsafe-assignment", "no-misused-promises", "no-base-to-string"]


def influence(c, b, n):
    def one(i):
        rng = random.Random("o%d/%d" % (c.seed, i))
        root = os.path.join(c.tmp, "o%d" % i)
        v = pieces(rng, root)
        a, z = v(), v()
        files = {root + "/" + p: t for p, t in a.items()}
        over = {root + "/" + p: t for p, t in z.items() if rng.random() < rng.choice([.15, .5, .9])}
        if rng.random() < .2 and over:
            over[rng.choice([p for p in over])] = "" if rng.random() < .5 else "// caf\u00e9 \U0001F600\nexport {};\n"
            over = {p: t for p, t in over.items() if t or not p.endswith(".json")}
        req = [root + "/" + p for p in a if p.endswith(".ts") and not p.startswith("node_modules") and not p.endswith(".d.ts") and rng.random() < .7]
        pl = dict(version=2, configs=[dict(file_paths=req, rules=[dict(name=r) for r in RULES])], report_semantic=True, report_syntactic=True)
        res = relate(b, root, files, over, pl, ("-fix", "-fix-suggestions"))
        shutil.rmtree(root)
        return res, files, over, pl
    with cf.ThreadPoolExecutor(8) as ex:
        for (p, r, r2), files, over, pl in ex.map(one, range(n)):
            c.validated += 1
            c.count("messages compared", len(r["frames"]))
            c.count("overridden files", len(over))
            if p:
                c.violation(p, dict(files=files, over=over, payload=pl))


def body_(c):
    b = c.build("tsgolint")["tsgolint"]
    n = 4000 if c.thorough else 350
    rnd = [world.random_case(c.rng, "r%d" % i, nfiles=6, over=True) for i in range(n)]

    def extra(case, w, r):
        before = None
        k = key(r["frames"])
        w.write(overrides=True)
        r2 = w.run(b, payload=w.payload(over=False))
        k2 = key(r2["frames"])
        if k != k2:
            return ["overridden and written contents are judged differently: %s vs %s" % (list(k - k2)[:3], list(k2 - k)[:3])]
        return []
    world.conform(c, b, world.model(c, ["SmallOver"], rnd), edits=True, extra=extra)
    influence(c, b, 3000 if c.thorough else 250)

    # the corpus, each file showing another file's content
    S = [s for s in corpus.snippets() if not s.get("files")]
    rules = sorted({s["rule"] for s in S})
    for i in range(12 if c.thorough else 2):
        part = c.rng.sample(S, 1500)
        root = os.path.join(c.tmp, "corpus%d" % i)
        by = corpus.lay(root, part, chunk=400, force=i % 2 == 0)
        paths = list(by)
        over = {p: by[c.rng.choice(paths)]["code"] for p in paths if c.rng.random() < .4}
        req = [p for p in paths if c.rng.random() < .7]
        p, r, r2 = relate(b, root, {}, over, dict(version=2, configs=[dict(file_paths=req, rules=[dict(name=x) for x in rules])], report_syntactic=True))
        c.validated += 1
        c.count("messages compared", len(r["frames"]))
        if p:
            c.violation("on the corpus: " + p, dict(over=over, requested=req))
        shutil.rmtree(root)


main("C07", body_)
