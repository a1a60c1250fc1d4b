"""C11: files without a project: Inferred.tla's probes of the default options, with and without projects beside them, and
Headless.tla requests mixing files with and without projects, against the real program."""
import sys, os, json, random, collections, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import concurrent.futures as cf
import world

TEXT = {
    "nullstr.ts": "const z: string = null; export {};", "variance.ts": "const y: (a: string | number) => void = (a: string) => {}; export {};", "es2023.ts": "[1].toSorted; export {};",
    "es2022.ts": "[1].at(0); Object.hasOwn({}, 'a'); export {};", "tla.ts": "await 1; export {};", "bigint.ts": "export const b = 1n;", "regexv.ts": "export const r = /a/v;",
    "tsext.ts": "import { x } from './helper.ts'; x;", "json.ts": "import d from './data.json'; d.a; export {};", "interop.ts": "import d from './cjs'; d; export {};", "pkg.ts": "import { s } from 'pkg/sub'; s;",
    "extless.ts": "import { x } from './helper'; x;", "jsx.tsx": "export const j = <div />;", "importeq.ts": "import q = require('./helper'); q;", "exporteq.ts": "const v = 1; export = v;",
    "dom.ts": "document; export {};", "plain.js": "/** @type {number} */ const n = 'x'; Promise.resolve(1); export {};", "implicit.ts": "export function h(a) { return a; }", "noinit.ts": "export class P { p: number; }",
    "catchany.ts": "try { } catch (e) { e.x; } export {};", "mod.mts": "Promise.resolve(1);", "com.cts": "Promise.resolve(1);", "float.ts": "Promise.resolve(1); export {};",
    "uses.ts": "import { far } from '../p1/far'; far(); export {};", "unused.ts": "function u() { return 1; u(); } export {};", "dec.ts": "function d(...a: any[]): any {} @d class D { @d p = 1; m(@d x: number) {} } export {};",
    "idx.ts": "const a: string[] = []; const s: string = a[0]; export { s };", "exact.ts": "const a: { k?: number } = { k: undefined }; export { a };", "iso.ts": "export { T } from './types';",
    "verb.ts": "import { T } from './types'; let t: T; export { t };", "enum.ts": "export const enum E { A }", "dyn.ts": "export const m = import('./helper');",
    "override.ts": "class A { m() {} } class B extends A { m() {} } export { B };", "ret.ts": "export function f(a: boolean): number | undefined { if (a) return 1; }",
    "fall.ts": "export function f(a: number) { switch (a) { case 1: a++; case 2: return 1; } }", "lib.ts": "setTimeout(() => {}, 1); new Map(); export {};"}
HELP = {"l/helper.ts": "export const x = 1;", "l/data.json": '{"a": 1}', "l/cjs.d.ts": "declare const c: number; export = c;", "l/types.ts": "export type T = number;", "p1/far.ts": "export function far() { return Promise.resolve(1); }",
        "node_modules/pkg/package.json": json.dumps(dict(name="pkg", exports={"./sub": {"types": "./s.d.ts"}})), "node_modules/pkg/s.d.ts": "export declare const s: number;",
        "p1/tsconfig.json": json.dumps(dict(compilerOptions=dict(world.GOOD, strict=False, target="es2015"))), "p2/tsconfig.json": json.dumps(dict(compilerOptions=dict(world.GOOD, module="commonjs", moduleResolution="bundler", lib=["esnext", "dom"]))),
        "p1/a.ts": "Promise.resolve(1);\nexport {};", "p2/a.ts": "Promise.resolve(2);\nexport {};"}


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    _, cases = c.tlc("Inferred", "SPECIFICATION Spec\nCONSTANT Sets <- %s\nINVARIANTS Once Independent Emit\n" % ("Small" if c.thorough else "Few"))
    cases = list({canon(x): x for x in cases}.values())
    root = os.path.join(c.tmp, "w")
    for p, t in list(HELP.items()) + [("l/" + k, v) for k, v in TEXT.items()]:
        os.makedirs(os.path.dirname(root + "/" + p), exist_ok=True)
        open(root + "/" + p, "w").write(t + "\n")

    def one(ix):
        i, x = ix
        rng = random.Random("%d/%d" % (c.seed, i))
        fs = [root + "/l/" + p for p in x["req"]] + [root + "/p%d/a.ts" % k for k in range(1, x["np"] + 1)]
        rng.shuffle(fs)
        rules = [dict(name="no-floating-promises")]
        cut = rng.randint(0, len(fs))
        pl = dict(version=2, report_semantic=True, report_syntactic=True, configs=[dict(file_paths=fs[:cut], rules=rules), dict(file_paths=fs[cut:], rules=rules)])
        r = headless(b, pl, cwd=rng.choice([root, root + "/l", root + "/p1", "/"]))
        got = collections.Counter((os.path.relpath(d["file_path"], root), "float" if d["kind"] == 0 else d["message"]["id"]) for k, d in r["frames"] if k == 1)
        want = collections.Counter([("l/" + p, m) for p, m in x["out"]] + [("p%d/a.ts" % k, "float") for k in range(1, x["np"] + 1)])
        return x, pl, r, got, want
    with cf.ThreadPoolExecutor(8) as ex:
        for x, pl, r, got, want in ex.map(one, enumerate(cases)):
            c.validated += 1
            c.sample(dict(files=x["req"], projects=x["np"], messages=sorted(got)[:6]))
            if r["rc"] or got != want:
                c.violation("files %s with %d projects: status %d, missing %s, unexpected %s %s" % (x["req"][:8], x["np"], r["rc"], sorted((want - got).items())[:4], sorted((got - want).items())[:4], r["err"][-200:]), dict(case=x, payload=pl))
    n = 5000 if c.thorough else 350
    rnd = []
    for i in range(n):
        x = world.random_case(c.rng, "r%d" % i, nproj=2, nfiles=6, broken=.1, over=c.rng.random() < .2)
        for f in x["w"]["files"]:
            if c.rng.random() < .5:
                f["proj"] = 0
        if not (x["r"]["suppress"] and set(x["w"]["projects"]) & {"json", "extends"}):
            rnd.append(x)
    world.conform(c, b, world.model(c, [], rnd))


main("C11", body)
