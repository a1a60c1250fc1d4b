"""C31: allow-lists.  Allow.tla's world is written to disk; its types go through rules that take an allow-list."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *

NOTE = """Every place a type can be declared in (files of the project, beside it, packages, packages' packages, @types, ambient modules, the library, keywords), every kind of declaration and use, every specifier, and random lists of up to 4 specifiers; three rules."""
DECL = """export declare class %(n)sFoo { own%(n)s: 1 }
export interface %(n)sIfc { ifc%(n)s: 1 }
export type %(n)sObj = { obj%(n)s: 1 };
export type %(n)sUni = { uni%(n)s: 1 } | null;
export declare class %(n)sGen<T> { gen%(n)s: T }
"""
# the modules types come from: place -> (file, module to import from main.ts)
MODS = dict(sub=("sub/loc.ts", "./sub/loc"), beside=("../projx/out.ts", "../projx/out"), above=("../other/out.ts", "../other/out"), pkg=("node_modules/pkg/index.d.ts", "pkg"), deep=("node_modules/pkg/lib/deep.d.ts", "pkg/lib/deep"), scoped=("node_modules/@sc/pk/index.d.ts", "@sc/pk"), types=("node_modules/@types/tp/index.d.ts", "tp"),
            tscoped=("node_modules/@types/sc__tq/index.d.ts", "@sc/tq"), noname=("node_modules/plain/index.d.ts", "plain"),
            nested=("node_modules/plain/node_modules/nest/index.d.ts", "plain/nested"), scbare=("node_modules/@sn/bare/index.d.ts", "@sn/bare"), tbare=("node_modules/@types/tb/index.d.ts", "tb"))
TYPE = {"class": "Foo", "iface": "Ifc", "object": "Obj", "union": "Uni", "generic": "Gen<string>"}


def world(root):
    p = root + "/proj"
    files = {}
    for place, (f, _) in MODS.items():
        files[f] = DECL % dict(n="A" if place == "x" else "")
    files["node_modules/pkg/node_modules/inner/index.d.ts"] = DECL % dict(n="")
    files["node_modules/plain/nested.d.ts"] = "export * from 'nest';\n"
    files["node_modules/pkg/inner.d.ts"] = "export * from 'inner';\n"
    for f, n in (("pkg", "pkg"), ("@sc/pk", "@sc/pk"), ("@types/tp", "@types/tp"), ("@types/sc__tq", "@types/sc__tq"), ("pkg/node_modules/inner", "inner"), ("plain", None), ("plain/node_modules/nest", None), ("@sn/bare", None), ("@types/tb", None)):
        d = dict(version="1.0.0", types="index.d.ts")
        if n:
            d["name"] = n
        files["node_modules/%s/package.json" % f] = json.dumps(d)
    amb = (DECL % dict(n="")).replace("declare ", "")
    files["amb.d.ts"] = "declare module \"amb\" {\n%s}\ndeclare module \"ambns\" { }\ndeclare module \"amb\" {\nexport namespace NS {\n%s}\n}\n" % (amb, amb)
    files["tsconfig.json"] = json.dumps(dict(compilerOptions=dict(strict=True, target="esnext", lib=["esnext"], types=[], noEmit=True, moduleResolution="bundler", module="esnext"), include=["*.ts", "*.d.ts"]))
    for f, t in files.items():
        q = os.path.normpath(p + "/" + f)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, "w").write(t)
    imports = "".join("import * as %s from '%s';\n" % (k, m) for k, (_, m) in MODS.items()) + "import * as inner from 'pkg/inner';\nimport * as ambient from 'amb';\n"
    return p, imports + (DECL % dict(n="")) + "declare function mk<X>(): X;\ndeclare function c(): boolean;\nexport const used = [%s];\n" % ", ".join(list(MODS) + ["inner", "ambient"])


def name_and_type(x, r):
    if x["place"] == "lib":
        n = r.choice(["Date", "Map", "Promise", "WeakSet"])
        return n, n + dict(Map="<string, string>", Promise="<1>", WeakSet="<{}>").get(n, "")
    if x["place"] == "keyword":
        n = r.choice(["symbol", "bigint"] if x["carrier"] != "template" else ["symbol"])
        return n, n
    t = TYPE[x["kind"]]
    q = {"main": "", "ambns": "ambient.NS."}.get(x["place"], x["place"] + ".")
    return t.split("<")[0], q + t


def spec(s, name, r, root):
    names = {"own": name, "both": ["Other", name, "More"], "other": r.choice(["Other", name + "x", name.lower() + "_", "Fo", ""]), "list": ["Other", "More"]}[s["name"]]
    if s["name"] == "own" and r.random() < .3:
        names = [name]
    if s["form"] == "name":
        return names if isinstance(names, str) and names else names[0] if names else "Other"
    d = {"from": "file" if s["form"] == "path" else s["form"], "name": names}
    if s["form"] == "path":
        d["path"] = r.choice([s["arg"], s["arg"], "./" + s["arg"], root + "/" + s["arg"], "sub/../" + s["arg"]])
    if s["form"] == "package":
        d["package"] = s["arg"]
    return d


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Length = %d\n Walks = %d\nINVARIANTS Narrow Emit\nPROPERTY Grows\n"
    _, q = c.tlc("Allow", cfg % (1, 1))
    _, q2 = c.tlc("Allow", cfg % (4, 12000 if c.thorough else 1500), args=["-seed", str(c.seed)], workers=1)
    r = c.rng
    q = sorted(q, key=canon)
    fits = [x for x in q if x["parts"]]
    q = fits + r.sample([x for x in q if not x["parts"]], 20000 if c.thorough else 5000) + q2
    p, pre = world(c.tmp)
    # one file per option set: cases are gathered by their allow-list
    RULES = dict(throw="only-throw-error", reject="prefer-promise-reject-errors", template="restrict-template-expressions")
    groups = {}
    for x in q:
        x["carrier"] = carrier = r.choice(sorted(RULES))
        if carrier == "template" and x["kind"] == "union":
            x["carrier"] = carrier = "throw"
        name, t = name_and_type(x, r)
        u = x["use"]
        if x["place"] == "keyword" and u == "union" and carrier != "template":
            continue
        ty = dict(plain=t, inter=r.choice(["%s & { more: 1 }", "{ more: 1 } & %s"]) % t, union=r.choice(["%s | 'lit'", "'lit' | %s"]) % t, sub="Sub").get(u)
        decl = ""
        if u == "sub":
            decl = r.choice(["interface Sub extends %s { sub: 1 }", "interface Sub extends %s { }"] + (["class Sub extends %s { sub = 1; }"] if x["kind"] == "class" else [])) % t
        elif u == "plain" and r.random() < .2 and x["kind"] in ("class", "iface") and "<" not in t:  # a renamed instantiation goes by the alias, as upstream
            decl, ty = "type Renamed = %s;" % t, "Renamed"
        ok = x["parts"] if carrier == "template" else x["whole"]
        if u == "union" and carrier != "template":
            ok = False
        e = "mk<%s>()" % ty
        s = dict(throw="%s function f() { throw %s; }", reject="%s Promise.reject(%s);", template="%s `a ${%s}`;")[carrier] % (decl, e)
        allow = [spec(z, name, r, p) for z in x["list"]]
        if r.random() < .1 and carrier != "template":
            allow.append(dict(name="Nothing", **{"from": "lib"}))
        groups.setdefault((carrier, canon(allow)), []).append((s, e, ok, x, allow))
    configs, where = [], {}
    for n, ((carrier, _), xs) in enumerate(groups.items()):
        f = "%s/m%d.ts" % (p, n) if n else p + "/main.ts"
        # the types of main.ts are declared in main.ts: other files import them
        text = pre if n == 0 else pre.replace(DECL % dict(n=""), "import { Foo, Ifc, Obj, Uni, Gen } from './main';\n")
        spans = []
        for i, (s, e, ok, x, allow) in enumerate(xs):
            text += "namespace N%d {\n" % i
            k = s.rindex(e)
            spans.append((len(text), len(text) + len(s), len(text) + k, len(text) + k + len(e), ok, x, s))
            text += s + "\n}\n"
        open(f, "w").write(text)
        where[f] = (spans, allow)
        configs.append(dict(file_paths=[f], rules=[dict(name=RULES[carrier], options=dict(allow=allow))]))
    R = headless(b, dict(version=2, configs=configs), timeout=max(60, c.left()))
    if R["rc"]:
        c.violation("linting ends with exit status %d: %s" % (R["rc"], R["err"][-800:]), R["err"][-4000:])
        return
    got = {}
    for t, m in R["frames"]:
        if t == 1:
            if m.get("file_path") is None or not m["range"]:
                raise RuntimeError("the project does not load: %s" % canon(m)[:500])
            got.setdefault(m["file_path"], []).append(m["range"]["pos"])
    for f, (spans, allow) in where.items():
        ps = got.get(f, [])
        for s0, s1, e0, e1, ok, x, s in spans:
            c.validated += 1
            hit = any(s0 <= q < s1 for q in ps)
            if hit == ok:
                c.violation("%s with allow %s on %r, the type declared in %s: %s" % (RULES[x["carrier"]], json.dumps(allow), s, x["place"], "reported although allowed" if ok else "allowed although nothing in the list names it"), dict(case=x, allow=allow, code=s))
    c.sample(dict(allow=allow, code=spans[0][6], place=spans[0][5]["place"]))


main("C31", body)
