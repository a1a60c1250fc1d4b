"""C34: what a rule says of a piece of code does not depend on the code around it.  Locality.tla's files, filled with programs of
the corpus, and Memo.tla's families of types referring to each other, against the real program."""
import sys, os, re, collections, random, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import corpus, ruleopts

NOTE = """Pieces are corpus programs without imports and exports, each in a namespace of its own; up to 3 pieces per file from the model and up to 60 in random files.
Memo.tla: all families of 2 types with 2 questions, and a sample of those of 3."""
FILL = {"none": "", "blank": "\n\n \t\n", "wide": "/* \U0001F389 \u00e9\u2028 */\n", "comment": "// x: Promise<any>\n", "code": "const filler%d = [1, %d].map(x => x + 1);\n"}


def wrap(n, code):
    return "namespace N%05d {\n%s\n}\n" % (n, code)


def text(s):
    """The compiler prints the members of a union in the order in which it met them first, anywhere in the program."""
    return " ".join(sorted(re.findall(r"[^\s|]+", s))) if " | " in s else s


def shifted(m, o):
    def w(x):
        if isinstance(x, dict):
            if set(x) == {"pos", "end"}:
                return dict(pos=x["pos"] - o, end=x["end"] - o)
            return {k: w(v) for k, v in x.items() if k != "file_path"}
        return [w(y) for y in x] if isinstance(x, list) else text(re.sub(r"\bN\d{5}\b", "N", x)) if isinstance(x, str) else x
    return canon(w(m))


def pieces(c, b):
    _, arr = c.tlc("Locality", "SPECIFICATION Spec\nCONSTANTS\n MaxPieces = 3\n Types = {1, 2}\n Pieces <- ThePieces\n Fillers <- TheFillers\nINVARIANTS Local Balanced AllAsked Emit\n")
    arr = sorted({canon(x): x for x in arr}.values(), key=canon)
    skip = {int(k.split(":")[1]) for f in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] for k in f["keys"] if k.startswith("corpus:")}
    S = [s for s in corpus.snippets() if s["i"] not in skip and not s.get("files") and s["name"].endswith((".ts", ".tsx")) and not s["name"].endswith(".d.ts")
         and not re.search(r"\b(import|export|declare global|declare module)\b|^#!|<reference|@ts-|\buse strict\b", s["code"])]
    rules = sorted({s["rule"] for s in corpus.snippets()})
    ext = lambda s: ".tsx" if s["name"].endswith("x") else ".ts"

    def run(files, tag):
        d = os.path.join(c.tmp, tag)
        os.makedirs(d)
        opt = dict(strict=True, target="esnext", lib=["esnext", "dom"], types=[], jsx="preserve", experimentalDecorators=True, module="esnext", moduleDetection="force", noEmit=True)
        if tag.startswith("loose"):
            opt.update(strict=False, noImplicitAny=False)
        json.dump(dict(compilerOptions=opt), open(d + "/tsconfig.json", "w"))
        for k, v in files.items():
            with open(os.path.join(d, k), "w", newline="") as f:
                f.write(v)
        opts = random.Random("%s/%s" % (c.seed, re.sub("(alone|together)$", "", tag)))
        opts = [(x, ruleopts.some(x, opts) if tag.startswith("loose") else None) for x in rules]
        R = headless(b, dict(version=2, configs=[dict(file_paths=[os.path.join(d, k) for k in sorted(files)], rules=[dict(name=x) if o is None else dict(name=x, options=o) for x, o in opts])]), ["-fix", "-fix-suggestions"], timeout=300)
        shutil.rmtree(d)
        if R["rc"]:
            c.violation("linting %s ends with %d: %s" % (tag, R["rc"], R["err"][-800:]), R["err"][-4000:])
            return None
        out = collections.defaultdict(list)
        for t, m in R["frames"]:
            if t == 1:
                out[os.path.basename(m["file_path"])].append(m)
        return out

    def round_(tag, plan):
        """plan: list of [(snippet, filler)]"""
        alone = run({"s%d%s" % (s["i"], ext(s)): wrap(0, s["code"]) for s in S}, tag + "alone")
        files, offs = {}, {}
        n = 0
        for i, seq in enumerate(plan):
            t, o = "", []
            for s, f in seq:
                n += 1
                t += FILL[f] % (n, n) if "%" in FILL[f] else FILL[f]
                o.append((len(t.encode()), s))
                t += wrap(n % 100000, s["code"])
                o.append((len(t.encode()), None))
            name = "g%d%s" % (i, ext(seq[0][0]))
            files[name], offs[name] = t, o
        res = run(files, tag + "together")
        if alone is None or res is None:
            return
        for name in files:
            c.validated += 1
            o = offs[name] + [(10**9, None)]
            for (a, s), (z, _) in zip(o, o[1:]):
                if s is None:
                    continue
                c.count("pieces compared")
                want = collections.Counter(shifted(m, 0) for m in alone["s%d%s" % (s["i"], ext(s))] if m["range"]["end"] > 0)   # not what is said of the whole file
                got = collections.Counter(shifted(m, a) for m in res[name] if a <= m["range"]["pos"] < z and m["range"]["end"] > 0)
                if want != got:
                    lost, new = sorted((want - got).elements()), sorted((got - want).elements())
                    r = json.loads((lost + new)[0]).get("rule")
                    c.violation("%s on %r differs in a file with other code: alone %s, there %s" % (r, s["code"][:500], [x[:300] for x in lost[:2]], [x[:300] for x in new[:2]]),
                                dict(file=files[name], piece=s["code"], lost=lost, new=new), key="corpus:%s:%s" % (s["i"], r))
        c.sample(dict(file=list(files.values())[0][:400]))
    for k in range(8 if c.thorough else 2):
        rng = random.Random("%s/%d" % (c.seed, k))
        plan = []
        for e in (".ts", ".tsx"):
            P = [s for s in S if ext(s) == e]
            if not P:
                continue
            deck = []
            fills = list(FILL)
            for x in (arr if c.thorough else rng.sample(arr, 1200)) if e == ".ts" else rng.sample(arr, 200):
                pick = {}
                for q in x:
                    if q["piece"] not in pick:
                        if not deck:
                            deck = rng.sample(P, len(P))
                        pick[q["piece"]] = deck.pop()
                plan.append([(pick[q["piece"]], q["filler"]) for q in x])
            for size in (2, 7, 60):
                deck = rng.sample(P, len(P))
                plan += [[(s, rng.choice(fills)) for s in deck[i:i + size]] for i in range(0, len(deck), size)]
        round_("%s%d" % ("loose" if k % 2 == 1 else "strict", k), plan)


def ref(r):
    return {101: "string", 102: "{}"}.get(r) or "ABC"[r - 1]


def types(c, b):
    _, q = c.tlc("Memo", "SPECIFICATION Spec\nCONSTANTS\n N = 2\n MaxQ = 2\n Graphs <- AllGraphs\nINVARIANTS Forgetful Remembered Emit\n")
    _, q3 = c.tlc("Memo", "SPECIFICATION Spec\nCONSTANTS\n N = 3\n MaxQ = 3\n Graphs <- Some3\nINVARIANTS Forgetful Remembered Emit\n", args=["-seed", str(c.seed)])
    if not c.thorough:
        q3 = c.rng.sample(sorted(q3, key=canon), 3000)
    cases = q + q3
    per = 400
    root = os.path.join(c.tmp, "memo")
    os.makedirs(root)
    json.dump(dict(compilerOptions=dict(strict=True, target="esnext", types=[], noEmit=True)), open(root + "/tsconfig.json", "w"))
    where = {}
    for i in range(0, len(cases), per):
        t = "export {};\n"
        p = "%s/f%d.ts" % (root, i)
        for j, x in enumerate(cases[i:i + per]):
            t += "namespace N%d {\n" % j
            for n, d in enumerate(x["g"]):
                r = [ref(k) for k in d["r"]]
                t += "type %s = %s;\n" % ("ABC"[n], "[%s]" % ", ".join(r) if d["k"] == "tup" else "%s[]" % r[0] if d["k"] == "arr" else "[%s]" % " | ".join(r))
            for n in range(len(x["g"])):
                t += "declare const %s: %s;\n" % ("abc"[n], "ABC"[n])
            for k, (n, v) in enumerate(x["q"]):
                t += "String("
                where[p, len(t)] = (x, n, v)
                t += "%s);\n" % "abc"[n - 1]
            t += "}\n"
        open(p, "w").write(t)
    R = headless(b, dict(version=2, configs=[dict(file_paths=sorted({p for p, _ in where}), rules=[dict(name="no-base-to-string")])]))
    got = {(m["file_path"], m["range"]["pos"]): m["message"]["description"] for t, m in R["frames"] if t == 1}
    if R["rc"]:
        c.violation("linting ends with %d: %s" % (R["rc"], R["err"][-800:]), R["err"][-3000:])
    text = {2: None, 1: "may use", 0: "will use"}
    for k, (x, n, v) in where.items():
        g = got.pop(k, None)
        c.count("questions about types")
        if (g is None) != (v == 2) or (g and text[v] not in g):
            c.violation("String(%s) with %s, asked in the order %s: expected %s, got %r" % ("abc"[n - 1], canon(x["g"]), x["q"], text[v] or "no report", g), x)
    c.validated += len(cases)
    for k in sorted(got)[:5]:
        c.violation("unexpected report at %s: %s" % (k, got[k]), [k, got[k]])


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    types(c, b)
    pieces(c, b)


main("C34", body)
