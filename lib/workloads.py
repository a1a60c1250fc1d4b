"""Workloads for the lint operation of the engine driver, and the projection of its logs onto Workers.tla."""
import json

KINDS = ["Identifier", "CallExpression", "NumericLiteral", "VariableStatement", "FunctionDeclaration", "IfStatement", "Block", "ArrowFunction"]
HOW = ["node", "range", "rangesug", "nodefix", "nodesug", "diag", "diagfix", "diagsug"]


def text(c, j):
    parts = []
    for k in range(c.rng.randint(0, 5)):
        parts.append(c.rng.choice([
            "const v%d_%d = f%d(%d, x);" % (j, k, k, k), "function g%d_%d() { if (x) { y(1); } }" % (j, k), "z%d.w(() => q);" % k,
            "if (1) { h(2); } else k;", "let s%d_%d = `a${b}c`;" % (j, k), "x;", "class C%d_%d { m(p = 1) { return p; } }" % (j, k)]))
    return "export {};\n" + "\n".join(parts) + "\n"


def scenario(c, n):
    nf = c.rng.choice([1, 2, 3, 5, 8, 13, 20])
    files = {"/w/tsconfig.json": json.dumps(dict(compilerOptions=dict(noLib=True, allowJs=True, noEmit=True)))}
    lint = ["/w/f%d.%s" % (j, c.rng.choice(["ts", "ts", "js"])) for j in range(nf)]
    rules = {}
    for j, f in enumerate(lint):
        files[f] = text(c, j)
    for f in lint:
        rs = []
        for i in range(c.rng.choice([0, 1, 1, 2, 3, 4])):
            ks = c.rng.sample(KINDS + ["-" + k for k in KINDS], c.rng.randint(0, 5))
            rs.append(dict(name=c.rng.choice(["ra", "rb", "rc", "rd", "re"]) if c.rng.random() < .2 else "r%d_%s" % (i, f[-4]), kinds=ks,
                           report=[k for k in ks if c.rng.random() < .5], how=c.rng.choice(HOW)))
        rules[f] = rs
    order = lint[:]
    c.rng.shuffle(order)
    return dict(op="lint", files=files, config="/w/tsconfig.json", lint=order, rules=rules, workers=c.rng.choice([1, 2, 3, 4, 6, 9]), tree=True,
                timing=bool(n % 2), single=c.rng.random() < .15, inferred=c.rng.random() < .3, fix=c.rng.random() < .5, sug=c.rng.random() < .5)


def trace(sc, r):
    """Projects a recorded run onto the specification's alphabet."""
    idx = {f: j + 1 for j, f in enumerate(sorted(sc["lint"]))}
    ws = {}
    files = []
    for f in sorted(sc["lint"]):
        t = r["trees"][f]
        files.append(dict(rules=[dict(name=x["name"], kinds=x["kinds"], report=x["report"]) for x in sc["rules"][f]],
                          tree=dict(k=[x["k"] for x in t], x=["-" + x["k"] for x in t], ch=[[y + 1 for y in x["ch"]] for x in t])))
    log = []
    for e in r["log"]:
        w = ws.setdefault(e["g"], len(ws) + 1)
        if e["e"] in ("run", "cb"):
            log.append(dict(e=e["e"], w=w, f=idx.get(e["f"], 0), nf=idx.get(e["nf"], 0), i=e.get("i", 0), k=e.get("k", ""), n=e.get("n", -1) + 1 if e["e"] == "cb" else 0, c=e["c"]))
        elif e["e"] == "diag":
            f, i, k, n = e["m"].split("#")      # what the reporting callback was
            log.append(dict(e="diag", w=w, f=idx.get(f, 0), tf=idx.get(e["f"], 0), i=int(i), k=k, n=int(n) + 1, r=e.get("r", "")))
    return dict(files=files, log=log)
