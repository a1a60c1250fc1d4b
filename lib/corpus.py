"""The programs of corpus/snippets.jsonl.gz (taken from the rule tests of the repository) as projects on disk."""
import gzip, json, os
import vlib

HERE = os.path.join(vlib.VERIF, "corpus")


def snippets():
    return [dict(json.loads(l), i=i) for i, l in enumerate(gzip.open(os.path.join(HERE, "snippets.jsonl.gz"), "rt"))]


def options(name, seen=()):
    """Compiler options of a fixture tsconfig, with what it extends."""
    import re
    d = json.loads(re.sub(r",(\s*})", r"\1", open(os.path.join(HERE, "tsconfigs", name)).read()))
    o = options(d["extends"][2:]) if "extends" in d else {}
    o.update(d["compilerOptions"])
    return o


def lay(root, items, chunk=10**9, force=True):
    """Writes one project per tsconfig and chunk; returns {path: item}. items: dicts with code, name, tsconfig."""
    groups, out = {}, {}
    for s in items:
        groups.setdefault(s.get("tsconfig") or "tsconfig.minimal.json", []).append(s)
    n = 0
    for t, ss in sorted(groups.items()):
        for a in range(0, len(ss), chunk):
            n += 1
            d = "%s/q%d" % (root, n)
            os.makedirs(d, exist_ok=True)
            o = dict(options(t), noEmit=True, types=[], skipLibCheck=True)
            if force:
                o["moduleDetection"] = "force"
            json.dump(dict(compilerOptions=o), open(d + "/tsconfig.json", "w"))
            for s in ss[a:a + chunk]:
                sd = d
                if s.get("files"):
                    continue
                ext = s["name"][s["name"].index("."):]
                p = "%s/s%d%s" % (sd, s["i"], ext)
                with open(p, "w") as f:
                    f.write(s["code"])
                out[p] = s
    return out


def differing(a, b, by):
    """Differences of two multisets of canonical messages: {"corpus:snippet:rule": (only in a, only in b, snippet)}."""
    out = {}
    for side, d in ((0, a - b), (1, b - a)):
        for m in d:
            k, d1 = json.loads(m)
            s = by.get(d1.get("file_path")) if k == 1 else None
            out.setdefault("corpus:%s:%s" % (s["i"] if s else "?", d1.get("rule") if k == 1 else k), ([], [], s))[side].append(m)
    return out
