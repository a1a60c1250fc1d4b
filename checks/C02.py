"""C02: every request document of Payload.tla given to the real program; V1 requests of Headless.tla against their V2
translation."""
import sys, os, json, random, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import concurrent.futures as cf
import world, frames
from C02docs import render


def says(verdict, d, msg):
    if verdict == "version":
        return "version" in msg and d["version"] in msg
    if verdict == "nofiles":
        return "no files" in msg
    return bool(msg.strip()) and "no files" not in msg and "unsupported version" not in msg


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    _, cases = c.tlc("Payload", "SPECIFICATION Spec\nINVARIANTS Decided NothingLintedUnlessAccepted OnlyKnownVersions Emit\n")
    root = os.path.join(c.tmp, "docs")
    os.makedirs(root)
    for f in ("a.ts", "b.ts"):
        open(root + "/" + f, "w").write("delete [1, 2][0];\nexport {};\n")

    def one(x):
        doc = render(x["d"], root)
        return x, doc, headless(b, doc, cwd=root)
    if not c.thorough:
        plain = [x for x in cases if x["lints"] or x["verdict"] in ("version", "nofiles")]
        rest = [x for x in cases if x not in plain]
        cases = plain + c.rng.sample(rest, min(2500, len(rest)))
    with cf.ThreadPoolExecutor(8) as ex:
        for x, doc, r in ex.map(one, cases):
            c.validated += 1
            c.count("documents: " + x["verdict"])
            c.sample(dict(document=doc.decode("utf-8", "replace"), verdict=x["verdict"]))
            kinds, bad = [k for k, _ in r["frames"]], None
            if x["verdict"] == "accept":
                fl = sorted(d["file_path"] for _, d in r["frames"])
                want = [root + "/a.ts", root + "/b.ts"][:x["lints"]]
                if r["rc"] or r["rest"] is not None or set(kinds) - {1} or fl != want:
                    bad = "a proper request ends with status %d, messages %s about %s, expected %s; %s" % (r["rc"], kinds, fl, want, r["err"][-300:])
            elif r["rc"] == 0 or kinds != [0] or r["rest"] is not None:
                bad = "a request to be refused (%s) ends with status %d and messages %s" % (x["verdict"], r["rc"], r["frames"][:3])
            elif not says(x["verdict"], x["d"], r["frames"][0][1].get("error", "")):
                bad = "the error message does not say what is wrong (%s): %r" % (x["verdict"], r["frames"][0][1])
            if bad:
                c.violation("%s; document %s" % (bad, doc[:400]), dict(case=x, document=doc.decode("utf-8", "replace")))

    # V1 requests mean what their translation means
    n = 3000 if c.thorough else 250
    rnd = [world.random_case(c.rng, "r%d" % i, nfiles=5, v1=1) for i in range(n)]

    def extra(case, w, r):
        p = w.payload()
        p2 = dict(version=2, configs=[dict(file_paths=[f["file_path"]], rules=[dict(name=n) for n in f["rules"]]) for f in p["files"]])
        p0 = dict(p, version=0)
        bad = []
        for q, what in ((p2, "version 2"), (p0, "version 0")):
            if not p["files"]:
                continue
            r2 = w.run(b, payload=q)
            if frames.key(r2["frames"]) != frames.key(r["frames"]) or r2["rc"] != r["rc"]:
                bad.append("a V1 request and its %s form differ: %s" % (what, json.dumps(p)[:600]))
        return bad
    world.conform(c, b, world.model(c, [], rnd), edits=True, extra=extra)


main("C02", body)
