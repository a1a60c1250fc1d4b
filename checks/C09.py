"""C09: broken projects: pairs of project states and random workloads of Headless.tla against the real program."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import world


def explained(case, w, r):
    bad = []
    for k, d in r["frames"]:
        if k == 1 and d["kind"] == 1 and not d["message"]["id"].startswith("TS") and not d["message"].get("help"):
            bad.append("a tsconfig diagnostic has no explanation: %s" % d)
    return bad


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    n = 8000 if c.thorough else 500
    rnd = []
    while len(rnd) < n:
        x = world.random_case(c.rng, "r%d" % len(rnd), nfiles=6, broken=.5)
        if x["r"]["suppress"] and set(x["w"]["projects"]) & {"json", "extends"}:
            continue    # unspecified: not option-level errors
        rnd.append(x)
    pairs = [(x, o) for x, o in world.model(c, ["SmallBroken"], rnd) if not (x["r"]["suppress"] and set(x["w"]["projects"]) & {"json", "extends"})]
    world.conform(c, b, pairs, extra=explained)


main("C09", body)
