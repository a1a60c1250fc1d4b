"""C18: options left out mean their documented defaults.  Options.tla's ways of writing the options of each rule, against the rule's verdicts."""
import sys, os, collections, random, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import corpus, ruleopts

NOTE = """All ways of writing up to 8 options with at most 1 (thorough: 2) of them not at the default, 14 (thorough: 90) of each rule's compared, on all corpus programs of the rule.
The documented defaults are the table of lib/ruleopts.py, taken from the schemas of the pinned commit."""


def render(rule, x, rng):
    names = [k for k, d in ruleopts.OPTIONS[rule].items() if not isinstance(d[0], dict)]
    grp = [k for k, d in ruleopts.OPTIONS[rule].items() if isinstance(d[0], dict)]
    o, D = {}, ruleopts.OPTIONS[rule]
    for k, v in zip(names, x["p"]):
        if v and not (v == 1 and D[k][0] is None):
            o[k] = D[k][0] if v == 1 else D[k][1][0]
    if grp and x["g"] != [0]:
        members = D[grp[0]][0]
        d = list(members.values())[0][0]   # all members have the same default
        o[grp[0]] = d if x["g"] == [3] else (not d) if x["g"] == [4] else {m: (members[m][0] if v == 1 else members[m][1][0]) for m, v in zip(members, x["g"][1:]) if v}
    return o


def body(c):
    b = c.build("tsgolint")["tsgolint"]
    S = corpus.snippets()
    shapes, runs = {}, []
    byrule = collections.defaultdict(list)
    for s in S:
        byrule[s["rule"]].append(s)
    for rule in sorted(ruleopts.OPTIONS):
        D = ruleopts.OPTIONS[rule]
        k = sum(not isinstance(d[0], dict) for d in D.values())
        g = sum(len(d[0]) for d in D.values() if isinstance(d[0], dict))
        if (k, g) not in shapes:
            _, q = c.tlc("Options", "SPECIFICATION Spec\nCONSTANTS\n K = %d\n G = %d\n MaxOther = %d\nINVARIANTS Spelled Emit\nPROPERTY Frame\n" % (k, g, 2 if c.thorough and k + g < 8 else 1))
            shapes[k, g] = sorted(q, key=canon)
        rng = random.Random("%s/%s" % (c.seed, rule))
        classes = collections.defaultdict(list)
        for x in shapes[k, g]:
            classes[canon(x["e"])].append(x)
        n = 0
        for e, xs in sorted(classes.items(), key=lambda y: (y[0].count("2"), y[0])):
            base = e.count("2") == 0
            size = lambda x: sum(v > 0 for v in x["p"]) + sum(v > 0 for v in x["g"][1:]) + (x["g"][0] > 0)
            xs = sorted(xs, key=size)
            pick = [xs[0], xs[-1]]
            rest = xs[1:-1]
            if base:
                pick += [x for x in rest if size(x) == 1] + rng.sample(rest, min(len(rest), 30 if c.thorough else 3))
            else:
                pick += rng.sample(rest, min(len(rest), 6 if c.thorough else 1))
            docs = []
            if base:
                docs += [("absent", None), ("null", None)]
            docs += [("options", render(rule, x, rng)) for x in pick]
            docs = [d for i, d in enumerate(docs) if d not in docs[:i]]
            if len(docs) > 1:
                runs.append((rule, e, docs))
    runs.append(("return-await", "[]", [("absent", None), ("null", None), ("options", ruleopts.RETURN_AWAIT[0])]))
    root = os.path.join(c.tmp, "o")
    files = {}
    for rule in sorted({r for r, _, _ in runs}):
        files[rule] = sorted(corpus.lay(os.path.join(root, rule), [s for s in byrule[rule] if not s.get("files")]))
        extra = c.rng.sample([s for s in S if s["rule"] != rule and not s.get("files")], 60)
        files[rule] += sorted(corpus.lay(os.path.join(root, rule, "x"), extra))

    def one(rule, how, o):
        r = dict(name=rule)
        if how != "absent":
            r["options"] = o
        R = headless(b, dict(version=2, configs=[dict(file_paths=files[rule], rules=[r])]), ["-fix", "-fix-suggestions"], timeout=200, env=dict(GOMAXPROCS="2"))
        return R["rc"], R["err"][-500:], collections.Counter(canon(m) for t, m in R["frames"] if t == 1)
    with cf.ThreadPoolExecutor(6) as ex:
        jobs = [(rule, e, docs, [ex.submit(one, rule, h, o) for h, o in docs]) for rule, e, docs in runs]
        heard = collections.Counter()
        for rule, e, docs, fs in jobs:
            res = [f.result() for f in fs]
            heard[rule, canon(sorted(res[0][2]))] += 1
            for (h, o), (rc, err, got) in zip(docs, res):
                c.validated += 1
                if rc:
                    c.violation("%s with options %s ends with %d: %s" % (rule, h if o is None else json.dumps(o), rc, err), dict(rule=rule, options=o, err=err))
                elif got != res[0][2]:
                    d = (got - res[0][2]) + (res[0][2] - got)
                    c.violation("%s: options %s and %s mean the same but give other reports: %s" % (rule, docs[0][0] if docs[0][1] is None else json.dumps(docs[0][1]), h if o is None else json.dumps(o), [x[:300] for x in list(d)[:2]]),
                                dict(rule=rule, a=docs[0], b=[h, o], differing=list(d)[:20]))
            c.sample(dict(rule=rule, options=[d[1] for d in docs], reports=sum(res[0][2].values())))
        c.stats["rules"] = len({r for r, _, _ in runs})
        c.stats["classes of options"] = len(runs)
        c.stats["verdicts told apart"] = len(heard)


main("C18", body)
