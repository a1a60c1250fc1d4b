"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
nap = os.path.join(here, "lib", "not_applicable.json")
if os.path.exists(nap):
    NA = json.load(open(nap))
checks, na = [], []
for p in props:
    f = os.path.join(here, "checks", p["id"] + ".py")
    if os.path.exists(f) and p["id"] not in NA:
        src = open(f).read()
        mods = sorted(set(re.findall(r'tlc\(\s*"(\w+)"', src)))
        note = re.search(r'^NOTE = """(.*?)"""', src, re.S | re.M)
        note = " ".join(note.group(1).split()) if note else "Within the stated bounds; trusts TLC, the driver and the renderer."
        checks.append(dict(property=p["id"], quick_cmd="python3 checks/%s.py quick" % p["id"], thorough_cmd="python3 checks/%s.py thorough" % p["id"],
            technique="TLA+ model (%s) checked with TLC; its behaviours replayed against / traces of the real code validated by it" % ", ".join(m + ".tla" for m in mods),
            level="model_checking", level_note=note))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the drivers are added to the build through go build -overlay. See DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
