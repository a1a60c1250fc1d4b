import collections
from vlib import canon


def key(frames):
    """Everything reported, as a multiset; of a timing frame the counts."""
    out = collections.Counter()
    for k, d in frames:
        out[canon([k, d] if k != 2 else [k, sorted((r["rule_name"], r["calls"]) for r in d["rules"])])] += 1
    return out


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def shape(kind, d):
    """What is wrong with the shape of a message, or None."""
    def rng(x):
        return isinstance(x, dict) and set(x) == {"pos", "end"} and all(is_int(v) for v in x.values())

    def msg(x):
        return isinstance(x, dict) and {"id", "description"} <= set(x) <= {"id", "description", "help"} and all(isinstance(v, str) for v in x.values())

    def fixes(x):
        return isinstance(x, list) and all(isinstance(f, dict) and set(f) == {"text", "range"} and isinstance(f["text"], str) and rng(f["range"]) for f in x)
    if not isinstance(d, dict):
        return "not an object"
    if kind == 0:
        return None if set(d) == {"error"} and isinstance(d["error"], str) and d["error"] else "not an error message"
    if kind == 2:
        ok = set(d) == {"rules"} and isinstance(d["rules"], list) and all(isinstance(r, dict) and set(r) == {"rule_name", "duration", "calls"} and isinstance(r["rule_name"], str) and is_int(r["duration"]) and is_int(r["calls"]) for r in d["rules"])
        return None if ok else "not a timing report"
    if kind != 1:
        return "unknown kind %d" % kind
    if not {"kind", "message", "file_path"} <= set(d) <= {"kind", "message", "file_path", "range", "labeled_ranges", "rule", "fixes", "suggestions"}:
        return "members %s" % sorted(d)
    if d["kind"] not in (0, 1) or not msg(d["message"]):
        return "kind or message"
    if d["kind"] == 0 and not (isinstance(d.get("rule"), str) and isinstance(d["file_path"], str)):
        return "a rule diagnostic without rule or file"
    if d["kind"] == 1 and {"rule", "fixes", "suggestions"} & set(d):
        return "a tsconfig or compiler message with a rule's members"
    if d["file_path"] is not None and not isinstance(d["file_path"], str):
        return "file_path"
    if "range" in d and not rng(d["range"]):
        return "range"
    if "fixes" in d and not fixes(d["fixes"]):
        return "fixes"
    for l in d.get("labeled_ranges", []):
        if not (isinstance(l, dict) and set(l) == {"label", "range"} and isinstance(l["label"], str) and rng(l["range"])):
            return "labeled_ranges"
    for s in d.get("suggestions", []):
        if not (isinstance(s, dict) and set(s) == {"message", "fixes"} and msg(s["message"]) and fixes(s["fixes"])):
            return "suggestions"
    return None
