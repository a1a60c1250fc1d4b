"""Renders the documents of Payload.tla."""
import json


def render(d, root):
    f1, f2 = root + "/a.ts", root + "/b.ts"
    rule = "no-array-delete"
    j = json.dumps
    configs = {"ok": [dict(file_paths=[f1], rules=[dict(name=rule)])], "two": [dict(file_paths=[f1, f2], rules=[dict(name=rule)])], "null": None, "[]": [], "{}": {}, "'x'": "x", "1": 1,
               "[1]": [1], "['x']": ["x"], "[[]]": [[]], "paths:'x'": [dict(file_paths=f1, rules=[])], "paths:[1]": [dict(file_paths=[1], rules=[])], "rules:{}": [dict(file_paths=[f1], rules={})],
               "rules:['x']": [dict(file_paths=[f1], rules=[rule])], "rules:[1]": [dict(file_paths=[f1], rules=[1])], "name:1": [dict(file_paths=[f1], rules=[dict(name=1)])],
               "entry:{}": [{}], "entry:null": [None], "options:1": [dict(file_paths=[], rules=[dict(name=rule, options=1)])]}
    files = {"ok": [dict(file_path=f1, rules=[rule])], "two": [dict(file_path=f1, rules=[rule]), dict(file_path=f2, rules=[rule])], "null": None, "[]": [], "{}": {}, "'x'": f1, "[1]": [1],
             "path:1": [dict(file_path=1, rules=[rule])], "rules:'x'": [dict(file_path=f1, rules=rule)], "rules:[1]": [dict(file_path=f1, rules=[1])], "rules:[{}]": [dict(file_path=f1, rules=[dict(name=rule)])]}
    flag = {"null": "null", "true": "true", "false": "false", "1": "1", "'true'": '"true"'}
    over = {"null": "null", "{}": "{}", "[]": "[]", "'x'": '"x"', "value:1": j({f1: 1})}
    version = {"'2'": '"2"'}
    m = []
    if d["version"] != "absent":
        m.append('"version": ' + version.get(d["version"], d["version"]))
    if d["configs"] != "absent":
        m.append('"configs": ' + j(configs[d["configs"]]))
    if d["files"] != "absent":
        m.append('"files": ' + j(files[d["files"]]))
    for k, t, v in (("source_overrides", over, "over"), ("report_syntactic", flag, "syn"), ("report_semantic", flag, "sem")):
        if d[v] != "absent":
            m.append('"%s": %s' % (k, t[d[v]]))
    if d["extra"] == "unknown":
        m.append('"colour": [1, {"version": 7}]')
    elif d["extra"] == "nested":
        m.insert(0, '"meta": {"configs": 1, "files": 2, "version": 1}')
    g = d["damage"]
    if g == "twice":
        m += ['"zz": 1', '"zz": 1']
    t = "{" + ", ".join(m) + "}"
    if g == "cut":
        t = t[:-1]
    elif g == "empty":
        t = ""
    elif g == "trailing":
        t += " x"
    elif g == "array":
        t = "[" + t + "]"
    elif g == "string":
        t = '"x"'
    elif g == "null":
        t = "null"
    elif g == "comment":
        t = "/* c */" + t
    b = t.encode()
    if g == "utf8":
        b = b[:-1] + (b", " if m else b"") + b'"q": "\xff\xfe"}'
    return b
