"""One-off generator of spec/syntax.json: which commands and options each
published syntax version has.  Run by hand on the pinned tree, reviewed, and
committed; no check runs it."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import *
tables, index, versions = [], {}, {}
for v in VERSIONS:
    h = fresh(v)
    versions[v] = {}
    for n in sorted(h.commands):
        c = h.commands[n]
        op = c._getParser()
        if n == "method":
            op = None
        t = []
        for a in (op._actions if op is not None else []):
            if not a.option_strings:
                continue
            tn = type(a).__name__
            kind = "flag" if a.nargs == 0 else ("optvalue" if a.nargs == "?" else "value")
            o = {"names": list(a.option_strings), "kind": kind}
            if kind != "flag":
                ty = getattr(a.type, "__name__", None)
                if ty: o["type"] = ty
                if a.choices: o["choices"] = list(a.choices)
            if a.deprecated: o["deprecated"] = True
            if a.required: o["required"] = True
            t.append(o)
        if n == "realm":
            t = [{"names": ["--" + x], "kind": k} for x, k in (("client-software", "value"), ("server-software", "value"), ("membership-software", "value"), ("one-time-password", "value"), ("no-password", "flag"), ("computer-ou", "value"))]
        k = json.dumps(t, sort_keys=True)
        if k not in index:
            index[k] = len(tables); tables.append(t)
        st = "removed" if isinstance(c, RemovedCommand) else "deprecated" if isinstance(c, DeprecatedCommand) else "ok"
        versions[v][n] = [st, index[k]]
with open(os.path.join(VERIF, "spec", "syntax.json"), "w") as f:
    f.write('{"tables": [\n' + ",\n".join(json.dumps(t, sort_keys=True) for t in tables) + '\n],\n"versions": {\n')
    f.write(",\n".join('"%s": %s' % (v, json.dumps(versions[v], sort_keys=True)) for v in VERSIONS))
    f.write("\n}}\n")
print(len(tables), os.path.getsize(os.path.join(VERIF, "spec", "syntax.json")))
