"""One-off generator of spec/freetext.json (see checks/c01.py, part D): in
which places of which commands a value with blanks etc. survives writing and
reading.  Run by hand on the pinned tree; no check runs it."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
import c01
from mc.core import *
from mc import grammar as G

def one(v):
    out = {}
    for cmd in G.commands(v):
        if G.spec()[v][cmd]["status"] != "ok" or cmd == "method":
            continue
        d = {}
        for slot, fn in c01.free_slots(v, cmd):
            ok = ""
            for i, val in enumerate(c01.FREE):
                r = c01.judge(v, fn(val) + "\n", fast)
                if r is not None and r[0]:
                    ok += str(i)
            if ok:
                d[slot] = ok
        if d:
            out[cmd] = d
    return v, out

with multiprocessing.Pool(8) as p:
    res = dict(p.map(one, VERSIONS, chunksize=1))
tables, idx, vers = [], {}, {}
for v in VERSIONS:
    vers[v] = {}
    for c, d in sorted(res[v].items()):
        k = json.dumps(d, sort_keys=True)
        if k not in idx:
            idx[k] = len(tables); tables.append(k)
        vers[v][c] = idx[k]
with open(os.path.join(VERIF, "spec", "freetext.json"), "w") as f:
    f.write('{"tables": [\n' + ",\n".join(tables) + '\n],\n"versions": {\n')
    f.write(",\n".join('"%s": %s' % (v, json.dumps(vers[v], sort_keys=True)) for v in VERSIONS))
    f.write("\n}}\n")
print(len(tables))
