"""Write spec/golden/ from the tree at hand (run by hand, on a reviewed tree).

The working tree at that time is the specification of the released syntax
versions; see DESIGN.md, C02, for how the tables were reviewed.
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, golden, grammar as G                # noqa: E402
from mc.core import VERSIONS, fast                       # noqa: E402


def dump(name, obj):
    with open(os.path.join(golden.GOLD, name + ".json"), "w") as f:
        f.write(obj)


def ranges(idx):
    """[(first, last, outcome)] over the list of versions"""
    out = []
    for i, o in enumerate(idx):
        if out and out[-1][2] == o:
            out[-1][1] = VERSIONS[i]
        else:
            out.append([VERSIONS[i], VERSIONS[i], o])
    return ["%s..%s %s" % (a, b, o) for a, b, o in out]


def collect(x, out):
    if isinstance(x, dict):
        if "obj" in x:
            out.update(x["obj"])
        for y in x.values():
            collect(y, out)
    elif isinstance(x, list):
        for y in x:
            collect(y, out)


def main():
    os.makedirs(golden.GOLD, exist_ok=True)
    # defaults and attributes
    tables, index, vers = [], {}, {}
    nested = {}
    for v in VERSIONS:
        vers[v] = {}
        for c, a in golden.pristine(v).items():
            t = json.dumps(golden.plain(a), sort_keys=True)
            if t not in index:
                index[t] = len(tables)
                tables.append(t)
            vers[v][c] = index[t]
    stat = {v: sorted(n for n, c in core.fresh(v).commands.items() if c is not None) for v in VERSIONS}
    for cmd in golden.ALL:
        outs, oidx, lines = [], {}, {}
        for ln in golden.single_lines(cmd):
            idx = []
            for v in VERSIONS:
                o = golden.outcome(v, ln, fast)
                if o is None:
                    idx.append("-")
                    continue
                for c, dd in o["d"].items():
                    collect(dd, nested.setdefault(c, set()))
                t = json.dumps(o, sort_keys=True)
                if t not in oidx:
                    oidx[t] = len(outs)
                    outs.append(t)
                idx.append(str(oidx[t]))
            lines[ln] = ranges(idx)
        s = '{"outcomes": [\n' + ",\n".join(outs) + '],\n"lines": {\n'
        s += ",\n".join("%s: %s" % (json.dumps(k), json.dumps(x)) for k, x in lines.items()) + "}}\n"
        dump("cmd-" + cmd, s)
    s = '{"nested": %s,\n"names": {\n' % json.dumps({c: sorted(x) for c, x in nested.items()}, sort_keys=True)
    s += ",\n".join("%s: %s" % (json.dumps(v), json.dumps(stat[v])) for v in VERSIONS)
    s += '},\n"tables": [\n' + ",\n".join(tables) + '],\n"versions": {\n'
    s += ",\n".join("%s: %s" % (json.dumps(v), json.dumps(vers[v])) for v in VERSIONS) + "}}\n"
    dump("defaults", s)
    attrs = golden_attrs()
    # pairs: one short hash per line
    core.pmap(pairs, [(c, attrs) for c in golden.ALL])


def golden_attrs():
    from checks.c02 import attr_table
    return {v: attr_table(v) for v in VERSIONS}


def pairs(item, st):
    cmd, attrs = item
    tabs, idx, vers = [], {}, {}
    for kind, fn in golden.KINDS.items():
        vers[kind] = {}
        for v in VERSIONS:
            if cmd not in G.spec()[v]:
                continue
            s = "".join("-" if o is None else golden.short(o)
                        for o in (golden.outcome(v, ln, fast, attrs[v]) for ln in fn(v, cmd)))
            if s not in idx:
                idx[s] = len(tabs)
                tabs.append(s)
            vers[kind][v] = idx[s]
    dump("pair-" + cmd, json.dumps({"hashes": tabs, "versions": vers}, indent=0) + "\n")


if __name__ == "__main__":
    main()
