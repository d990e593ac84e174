"""The frozen syntax: enumeration of the lines of C02, their outcome on the
real code, and the committed tables (spec/golden/) they are compared with.

The tables say, for every line and version: rejected, or accepted with which
kinds of warnings and which values in which attributes of which commands.
They were produced once (tools/gen_golden.py) and reviewed; the code is never
consulted for what is right.
"""
import hashlib
import itertools
import json
import os

from mc import core, grammar as G
from mc.core import VERIF, VERSIONS, canon_commands, fast, fresh, run_on

GOLD = os.path.join(VERIF, "spec", "golden")
ALL = sorted({c for v in VERSIONS for c in G.commands(v)})


def single_lines(cmd):
    """Union over all versions, so that what a version does not know is checked too."""
    out = []
    seen = set()

    def add(ln):
        if ln not in seen:
            seen.add(ln)
            out.append(ln)
    for v in VERSIONS:
        if cmd in G.spec()[v]:
            for ln in G.singles(v, cmd):
                add(ln)
    for b in G.BASES[cmd]:
        words = b.split()
        for i in range(len(words)):
            add(G.line(cmd, *(words[:i] + words[i + 1:])))
            add(G.line(cmd, *(words[:i + 1] + words[i:])))
        add(G.line(cmd, b, b))
    return out


def union_opts(cmd):
    """Every option of the command in any version, once per (name, kind)."""
    seen, out = set(), []
    for v in VERSIONS:
        for o in G.spec()[v].get(cmd, {"opts": []})["opts"]:
            k = (o["names"][0], o["kind"])
            if k not in seen:
                seen.add(k)
                out.append(o)
    return out


def pair_lines(v, cmd):
    """Both orders of every pair of options of this version, on one line; the
    same two options on two lines; every line given twice."""
    for ln in G.combos(v, cmd, 2, ordered=True):
        yield ln
    opts = G.spec()[v][cmd]["opts"]
    b = G.BASES[cmd]
    for x, y in itertools.product(range(len(b)), repeat=2):
        yield G.line(cmd, b[x]) + "\n" + G.line(cmd, b[y])
    for o1, o2 in itertools.product(opts, repeat=2):
        t1 = G.primary_tokens(cmd, o1)[0]
        t2 = G.primary_tokens(cmd, o2, 2)[-1]
        yield G.line(cmd, b[0], t1) + "\n" + G.line(cmd, b[0], t2)


def deep_lines(v, cmd):
    for ln in G.combos(v, cmd, 3):
        yield ln
    for ln in G.combos(v, cmd, 2, k=3):
        yield ln


def wide_lines(v, cmd):
    """Every option at every value of its domain but the first, next to every
    other option."""
    opts = G.spec()[v][cmd]["opts"]
    for o1 in opts:
        for t1 in G.primary_tokens(cmd, o1, 99)[1:]:
            for o2 in opts:
                if o2 is not o1:
                    for b in G.BASES[cmd]:
                        yield G.line(cmd, b, t1, G.primary_tokens(cmd, o2)[0])


def plain(x, nested=None):
    """JSON-able; booleans are 0/1; nested objects keep only known attributes."""
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "obj":
        return {"obj": {k: plain(y, nested) for k, y in sorted(x[1].items()) if nested is None or k in nested}}
    if isinstance(x, (list, tuple)):
        return [plain(y, nested) for y in x]
    if isinstance(x, dict):
        return {k: plain(y, nested) for k, y in sorted(x.items())}
    if isinstance(x, bool):
        return int(x)
    return x


def outcome(v, text, mk, attrs=None):
    """None (rejected) or {"w": warning kinds, "d": {command: {attr: value}}}.

    attrs: command -> (set of attributes, set of attributes of its objects)"""
    h = mk(v)
    o = run_on(h, text + "\n")
    if not o.ok:
        return None
    base = pristine(v)
    d = {}
    for c, a in canon_commands(h).items():
        if core.is_pristine(a):
            continue
        known, nested = attrs[c] if attrs and c in attrs else (None, None)
        delta = {}
        for k, x in a.items():
            if known is not None and k not in known:
                continue
            if k not in base.get(c, {}) or base[c][k] != x:
                delta[k] = plain(x, nested)
        if known is not None:
            for k in known:
                if k not in a:
                    delta[k] = "<missing>"
        if delta:
            d[c] = delta
    return {"w": sorted(set(o.warns)), "d": d}


_pr = {}


def pristine(v):
    if v not in _pr:
        _pr[v] = canon_commands(fresh(v))
    return _pr[v]


def short(o):
    return hashlib.md5(json.dumps(o, sort_keys=True).encode()).hexdigest()[:6]


KINDS = {"pair": pair_lines, "wide": wide_lines, "deep": deep_lines}


def load(name):
    with open(os.path.join(GOLD, name + ".json")) as f:
        return json.load(f)
