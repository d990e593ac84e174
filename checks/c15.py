"""C15: ksverdiff tells the difference between two syntax versions.

Reference model: the committed table of commands and options of every version
(spec/syntax.json).  For every pair of versions, older first, the lists ksverdiff
prints are compared with the differences of the model:
  removed commands    usable in FROM, not usable in TO
  added commands      usable in TO, not known in FROM
  deprecated commands deprecated in TO, and known in FROM
  options             by their first name, of commands usable in both versions
Every name is also confronted with the real parser of both versions.
"""
import contextlib
import io
import itertools
import os
import subprocess
import sys
import time
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, grammar as G                         # noqa: E402
from mc.core import REPO, VERSIONS, fresh, run_on         # noqa: E402
from tools import ksverdiff                               # noqa: E402

PROP = "C15"
KINDS = (("commands were removed in", "removed"), ("commands were deprecated in", "deprecated"), ("commands were added in", "added"))
OKINDS = (("options were added to the", "oadded"), ("options were deprecated from the", "odeprecated"), ("options were removed from the", "oremoved"))


def run(*argv):
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            rc = ksverdiff.main(list(argv))
        except SystemExit as e:
            rc = e.code
    return rc, out.getvalue(), err.getvalue()


def read(text, to):
    """The printed report as {"removed": [...], ("oadded", command): [...]}"""
    out, cur, bad = {}, None, None
    for ln in text.split("\n"):
        if ln.startswith("The following"):
            cur = None
            for t, k in KINDS:
                if t in ln and ln.rstrip().endswith("%s:" % to):
                    cur = k
            for t, k in OKINDS:
                if t in ln and ln.rstrip().endswith("command in %s:" % to):
                    cur = (k, ln.split(t)[1].split()[0])
            if cur is None or cur in out:
                bad = ln
            out[cur] = []
        elif ln.strip():
            if cur is None:
                bad = ln
            else:
                out[cur] += ln.split()
    return out, bad


def usable(v):
    return {c for c, x in G.spec()[v].items() if x["status"] != "removed"}


def optnames(v, c, deprecated=False):
    return {o["names"][0] for o in G.spec()[v][c]["opts"] if not deprecated or o.get("deprecated")}


def model(f, t):
    """what has to be listed; what may be"""
    S = G.spec()
    must, may = {}, {}
    known_f = set(S[f])
    must["removed"] = usable(f) - usable(t)
    must["added"] = usable(t) - known_f
    may["added"] = usable(t) - usable(f)
    must["deprecated"] = {c for c in known_f if S[t].get(c, {}).get("status") == "deprecated"}
    may["deprecated"] = {c for c in S[t] if S[t][c]["status"] == "deprecated"}
    for c in known_f & set(S[t]):
        if c == "method":
            continue            # not a command of kickstart files
        sure = S[f][c]["status"] == "ok" and S[t][c]["status"] == "ok" and c != "realm"      # realm has its own way with words
        for k, n in (("oadded", optnames(t, c) - optnames(f, c)), ("odeprecated", optnames(t, c, True)), ("oremoved", optnames(f, c) - optnames(t, c))):
            must[(k, c)] = n if sure else set()
            may[(k, c)] = n
    return must, may


def pair(f, t, st, spell=None):
    a, b = spell or (f, t)
    rc, out, err = run("-f", a, "-t", b)
    st.count("evaluations")
    got, bad = read(out, b)
    wrong = None
    if rc != 0 or err:
        wrong = "exit %r, %s" % (rc, err)
    elif bad is not None:
        wrong = "unexpected line %r" % bad
    else:
        must, may = model(f, t)
        for k in list(must) + [x for x in got if x not in must]:
            g = got.get(k, [])
            if isinstance(k, tuple) and k[1] == "method":
                continue
            if len(set(g)) != len(g) or list(g) != sorted(g):
                wrong = "%s: %s is not sorted" % (k, g)
            elif not must.get(k, set()) <= set(g):
                wrong = "%s: does not list %s" % (k, sorted(must[k] - set(g)))
            elif not set(g) <= may.get(k, must.get(k, set())):
                wrong = "%s: lists %s" % (k, sorted(set(g) - may.get(k, must.get(k, set()))))
            if wrong:
                break
            st.count("entries", len(g))
            for n in g:
                st.outcome(t, k, n)
    if wrong:
        st.violation("%s>%s:%s" % (f, t, wrong), "ksverdiff -f %s -t %s: %s" % (a, b, wrong), {"from": a, "to": b})
    return got


def usage(st):
    for argv, want in (((), 1), (("-f", "F20"), 1), (("-t", "F20"), 1), (("-f", "F20", "-t", "nosuch"), 1), (("-f", "nosuch", "-t", "F20"), 1),
                       (("-f", "", "-t", "F20"), 1), (("-l",), 0), (("--listversions",), 0), (("--from", "F20", "--to", "F21"), 0)):
        rc, out, _err = run(*argv)
        st.count("evaluations")
        if rc != want:
            st.violation("usage:%s" % (argv,), "ksverdiff %s exits with %r" % (" ".join(argv), rc), {"argv": argv})
        if argv and argv[0] in ("-l", "--listversions") and sorted(out.split()) != sorted(VERSIONS + ["DEVEL"]):
            st.violation("usage:%s" % (argv,), "ksverdiff %s prints %s" % (" ".join(argv), out.split()), {"argv": argv})
        r = subprocess.run([sys.executable, os.path.join(REPO, "tools", "ksverdiff.py")] + list(argv), env=dict(os.environ, PYTHONPATH=REPO),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
        st.count("evaluations")
        if r.returncode != want or r.stdout != out:
            st.violation("usage:%s cmd" % (argv,), "ksverdiff %s as a command exits with %r, prints %r" % (" ".join(argv), r.returncode, r.stdout), {"argv": argv})


def listed(v, st):
    """The table the model rests on is what the parser of this version does."""
    for c in sorted({c for w in VERSIONS for c in G.commands(w)} - {"method"}):
        status = G.spec()[v].get(c, {}).get("status")
        got = None
        for b in G.BASES[c]:
            o = run_on(fresh(v), "%s %s\n" % (c, b))
            st.count("evaluations")
            if o.ok:
                got = "deprecated" if "deprecated" in o.warns else "ok"
                break
        if status == "deprecated" and got != "deprecated" or (status in (None, "removed")) != (got is None):
            st.violation("table:%s:%s" % (v, c), "%s: %s is %s, expected %s" % (v, c, o.brief(), status), {"version": v, "command": c})


def body(item, st):
    if item[0] == "from":
        f = item[1]
        for t in VERSIONS[VERSIONS.index(f):]:
            pair(f, t, st)
        st.sample({"from": f, "to": t})
    elif item[0] == "spell":
        for f, t in itertools.product(("f20", "F20", "Fedora 20"), ("f34", "DEVEL", "devel", "Fedora 34")):
            pair("F20", "F34", st, (f, t))
        pair("RHEL6", "RHEL7", st, ("rhel6", "Red Hat Enterprise Linux 7"))
        usage(st)
    elif item[0] == "back":
        # going back is not what it is for, but it must not fail
        for t in VERSIONS[:VERSIONS.index(item[1])]:
            rc, _out, err = run("-f", item[1], "-t", t)
            st.count("evaluations")
            if rc != 0 or err:
                st.violation("%s>%s" % (item[1], t), "ksverdiff -f %s -t %s: exit %r %s" % (item[1], t, rc, err), {"from": item[1], "to": t})
    else:
        listed(item[1], st)


def main():
    t0 = time.time()
    tier = core.tier()
    items = [("from", v) for v in VERSIONS] + [("spell",)] + [("table", v) for v in VERSIONS] + [("back", v) for v in VERSIONS]
    st = core.pmap(body, items)
    core.finish(PROP, st, "model_checking", tier, t0, {
        "evaluations": st.n["evaluations"], "entries_compared": st.n["entries"], "distinct_nontrivial": len(st.outcomes),
        "model_states": len(VERSIONS), "model_transitions": len(VERSIONS) * (len(VERSIONS) + 1) // 2, "exhaustive": True,
        "rule": "all ordered pairs of versions, compared with the committed table; non-trivial: distinct listed names", "samples": st.samples},
        assumptions=["FROM is not newer than TO (as documented)", "options of deprecated and removed commands may or may not be listed"])


if __name__ == "__main__":
    main()
