"""C09: handlers and parsers do not influence each other, nor does the past.

A  two handlers, each created, given a parser, fed a document of nearly all
   commands and written: every interleaving of the two programs, for every
   version together with several others; each gets what it gets alone.
B  one parser reading several files: every sequence of 3 documents (good ones,
   and ones that fail in every state of the parser) gives the configuration of
   the good parts; after a failure the next file starts afresh.
C  for every command class of every version: objects created after all lines of
   the frozen tables have been parsed are as pristine as before.
D  the same input gives the same output under every hash seed tried.
"""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, docs, golden, grammar as G           # noqa: E402
from mc.core import VERSIONS, at_least, canon_handler, canon_obj, fast, fresh, quiet_stderr, run_on   # noqa: E402
from pykickstart.parser import KickstartParser            # noqa: E402

PROP = "C09"


# ------------------------------------------------------------------------- A
class Program(object):
    STEPS = 4

    def __init__(self, v, doc):
        self.v, self.doc, self.pc = v, doc, 0
        self.h = self.p = None
        self.seen = []

    def step(self):
        if self.pc == 0:
            self.h = fresh(self.v)
        elif self.pc == 1:
            self.p = KickstartParser(self.h)
        elif self.pc == 2:
            o = run_on(self.h, self.doc, parser=self.p)
            self.seen.append(o.brief())
        else:
            self.seen.append(json.dumps(canon_handler(self.h), sort_keys=True, default=str))
            self.seen.append(str(self.h))
        self.pc += 1

    def result(self):
        # look again: the other one may have changed it since
        return self.seen + [json.dumps(canon_handler(self.h), sort_keys=True, default=str)]


def alone(v, doc):
    p = Program(v, doc)
    for _ in range(p.STEPS):
        p.step()
    return p.result()


def interleavings(n):
    for pos in itertools.combinations(range(2 * n), n):
        yield ["1" if i in pos else "2" for i in range(2 * n)]


def pairs(v, w, st):
    d1, d2 = docs.big(v, 0), docs.big(w, 1)
    want = {"1": alone(v, d1), "2": alone(w, d2)}
    for sched in interleavings(Program.STEPS):
        if v == w and sched[0] == "2":
            continue
        ps = {"1": Program(v, d1), "2": Program(w, d2)}
        for s in sched:
            ps[s].step()
        st.count("schedules")
        st.count("evaluations")
        for s in "12":
            got = ps[s].result()
            if got != want[s]:
                i = next(i for i in range(4) if got[i] != want[s][i])
                st.violation("pair:%s:%s:%s" % (v, w, "".join(sched)),
                             "handler %s of %s/%s differs (%s) in the schedule %s: %s" % (s, v, w, ("outcome", "configuration", "text", "configuration at the end")[i], "".join(sched), firstdiff(want[s][i], got[i])),
                             {"versions": [v, w], "schedule": "".join(sched), "documents": [d1, d2]})
                return
    st.outcome(v, w)


def firstdiff(a, b):
    n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return "...%r, alone ...%r" % (b[max(0, n - 60):n + 60], a[max(0, n - 60):n + 60])


# ------------------------------------------------------------------------- B
def reuse_docs(v, root):
    """(name, text, the part that counts)"""
    f8 = at_least(v, "F8")
    inc = os.path.join(root, "inc.ks")
    with open(inc, "w") as f:
        f.write("user --name=i1\nnosuch\nuser --name=i2\n")
    secinc = os.path.join(root, "secinc.ks")
    with open(secinc, "w") as f:
        f.write("echo 1\n%unknownsection\n%end\nnosuch\n")
    out = [
        ("cmd", "lang en_US\nuser --name=a\n", None),
        ("pre", "%pre --erroronfail --log=/l\necho 1\n%end\n", None),
        ("post", "%post\necho 2\n%end\n", None),
        ("pkgs", "%packages\np1\n@g\n%end\n", None),
        ("addon", "%addon a\nx\n%end\n", None),
        ("plat", "#platform=x86\n", None),
        ("unknown", "user --name=b\nnosuch\nuser --name=c\n", "user --name=b\n"),
        ("badopt", "%post\necho 3\n%end\nuser --bogus\nuser --name=d\n", "%post\necho 3\n%end\n"),
        ("header", "%post --bogus\necho 4\n%end\n", ""),
        ("unksec", "user --name=e\n%nosuch\nuser --name=f\n%end\n", "user --name=e\n"),
        ("inc", "user --name=g\n%%include %s\nuser --name=h\n" % inc, "user --name=g\nuser --name=i1\n"),
        ("missing", "%%include %s/nosuch.ks\nuser --name=j\n" % root, ""),
        ("secinc", "%%post --erroronfail\n%%include %s\n%%end\n" % secinc, None if False else "%post --erroronfail\necho 1\n%unknownsection\n%end\n"),
    ]
    if f8:
        out += [("open", "%pre --erroronfail\necho 5\n", ""), ("nested", "%post --log=/x\necho 6\n%pre\n", ""),
                ("openpkgs", "%packages\n", "%packages\n%end\n"), ("openaddon", "%addon b\ny\n", "")]
    else:
        out += [("open", "%pre --erroronfail\necho 5\n", "%pre --erroronfail\necho 5\n%end\n"),
                ("nested", "%post --log=/x\necho 6\n%pre\nz\n", "%post --log=/x\necho 6\n%end\n%pre\nz\n%end\n")]
    return out


def view(h):
    c = canon_handler(h)
    c["commands"] = dict(c["commands"])
    c["commands"]["user"] = c["commands"]["user"]["userList"]       # seen is set by a wrong line, too
    return c


def reuse(v, n, st):
    root = tempfile.mkdtemp(prefix="c09-")
    try:
        ds = reuse_docs(v, root)
        for seq in itertools.product(ds, repeat=n):
            text = "".join(d[1] if d[2] is None else d[2] for d in seq)
            o = run_on(fast(v), text)
            want = view(o.handler)
            assert o.ok, (v, [d[0] for d in seq], o.brief())
            for same in (True, False):
                for mk in (fast, fresh):
                    h = mk(v)
                    p = KickstartParser(h)
                    for d in seq:
                        run_on(h, d[1], parser=p if same else None)
                    got = view(h)
                    if got == want:
                        break
                st.count("evaluations")
                if got != want:
                    st.violation("reuse:%s:%s:%s" % (v, [d[0] for d in seq], same),
                                 "%s: reading %s with %s: %s" % (v, [d[1] for d in seq], "one parser" if same else "one handler", core.diff(want, got)),
                                 {"version": v, "documents": [d[1] for d in seq], "same_parser": same})
            st.outcome(v, [d[0] for d in seq])
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------------------------- C
def pristine(v, st):
    h = fresh(v)
    classes = {}
    for n, c in core.command_objects(h).items():
        if n != "method":
            classes[n] = type(c)
    def datas():
        out = {}
        for n in dir(h):
            c = getattr(h, n)
            if isinstance(c, type) and issubclass(c, core.BaseData):
                out[n] = c
        return out
    ds = datas()
    before = {n: canon_obj(c()) for n, c in classes.items()}
    dbefore = {n: canon_obj(c()) for n, c in ds.items()}
    f = core.FastHandler(v)
    for cmd in G.commands(v):
        for ln in golden.single_lines(cmd):
            f.reset()
            run_on(f.h, ln + "\n")
            st.count("evaluations")
        for ln in golden.single_lines(cmd)[:40]:
            run_on(f.h, ln + "\n")          # and in a row
        str(f.h)
    for n, c in classes.items():
        now = canon_obj(c())
        if now != before[n]:
            st.violation("pristine:%s:%s" % (v, n), "%s: a new %s object is no longer pristine: %s" % (v, n, core.diff(before[n], now)), {"version": v, "command": n})
    for n, c in ds.items():
        now = canon_obj(c())
        if now != dbefore[n]:
            st.violation("pristine:%s:%s" % (v, n), "%s: a new %s object is no longer pristine: %s" % (v, n, core.diff(dbefore[n], now)), {"version": v, "data": n})
    st.outcome(v)


# ------------------------------------------------------------------------- D
def digest(v):
    import hashlib
    m = hashlib.sha1()
    for cmd in G.commands(v):
        for ln in golden.single_lines(cmd):
            o = run_on(fast(v), ln + "\n")
            m.update(repr((o.ok, o.warns)).encode())
            if o.ok:
                m.update(json.dumps(canon_handler(o.handler)["commands"].get(cmd), sort_keys=True, default=str).encode())
                m.update(str(o.handler.commands[cmd]).encode())
    h = fresh(v)
    run_on(h, docs.big(v, 0))
    m.update(str(h).encode())
    run_on(h, docs.big(v, 1) + "%packages\n" + "".join("p%d\n-x%d\n@g%d\n-@y%d\n" % (i, i, i, i) for i in range(20)) + "%end\n")
    m.update(str(h).encode())
    print(m.hexdigest())


def seeds(v, vals, st):
    out = {}
    for s in vals:
        env = dict(os.environ, PYTHONHASHSEED=str(s))
        r = subprocess.run([sys.executable, os.path.abspath(__file__), "digest", v], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
        if r.returncode != 0:
            raise RuntimeError(r.stderr)
        out[s] = r.stdout.strip()
        st.count("evaluations")
    if len(set(out.values())) != 1:
        st.violation("hashseed:%s" % v, "%s: results depend on the hash seed: %s" % (v, out), {"version": v, "seeds": vals})
    st.outcome("seed", v)


def body(item, st):
    kind = item[0]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with quiet_stderr():
            if kind == "pair":
                pairs(item[1], item[2], st)
            elif kind == "reuse":
                reuse(item[1], item[2], st)
            elif kind == "pristine":
                pristine(item[1], st)
            else:
                seeds(item[1], item[2], st)
    st.sample({"item": repr(item)})


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "digest":
        digest(sys.argv[2])
        return
    t0 = time.time()
    tier = core.tier()
    quick = tier == "quick"
    items = [("seed", v, (0, 1, 2) if quick else tuple(range(10))) for v in (("RHEL7", "F34") if quick else VERSIONS)]
    items += [("pristine", v) for v in VERSIONS]
    for i, v in enumerate(VERSIONS):
        ws = [v, VERSIONS[(i + 19) % 38]] if quick else VERSIONS
        items += [("pair", v, w) for w in ws]
    for v in ("F7", "F34") if quick else ("RHEL3", "RHEL5", "F7", "F8", "RHEL6", "RHEL7", "RHEL8", "F34"):
        items += [("reuse", v, n) for n in (1, 2, 3)]
    st = core.pmap(body, items)
    core.finish(PROP, st, "exploration", tier, t0, {
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes), "schedules": st.n["schedules"], "exhaustive": True,
        "rule": "all interleavings of two 4-step programs per pair of versions; all sequences of 3 documents on one parser; "
                "all frozen lines per version for pristine objects", "samples": st.samples},
        assumptions=["one thread", "hash seeds are enumerated, not exhausted"])


if __name__ == "__main__":
    main()
