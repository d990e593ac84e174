"""C06: %include means the contents of the included file.

Every document over an alphabet of lines is carved, in every possible way,
into a main file and one included file, two included files, or an included
file that includes another one; reading the main file has to give what the
reference model of C03 gives for the whole document (with line numbers
counted per file).  Also: every way of naming the file, includes that are not
followed, and missing files.
"""
import itertools
import os
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core                                       # noqa: E402
from mc.core import fast, fresh, quiet_stderr             # noqa: E402
from checks import c03                                    # noqa: E402
import warnings                                           # noqa: E402

PROP = "C06"
ALPHA = ["word", "comment", "blank", "platform", "pre", "packages", "rec", "cur", "end", "endx", "bad"]
SMALL = ["word", "blank", "pre", "rec", "end"]
_dir = None


def scratch():
    global _dir
    if _dir is None or not os.path.isdir(_dir):
        _dir = tempfile.mkdtemp(prefix="c06-")
    return _dir


def write(name, lines):
    path = os.path.join(scratch(), name)
    with open(path, "w") as f:
        f.write("".join(lines))
    return path


def carve(lines, spec):
    """spec: ("one", i, j) | ("two", i, j, k, l) | ("nest", i, k, l, j).
    Returns ([main lines], {inlined line number: line number in its file})."""
    n = len(lines)
    num = {}
    files = {}

    def build(name, segs):
        out = []
        for s in segs:
            if isinstance(s, int):
                out.append(lines[s])
                num[s + 1] = len(out)
            else:
                out.append("%%include %s\n" % os.path.join(scratch(), s))
        files[name] = out
    if spec[0] == "one":
        _, i, j = spec
        build("a.ks", list(range(i, j)))
        build("main.ks", list(range(i)) + ["a.ks"] + list(range(j, n)))
    elif spec[0] == "two":
        _, i, j, k, l = spec
        build("a.ks", list(range(i, j)))
        build("b.ks", list(range(k, l)))
        build("main.ks", list(range(i)) + ["a.ks"] + list(range(j, k)) + ["b.ks"] + list(range(l, n)))
    else:
        _, i, k, l, j = spec
        build("b.ks", list(range(k, l)))
        build("a.ks", list(range(i, k)) + ["b.ks"] + list(range(l, j)))
        build("main.ks", list(range(i)) + ["a.ks"] + list(range(j, n)))
    return files, num


def specs(n):
    for i, j in itertools.combinations_with_replacement(range(n + 1), 2):
        yield ("one", i, j)
    for q in itertools.combinations_with_replacement(range(n + 1), 4):
        yield ("two",) + q
        yield ("nest",) + q


def noblank(text):
    return "".join(x for x in text.splitlines(True) if x.strip())


def norm(m):
    """Blank lines where files meet do not count."""
    m = dict(m)
    m["ev"] = [e for e in m["ev"] if not (e[0] == "line" and not e[2].strip())]
    m["scripts"] = [s[:1] + (noblank(s[1]),) + s[2:] for s in m["scripts"]]
    m["pkgs"] = sorted(m["pkgs"])
    return m


def renumber(m, num):
    m["ev"] = [(e[0], num[e[1]]) + e[2:] if e[0] == "cmd" else (e[:2] + (num[e[2]],) + e[3:] if e[0] == "open" else e) for e in m["ev"]]
    m["scripts"] = [s[:2] + (num[s[2]],) + s[3:] for s in m["scripts"]]
    if m.get("eof"):
        m["end"] = "error"
    elif m["end"] is not None:
        m["end"] = num[m["end"]]
    return m


def real(v, path, mk, fatal=True, parser=None, **kw):
    h = mk(v)
    p = c03.Parser(h, errorsAreFatal=fatal, **kw)
    return read(p, h, path)


def read(p, h, path):
    end = None
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        with quiet_stderr():
            try:
                p.readKickstart(path)
            except core.KickstartError as e:
                end = e.lineno if isinstance(e, core.KickstartParseError) else "KickstartError"
            except Exception as e:      # pylint: disable=broad-except
                end = "%s: %s" % (type(e).__name__, e)
    return {"platform": h.platform, "errors": p.errorsCount, "end": end, "ev": p.log, "pkgs": h.packages.packageList,
            "scripts": [(s.type, s.script, s.lineno, s.inChroot, s.logfile) for s in h.scripts]}


def same(m, r):
    for k in ("ev", "scripts", "platform", "errors", "pkgs", "end"):
        if k == "end" and m[k] == "error" and isinstance(r[k], int):
            continue
        if m[k] != r[k]:
            return "%s: expected %r, got %r" % (k, m[k], r[k])
    return None


def report(v, files, fatal, bad, st, extra=""):
    key = "%s:%s:%r%s" % (v, fatal, sorted((k, "".join(x)) for k, x in files.items()), extra)
    key = key.replace(scratch(), "DIR")
    st.violation(key, ("%s errorsAreFatal=%s %s %s: %s" % (v, fatal, {k: "".join(x) for k, x in files.items()}, extra, bad)).replace(scratch(), "DIR"),
                 {"version": v, "errorsAreFatal": fatal, "files": {k: "".join(x).replace(scratch(), "DIR") for k, x in files.items()}, "extra": extra})


def body(item, st):
    try:
        body2(item, st)
    finally:
        global _dir
        if _dir:
            shutil.rmtree(_dir, ignore_errors=True)
            _dir = None


def body2(item, st):
    if item[0] == "paths":
        return paths(item[1], st)
    if item[0] == "modes":
        return modes(item[1], st)
    _k, v, alphabet, n, prefix, newline = item
    states = set()
    for rest in itertools.product(alphabet, repeat=n - len(prefix)):
        names = prefix + rest
        lines = [c03.TEXT[x].replace("@", str(i + 1)) + "\n" for i, x in enumerate(names)]
        for fatal in ((True, False) if "bad" in names else (True,)):
            for spec in specs(n):
                m0 = c03.model(v, lines, fatal, True, states)
                files, num = carve(lines, spec)
                if not newline:
                    # files that do not end in a newline
                    for k in files:
                        if files[k] and files[k][-1].endswith("\n") and files[k][-1].strip():
                            files[k] = files[k][:-1] + [files[k][-1][:-1]]
                m = norm(renumber(dict(m0), num))
                for k in files:
                    write(k, files[k])
                st.count("evaluations")
                path = os.path.join(scratch(), "main.ks")
                r = norm(real(v, path, fast, fatal))
                if not newline:
                    m, r = nl(m), nl(r)
                bad = same(m, r)
                if bad:
                    r = norm(real(v, path, fresh, fatal))
                    bad = same(m, r if newline else nl(r))
                if bad:
                    report(v, files, fatal, bad, st)
        st.outcome(names, v)
    st.count("states", len(states))
    st.sample({"version": v, "lines": lines, "carving": spec})


def nl(m):
    """Compare section lines without their newlines."""
    m = dict(m)
    m["ev"] = [e[:2] + (e[2].rstrip("\n"),) if e[0] == "line" else e for e in m["ev"]]
    m["scripts"] = [s[:1] + (s[1].replace("\n", ""),) + s[2:] for s in m["scripts"]]
    return m


# ------------------------------------------------- naming the included file
def paths(v, st):
    root = scratch()
    for d in ("m", "m/sub", "m/sub/deep", "m/sp ace", "other", "cwd"):
        os.makedirs(os.path.join(root, d), exist_ok=True)

    def put(p, text):
        with open(os.path.join(root, p), "w") as f:
            f.write(text)
    cases = []
    # (main file, text, files, expected words in order)
    for inc in ("inc.ks", "./inc.ks", "sub/inc.ks", "../other/inc.ks", "sub/../inc.ks", "'sp ace/inc.ks'", '"sp ace/inc.ks"', "sub/deep/inc.ks",
                "ROOT/other/inc.ks"):
        target = os.path.normpath(os.path.join("m", inc.strip("'\"").replace("ROOT/", "../")))
        for head in ("%%include %s\n", "  %%include %s\n", "%%include %s # it is there\n", "%%include\t%s\n"):
            for wrap in ("cmd", "%rec", "%cur", "%pre", "%packages"):
                if wrap == "%packages" or wrap.startswith("%"):
                    pre, post = wrap + "\n", "%end\n"
                else:
                    pre, post = "", ""
                cases.append((pre + "w1\n" + head % inc.replace("ROOT", root) + "w3\n" + post, target, wrap))
    cwd = os.getcwd()
    try:
        os.chdir(os.path.join(root, "cwd"))
        for text, target, wrap in cases:
            for f in ("m/inc.ks", "m/sub/inc.ks", "other/inc.ks", "m/sp ace/inc.ks", "m/sub/deep/inc.ks"):
                put(f, "w2\n" if f == target else "wrong\n")
            put("m/main.ks", text)
            for main in (os.path.join(root, "m/main.ks"), "../m/main.ks"):
                st.count("evaluations")
                r = real(v, main, fast)
                got = words(r, wrap)
                if r["end"] is not None or got != ["w1", "w2", "w3"]:
                    r = real(v, main, fresh)
                    if r["end"] is not None or words(r, wrap) != ["w1", "w2", "w3"]:
                        report(v, {"m/main.ks": [text], target: ["w2\n"]}, True, "read %r, error %r" % (words(r, wrap), r["end"]), st, main.replace(root, "DIR"))
        # the same name means another file from another directory, at every level
        put("m/inc.ks", "w2\n%include sub/inc.ks\nw4\n%include leaf.ks\n")
        put("m/leaf.ks", "w5\n")
        put("m/sub/inc.ks", "w3a\n%include leaf.ks\nw3c\n%include deep/inc.ks\nw3e\n")
        put("m/sub/leaf.ks", "w3b\n")
        put("m/sub/deep/inc.ks", "w3d\n%include leaf.ks\n")
        put("m/sub/deep/leaf.ks", "w3dd\n")
        put("m/main.ks", "w1\n%include inc.ks\nw6\n%include leaf.ks\nw7\n%include sub/leaf.ks\nw8\n")
        want = ["w1", "w2", "w3a", "w3b", "w3c", "w3d", "w3dd", "w3e", "w4", "w5", "w6", "w5", "w7", "w3b", "w8"]
        put("other/inc.ks", "o2\n%include leaf.ks\n")
        put("other/leaf.ks", "o3\n")
        put("other/main.ks", "o1\n%include inc.ks\no4\n")
        want2 = ["o1", "o2", "o3", "o4"]
        for a, b in itertools.product((("m/main.ks", want), ("other/main.ks", want2)), repeat=2):
            for absolute in (True, False):
                h = fresh(v)
                p = c03.Parser(h)
                r = None
                for f, w in (a, b):
                    del p.log[:]
                    st.count("evaluations")
                    r = read(p, h, os.path.join(root, f) if absolute else os.path.join("..", f))
                    if words(r, "cmd") != w or r["end"] is not None:
                        report(v, {f: ["(nested)"]}, True, "read %r, expected %r, error %r" % (words(r, "cmd"), w, r["end"]), st, "%s %s %s" % (a[0], b[0], absolute))
                        break
    finally:
        os.chdir(cwd)
    st.sample({"version": v, "case": repr(cases[0])})


def words(r, wrap):
    if wrap == "cmd":
        return [e[2][0] for e in r["ev"] if e[0] == "cmd"]
    if wrap in ("%rec", "%cur"):
        return [e[2].strip() for e in r["ev"] if e[0] == "line" and e[2]]
    if wrap == "%packages":
        return sorted(r["pkgs"])
    return [x for s in r["scripts"] for x in s[1].split()]


# -------------------------------------------- not followed, missing, invalid
def modes(v, st):
    alphabet = ["word", "blank", "pre", "rec", "cur", "end", "comment"]
    states = set()
    for n in (1, 2, 3):
        for names in itertools.product(alphabet, repeat=n):
            lines = [c03.TEXT[x].replace("@", str(i + 1)) + "\n" for i, x in enumerate(names)]
            for at in range(n + 1):
                num = {i + 1: i + 1 + (i >= at) for i in range(n)}
                m = renumber(c03.model(v, lines, True, True, states), num)
                for kind in ("notfollowed", "ignored", "missing"):
                    inc = "%%include %s\n" % os.path.join(scratch(), "a.ks" if kind == "notfollowed" else "nosuch.ks")
                    files = {"a.ks": ["must not be read\n"], "main.ks": lines[:at] + [inc] + lines[at:]}
                    for k in files:
                        write(k, files[k])
                    kw = {"followIncludes": False} if kind == "notfollowed" else {"missingIncludeIsFatal": kind == "missing"}
                    st.count("evaluations")
                    want = m
                    if kind == "missing":
                        # everything before it, then an error (that need not be at a line)
                        want = c03.model(v, lines[:at], True, True, set())
                        if want["end"] is not None and not want.get("eof"):
                            want = m
                        else:
                            want = dict(renumber(want, num), end="KickstartError")
                            want["scripts"] = None
                            if m["end"] is not None and not m.get("eof") and m["end"] <= at:
                                want = m
                    for mk in (fast, fresh):
                        r = real(v, os.path.join(scratch(), "main.ks"), mk, True, **kw)
                        w, g = dict(want), dict(r)
                        if w["scripts"] is None:
                            w["scripts"] = g["scripts"] = []
                            w["ev"] = [e for e in w["ev"] if e[0] == "cmd"]
                            g["ev"] = [e for e in g["ev"] if e[0] == "cmd"]
                        w, g = norm(w), norm(g)
                        bad = same(w, g)
                        if not bad:
                            break
                    if bad:
                        report(v, files, True, bad, st, kind)
                    st.outcome(kind, names, at)
    # an error in a file that is there is an error, whatever missingIncludeIsFatal says
    for bad in ("bad\n", "%unk\n", "%pre\nx\n%pre\n", "%include\n", "%%include %s\n" % os.path.join(scratch(), "nosuch.ks")):
        for mif in (True, False):
            st.count("evaluations")
            write("a.ks", ["w1\n", bad])
            write("main.ks", ["w0\n", "%%include %s\n" % os.path.join(scratch(), "a.ks"), "w9\n"])
            r = real(v, os.path.join(scratch(), "main.ks"), fresh, True, missingIncludeIsFatal=mif)
            fine = "nosuch" in bad and not mif or bad.startswith("%pre") and not core.at_least(v, "F8")
            if (r["end"] is None) != fine:
                report(v, {"a.ks": ["w1\n", bad]}, True, "error reported: %r" % (r["end"],), st, "missingIncludeIsFatal=%s" % mif)
            line = {"bad\n": 2, "%unk\n": 2, "%include\n": 2, "%pre\nx\n%pre\n": 4}.get(bad)
            if line and not fine and r["end"] != line:
                report(v, {"a.ks": ["w1\n", bad]}, True, "reported at %r, is at %r" % (r["end"], line), st, "lineno")
    # %include without a file name
    for text in ("%include\n", "w1\n%include \n", "w1\n%include # x\n", '%include ""\n', "%rec\n%include\n%end\n", "%rec\nx\n%include \"\"\n%end\n"):
        st.count("evaluations")
        write("main.ks", [text])
        r = real(v, os.path.join(scratch(), "main.ks"), fresh, True)
        want = next(i + 1 for i, x in enumerate(text.split("\n")) if "%include" in x)
        if r["end"] != want:
            report(v, {"main.ks": [text]}, True, "no file name: error at %r, expected %r" % (r["end"], want), st)


def main():
    t0 = time.time()
    tier = core.tier()
    items = []
    quick = tier == "quick"
    for v in core.VERSIONS if not quick else ("RHEL3", "F7", "F8", "RHEL7", "RHEL8", "F34"):
        items.append(("paths", v))
    for v in ("F7", "F34") if quick else ("RHEL3", "RHEL5", "F7", "F8", "RHEL6", "RHEL7", "RHEL8", "F34"):
        items.append(("modes", v))
    for v in core.VERSIONS:
        items.append(("carve", v, ALPHA, 1, (), True))
        items.append(("carve", v, ALPHA if not quick or v in ("F7", "F34") else SMALL, 2, (), True))
    for v in ("F7", "F34"):
        for a in ALPHA:
            items.append(("carve", v, ALPHA, 3, (a,), True))
        items.append(("carve", v, ALPHA, 2, (), False))
        for a in SMALL:
            for b in SMALL:
                items.append(("carve", v, SMALL, 4, (a, b), True))
                if not quick:
                    items.append(("carve", v, SMALL, 5, (a, b), True))
                    items.append(("carve", v, SMALL, 4, (a, b), False))
        if not quick:
            for a in ALPHA:
                for b in ALPHA:
                    items.append(("carve", v, ALPHA, 4, (a, b), True))
    st = core.pmap(body, items)
    core.finish(PROP, st, "model_checking", tier, t0, {
        "states": st.n["states"], "transitions": st.n["evaluations"], "traces_validated_against_impl": st.n["evaluations"],
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True,
        "rule": "all documents up to N lines x all carvings into one file, two files or nested files; all path spellings; "
                "followIncludes=False and missing files at every position", "samples": st.samples},
        assumptions=["blank lines an included file starts with are not part of a section body (demanded by the existing tests)",
                     "include cycles are out of scope"])


if __name__ == "__main__":
    main()
