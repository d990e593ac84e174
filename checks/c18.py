"""C18: versions are named, numbered and ordered consistently.

A  every spelling of every published version in every function of
   pykickstart.version; every string built from the words of version names,
   and every number up to 50000, that is not one is refused with
   KickstartVersionError.
B  versionFromFile on every sequence of up to N lines; on the files written in
   every version.
C  every way of getting a handler gives the same commands, whatever was asked
   for before.
"""
import itertools
import os
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, docs                                 # noqa: E402
from mc.core import VERSIONS, fresh, run_on               # noqa: E402
from pykickstart import version as V                      # noqa: E402
from pykickstart.errors import KickstartError, KickstartVersionError      # noqa: E402

PROP = "C18"
NEWEST = "F34"


def fedora(v):
    return v[0] == "F"


def num(v):
    return v.lstrip("FCRHEL")


def spellings(v):
    """Everything that names this version."""
    out = [v, v.lower(), v.capitalize()]
    n = num(v)
    if fedora(v):
        for p in ("Fedora", "Fedora Core", "Fedora Linux", "Fedora release", "fedora", "FEDORA", "fedora core", "Fedora  "):
            out.append("%s %s" % (p, n))
    else:
        for p in ("", " Server", " AS", " ES", " WS", " Desktop", " Client", " Workstation", " release"):
            for m in [""] + [".%d" % i for i in range(13)] + [".9.1", ".10.99"]:
                base = "Red Hat Enterprise Linux%s %s%s" % (p, n, m)
                out += [base, base.lower(), base.upper()]
    if v == NEWEST:
        out += ["DEVEL", "devel", "Devel"]
    return out


def attempt(fn, *a):
    try:
        return fn(*a)
    except KickstartVersionError:
        return KickstartVersionError
    except Exception as e:      # pylint: disable=broad-except
        return "%s: %s" % (type(e).__name__, e)


def bad(st, key, what, **case):
    st.violation(key, what, dict(case, function=key.split(":")[0]))


def names(v, st):
    const = getattr(V, v, None)
    st.count("evaluations")
    if not isinstance(const, int) or V.versionMap.get(v) != const:
        bad(st, "constant:%s" % v, "version.%s is %r, versionMap has %r" % (v, const, V.versionMap.get(v)), version=v)
        return
    if (V.DEVEL == const) != (v == NEWEST):
        bad(st, "DEVEL:%s" % v, "DEVEL is %r, %s is %r" % (V.DEVEL, v, const), version=v)
    for s in spellings(v):
        got = attempt(V.stringToVersion, s)
        st.count("evaluations", 2)
        if got != const:
            bad(st, "stringToVersion:%s" % s, "stringToVersion(%r) is %r, expected %s" % (s, got, v), string=s)
        cl = attempt(V.returnClassForVersion, s)
        if getattr(cl, "version", None) != const:
            bad(st, "returnClassForVersion:%s" % s, "returnClassForVersion(%r) is %r, expected the handler of %s" % (s, cl, v), string=s)
        st.outcome(s)
    for f, a, want in ((V.versionToString, (const, True), v), (V.versionToString, (const,), "DEVEL" if v == NEWEST else v),
                       (V.versionToLongString, (const,), "Fedora" + num(v) if fedora(v) else "RedHatEnterpriseLinux" + num(v)),
                       (V.stringToVersion, (V.versionToString(const),), const), (V.stringToVersion, (V.versionToString(const, skipDevel=True),), const)):
        got = attempt(f, *a)
        st.count("evaluations")
        if got != want:
            bad(st, "%s:%s" % (f.__name__, v), "%s%r is %r, expected %r" % (f.__name__, a, got, want), version=v)
    for how in (v, v.lower(), const, str(const)) + (("DEVEL", V.DEVEL) if v == NEWEST else ()):
        h = attempt(V.makeVersion, how)
        st.count("evaluations")
        if getattr(h, "version", None) != const or type(h) is not V.returnClassForVersion(const):
            bad(st, "makeVersion:%s" % how, "makeVersion(%r) is %r" % (how, h), version=v)
    if v == NEWEST:
        for h in (V.makeVersion(), V.returnClassForVersion()()):
            if h.version != const:
                bad(st, "makeVersion:", "makeVersion() is of version %r" % h.version)
    # classes of this handler
    h = V.makeVersion(const)
    for n, c in h.commands.items():
        cv = attempt(V.getVersionFromCommandClass, type(c))
        st.count("evaluations")
        if type(c).__name__.split("_")[0] not in VERSIONS or cv != getattr(V, type(c).__name__.split("_")[0]):
            bad(st, "getVersionFromCommandClass:%s" % type(c).__name__, "getVersionFromCommandClass(%s) is %r" % (type(c).__name__, cv), version=v)



def order(st):
    nums = [getattr(V, v) for v in VERSIONS]
    st.count("evaluations")
    if nums != sorted(set(nums)):
        bad(st, "order:", "versions are not in order: %s" % list(zip(VERSIONS, nums)))
    if set(V.versionMap) != set(VERSIONS) | {"DEVEL"}:
        bad(st, "versionMap:", "versionMap has %s" % sorted(set(V.versionMap) ^ (set(VERSIONS) | {"DEVEL"})))
    # RHEL 7.2 is RHEL7, ...: everything else is refused
    ok = {s for v in VERSIONS for s in spellings(v)}
    words = ["F", "FC", "RHEL", "Fedora", "Fedora Core", "Red Hat Enterprise Linux", "Red Hat Enterprise Linux Server", "Fedora release", "DEVEL", "EL", "C", ""]
    numbers = [str(i) for i in range(0, 101)] + ["", "34.1", "7.", "007", "-1", "x", "1000000", "\u0663"]
    for w, s, n, tail in itertools.product(words, ("", " ", "-", "_"), numbers, ("", " ", "x", " x")):
        name = w + s + n + tail
        if name in ok or name in ("", "DEVEL"):
            continue
        if name.startswith("Red Hat") and s == " " and n.split(".")[0] in "3 4 5 6 7 8".split() and tail == "" or name.startswith("Fedora") and s == " " and tail == "" and n == "\u0663":
            continue            # any minor version; any digits
        got = attempt(V.stringToVersion, name)
        st.count("evaluations")
        if got is not KickstartVersionError:
            bad(st, "stringToVersion:%s" % name, "stringToVersion(%r) is %r" % (name, got), string=name)
        if n in ("9", "35", "x") and not name.strip().isdigit():
            got = attempt(V.makeVersion, name)
            st.count("evaluations")
            if got is not KickstartVersionError:
                bad(st, "makeVersion:%s" % name, "makeVersion(%r) is %s" % (name, type(got)), string=name)
    known = set(nums)
    for i in range(-2, 50001):
        if i in known:
            continue
        st.count("evaluations")
        got = attempt(V.versionToString, i)
        if got is not KickstartVersionError:
            bad(st, "versionToString:%s" % i, "versionToString(%d) is %r" % (i, got), number=i)
        if i % 1000 < 3:
            for f in (V.versionToLongString, V.returnClassForVersion, V.makeVersion):
                got = attempt(f, i)
                st.count("evaluations")
                if got is not KickstartVersionError:
                    bad(st, "%s:%s" % (f.__name__, i), "%s(%d) is %r" % (f.__name__, i, got), number=i)
    for name in ("control", "os", "version", "base", "f34 ", "../f34", "handlers.f34", "F34Handler", "pykickstart"):
        for f in (V.makeVersion, V.returnClassForVersion, V.stringToVersion):
            got = attempt(f, name)
            st.count("evaluations")
            if got is not KickstartVersionError:
                bad(st, "%s:%s" % (f.__name__, name), "%s(%r) is %r" % (f.__name__, name, got), string=name)


# ------------------------------------------------------------------------- B
LINES = ["#version=F20", "#version=RHEL7", "#version=rhel6  ", "#version=DEVEL", "#version=Fedora Core 5", "#version=nosuch", "#version=", " #version=F10",
         "# version=F11", "#Version=F12", "#version F13", "", "   ", "# c", "lang en_US", "%packages", "%end", "lang x #version=F14", "#platform=x"]
SAYS = {"#version=F20": "F20", "#version=RHEL7": "RHEL7", "#version=rhel6  ": "RHEL6", "#version=DEVEL": "F34", "#version=Fedora Core 5": "FC5",
        "#version=nosuch": None, "#version=": None}


def files(n, prefix, st):
    root = tempfile.mkdtemp(prefix="c18-")
    try:
        path = os.path.join(root, "ks.cfg")
        for rest in itertools.product(LINES, repeat=n - len(prefix)):
            seq = prefix + rest
            want = NEWEST
            for s in seq:
                if s in SAYS:
                    want = SAYS[s]
                    break
            want = KickstartVersionError if want is None else getattr(V, want)
            for text in ("\n".join(seq), "\n".join(seq) + "\n", "\r\n".join(seq) + "\r\n") if n < 3 else ("\n".join(seq) + "\n",):
                with open(path, "w", newline="") as f:
                    f.write(text)
                got = attempt(V.versionFromFile, path)
                st.count("evaluations")
                st.outcome(text)
                if got != want:
                    bad(st, "versionFromFile:%r" % text, "versionFromFile of %r is %r, expected %r" % (text, got, want), text=text)
        if n == 1:
            for b in (b"", b"\xff\n#version=F20\n"):
                with open(path, "wb") as f:
                    f.write(b)
                try:
                    got = V.versionFromFile(path)
                except KickstartError:
                    got = KickstartError
                st.count("evaluations")
                if got != (V.DEVEL if not b else KickstartError):
                    bad(st, "versionFromFile:%r" % b, "versionFromFile of %r is %r" % (b, got))
            try:
                V.versionFromFile(path + ".nosuch")
                bad(st, "versionFromFile:missing", "versionFromFile of a missing file succeeds")
            except KickstartError:
                pass
            # what is written in a version, is of this version
            for v in VERSIONS:
                for text in (str(fresh(v)), str(run_on(fresh(v), docs.big(v, 0)).handler), str(run_on(fresh(v), "#platform=x\n" + docs.big(v, 1)).handler)):
                    with open(path, "w") as f:
                        f.write(text)
                    got = attempt(V.versionFromFile, path)
                    st.count("evaluations")
                    if got != getattr(V, v):
                        bad(st, "written:%s" % v, "versionFromFile of a file written in %s is %r" % (v, got), text=text)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------------------------- C
def history(seq, st):
    """The handler of the last version is the same, whatever was asked for before."""
    for s in seq[:-1]:
        attempt(V.makeVersion, s)
    v = seq[-1]
    h = V.makeVersion(v)
    st.count("evaluations")
    view = sorted((n, type(c).__name__) for n, c in h.commands.items())
    if h.version != getattr(V, v) or view != REF[v]:
        bad(st, "history:%s" % (seq,), "makeVersion(%r) after %r is different" % (v, seq[:-1]), sequence=seq)


REF = {}


def body(item, st):
    if item[0] == "names":
        names(item[1], st)
    elif item[0] == "order":
        order(st)
    elif item[0] == "files":
        files(item[1], item[2], st)
    else:
        for w in VERSIONS + ["nosuch", 0]:
            history((w, item[1]), st)
        history((item[1], "nosuch", item[1]), st)
    st.sample({"item": repr(item)})


def main():
    t0 = time.time()
    tier = core.tier()
    quick = tier == "quick"
    for v in VERSIONS:
        REF[v] = sorted((n, type(c).__name__) for n, c in fresh(v).commands.items())
    items = [("order",)] + [("names", v) for v in VERSIONS] + [("history", v) for v in VERSIONS]
    items += [("files", 1, ()), ("files", 2, ())] + [("files", 3, (a,)) for a in LINES]
    if not quick:
        items += [("files", 4, (a, b)) for a in LINES for b in LINES]
    st = core.pmap(body, items)
    core.finish(PROP, st, "exploration", tier, t0, {
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True,
        "rule": "all spellings of all versions, all other combinations of the words of version names, all numbers to 50000, all files of up to %d lines "
                "over %d lines; non-trivial: distinct spellings and files" % (3 if quick else 4, len(LINES)), "samples": st.samples})


if __name__ == "__main__":
    main()
