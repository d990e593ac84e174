"""C07: %ksappend is replaced by the contents of the file, everywhere.

Every document of up to N pieces over PIECES (lines, section headers, comments,
%ksappend lines with every kind of file, missing files, missing names) goes
through the four real preprocessing functions and is compared, byte for byte,
with the expected text; errors with the expected line number.  A %ksappend
that was not preprocessed is skipped by the parser.
"""
import itertools
import os
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core                                       # noqa: E402
from mc.core import KickstartError, KickstartParseError, fast, fresh, run_on, canon_handler   # noqa: E402
from pykickstart.parser import preprocessFromString, preprocessFromStringToString, preprocessKickstart, preprocessKickstartToString  # noqa: E402

PROP = "C07"
FILES = {
    "plain": "lang en_US\nskipx\n", "nonl": "lang cs_CZ", "empty": "", "blank": "\n\n", "crlf": "lang de\r\nskipx\r\n",
    "utf8": "# \u00e9\u2603\nlang fr\n", "sec": "%post\necho x\n%end\n", "open": "%pre\necho y\n", "rec": "%ksappend @DIR@/plain\nlang it\n",
    "nonl2": "a\n\nb ", "it's": "skipx\n",
}
LINES = ["text\n", "\n", "# c\n", "  indented\n", "%pre\n", "%end\n", "echo %ksappend x\n", "#%ksappend @DIR@/plain\n", "l\u00e9\n", "crlf\r\n"]
KSA = ["%%ksappend @DIR@/%s\n" % f for f in sorted(FILES) if f != "it's"] + \
      ["  %ksappend @DIR@/plain\n", "%ksappend\t@DIR@/plain\n", "%ksappend   @DIR@/nonl   \n", "%ksappend @DIR@/plain # c\n", "%ksappend @DIR@/it's\n"]
BAD = ["%ksappend\n", "%ksappend  \n", "%ksappend @DIR@/nosuch\n", "%ksappend @DIR@\n", "%ksappend @DIR@/latin1\n"]
_dir = None


def scratch():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix="c07-")
        for n, t in FILES.items():
            with open(os.path.join(_dir, n), "w", newline="") as f:
                f.write(t.replace("@DIR@", _dir))
        with open(os.path.join(_dir, "latin1"), "wb") as f:
            f.write(b"lang \xe9\n")
        os.mkdir(os.path.join(_dir, "tmp"))
        tempfile.tempdir = os.path.join(_dir, "tmp")
    return _dir


def expect(pieces):
    out = ""
    for i, p in enumerate(pieces):
        t = p.strip()
        if t.startswith("%ksappend"):
            if p in BAD:
                return ("parse" if len(t.split()) == 1 else "error", i + 1)
            c = FILES[os.path.basename(t.split()[1])]
            if c and not c.endswith("\n"):
                c += "\n"
            out += c
        else:
            out += p
    return out.replace("@DIR@", scratch())


def call(fn, arg):
    try:
        return fn(arg)
    except KickstartParseError as e:
        return ("parse", e.lineno)
    except KickstartError as e:
        return ("error", e.lineno)


def tofile(r):
    """contents of the file that was made, which is removed"""
    if isinstance(r, tuple) or r is None:
        return b"" if r is None else r
    with open(r, "rb") as f:
        s = f.read()
    os.unlink(r)
    return s


def check(pieces, st):
    root = scratch()
    text = "".join(pieces).replace("@DIR@", root)
    want = expect(pieces)
    if not isinstance(want, tuple):
        want = want.encode("utf-8")
    path = os.path.join(root, "main.ks")
    with open(path, "w", newline="") as f:
        f.write(text)
    got = {"preprocessFromStringToString": call(preprocessFromStringToString, text),
           "preprocessKickstartToString": call(preprocessKickstartToString, path),
           "preprocessFromString": tofile(call(preprocessFromString, text)),
           "preprocessKickstart": tofile(call(preprocessKickstart, path))}
    st.count("evaluations", 4)
    st.outcome(want)
    for k, g in got.items():
        if g != want:
            shown = "".join(pieces)
            st.violation("%s:%r" % (k, shown), "%s(%r) is %r, expected %r" % (k, shown, g, want), {"function": k, "kickstart": shown, "files": FILES})
    left = os.listdir(os.path.join(root, "tmp"))
    if left:
        st.violation("leftover:%r" % text, "temporary files left: %s" % left, {"kickstart": "".join(pieces)})
        for x in left:
            os.unlink(os.path.join(root, "tmp", x))


def body(item, st):
    global _dir
    try:
        kind, arg = item
        if kind == "skip":
            v = arg
            base = ["lang en_US\n", "# c\n", "timezone UTC\n", "\n", "nosuchcommand\n"]
            for n in (1, 2, 3):
                for seq in itertools.product(base, repeat=n):
                    for at in range(n + 1):
                        st.count("evaluations")
                        a = run_on(fast(v), "".join(seq[:at]) + "\n" + "".join(seq[at:]))
                        va, la = canon_handler(a.handler), a.lineno
                        b = run_on(fast(v), "".join(seq[:at]) + "%ksappend http://nosuch.invalid/x\n" + "".join(seq[at:]))
                        if canon_handler(b.handler) != va or b.lineno != la or a.ok != b.ok:
                            st.violation("skip:%s:%r:%d" % (v, seq, at), "%s: %%ksappend at %d of %r is not skipped: %s" % (v, at, seq, b.brief()), {"version": v})
            return
        alphabet, n, prefix = arg
        for rest in itertools.product(alphabet, repeat=n - len(prefix)):
            check(prefix + rest, st)
        if n <= 2:
            for rest in itertools.product(alphabet, repeat=n - len(prefix)):
                p = prefix + rest
                # no newline at the end of the main file
                check(p[:-1] + (p[-1].rstrip("\n"),), st) if p[-1].strip() and p[-1] not in BAD else None
        st.sample({"pieces": prefix + rest})
    finally:
        if _dir:
            shutil.rmtree(_dir, ignore_errors=True)
            _dir = None
            tempfile.tempdir = None


def main():
    t0 = time.time()
    tier = core.tier()
    full = LINES + KSA + BAD
    items = [("docs", (full, 1, ())), ("docs", (full, 2, ()))]
    items += [("docs", (full, 3, (a,))) for a in full]
    if tier == "thorough":
        items += [("docs", (full, 4, (a, b))) for a in full for b in full]
    items += [("skip", v) for v in (core.VERSIONS if tier == "thorough" else ("RHEL3", "F7", "F8", "RHEL7", "F34"))]
    st = core.pmap(body, items)
    core.finish(PROP, st, "exploration", tier, t0, {
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True,
        "rule": "all documents of up to 3 (4) pieces through all four functions; distinct expected results", "samples": st.samples},
        assumptions=["appended files are not preprocessed themselves", "remote files are the subject of C17"])


if __name__ == "__main__":
    main()
