"""C04: scripts and sections pykickstart does not know survive verbatim.

Every header (type x interpreter x log file x --erroronfail x --nochroot),
every body of up to N lines over BODY, every sequence of up to 3 sections,
and scripts built by a program, on the real reader and writer.  Oracles: what
is read is what was written in the file (header model + verbatim body), and
reading the written file gives the same again.
"""
import itertools
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core                                       # noqa: E402
from mc.core import VERSIONS, at_least, fast, fresh, canon_script, run_on   # noqa: E402
from mc.grammar import q                                  # noqa: E402
from pykickstart import constants as K                    # noqa: E402
from pykickstart.parser import Script                     # noqa: E402

PROP = "C04"
TYPES = [("%pre", K.KS_SCRIPT_PRE), ("%pre-install", K.KS_SCRIPT_PREINSTALL), ("%post", K.KS_SCRIPT_POST),
         ("%onerror", K.KS_SCRIPT_ONERROR), ("%traceback", K.KS_SCRIPT_TRACEBACK)]
INTERP = [None, "/bin/sh", "/usr/bin/python", "/usr/bin/env python", "/bin/it's", "/a=b", "/x#y"]
LOG = [None, "/tmp/l", "/tmp/a b", "a'b", "--x", "/tmp/$x;y", "#l"]
BODY = ["echo a", "", "  indented", "\ttab\t", "# comment", "#!/bin/sh", "#platform=x", "%nosuch x", "echo %end", "an 'open quote",
        "back\\", "trailing  ", "\u00e9\u2603", "%%end", "%endif", "\\%end", "$x `y` \"z\"", "-@a", " ", "%end2 %end", "@", "a\x0cb\u2028c\x85d\x0be\x1cf", "\x0c"]
BODY2 = ["a b", "", "  ", "# c", "%nosuch", "it's"]
NULLS = ["%addon org_x", "%addon org_x --flag --opt=\"a b\"", "%anaconda", "%addon x 'it'\"'\"'s' y", "%addon x '#y' z"]
UNKNOWN = ["%foo", "%foo --a 'b c'"]


def strip_nl(s, v):
    """Before F8 a script has no end mark, and blank lines after it belong to it."""
    return s if at_least(v, "F8") else s.rstrip("\n ") + "\n"


def view(h, v):
    out = []
    for s in h.scripts:
        c = canon_script(s)
        c["script"] = strip_nl(c["script"], v)
        c["errorOnFail"] = bool(c["errorOnFail"])
        out.append(c)
    return out


def nulls(text):
    """The unknown sections of a written file, as (header, body lines)."""
    out, cur = [], None
    skip = tuple(t for t, _k in TYPES) + ("%packages",)
    for ln in text.split("\n"):
        w = ln.split()[:1]
        if cur is not None:
            if w == ["%end"]:
                if cur[0].split()[0] not in skip:
                    out.append(cur)
                cur = None
            elif cur[0].split()[0] in skip and w and w[0] in skip + ("%addon", "%anaconda", "%foo"):
                cur = [ln]              # no end mark before F8
            else:
                cur.append(ln)
        elif ln.startswith("%"):
            cur = [ln]
    return out


def judge(v, text, want, wantnull, mk, prepare=None):
    """None if fine, or what is wrong."""
    import shlex
    h = mk(v)
    if prepare is None:
        o = run_on(h, text, unknownSectionIsFatal=False)
        if not o.ok:
            return "rejected: %s" % o.brief()
    else:
        prepare(h)
    got = view(h, v)
    if want is not None and got != want:
        return "read as %r, expected %r" % (got, want)
    out = str(h)
    if view(h, v) != got:
        return "writing changed the scripts"
    h = mk(v)
    o = run_on(h, out, unknownSectionIsFatal=False)
    if not o.ok:
        return "written file rejected: %s\n%s" % (o.brief(), out)
    again = view(h, v)
    if again != got:
        return "read back as %r, expected %r\n%s" % (again, got, out)
    n1 = nulls(out)
    if wantnull is not None:
        have = [[shlex.split(x[0])] + x[1:] for x in n1]
        if have != wantnull:
            return "unknown sections written as %r, expected %r\n%s" % (have, wantnull, out)
    out2 = str(h)
    if nulls(out2) != n1:
        return "unknown sections written differently the second time:\n%s---\n%s" % (out, out2)
    if at_least(v, "F8") and out2 != out:
        return "written differently the second time:\n%s---\n%s" % (out, out2)
    return None


def check(v, text, want, wantnull, st, prepare=None, label=None):
    st.count("evaluations")
    st.outcome(text, label)
    bad = judge(v, text, want, wantnull, fast, prepare)
    if bad:
        bad = judge(v, text, want, wantnull, fresh, prepare)
    if bad:
        st.violation("%s:%s" % (v, text or label), "%s %r: %s" % (v, text or label, bad), {"version": v, "kickstart": text, "program": label})


def header(tag, interp, log, eof, noch, lopt="--log"):
    s = tag
    if interp:
        s += " --interpreter=%s" % q(interp)
    if log:
        s += " %s=%s" % (lopt, q(log))
    if eof:
        s += " --erroronfail"
    if noch:
        s += " --nochroot"
    return s


def script(v, typ, tag, interp, log, eof, noch, body):
    return {"type": typ, "script": strip_nl(body, v), "interp": interp or "/bin/sh", "logfile": log, "errorOnFail": bool(eof),
            "inChroot": tag == "%post" and not noch}


def end(v):
    return "%end\n"


def bodies(alpha, n):
    for k in range(1, n + 1):
        for c in itertools.product(alpha, repeat=k):
            yield "".join(x + "\n" for x in c)


def body(item, st):
    kind, v, arg = item
    if kind == "headers":
        for tag, typ in TYPES:
            for interp, log, eof, noch, lopt in itertools.product(INTERP, LOG, (0, 1), (0, 1) if tag == "%post" else (0,), ("--log", "--logfile")):
                if log is None and lopt == "--logfile":
                    continue
                b = "x\n"
                check(v, header(tag, interp, log, eof, noch, lopt) + "\n" + b + end(v), [script(v, typ, tag, interp, log, eof, noch, b)], [], st)
                st.count("headers")
    elif kind == "program":
        for tag, typ in TYPES:
            for interp, log, eof, noch in itertools.product(INTERP[1:], LOG, (False, True), (0, 1) if tag == "%post" else (0,)):
                for b in ("x\n", "x", "x\n\n", "# c\n\n y"):
                    def prep(h, typ=typ, tag=tag, interp=interp, log=log, eof=eof, noch=noch, b=b):
                        h.scripts.append(Script(b, type=typ, interp=interp, logfile=log, errorOnFail=eof, inChroot=tag == "%post" and not noch))
                    if not b.endswith("\n"):
                        if not at_least(v, "F8"):
                            continue
                        # a missing final newline is added
                        h = fast(v)
                        prep(h)
                        h2 = fast(v) if False else fresh(v)
                        o = run_on(h2, str(h))
                        st.count("evaluations")
                        if not o.ok or [s.script for s in h2.scripts] != [b + "\n"]:
                            st.violation("program:%s:%r" % (v, b), "script without final newline: %s" % o.brief(), {"version": v, "body": b})
                        continue
                    check(v, None, [script(v, typ, tag, interp, log, eof, noch, b)], [], st, prepare=prep,
                          label="Script(%r, type=%r, interp=%r, logfile=%r, errorOnFail=%r, nochroot=%r)" % (b, tag, interp, log, eof, noch))
    elif kind == "bodies":
        alpha, n, tags = arg
        for b in bodies(alpha, n):
            for tag, typ in tags:
                want = [script(v, typ, tag, None, None, 0, 0, b)] if b.strip() else []
                check(v, "%s\n%s%s" % (tag, b, end(v)), want, [], st)
            hd = NULLS[0]
            check(v, "%s\n%s%s" % (hd, b, end(v)), [], [[hd.split()] + b.split("\n")[:-1]], st)
            st.count("bodies")
    elif kind == "nulls":
        import shlex
        for hd in NULLS + UNKNOWN:
            for b in ["", "\n", "a\n", "a\n\n", "  a # b\n", "'\n", "%nosuch\n"]:
                check(v, "%s\n%s%%end\n" % (hd, b), [], [[shlex.split(hd)] + b.split("\n")[:-1]], st)
    else:
        # sequences of sections: order, and nothing runs into something else
        secs = []
        for tag, typ in TYPES:
            secs.append((header(tag, None, None, 0, 0), tag, typ, None, None, 0, 0))
        secs.append((header("%post", "/usr/bin/perl", "/l", 1, 1), "%post", K.KS_SCRIPT_POST, "/usr/bin/perl", "/l", 1, 1))
        secs.append((header("%pre", "/usr/bin/perl", "/l", 1, 0), "%pre", K.KS_SCRIPT_PRE, "/usr/bin/perl", "/l", 1, 0))
        others = ["%packages", "%addon a", "%addon b", "%anaconda", "empty", "cmd"]
        for n in (2, 3):
            for seq in itertools.product(list(range(len(secs))) + others, repeat=n):
                text, want, wn = "", [], []
                for i, x in enumerate(seq):
                    b = "b%d\n\n # %d\n" % (i, i)
                    if x == "cmd":
                        text += "lang l%d\n" % i
                    elif x == "empty":
                        text += "%post --erroronfail\n\n%end\n"
                    elif x == "%packages":
                        text += "%%packages\np%d\n%%end\n" % i
                    elif isinstance(x, int):
                        s = secs[x]
                        text += s[0] + "\n" + b + "%end\n"
                        want.append(script(v, s[2], s[1], s[3], s[4], s[5], s[6], b))
                    else:
                        text += x + "\n" + b + "%end\n"
                        wn.append([x.split()] + b.split("\n")[:-1])
                check(v, text, want, wn, st)
                st.count("sequences")
    st.sample({"version": v, "kind": kind})


def main():
    t0 = time.time()
    tier = core.tier()
    items = []
    deep = ("F7", "F34") if tier == "quick" else ("RHEL3", "F7", "F8", "RHEL7", "RHEL8", "F34")
    for v in VERSIONS:
        items.append(("bodies", v, (BODY, 1, TYPES)))
        items.append(("bodies", v, (BODY2, 2, TYPES)))
        items.append(("nulls", v, None))
        if v in deep or tier != "quick" or v in ("RHEL3", "F8", "RHEL7"):
            items.append(("headers", v, None))
            items.append(("program", v, None))
            items.append(("seq", v, None))
    for v in deep:
        items.append(("bodies", v, (BODY, 2, TYPES)))
        for t in TYPES:
            items.append(("bodies", v, (BODY2, 4, [t])))
            if tier != "quick":
                items.append(("bodies", v, (BODY, 3, [t])))
    st = core.pmap(body, items)
    core.finish(PROP, st, "exploration", tier, t0, {
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True,
        "headers": st.n["headers"], "bodies": st.n["bodies"], "sequences": st.n["sequences"],
        "rule": "all headers; all bodies up to N lines; all sequences of 2 and 3 sections; distinct inputs",
        "samples": st.samples},
        assumptions=["before F8 (no %end) scripts are compared without the blank lines they end with",
                     "a body that contains the tag of a section is not a body"])


if __name__ == "__main__":
    main()
