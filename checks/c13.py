"""C13: ksvalidator's verdict is the verdict of the syntax.

A  for every version and command some lines, valid and not: exit status 0 exactly
   if reading the line with that version raises no error and no warning.
B  all documents up to a depth from a catalogue of valid, wrong and deprecated
   pieces (commands, sections, %include, %ksappend), with and without -e and -i:
   exit status = number of wrong pieces, every one reported with its line; with
   -e only the first one is.
C  the command itself: exit statuses, unreadable input, numbers of errors around
   the limits of an exit status.
Always: nothing left in the temporary directory, the input is as it was.
"""
import contextlib
import io
import itertools
import os
import socket
import sys
import time
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, grammar as G, tool                   # noqa: E402
from mc.core import VERSIONS, fast, fresh, run_on   # noqa: E402
from tools import ksvalidator                             # noqa: E402

PROP = "C13"


def validate(*argv):
    """(exit status, messages as one string, what was printed)"""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
        try:
            rc, msgs = ksvalidator.main(list(argv))
        except SystemExit as e:
            rc, msgs = e.code, []
    return rc, "\n".join(str(m) for m in msgs), out.getvalue() + err.getvalue()


def same(sc, before, argv, st, what, case):
    after = sc.content()
    if after != before:
        st.violation("%s:files" % what, "ksvalidator %s changed files: %s" % (" ".join(argv), sorted(k for k in set(after) | set(before) if after.get(k, 0) != before.get(k, 0))), case)
        return False
    return True


# ------------------------------------------------------------------------- A
def lines(v, cmd, quick):
    sp = G.spec()[v].get(cmd)
    out = [G.line(cmd, b) for b in G.BASES[cmd][:1 if quick else 9]] + [cmd + " --bogus"]
    if sp:
        b = G.BASES[cmd][0]
        for o in (sp["opts"] if not quick else [x for x in sp["opts"] if x.get("deprecated")] + sp["opts"][:1]):
            for t in G.primary_tokens(cmd, o, 1 if quick else 3):
                out.append(G.line(cmd, b, t))
    return list(dict.fromkeys(out))


def single(v, ln, sc, st):
    o = run_on(fast(v), ln + "\n")
    want = o.ok and not o.warns
    sc.write("k.cfg", ln + "\n")
    before = sc.content()
    st.count("evaluations")
    for argv in (["-v", v, "k.cfg"], ["-e", "-v", v, "k.cfg"]):
        rc, msg, printed = validate(*argv)
        wrong = None
        if rc != (0 if want else 1):
            wrong = "exits with %r" % (rc,)
        elif not want and (not msg + printed or not o.ok and "1" not in msg + printed):
            wrong = "does not mention the line: %r %r" % (msg, printed)
        elif want and (msg or printed):
            wrong = "prints %r %r" % (msg, printed)
        if wrong:
            o = run_on(fresh(v), ln + "\n")
            if (o.ok and not o.warns) != want:
                continue
            st.violation("%s:%s" % (v, ln), "ksvalidator %s with %r (%s %s) %s" % (" ".join(argv), ln, o.brief(), o.warns, wrong), {"version": v, "kickstart": ln, "argv": argv})
        same(sc, before, argv, st, "%s:%s" % (v, ln), {"version": v, "kickstart": ln, "argv": argv})
        st.outcome(v, ln, rc)
        if not want:
            continue
        break


# ------------------------------------------------------------------------- B
# piece: (text, problems relative to its first line, fatal problem or None); what
# is in files is below
FILES = {
    "good.ks": "lang en_US\n%pre\nx\n%end\n",
    "bad.ks": "nosuchcommand\n\nskipx --bogus\n",
    "deprecated.ks": "# c\n@D\n",
    "section.ks": "foo\n@g --optional --nodefaults\n",
    "open.ks": "%pre\nx\n",
}
PIECES = {
    "good": ("skipx", [], None),
    "lang": ("lang en_US", [], None),
    "bad": ("nosuchcommand", [0], None),
    "badopt": ("skipx --bogus", [0], None),
    "script": ("%pre\nnosuchcommand\n%end", [], None),
    "badscript": ("%post --bogus\nx\n%end", [0], None),
    "packages": ("%packages\nfoo\n@g --optional --nodefaults\n%end", [2], None),
    "deprecated": ("@D", [0], None),
    "twice": ("repo --name=r --baseurl=http://h/", [], None),
    "section": ("%nosuch\nx\n%end", None, 0),
    "inc": ("%include good.ks", [], None),
    "incbad": ("%include bad.ks", [], None),
    "incdep": ("%include deprecated.ks", [], None),
    "incmiss": ("%include missing.ks", [], None),
    "incpkg": ("%packages\n%include section.ks\n%end", [], None),
    "append": ("%ksappend good.ks", [], None),
    "appendbad": ("%ksappend bad.ks", [0, 2], None),
    "appendmiss": ("%ksappend missing.ks", None, 0),
    "comment": ("# %include missing.ks", [], None),
}
SMALL = ["good", "bad", "badopt", "script", "badscript", "packages", "deprecated", "twice", "section", "incbad", "incmiss", "appendbad", "incpkg"]


def deprecated(v):
    for c in ("install", "authconfig", "langsupport", "mouse", "interactive", "lilo", "multipath", "upgrade"):
        if G.spec()[v].get(c, {}).get("status") == "deprecated":
            return "%s %s" % (c, G.BASES[c][0])
    return None


def model(v, seq, follow):
    """(list of problem lines in order, index in it of the first fatal one)"""
    probs, line, seen = [], 1, 0
    fatal = None
    for name in seq:
        text, rel, fat = PIECES[name]
        if fat is not None:
            if fatal is None:
                fatal = len(probs)
            probs.append(line + fat)
            line += text.count("\n") + 1
            continue
        rel = list(rel)
        for r in rel:
            probs.append(line + r if name != "deprecated" else None)        # warnings do not say where
        if name == "twice":
            seen += 1
            if seen > 1:
                probs.append(None)
        n = text.count("\n") + 1
        if name == "append":
            n = 4
        elif name == "appendbad":
            n = 3
        if follow:
            if name == "incbad":
                probs += [1, 3]
            elif name == "incdep":
                probs += [None]
            elif name == "incpkg":
                probs += [2]
            elif name == "incmiss":
                if fatal is None:
                    fatal = len(probs)
                probs.append(None)
        line += n
    return probs, fatal


def document(v, seq, sc, st):
    dep = deprecated(v)
    text = "\n".join(PIECES[n][0] for n in seq) + "\n"
    text = text.replace("@D", dep or "")
    sc.write("k.cfg", text)
    before = sc.content()
    for first in (False, True):
        for follow in (False, True):
            argv = ["-v", v] + (["-e"] if first else []) + (["-i"] if follow else []) + ["k.cfg"]
            rc, msg, printed = validate(*argv)
            st.count("evaluations")
            if "appendmiss" in seq:
                probs, fatal = [None], 0        # noticed before anything is read
            else:
                probs, fatal = model(v, seq, follow)
            wrong = None
            if not probs:
                if rc != 0 or msg or printed:
                    wrong = "nothing is wrong: exit %r, %r %r" % (rc, msg, printed)
            elif first:
                if rc != 1 or not msg or (probs[0] is not None and "line %d" % probs[0] not in msg):
                    wrong = "first problem on line %s: exit %r, %r" % (probs[0], rc, msg)
                elif printed:
                    wrong = "prints %r" % printed
            else:
                n = len(probs) if fatal is None else fatal
                if fatal is not None:
                    if not rc or not msg or (probs[fatal] is not None and "line %d" % probs[fatal] not in msg and "appendmiss" not in seq):
                        wrong = "problem on line %s that nothing can follow: exit %r, %r" % (probs[fatal], rc, msg)
                elif rc != n or msg:
                    wrong = "%d problems: exit %r, %r" % (n, rc, msg)
                if not wrong:
                    rest = printed
                    for p in probs[:n]:
                        if p is None:
                            continue            # a warning does not say where
                        if "line %d" % p not in rest:
                            wrong = "problem on line %d not reported: %r" % (p, printed)
                            break
                        rest = rest[rest.index("line %d" % p) + 5:]
            if wrong:
                st.violation("%s:%r %s" % (v, text, argv), "ksvalidator %s with %r: %s" % (" ".join(argv), text, wrong), {"version": v, "kickstart": text, "argv": argv})
            same(sc, before, argv, st, "%s:%r" % (v, text), {"version": v, "kickstart": text, "argv": argv})
            st.outcome(v, seq, first, follow, rc)


def pieces(v, names):
    dep = deprecated(v)
    out = []
    for n in names:
        if n in ("deprecated", "incdep") and not dep:
            continue
        if n in ("twice",) and not core.at_least(v, "F9"):
            continue
        out.append(n)
    return out


# ------------------------------------------------------------------------- C
def command(sc, st):
    def run(*argv):
        return tool.command(sc, "ksvalidator.py", argv)

    s = socket.socket()
    s.bind(("127.0.0.1", 0))            # bound, not listening: connections are refused
    port = s.getsockname()[1]
    sc.write("empty.cfg", "")
    sc.write("blank.cfg", "\n\n# c\n")
    sc.write("good.cfg", "skipx\n")
    sc.write("nonl.cfg", "skipx")
    sc.write("crlf.cfg", "skipx\r\nlang en_US\r\n%pre\r\nx\r\n%end\r\n")
    sc.write("utf8.cfg", "rootpw --plaintext h\u00e9\n# \u20ac\n")
    sc.write("latin.cfg", b"rootpw --plaintext h\xe9\n")
    sc.write("zero.cfg", b"skipx\n\0\n")
    sc.write("open.cfg", "%pre\nx\n")
    sc.write("quote.cfg", "lang 'en_US\n")
    for n in (1, 2, 127, 128, 254, 255, 256, 257, 300, 512):
        sc.write("bad%d.cfg" % n, "nosuchcommand\n" * n)
    os.mkdir(os.path.join(sc.work, "dir"))
    ok = [(("good.cfg",), 0), (("nonl.cfg",), 0), (("empty.cfg",), 0), (("blank.cfg",), 0), (("crlf.cfg",), 0), (("utf8.cfg",), 0), (("-l",), 0),
          (("-h",), 0), (("--help",), 0), (("--listversions",), 0), ((), 1), (("-v", "F20"), 1), (("-v", "nosuch", "good.cfg"), 1), (("missing.cfg",), 1), (("dir",), 1),
          (("-v", "", "good.cfg"), 1), (("http://127.0.0.1:%d/x" % port,), 1), (("nosuch://x/y",), 1), (("open.cfg",), 1), (("quote.cfg",), 1), (("-e", "quote.cfg"), 1),
          (("latin.cfg",), None), (("zero.cfg",), None), (("-e", "bad300.cfg"), 1), (("-v", "DEVEL", "good.cfg"), 0), (("--version", "FC3", "-i", "good.cfg"), 0),
          (("--firsterror", "--followincludes", "good.cfg"), 0), (("-v", "f20", "good.cfg"), None), (("--bogus", "good.cfg"), 2)]
    ok += [(("bad%d.cfg" % n,), min(n, 255)) for n in (1, 2, 127, 128, 254, 255, 256, 257, 300, 512)]
    before = sc.content()
    for argv, want in ok:
        rc, out, err = run(*argv)
        st.count("evaluations")
        st.outcome(argv, rc)
        wrong = None
        if want is not None and rc != want:
            wrong = "exits with %r instead of %r" % (rc, want)
        elif "Traceback" in err:
            wrong = "ends in a traceback: %s" % err
        elif rc == 0 and argv[-1].endswith(".cfg") and (out or err):
            wrong = "prints %r %r" % (out, err)
        elif rc and not out + err:
            wrong = "says nothing"
        elif argv in (("-l",), ("--listversions",)) and sorted(out.split()) != sorted(VERSIONS + ["DEVEL"]):
            wrong = "lists %s" % out.split()
        elif argv and argv[0].startswith("bad") and (out + err).count("nosuchcommand") != int(argv[0][3:-4]):
            wrong = "reports %d problems" % (out + err).count("nosuchcommand")
        if wrong:
            st.violation("cmd:%s" % (argv,), "ksvalidator %s %s" % (" ".join(argv), wrong), {"argv": argv})
        same(sc, before, argv, st, "cmd:%s" % (argv,), {"argv": argv})
    s.close()


def body(item, st):
    kind, v, arg = item
    with tool.Scratch() as sc:
        if kind == "single":
            for cmd, quick in arg:
                for ln in lines(v, cmd, quick):
                    single(v, ln, sc, st)
            st.sample({"version": v, "line": ln})
            return
        dep = deprecated(v) if v else None
        for n, text in FILES.items():
            sc.write(n, text.replace("@D", dep or ""))
        if kind == "doc":
            names, n, prefix = arg
            for rest in itertools.product(pieces(v, names), repeat=n - len(prefix)):
                document(v, prefix + rest, sc, st)
            st.sample({"version": v, "pieces": prefix + rest})
        else:
            command(sc, st)


def main():
    t0 = time.time()
    tier = core.tier()
    quick = tier == "quick"
    items = [("command", None, None)]
    for v in VERSIONS:
        cmds = G.commands(v)
        for i in range(0, len(cmds), 8):
            items.append(("single", v, [(c, quick) for c in cmds[i:i + 8] if c != "method"]))
    for v in ("FC3", "F7", "RHEL7", "F34") if quick else VERSIONS:
        for p in pieces(v, list(PIECES)):
            items.append(("doc", v, (list(PIECES), 2, (p,))))
    for v in ("F34",) if quick else ("FC3", "RHEL6", "RHEL7", "RHEL8", "F34"):
        for p in pieces(v, SMALL):
            for q in pieces(v, SMALL):
                items.append(("doc", v, (["good", "bad", "packages", "deprecated", "incbad"] if quick else SMALL, 3, (p, q))))
    st = core.pmap(body, items)
    core.finish(PROP, st, "model_checking", tier, t0, {
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True,
        "model_states": len(PIECES), "rule": "all documents of catalogue pieces up to the depth, all flag combinations; non-trivial: distinct documents and results",
        "samples": st.samples},
        assumptions=["what a single line means is C02's business: part A compares with the reader"])


if __name__ == "__main__":
    main()
