"""C16: a ksshell session is the file of the lines that were right.

A  all sessions up to a depth over an alphabet of inputs (right and wrong
   commands, built-in commands, blanks, includes), with every kind of input
   file, for several versions: every .show and the final output, on stdout as
   with -o, are what reading the right lines since the last .clear gives; every
   wrong line is reported, and no other.
B  the ways to end a session.
C  tab completion: for every version, for every command, every prefix.
"""
import io
import itertools
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, grammar as G, tool                   # noqa: E402
from mc.core import VERSIONS, at_least, fast, fresh, run_on         # noqa: E402
from tools import ksshell                                 # noqa: E402

PROP = "C16"

# what is typed -> what it means as a file (None: it is an error)
LINES = {
    "lang en_US": "lang en_US\n",
    "  timezone --utc Europe/Prague  # home": "timezone --utc Europe/Prague\n",
    "part /m~ --size=1": "part /m~ --size=1\n",
    "nosuchcommand": None,
    "skipx --bogus": None,
    "lang 'x": None,
    "": "",
    "# comment": "",
    "%include inc.ks": "skipx\nrootpw pw\n",
    "%include missing.ks": None,
    "%nosuch": None,
    ".show": "",
    ".clear": "",
    ".nosuch": "",
    ".": "",
    ".show ": "",
}
INPUTS = {
    None: ("", False),
    "good.ks": ("lang de_DE\n%pre\necho\n%end\n%packages\nfoo\n%end\n", False),
    "wrong.ks": ("lang de_DE\nnosuchcommand\nskipx\n", "counted"),
    "fatal.ks": ("skipx\n%nosuch\nlang de_DE\n", "skipx\n"),
    "open.ks": ("skipx\n%post\nx\n", "skipx\n"),
    "quote.ks": ("skipx\nlang 'x\nzerombr\n", "skipx\n"),
    "empty.ks": ("", False),
    "append.ks": ("%ksappend good.ks\nskipx\n", "lang de_DE\n%pre\necho\n%end\n%packages\nfoo\n%end\nskipx\n"),
    "latin.ks": (b"skipx\nrootpw h\xe9\n", ""),
    "missing.ks": (None, ""),
}


def basis(v, name):
    """what reading the input file leaves"""
    text, how = INPUTS[name]
    if name == "open.ks" and not at_least(v, "F8"):
        return text + "%end\n"              # the end of the file closes the section
    if how is False:
        return text
    return "lang de_DE\nskipx\n" if how == "counted" else how


def text_of(v, good, mk):
    h = mk(v)
    o = run_on(h, good)
    if not o.ok:
        return None
    return str(h)


class Typist(io.StringIO):
    """Input that ends with ^D, or with ^C."""

    def __init__(self, text, interrupt=False):
        io.StringIO.__init__(self, text)
        self.interrupt = interrupt

    def readline(self, *a):
        s = io.StringIO.readline(self, *a)
        if not s and self.interrupt:
            raise KeyboardInterrupt
        return s


def shell(v, typed, argv, interrupt=False):
    return tool.call(ksshell.main, ("-v", v) + tuple(argv), Typist("".join(x + "\n" for x in typed), interrupt))


def session(v, names, inp, out, sc, st, end="", mk=fast):
    st.count("evaluations")
    typed = [x.replace("~", str(i)) for i, x in enumerate(names)]
    good, shows, wrongs = basis(v, inp), [], 0
    for i, (x, n) in enumerate(zip(typed, names)):
        m = LINES[n]
        if x.startswith(".clear"):
            good = ""
        elif x.strip() == ".show":
            shows.append(good)
        elif m is None:
            wrongs += 1
        else:
            good += m.replace("~", str(i))
    argv = (("-i", inp) if inp else ()) + (("-o", "out.ks") if out else ())
    rc, o, e = shell(v, typed + ([".quit"] if end == ".quit" else []), argv, end == "^C")
    want = [text_of(v, g, mk) for g in shows]
    final = text_of(v, good, mk)
    wrong = None
    before = 1 if INPUTS[inp][1] not in (False, "counted") and inp != "append.ks" and not (inp == "open.ks" and not at_least(v, "F8")) else 0
    if rc != 0:
        wrong = "exits with %r" % (rc,)
    elif final is None or None in want:
        return              # lines that do not go together
    else:
        rest = o
        for w in want:
            i = rest.find(w)
            if i < 0:
                wrong = ".show does not print %r but %r" % (w, rest)
                break
            rest = rest[i + len(w):]
        if wrong:
            pass
        elif out:
            got = sc.content().get("a/b/work/out.ks", b"").decode("utf-8")
            if got != final:
                wrong = "writes %r instead of %r" % (got, final)
            elif "# Generated" in rest:
                wrong = "prints the result, too: %r" % rest
        elif not rest.rstrip("\n").endswith(final.rstrip("\n")):
            wrong = "ends with %r instead of %r" % (rest, final)
        if not wrong and o.count("# Generated by") != len(want) + (0 if out else 1):
            wrong = "prints %d configurations" % o.count("# Generated by")
        if not wrong:
            # without any wrong line nothing is complained about
            unknown = sum(1 for n in names if n.startswith(".") and n.strip() not in (".show", ".clear"))
            noise = o
            for w in want + ([] if out else [final]):
                noise = noise.replace(w, "", 1)
            noise = [x for x in (noise.replace("ks> ", "") + e).replace("Press ^D to exit.", "").split("\n") if x.strip()]
            counted = 1 if INPUTS[inp][1] == "counted" else 0
            if (len(noise) > 0) != (wrongs + unknown + counted + before > 0):
                wrong = "says %r" % noise
            elif len(noise) < wrongs + unknown + counted + before:
                wrong = "does not report every wrong line: %r" % noise
    if not wrong and os.listdir(sc.tmp):
        wrong = "leaves %s behind" % os.listdir(sc.tmp)
    for f in os.listdir(sc.tmp):
        os.remove(os.path.join(sc.tmp, f))
    if out and os.path.exists(os.path.join(sc.work, "out.ks")):
        os.remove(os.path.join(sc.work, "out.ks"))
    st.outcome(v, typed, inp, out, end)
    if wrong and mk is fast:
        return session(v, names, inp, out, sc, st, end, fresh)
    if wrong:
        st.violation("%s:%s:%s:%s:%s" % (v, inp, out, typed, end), "ksshell -v %s %s with %r typed and %s: %s" % (v, " ".join(argv), typed, end or "^D", wrong),
                     {"version": v, "argv": argv, "typed": typed, "end": end})


# -------------------------------------------------------------- completion
class Line(object):
    text, begin = "", 0


def completions(c, text, begin):
    Line.text, Line.begin = text, begin
    out = []
    while len(out) < 2000:
        r = c.complete(text[begin:], len(out))
        if r is None:
            return out
        out.append(r)
    return None


def completion(v, st):
    import readline
    saved = (readline.get_line_buffer, readline.get_begidx, readline.get_endidx)
    readline.get_line_buffer = lambda: Line.text
    readline.get_begidx = lambda: Line.begin
    readline.get_endidx = lambda: len(Line.text)
    try:
        class Nothing(object):
            pass
        builtin = {".clear": Nothing(), ".show": Nothing(), ".quit": Nothing()}
        c = ksshell.KickstartCompleter(fresh(v), builtin)
        sp = G.spec()[v]
        words = set(sp) | set(builtin)
        names = sorted({w for w in G.BASES} | set(builtin))
        prefixes = sorted({n[:i] for n in names for i in range(len(n) + 1)} | {"x-", "-"})
        for lead in ("", "  "):
            for p in prefixes:
                st.count("evaluations")
                got = completions(c, lead + p, len(lead))
                want = {w for w in words if w.startswith(p)}
                if got is None or len(set(got)) != len(got) or set(got) - {"method"} != want - {"method"}:
                    st.violation("%s:complete:%r" % (v, lead + p), "%s: completing %r gives %s, expected %s" % (v, lead + p, got, sorted(want)), {"version": v, "line": lead + p})
                st.outcome(v, p)
        for cmd in sorted(set(sp) - {"method"}):
            # realm has its own way with words, and some commands take an option of another one in some classes only
            opts = {n for o in sp[cmd]["opts"] for n in o["names"]}
            exact = sp[cmd]["status"] == "ok" and cmd != "realm"
            for lead, mid in (("", " "), (" ", " x "), ("", "  --bogus=1 ")):
                for p in sorted({n[:i] for n in opts for i in range(len(n) + 1)} | {"", "-", "--", "x"}):
                    ln = lead + cmd + mid + p
                    st.count("evaluations")
                    got = completions(c, ln, len(ln) - len(p))
                    want = {n for n in opts if n.startswith(p)}
                    st.outcome(v, cmd, p)
                    if got is None or len(set(got)) != len(got) or exact and set(got) != want or not all(g.startswith(p) for g in got):
                        st.violation("%s:complete:%r" % (v, ln), "%s: completing %r gives %s, expected %s" % (v, ln, got, sorted(want)), {"version": v, "line": ln})
        for ln in ("nosuchcommand ", "nosuchcommand --", ".show ", ".show x", "# x"):
            if completions(c, ln, len(ln)) not in ([],):
                st.violation("%s:complete:%r" % (v, ln), "%s: completing %r gives something" % (v, ln), {"version": v, "line": ln})
    finally:
        readline.get_line_buffer, readline.get_begidx, readline.get_endidx = saved


def commands(sc, st):
    for argv, typed, want in (((), "lang en_US\n", 0), (("-v", "nosuch"), "", 1), (("-v", "FC3"), "", 0), (("-i", "missing.ks"), "lang en_US\n", 0), (("-i", "good.ks"), ".quit\nskipx\n", 0),
                              (("--input=quote.ks", "--version=F20", "--output=o.ks"), "", 0), (("--bogus",), "", 2), ((), "lang en_US", 0), ((), "rootpw --plaintext h\u00e9\n", 0)):
        rc, o, e = tool.command(sc, "ksshell.py", argv, typed)
        st.count("evaluations")
        wrong = None
        if rc != want:
            wrong = "exits with %r instead of %r: %s" % (rc, want, e)
        elif "Traceback" in e:
            wrong = "ends in a traceback: %s" % e
        elif rc == 0 and "# Generated by" not in (o if "--output=o.ks" not in argv else sc.content()["a/b/work/o.ks"].decode()):
            wrong = "writes nothing: %r" % o
        elif "lang en_US" in typed and "lang en_US" not in o or "\u00e9" in typed and "\u00e9" not in o:
            wrong = "forgets what was typed: %r" % o
        elif ".quit" in typed and ("skipx" in o or "lang de_DE" not in o):
            wrong = "does not stop at .quit: %r" % o
        elif os.listdir(sc.tmp):
            wrong = "leaves %s behind" % os.listdir(sc.tmp)
        if wrong:
            st.violation("cmd:%s:%r" % (argv, typed), "ksshell %s with %r %s" % (" ".join(argv), typed, wrong), {"argv": argv, "typed": typed})


def body(item, st):
    if item[0] == "complete":
        return completion(item[1], st)
    with tool.Scratch() as sc:
        sc.write("inc.ks", "skipx\nrootpw pw\n")
        for n, (t, _how) in INPUTS.items():
            if n and t is not None:
                sc.write(n, t)
        if item[0] == "command":
            return commands(sc, st)
        if item[0] == "ends":
            for inp in item[2]:
                for names in ((), ("lang en_US",), ("nosuchcommand", ".clear", "part /m~ --size=1")):
                    for end in ("", "^C", ".quit"):
                        for out in (False, True):
                            session(item[1], names, inp, out, sc, st, end)
            return
        _, v, n, prefix, inputs = item
        for rest in itertools.product(LINES, repeat=n - len(prefix)):
            for inp in inputs:
                session(v, prefix + rest, inp, inp == "good.ks", sc, st)
        st.sample({"version": v, "typed": prefix + rest, "input": inp})


def main():
    t0 = time.time()
    tier = core.tier()
    quick = tier == "quick"
    items = [("command",)]
    items += [("complete", v) for v in VERSIONS]
    for v in VERSIONS:
        items.append(("ends", v, list(INPUTS) if not quick or v in ("RHEL3", "F7", "RHEL7", "F34") else ["good.ks", "open.ks"]))
    for v in ("FC3", "F34") if quick else VERSIONS:
        items += [("run", v, 2, (a,), list(INPUTS)) for a in LINES]
    for v in ("F34",) if quick else ("FC3", "RHEL5", "RHEL7", "F34"):
        items += [("run", v, 3, (a, b), ["good.ks"] if quick else [None, "good.ks", "open.ks", "quote.ks"]) for a in LINES for b in LINES]
    st = core.pmap(body, items)
    core.finish(PROP, st, "exploration", tier, t0, {
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True,
        "rule": "all sessions over the alphabet up to the depth with all input files; all prefixes of all words for completion; non-trivial: distinct sessions and completions",
        "samples": st.samples}, assumptions=["sections cannot be typed (documented)"])


if __name__ == "__main__":
    main()
