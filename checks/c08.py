"""C08: errors are kickstart errors, at the right line, and nothing else is lost.

A  every line of the frozen tables (C02) and every command with every sequence
   of one or two awkward words, after 36 lines of comments and blanks: accepted,
   or a KickstartParseError that carries (and mentions) line 37; configurations
   that were accepted can be written.
B  every sequence of good and bad lines up to depth N, with errorsAreFatal
   (stops at the first bad line, everything before is there) and without (every
   bad line is counted, every good line is applied as if the bad ones were not
   there).
C  bad section headers and bad lines in %packages.
"""
import itertools
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, golden, grammar as G                 # noqa: E402
from mc.golden import pristine                         # noqa: E402
from mc.core import VERSIONS, canon_commands, canon_handler, fast, fresh, quiet_stderr, run_on   # noqa: E402

PROP = "C08"
PRE = "# c\n\n" * 18
LINE = 37
WORDS = ['""', "-", "--", "=", "--=x", "-x", "--x", "'a b'", "%x", "@", "\u00e9", "--name=", "--name", "--device=", "a,b", ",", "0", "-1",
         "1e5", "\\x", "/", "--size=", "#", "$x", ":", "a:b:c", "--port=:", "--device=,", "none", "swap", "--opts='a b'", "x" * 300,
         '--drives=""', "select", "join"]


def known(cmd, o):
    if o.exctype == "ValueError" and cmd == "raid":
        return "raid --device that is not a number"
    if o.exctype == "ValueError" and "quotation" in (o.msg or ""):
        return "no closing quotation"
    return None


_text = {}


def pristine_text(v, cmd):
    if (v, cmd) not in _text:
        _text[v, cmd] = str(fresh(v).commands[cmd])
    return _text[v, cmd]


def attributed(v, cmd, ln, st, mk=fast):
    st.count("evaluations")
    o = run_on(mk(v), PRE + ln + "\n")
    if o.ok:
        st.count("accepted")
        return
    st.outcome(v, ln)
    bad = None
    if o.exctype != "KickstartParseError" and not isinstance(o.exc, core.KickstartParseError):
        bad = "is not a kickstart error: %s" % o.brief()
    elif o.lineno != LINE:
        bad = "is reported at line %s instead of %d: %s" % (o.lineno, LINE, o.brief())
    elif str(LINE) not in o.msg:
        bad = "does not mention the line: %s" % o.brief()
    else:
        # as if the line was not there
        for c, x in canon_commands(o.handler).items():
            want = pristine(v)[c]
            if x is not want and x != want:
                bad = "leaves something behind on %s: %s" % (c, core.diff(want, x))
                break
        else:
            try:
                text = str(o.handler.commands[cmd]) if o.handler.commands.get(cmd) else None
                if text is not None and text != pristine_text(v, cmd):
                    bad = "leaves %r to be written" % text
            except Exception as e:      # pylint: disable=broad-except
                bad = "leaves a configuration that cannot be written: %s: %s" % (type(e).__name__, e)
    if bad and mk is fast:
        return attributed(v, cmd, ln, st, fresh)
    if bad:
        st.violation(known(cmd, o) or "%s:%s" % (v, ln), "%s: the problem with %r %s" % (v, ln, bad), {"version": v, "kickstart": PRE + ln + "\n"})


def after(v, cmd, st):
    """A wrong line after a good one of the same command changes nothing."""
    bad = [ln for ln in golden.single_lines(cmd) if not run_on(fast(v), ln + "\n").ok]
    for b in G.BASES[cmd]:
        good = G.line(cmd, b)
        h = fast(v)
        if not run_on(h, good + "\n").ok:
            continue
        want, wtext = canon_commands(h)[cmd if cmd in core.command_objects(h) else alias(h, cmd)], str(h.commands[cmd])
        for ln in bad:
            st.count("evaluations")
            for mk in (fast, fresh):
                h = mk(v)
                with quiet_stderr():
                    o = run_on(h, good + "\n" + ln + "\n", errorsAreFatal=False)
                if o.parser.errorsCount == 0:
                    break               # fine after the good one
                got = canon_commands(h)[cmd if cmd in core.command_objects(h) else alias(h, cmd)]
                if got == want and str(h.commands[cmd]) == wtext:
                    break
            else:
                st.violation("%s:%s/%s" % (v, good, ln), "%s: %r after %r leaves something behind: %s %r" % (v, ln, good, core.diff(want, got), str(h.commands[cmd])),
                             {"version": v, "kickstart": good + "\n" + ln + "\n"})


def alias(h, cmd):
    return [n for n, c in core.command_objects(h).items() if c is h.commands[cmd]][0]


# ------------------------------------------------------------------------- B
GOOD = ["lang en_US", "timezone Europe/Prague", "user --name=u~", "%pre\necho ~\n%end", "%packages\np~\n%end"]
BAD = ["nosuchcommand", "skipx --bogus", "rootpw", "user", "xconfig extra", "''", "%packages\nq~\n@g --optional --nodefaults\n-r\n%end"]
REST = {BAD[-1]: (2, "%packages\nq~\n-r\n%end\n", "%packages\nq~\n")}       # line of the problem, what is good, up to the problem
NEUTRAL = ["# c", ""]


def avail(v):
    good = [g for g in GOOD if g.startswith("%") or G.spec()[v].get(g.split()[0], {}).get("status") == "ok"]
    return good


def bad_count(s):
    return 1 if s in BAD else 0


def view(h):
    return canon_handler(h), str(h)


def linenos(h):
    return [u.lineno for u in h.user.userList] + [s.lineno for s in h.scripts] if h.hasCommand("user") and hasattr(h.user, "userList") else [s.lineno for s in h.scripts]


def sequence(v, seq, st, mk=fast):
    text, good, lines, bad, userl, scriptl = "", "", 0, [], [], []
    for i, s in enumerate(seq):
        s2 = s.replace("~", str(i))
        start = lines + 1
        text += s2 + "\n"
        lines += s2.count("\n") + 1
        if s in BAD:
            off, rest, upto = REST.get(s, (0, "", ""))
            bad.append((start + off, good + upto.replace("~", str(i))))
            good += rest.replace("~", str(i))
        else:
            good += s2 + "\n"
            if s.startswith("user"):
                userl.append(start)
            if s.startswith("%pre"):
                scriptl.append(start)
    wrong = None
    # all good lines are applied
    h = mk(v)
    with quiet_stderr():
        o = run_on(h, text, errorsAreFatal=False)
    got = view(h)
    ln = linenos(h)
    h = mk(v)
    o2 = run_on(h, good)
    want = view(h)
    if not o.ok:
        wrong = "stopped with errorsAreFatal=False: %s" % o.brief()
    elif not o2.ok:
        wrong = "good lines rejected: %s" % o2.brief()
    elif o.parser.errorsCount != len(bad):
        wrong = "%d errors counted, expected %d" % (o.parser.errorsCount, len(bad))
    elif got != want:
        wrong = "good lines not applied: %s" % core.diff(want, got)
    elif ln != userl + scriptl and h.hasCommand("user") and hasattr(h.user, "userList"):
        wrong = "line numbers %s, expected %s" % (ln, userl + scriptl)
    st.count("evaluations")
    if not wrong and bad:
        # stops at the first one
        h = mk(v)
        o = run_on(h, text)
        got = view(h)
        h = mk(v)
        run_on(h, bad[0][1])
        want = view(h)
        st.count("evaluations")
        if o.ok:
            wrong = "accepted"
        elif o.lineno != bad[0][0] or o.exctype != "KickstartParseError":
            wrong = "error at line %s, expected %s: %s" % (o.lineno, bad[0][0], o.brief())
        elif o.parser.errorsCount != 1:
            wrong = "%d errors counted, expected 1" % o.parser.errorsCount
        elif got != want:
            wrong = "not as up to the error: %s" % core.diff(want, got)
    st.outcome(v, seq)
    if wrong and mk is fast:
        return sequence(v, seq, st, fresh)
    if wrong:
        st.violation("%s:%r" % (v, text), "%s %r: %s" % (v, text, wrong), {"version": v, "kickstart": text})


HEADERS = ["%pre --bogus", "%post extra", "%post --interpreter", "%pre --nochroot", "%traceback --log", "%packages --bogus", "%packages x",
           "%packages --timeout=x", "%onerror -x", "%pre-install --erroronfail=1", "%nosuch", "%", "%include", "%end", "%packages\n@g --optional --nodefaults"]


def headers(v, st):
    for hd in HEADERS:
        text = PRE + hd + "\nx\n%end\n"
        st.count("evaluations")
        o = run_on(fresh(v), text)
        line = LINE + hd.count("\n")
        if o.ok:
            st.violation("%s:%s" % (v, hd), "%s: %r accepted" % (v, hd), {"version": v, "kickstart": text})
        elif o.exctype != "KickstartParseError":
            st.violation("%s:%s" % (v, hd), "%s: %r: %s" % (v, hd, o.brief()), {"version": v, "kickstart": text})
        elif o.lineno != line:
            st.violation("%s:%s" % (v, hd), "%s: %r reported at line %s, is at %d" % (v, hd, o.lineno, line), {"version": v, "kickstart": text})
        # counted, and the section is not taken for commands
        if hd.startswith(("%pre", "%post", "%traceback", "%packages", "%onerror")) and "\n" not in hd:
            h = fresh(v)
            with quiet_stderr():
                o = run_on(h, PRE + hd + "\nlang xx\n%end\nlang en_US\n", errorsAreFatal=False)
            st.count("evaluations")
            if not o.ok or o.parser.errorsCount != 1 or h.lang.lang != "en_US":
                st.violation("%s:%s nonfatal" % (v, hd), "%s: %r with errorsAreFatal=False: %s, %s errors, lang=%r" % (v, hd, o.brief(), o.parser.errorsCount, h.lang.lang), {"version": v, "kickstart": text})


def body(item, st):
    kind, v, arg = item
    if kind == "lines":
        for ln in golden.single_lines(arg):
            attributed(v, arg, ln, st)
        st.sample({"version": v, "line": ln})
    elif kind == "words":
        cmd, n = arg
        for base in [""] + G.BASES[cmd]:
            for t in itertools.product(WORDS, repeat=n):
                attributed(v, cmd, " ".join((cmd, base) + t), st)
    elif kind == "after":
        after(v, arg, st)
    elif kind == "seq":
        n, prefix = arg
        for rest in itertools.product(avail(v) + BAD + NEUTRAL, repeat=n - len(prefix)):
            sequence(v, prefix + rest, st)
    elif kind == "quote":
        for ln in ("lang 'x", "lang \"x", "it's", "part / --size=1 'x", "%pre 'x"):
            attributed(v, ln.split()[0], ln, st)
    else:
        headers(v, st)


def main():
    t0 = time.time()
    tier = core.tier()
    quick = tier == "quick"
    items = []
    for v in VERSIONS:
        items += [("lines", v, c) for c in golden.ALL]
        items += [("words", v, (c, 1)) for c in G.commands(v)]
        items += [("headers", v, None), ("quote", v, None)]
        items += [("seq", v, (1, ())), ("seq", v, (2, ()))]
    for v in ("FC3", "F34") if quick else VERSIONS:
        items += [("words", v, (c, 2)) for c in G.commands(v)]
    for v in ("FC3", "F8", "F16", "RHEL7", "F34") if quick else VERSIONS:
        items += [("after", v, c) for c in G.commands(v) if c != "method"]
    for v in ("RHEL5", "F7", "F34") if quick else ("RHEL3", "RHEL5", "F7", "F8", "RHEL6", "RHEL7", "RHEL8", "F34"):
        items += [("seq", v, (3, (a,))) for a in avail(v) + BAD + NEUTRAL]
        if not quick:
            items += [("seq", v, (4, (a, b))) for a in avail(v) + BAD + NEUTRAL for b in avail(v) + BAD + NEUTRAL]
    st = core.pmap(body, items)
    core.finish(PROP, st, "fault_enumeration", tier, t0, {
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes), "accepted": st.n["accepted"], "exhaustive": True,
        "rule": "all frozen lines and all sequences of 1-2 awkward words per command; all sequences of good and bad lines; "
                "non-trivial: distinct rejected lines and sequences", "samples": st.samples},
        assumptions=["a bad line may leave traces on its own command"])


if __name__ == "__main__":
    main()
