"""C03: the section state machine.

A reference model of how a kickstart file is split into commands, sections
and their bodies is run side by side with the real parser on every sequence
of up to N lines over the alphabet TOKENS, in several versions and parser
modes.  Observed on the real parser: every call of handleCommand (the
documented override), every call into two registered custom sections, the
scripts and packages of the handler, the platform, errorsCount, timesSeen,
and the kind and line number of the error that ends the parse.
"""
import itertools
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core                                       # noqa: E402
from mc.core import VERSIONS, at_least, fast, fresh, quiet_stderr   # noqa: E402
from pykickstart.errors import KickstartParseError        # noqa: E402
from pykickstart.parser import KickstartParser            # noqa: E402
from pykickstart.sections import Section                  # noqa: E402
from pykickstart import constants                         # noqa: E402

PROP = "C03"

# (name, text); @ is replaced by the position, so that no two lines are equal
TOKENS = [
    ("word", "w@"), ("two", "  v@ x"), ("comment", "# c@"), ("blank", ""), ("space", " \t"), ("platform", "#platform=p@"),
    ("pre", "%pre"), ("post", "%post --nochroot --log=l@"), ("ipost", "  %post"), ("packages", "%packages"),
    ("rec", "%rec a@"), ("cur", "%cur"), ("end", "%end"), ("endc", "%end # it's @"), ("iend", "  %end"),
    ("endx", "%endx@"), ("unk", "%unk"), ("echo", "echo@ %end"), ("bad", "bad@"), ("odd", "o@\x0cp\u2028q\x0b\x85r\x1cs"),
]
CORE = ["word", "comment", "blank", "platform", "pre", "packages", "rec", "cur", "end", "endc", "endx", "unk", "post"]
TINY = ["word", "blank", "pre", "rec", "cur", "end", "unk"]
TEXT = dict(TOKENS)
SCRIPTS = {"%pre": constants.KS_SCRIPT_PRE, "%post": constants.KS_SCRIPT_POST}
ALLLINES = {"%pre": True, "%post": True, "%packages": False, "%rec": True, "%cur": False}


class Undefined(Exception):
    pass


# -------------------------------------------------------------------- model
def model(v, lines, fatal, unkfatal, states):
    """What has to be observed; lines carry their newline."""
    f8 = at_least(v, "F8")
    known = dict(ALLLINES)
    ev, scripts, pkgs, seen = [], [], [], {}
    m = {"platform": "", "errors": 0, "end": None}
    cur = None                      # open section: [name, lineno, args, body]

    def close():
        name, ln, args, body = cur
        if name in SCRIPTS:
            text = "".join(body)
            if text.strip():
                scripts.append((SCRIPTS[name], text, ln,
                                name == "%post" and "--nochroot" not in args,
                                next((a[6:] for a in args if a.startswith("--log=")), None)))
        elif name in ("%rec", "%cur"):
            ev.append(("close", name))

    for i, raw in enumerate(lines):
        n = i + 1
        t = raw.strip()
        states.add((cur and cur[0], t[:4], m["end"]))
        if cur is not None:
            name = cur[0]
            first = t.split()[0] if t else ""
            if (t == "" or t.startswith("#")) and not known[name]:
                continue
            if first == "%end":
                close()
                cur = None
                continue
            if first in known:
                if f8:
                    m["end"] = n
                    break
                close()
                cur = None          # falls through: this is a header now
            else:
                cur[3].append(raw)
                if name in ("%rec", "%cur"):
                    ev.append(("line", name, raw))
                elif name == "%packages":
                    w = raw.split("#")[0].strip()
                    if w and w not in pkgs:
                        pkgs.append(w)
                continue
        if t == "" or t.startswith("#"):
            if raw.startswith("#platform="):
                m["platform"] = raw[len("#platform="):].strip()
            continue
        words = t.split("#")[0].replace("\t", " ").split(" ")
        words = [w for w in words if w]
        if words[0].startswith("%"):
            if words[0] == "%end" and not unkfatal:
                raise Undefined()   # would make %end itself a section
            if words[0] not in known:
                if unkfatal:
                    m["end"] = n
                    break
                known[words[0]] = True
                seen["warn"] = seen.get("warn", 0) + 1
            cur = [words[0], n, words, []]
            seen[words[0]] = seen.get(words[0], 0) + 1
            if words[0] in ("%rec", "%cur"):
                ev.append(("open", words[0], n, words))
            continue
        ev.append(("cmd", n, words))
        if words[0].startswith("bad"):
            m["errors"] += 1
            if fatal:
                m["end"] = n
                break
    else:
        if cur is not None:
            if f8:
                m["end"] = len(lines)
                m["eof"] = True
            else:
                close()
    m.update(ev=ev, scripts=scripts, pkgs=pkgs, seen=seen)
    return m


# --------------------------------------------------------------------- real
class Rec(Section):
    allLines = True

    def __init__(self, handler, tag, allLines, log):
        Section.__init__(self, handler)
        self.sectionOpen = tag
        self.allLines = allLines
        self.log = log

    def handleHeader(self, lineno, args):
        Section.handleHeader(self, lineno, args)
        self.log.append(("open", self.sectionOpen, lineno, list(args)))

    def handleLine(self, line):
        self.log.append(("line", self.sectionOpen, line))

    def finalize(self):
        self.log.append(("close", self.sectionOpen))


class Parser(KickstartParser):
    def __init__(self, *a, **k):
        self.log = []
        KickstartParser.__init__(self, *a, **k)

    def setupSections(self):
        KickstartParser.setupSections(self)
        self.registerSection(Rec(self.handler, "%rec", True, self.log))
        self.registerSection(Rec(self.handler, "%cur", False, self.log))

    def handleCommand(self, lineno, args):
        self.log.append(("cmd", lineno, list(args)))
        if args[0].startswith("bad"):
            raise KickstartParseError("bad", lineno=lineno)


def real(v, text, fatal, unkfatal, mk):
    h = mk(v)
    p = Parser(h, errorsAreFatal=fatal, unknownSectionIsFatal=unkfatal)
    with quiet_stderr():
        o = core.run_on(h, text, parser=p)
    m = {"platform": h.platform, "errors": p.errorsCount, "end": None}
    if not o.ok:
        m["end"] = o.lineno if o.exctype == "KickstartParseError" else o.brief()
    seen = {}
    for tag in list(ALLLINES) + ["%unk", "%endx1"]:
        try:
            k = p.getSection(tag).timesSeen
        except KeyError:
            k = 0
        if k:
            seen[tag] = k
    if o.warns:
        seen["warn"] = o.warns.count("parse")
    m.update(ev=p.log, pkgs=sorted(h.packages.packageList), seen=seen,
             scripts=[(s.type, s.script, s.lineno, s.inChroot, s.logfile) for s in h.scripts])
    return m


def same(m, r):
    for k in ("ev", "scripts", "platform", "errors", "end"):
        if m[k] != r[k]:
            return "%s: expected %r, got %r" % (k, m[k], r[k])
    if sorted(m["pkgs"]) != r["pkgs"]:
        return "packages: expected %r, got %r" % (sorted(m["pkgs"]), r["pkgs"])
    for k in set(m["seen"]) | set(r["seen"]):
        if k.startswith("%endx"):
            continue
        if m["seen"].get(k, 0) != r["seen"].get(k, 0):
            return "%s seen %s times, expected %s" % (k, r["seen"].get(k, 0), m["seen"].get(k, 0))
    return None


def one(v, names, fatal, unkfatal, newline, st, states):
    lines = [TEXT[n].replace("@", str(i + 1)) + "\n" for i, n in enumerate(names)]
    if not newline:
        lines[-1] = lines[-1][:-1]
        if not lines[-1]:
            return
    try:
        m = model(v, lines, fatal, unkfatal, states)
    except Undefined:
        st.count("undefined")
        return
    st.count("evaluations")
    text = "".join(lines)
    r = real(v, text, fatal, unkfatal, fast)
    bad = same(m, r)
    if bad:
        bad = same(m, real(v, text, fatal, unkfatal, fresh))
    if bad:
        st.violation("%s:%r:%s%s" % (v, text, fatal, unkfatal), "%s errorsAreFatal=%s unknownSectionIsFatal=%s %r: %s" % (v, fatal, unkfatal, text, bad),
                     {"version": v, "kickstart": text, "errorsAreFatal": fatal, "unknownSectionIsFatal": unkfatal})
    st.outcome(m["ev"], m["scripts"], m["end"], m["errors"])


def body(item, st):
    v, alphabet, depth, prefix, modes, newlines = item
    states = set()
    for rest in itertools.product(alphabet, repeat=depth - len(prefix)):
        for fatal, unkfatal in modes:
            for nl in newlines:
                one(v, prefix + rest, fatal, unkfatal, nl, st, states)
    st.states = states
    st.count("model_states", len(states))
    st.sample({"version": v, "lines": [TEXT[x] for x in prefix + rest]})


FT, TT, TF, FF = (False, True), (True, True), (True, False), (False, False)


def main():
    t0 = time.time()
    tier = core.tier()
    full = [n for n, _t in TOKENS]
    items = []
    for v in VERSIONS:
        for d in (1, 2):
            items.append((v, full, d, (), (TT, FT, TF, FF), (True, False)))
        for a in CORE:
            items.append((v, CORE, 3, (a,), (TT, FF), (True,)))
    deep = ["F7", "F34"] if tier == "quick" else ["RHEL3", "RHEL5", "F7", "F8", "RHEL6", "RHEL7", "RHEL8", "F34"]
    for v in deep:
        for a in full:
            items.append((v, full, 3, (a,), (TT, FT, TF, FF), (True, False)))
            for b in full:
                items.append((v, full, 4, (a, b), (TT,) if tier == "quick" else (TT, FF), (True,) if tier == "quick" else (True, False)))
    for v in ["F7", "F8", "RHEL5", "RHEL6", "F34"]:
        for a in TINY:
            for b in TINY:
                items.append((v, TINY, 5, (a, b), (TF,), (True,)))
                if tier != "quick":
                    items.append((v, TINY, 6, (a, b), (TF,), (True,)))
    if tier != "quick":
        for v in ["F7", "F34"]:
            for a in CORE:
                for b in CORE:
                    items.append((v, CORE, 5, (a, b), (TF, TT), (True,)))
    items.sort(key=lambda it: -len(it[1]) ** (it[2] - len(it[3])) * len(it[4]) * len(it[5]))
    st = core.pmap(body, items)
    core.finish(PROP, st, "model_checking", tier, t0, {
        "states": st.n["model_states"], "transitions": st.n["evaluations"],
        "traces_validated_against_impl": st.n["evaluations"], "evaluations": st.n["evaluations"],
        "distinct_nontrivial": len(st.outcomes), "exhaustive": True, "excluded_stray_end": st.n["undefined"],
        "rule": "all line sequences to depth 2 (all versions, all modes, with and without final newline), 3 (all versions), "
                "4-6 (selected versions); distinct = distinct model traces",
        "samples": st.samples},
        assumptions=["a stray %end with unknownSectionIsFatal=False is left undefined"])


if __name__ == "__main__":
    main()
