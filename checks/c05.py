"""C05: %packages means the last thing said about every package and group.

A reference model of the package selection is run side by side with the real
parser on every sequence of up to N lines over LINES, cut into one or two
%packages sections, and on every subset of the header options and every
sequence of two headers, in every version; what is written reads back as the
same selection.
"""
import itertools
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core                                       # noqa: E402
from mc.core import VERSIONS, at_least, fast, fresh, run_on   # noqa: E402
from pykickstart import constants as K                    # noqa: E402

PROP = "C05"
LINES = ["a", "b", "-a", "-b", "a*", "-a*", "@g", "@g --optional", "@g --nodefaults", "-@g", "@h i", "-@h i", "@h i --optional",
         "@^e", "@^f x", "-@^e", "-@^f x", "  a  # c", "-b# c", "@g # c", "# c", "", "-", "@m:1/p", "a.i686"]
SMALL = ["a", "-a", "@g", "@g --optional", "-@g", "@^e", "-@^e", "-a*", "b"]
FLAG = {"": K.GROUP_DEFAULT, "--optional": K.GROUP_ALL, "--nodefaults": K.GROUP_REQUIRED}

# option -> (first version, version it is gone in, attribute, value)
HEADER = [
    ("--excludedocs", "RHEL3", None, "excludeDocs", True),
    ("--ignoremissing", "RHEL3", None, "handleMissing", K.KS_MISSING_IGNORE),
    ("--default", "F7", None, "default", True),
    ("--inst-langs=cs,en", "F9", None, "instLangs", "cs,en"),
    ("--instLangs=", "F9", None, "instLangs", ""),
    ("--nobase", "RHEL6", "F22", "addBase", False),
    ("--multilib", "F18", None, "multiLib", True),
    ("--nocore", "F21", None, "nocore", True),
    ("--timeout=0", "RHEL7", None, "timeout", 0),
    ("--timeout=10", "RHEL7", None, "timeout", 10),
    ("--retries=0", "RHEL7", None, "retries", 0),
    ("--retries=7", "RHEL7", None, "retries", 7),
    ("--exclude-weakdeps", "F24", None, "excludeWeakdeps", True),
    ("--excludeWeakdeps", "F24", None, "excludeWeakdeps", True),
    ("--ignorebroken", "F32", None, "handleBroken", K.KS_BROKEN_IGNORE),
]
DEFAULTS = {"excludeDocs": False, "handleMissing": K.KS_MISSING_PROMPT, "default": False, "instLangs": None, "addBase": True,
            "multiLib": False, "nocore": False, "timeout": None, "retries": None, "excludeWeakdeps": False,
            "handleBroken": K.KS_BROKEN_REPORT}
STICKY = ("default", "instLangs")


def avail(v):
    return [h for h in HEADER if at_least(v, h[1]) and not (h[2] and at_least(v, h[2]))]


class Model(object):
    def __init__(self):
        self.pkgs, self.excl, self.groups, self.exgroups, self.env = set(), set(), {}, set(), None
        self.opts = dict(DEFAULTS)
        self.seen = False

    def header(self, opts):
        self.seen = True
        for k, d in DEFAULTS.items():
            if k not in STICKY:
                self.opts[k] = d
        for o in opts:
            self.opts[o[3]] = o[4]

    def line(self, ln):
        if ln.strip() == "" or ln.strip().startswith("#"):
            return
        t = ln.split("#")[0].strip()
        if t.startswith("@^"):
            self.env = t[2:]
            self.exgroups.discard(t[1:])
        elif t.startswith("@"):
            words = t[1:].split()
            name = " ".join(w for w in words if not w.startswith("--"))
            flag = "".join(w for w in words if w.startswith("--"))
            self.exgroups.discard(name)
            self.groups.setdefault(name, FLAG[flag])
        elif t.startswith("-@"):
            name = t[2:]
            if name.startswith("^") and self.env == name[1:]:
                self.env = None
            else:
                self.exgroups.add(name)
                self.groups.pop(name, None)
        elif t.startswith("-"):
            self.excl.add(t[1:])
            self.pkgs.discard(t[1:])
        else:
            self.pkgs.add(t)
            self.excl.discard(t)

    def view(self):
        d = dict(self.opts)
        d.update(pkgs=sorted(self.pkgs), excl=sorted(self.excl), groups=sorted(self.groups.items()), exgroups=sorted(self.exgroups),
                 env=self.env, seen=self.seen)
        return d


def view(p):
    d = {k: getattr(p, k) for k in DEFAULTS}
    d.update(pkgs=sorted(p.packageList), excl=sorted(p.excludedList), groups=sorted((g.name, g.include) for g in p.groupList),
             exgroups=sorted({g.name for g in p.excludedGroupList}), env=p.environment, seen=p.seen)
    return d


_visited = set()


def raw_state(v, p):
    return repr((v, sorted((k, str(getattr(p, k))) for k in DEFAULTS), p.packageList, p.excludedList, [(g.name, g.include) for g in p.groupList],
                 [g.name for g in p.excludedGroupList], p.environment, p.seen))


def judge(v, text, want, mk, prep=None):
    h = mk(v)
    if prep:
        prep(h)
    else:
        o = run_on(h, text)
        if not o.ok:
            return "rejected: %s" % o.brief()
    got = view(h.packages)
    if got != want:
        return "selection is %s" % core.diff(want, got)
    if mk is fast:
        key = raw_state(v, h.packages)
        if key in _visited:
            return None             # this state has been written and read back already
    out = str(h)
    if view(h.packages) != got:
        return "writing changed the selection"
    if not want["seen"]:
        return None
    h = mk(v)
    o = run_on(h, out)
    if not o.ok:
        return "written file rejected: %s\n%s" % (o.brief(), out)
    again = view(h.packages)
    if want["default"]:
        got["env"] = again["env"] = None        # the default environment
    if again != got:
        return "read back differently: %s\n%s" % (core.diff(got, again), out)
    if str(h) != out:
        return "written differently the second time:\n%s---\n%s" % (out, str(h))
    if mk is fast:
        _visited.add(key)
    return None


def check(v, text, want, st, prep=None, label=None, known=None):
    st.count("evaluations")
    st.outcome(sorted(want.items(), key=str))
    bad = judge(v, text, want, fast, prep)
    if bad:
        bad = judge(v, text, want, fresh, prep)
    if bad:
        if known and "written file rejected" not in bad:
            known = None
        st.violation(known or "%s:%s" % (v, text or label), "%s %r: %s" % (v, text or label, bad), {"version": v, "kickstart": text, "program": label})


def doc(v, parts):
    """parts: [(header options, lines)]"""
    m = Model()
    text = ""
    for opts, lines in parts:
        text += " ".join(["%packages"] + [o[0] for o in opts]) + "\n"
        m.header(opts)
        for ln in lines:
            text += ln + "\n"
            m.line(ln)
        text += "%end\n"
    return text, m.view()


def conflict(v, opts):
    names = [o[0] for o in opts]
    return "--default" in names and ("--nobase" in names or "--nocore" in names)


def body(item, st):
    kind, v, arg = item
    if kind == "lines":
        alpha, n, prefix, cuts = arg
        for rest in itertools.product(alpha, repeat=n - len(prefix)):
            lines = prefix + rest
            for cut in (range(0, n) if cuts else (0,)):
                parts = [((), lines[:cut])] if cut else []
                parts.append(((), lines[cut:]))
                text, want = doc(v, parts)
                check(v, text, want, st)
    elif kind == "headers":
        av = avail(v)
        # every subset with one value per attribute
        attrs = sorted({o[3] for o in av})
        doms = [[None] + [o for o in av if o[3] == a] for a in attrs]
        k = arg
        for sel in itertools.product(*doms):
            opts = tuple(o for o in sel if o)
            if len(opts) > k:
                continue
            text, want = doc(v, [(opts, ("a", "@g"))])
            if conflict(v, opts):
                st.count("evaluations")
                if run_on(fast(v), text).ok:
                    st.violation("%s:%s" % (v, text), "%s %r: contradicting options accepted" % (v, text), {"version": v, "kickstart": text})
                continue
            check(v, text, want, st)
        # what another version has is not accepted
        for o in HEADER:
            if o not in av:
                st.count("evaluations")
                text = "%%packages %s\n%%end\n" % o[0]
                if run_on(fast(v), text).ok:
                    st.violation("%s:%s" % (v, text), "%s %r: option of another version accepted" % (v, text), {"version": v, "kickstart": text})
        for o1, o2 in itertools.product([()] + [(o,) for o in av], repeat=2):
            text, want = doc(v, [(o1, ("a",)), (o2, ("-a", "b"))])
            known = None
            if o1 and o2 and o1[0][0] == "--default" and o2[0][0] in ("--nobase", "--nocore"):
                known = "%%packages --default, later %%packages %s" % o2[0][0]
            check(v, text, want, st, known=known)
        # the lines mean the same under every header option
        for o in av:
            alpha = LINES if v in ("F34", "RHEL8", "F8") else SMALL
            for n in (1, 2):
                for lines in itertools.product(alpha, repeat=n):
                    text, want = doc(v, [((o,), lines)])
                    check(v, text, want, st)
                    if n == 2:
                        text, want = doc(v, [((o,), lines[:1]), ((), lines[1:])])
                        check(v, text, want, st)
        text = "%packages\n@g --optional --nodefaults\n%end\n"
        if run_on(fast(v), text).ok:
            st.violation("%s:%s" % (v, text), "%s: --optional and --nodefaults accepted" % v, {"version": v, "kickstart": text})
    else:
        # a program adds lines, one by one or (if they do not contradict each other) at once
        base = [x for x in LINES if x.strip() and "#" not in x]
        for n in (1, 2, 3):
            for seq in itertools.product(base if n < 3 else SMALL, repeat=n):
                m = Model()
                for ln in seq:
                    m.line(ln)
                want = m.view()

                def one(h, seq=seq):
                    for ln in seq:
                        h.packages.add([ln])
                check(v, None, want, st, one, "add one by one %r" % (seq,))
                names = [x.lstrip("-").split(" --")[0] for x in seq]
                if len(set(names)) == len(names) and not ("@^e" in names and "@^f x" in names):
                    check(v, None, want, st, lambda h, seq=seq: h.packages.add(list(seq)), "add at once %r" % (seq,))
    st.sample({"version": v, "kind": kind})


def main():
    t0 = time.time()
    tier = core.tier()
    items = []
    for v in VERSIONS:
        items.append(("lines", v, (LINES, 1, (), False)))
        items.append(("lines", v, (LINES, 2, (), True)))
        items.append(("headers", v, 3 if tier == "quick" else 99))
        items.append(("program", v, None))
    items.append(("headers", "F34", 99))
    items.append(("headers", "F21", 99))
    for v in ("F7", "F34") if tier == "quick" else ("RHEL3", "F7", "F8", "RHEL6", "RHEL7", "RHEL8", "F34"):
        for a in LINES:
            items.append(("lines", v, (LINES, 3, (a,), v == "F34" or tier != "quick")))
            if tier != "quick":
                for b in LINES:
                    items.append(("lines", v, (LINES, 4, (a, b), False)))
    for a in SMALL:
        for b in SMALL:
            items.append(("lines", "F34", (SMALL, 5, (a, b), False)))
            if tier != "quick":
                items.append(("lines", "F34", (SMALL, 6, (a, b), False)))
    st = core.pmap(body, items)
    core.finish(PROP, st, "model_checking", tier, t0, {
        "states": len(st.outcomes), "transitions": st.n["evaluations"], "traces_validated_against_impl": st.n["evaluations"],
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True,
        "rule": "all line sequences and their splits into two sections, header subsets, header pairs, program additions; "
                "states = distinct selections of the model", "samples": st.samples},
        assumptions=["the environment is not written together with --default", "batch additions that contradict themselves are left undefined"])


if __name__ == "__main__":
    main()
