"""C21: options and commands are introduced, deprecated and removed where the
documentation says.

A  documentation (the help of every command in every version) against the
   frozen syntax tables: which options, since when, deprecated or removed when.
B  every use of every deprecated option and command, in every spelling, line,
   number and file: exactly one warning each, with its line.
C  every history of add_argument / remove_argument calls up to a depth on a
   real KSOptionParser, in lock step with a model; in every state every short
   command line is parsed.
"""
import itertools
import os
import re
import shutil
import sys
import tempfile
import time
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, grammar as G                       # noqa: E402
from mc.core import VERSIONS, KickstartParseError, canon_commands, fast, fresh      # noqa: E402
from pykickstart import version as V                    # noqa: E402
from pykickstart.errors import KickstartDeprecationWarning     # noqa: E402
from pykickstart.options import KSOptionParser, commaSplit, ksboolean     # noqa: E402
from pykickstart.parser import KickstartParser          # noqa: E402

PROP = "C21"
LONG = {V.versionToLongString(V.stringToVersion(v)): v for v in VERSIONS}
FED = [v for v in VERSIONS if not v.startswith("RHEL")]
RHEL = [v for v in VERSIONS if v.startswith("RHEL")]
MARK = re.compile(r"\.\. (versionadded|versionchanged|deprecated|versionremoved):: ?(.*)")


def bad(st, kind, what, detail, **case):
    case["kind"] = kind
    st.violation("%s:%s" % (kind, what), detail, case)


# A ------------------------------------------------------------------------
def option(v, cmd, name):
    """None, "ok" or "deprecated": what the table says about an option."""
    for o in G.spec().get(v, {}).get(cmd, {"opts": []})["opts"]:
        if name in o["names"]:
            return "deprecated" if o.get("deprecated") else "ok"
    return None


def status(v, cmd):
    s = G.spec().get(v, {}).get(cmd, {"status": None})["status"]
    return None if s == "removed" else s


def before(v):
    line = RHEL if v in RHEL else FED
    i = line.index(v)
    return line[i - 1] if i else None


def marks(text):
    return [(k, x.strip()) for k, x in MARK.findall(text)]


def lifecycle(st, v, cmd, what, ms, states):
    """The marks of one option (or of the command itself) are at the versions
    where the tables change.  states: for each of its names a function
    version -> None/ok/deprecated."""
    for k, x in ms:
        if x not in LONG:
            bad(st, "mark", "%s %s %s" % (v, cmd, what), "%s: the documentation of %s %s says %s:: %s, which is no version" % (v, cmd, what, k, x), version=v)
            continue
        x = LONG[x]
        if x.startswith("RHEL"):
            continue                    # a side branch: classes are shared in ways the tables do not show
        ok = False
        for state in states:
            now, old = state(x), (state(before(x)) if before(x) else None)
            ok = ok or {"versionadded": now and not old, "versionchanged": now,
                        "deprecated": now == "deprecated" and old != "deprecated",
                        "versionremoved": not now and old}[k]
        st.count("marks")
        if not ok:
            bad(st, "mark", "%s %s %s %s %s" % (v, cmd, what, k, x), "%s: the documentation says %s %s is %s %s, but it is %s before and %s there"
                % (v, cmd, what, k, x, old, now), version=v)


def documented(v, st):
    h = fresh(v)
    table = G.spec()[v]
    for cmd, obj in sorted(h.commands.items()):
        if cmd in ("method", "install", "upgrade", "realm") or obj is None:
            continue                    # other names or other parsers
        try:
            op = obj._getParser()
            text = op.format_help()
        except Exception as e:      # pylint: disable=broad-except
            bad(st, "help", "%s %s" % (v, cmd), "%s: the help of %s raised %s: %s" % (v, cmd, type(e).__name__, e), version=v)
            continue
        st.count("commands")
        st.outcome(text)
        ms = marks(op.description)
        kinds = [k for k, _x in ms]
        s = status(v, cmd)
        want = ("versionadded" in kinds, "deprecated" in kinds and "versionremoved" not in kinds, "versionremoved" in kinds)
        if want != (True, s == "deprecated", s is None):
            bad(st, "command", "%s %s" % (v, cmd), "%s: %s is %s, its documentation says %s" % (v, cmd, s, ms), version=v)
        lifecycle(st, v, cmd, "itself", ms, [lambda x, c=cmd: status(x, c)])
        parts = re.split(r"^``(.*)``$", text, flags=re.M)
        docs = {}
        for head, body in zip(parts[1::2], parts[2::2]):
            names = re.findall(r"(?<![\w-])--?[A-Za-z][\w-]*", head)
            for n in names:
                docs.setdefault(n, []).append((names, marks(body)))
        opts = table.get(cmd, {"opts": []})["opts"]
        known = {n: o for o in opts for n in o["names"]}
        for n, o in known.items():
            st.count("options")
            here = docs.get(n)
            if not here:
                bad(st, "undocumented", "%s %s %s" % (v, cmd, n), "%s: %s accepts %s, the documentation does not mention it" % (v, cmd, n), version=v)
                continue
            dep = any(k == "deprecated" for _n, m in here for k, _x in m)
            if dep != bool(o.get("deprecated")):
                bad(st, "deprecated", "%s %s %s" % (v, cmd, n), "%s: %s %s is %sdeprecated, but documented as %s"
                    % (v, cmd, n, "" if o.get("deprecated") else "not ", here), version=v)
            # positional words are options of no name; an old spelling of an
            # option is documented with the new one
            if not any(k == "versionadded" for _n, m in here for k, _x in m) and cmd != "device":
                bad(st, "since", "%s %s %s" % (v, cmd, n), "%s: %s %s is documented without the version it was added in" % (v, cmd, n), version=v)
        for n, here in docs.items():
            if n not in known:
                if status(v, cmd) == "ok" and not any(k == "versionremoved" for _n, m in here for k, _x in m):
                    bad(st, "extra", "%s %s %s" % (v, cmd, n), "%s: %s does not accept %s, the documentation says %s" % (v, cmd, n, here), version=v)
            for names, ms in here:
                if n == names[0]:
                    lifecycle(st, v, cmd, "/".join(names), ms,
                              [lambda x, c=cmd, n=y: option(x, c, n) for y in names])


# B ------------------------------------------------------------------------
def warned(v, text, mk, path=None):
    """(accepted, [deprecation messages], configuration)"""
    h = mk(v)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            if path:
                KickstartParser(h).readKickstart(path)
            else:
                KickstartParser(h).readKickstartFromString(text)
            ok = True
        except Exception as e:      # pylint: disable=broad-except
            ok = e
    return ok, [str(w.message) for w in ws if issubclass(w.category, KickstartDeprecationWarning)], canon_commands(h)


def abbreviations(o, opts):
    """Prefixes of an option that name only this one."""
    every = [n for x in opts for n in x["names"]]
    for n in o["names"]:
        if n.startswith("--"):
            for i in range(len(n) - 1, 4, -1):
                p = n[:i]
                if all(m in o["names"] for m in every if m.startswith(p)) and p not in every:
                    yield p


def uses(v, cmd):
    """(line, number of deprecated words, names one of which must be mentioned)"""
    gone = [n for o in G.spec()[v][cmd]["opts"] if o.get("deprecated") for n in o["names"]]
    for ln, n, names in uses1(v, cmd):
        if any(w.split("=")[0] in gone for b in G.BASES[cmd] if ln.startswith(G.line(cmd, b)) for w in b.split()):
            n, names = sum(1 for w in ln.split()[1:] if w.startswith("--") and any(g.startswith(w.split("=")[0]) for g in gone)), None
        yield ln, n, names


def uses1(v, cmd):
    info = G.spec()[v][cmd]
    if info["status"] == "deprecated":
        for b in G.BASES[cmd]:
            yield G.line(cmd, b), 1, (cmd,)
        yield cmd + " --whatever=1 x y", 1, (cmd,)
        return
    opts = info["opts"]
    for o in opts:
        if not o.get("deprecated"):
            continue
        forms = list(G.opt_tokens(cmd, o))
        first = G.primary_tokens(cmd, o)[0]
        for p in abbreviations(o, opts):
            forms.append(p + first[len(o["names"][0]):])
        if "=" in first and o["kind"] == "value":
            forms.append(first.replace("=", " ", 1))
        for b in G.BASES[cmd]:
            for f in forms:
                yield G.line(cmd, b, f), 1, o["names"]
            yield G.line(cmd, b, first, first), 2, o["names"]
            for o2 in opts:
                if o2 is not o:
                    t2 = G.primary_tokens(cmd, o2)[0]
                    n = 2 if o2.get("deprecated") else 1
                    yield G.line(cmd, b, first, t2), n, None if n == 2 else o["names"]
                    yield G.line(cmd, b, t2, first), n, None if n == 2 else o["names"]


def announced(item, st):
    v, cmd = item
    d = tempfile.mkdtemp(prefix="c21-")
    try:
        for ln, n, names in uses(v, cmd):
            alone = warned(v, ln + "\n", fast)
            if alone[0] is not True:
                st.count("rejected")
                continue
            st.count("uses")
            for pre in (0, 1, 4):
                text = "\n# c\n\n# d\n"[:pre] if pre < 2 else "\n# c\n\n#d\n"
                for count in (1, 2):
                    t = text + (ln + "\n") * count
                    at = [text.count("\n") + 1 + i for i in range(count)]
                    expect(st, v, t, at, n, names, None)
            inc = os.path.join(d, "i.ks")
            main = os.path.join(d, "m.ks")
            with open(inc, "w", encoding="utf-8") as f:
                f.write("# c\n\n\n\n\n\n" + ln + "\n# e\n")
            with open(main, "w", encoding="utf-8") as f:
                f.write("\n%include i.ks\n\n" + ln + "\n")
            expect(st, v, "\n%include i.ks\n\n" + ln + "\n", [7, 4], n, names, main)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# What is only going to be deprecated is announced in the same way.
def advised(v, cmd, words):
    n = V.stringToVersion(v)
    got = 0
    if cmd == "timezone" and n >= V.F32:
        got += any(w in ("--isUtc",) for w in words)
    if cmd == "timezone" and n >= V.F33:
        got += any(w.split("=")[0] == "--ntpservers" and w[13:].strip(",") for w in words) + ("--nontp" in words)
    if cmd in ("auth", "authconfig") and n >= V.F28:
        got += 1
    if cmd == "zerombr" and n < V.F9:
        got += bool(words)
    return got


def silent(v, st):
    """Lines of all commands: no warning that is not due."""
    table = G.spec()[v]
    for cmd in G.commands(v):
        if table[cmd]["status"] == "deprecated":
            continue
        opts = table[cmd]["opts"]
        gone = [o for o in opts if o.get("deprecated")]
        toks = [("", 0)] + [(t, o in gone) for o in opts for t in G.opt_tokens(cmd, o)]
        toks += [(t + " " + t2, (o in gone) + (o2 in gone)) for o in opts for o2 in opts if o is not o2
                 for t in G.primary_tokens(cmd, o)[:1] for t2 in G.primary_tokens(cmd, o2)[:1]]
        for b in G.BASES[cmd]:
            for t, n in toks:
                ln = G.line(cmd, b, t)
                words = ln.split()[1:]
                for o in gone:
                    n += sum(1 for w in b.split() if w.split("=")[0] in o["names"])
                n += advised(v, cmd, words)
                st.count("lines")
                for mk in (fast, fresh):
                    ok, msgs, _c = warned(v, ln + "\n", mk)
                    if ok is not True or len(msgs) == n:
                        break
                    if mk is fresh:
                        bad(st, "line", "%s %r" % (v, ln), "%s: %r gives %s deprecation warnings, expected %d" % (v, ln, msgs, n), version=v, kickstart=ln)


HEADERS = ["--ignoredeps", "--resolvedeps", "--nobase", "--nocore", "--default", "--excludedocs", "--ignoremissing",
           "--instLangs=en", "--inst-langs=en", "--instLangs en", "--excludeWeakdeps", "--exclude-weakdeps",
           "--multilib", "--timeout=5", "--retries=2", "--ignorebroken"]


def header_due(v, w):
    """None: no such option in this version; else the number of warnings"""
    n = V.stringToVersion(v)
    w = w.split("=")[0].split()[0]
    since = {"--nobase": V.RHEL6, "--nocore": V.F21, "--default": V.F7, "--instLangs": V.F9, "--inst-langs": V.F9,
             "--excludeWeakdeps": V.F24, "--exclude-weakdeps": V.F24, "--multilib": V.F18, "--timeout": V.RHEL7,
             "--retries": V.RHEL7, "--ignorebroken": V.F32}.get(w, 0)
    until = {"--ignoredeps": V.F9, "--resolvedeps": V.F9, "--nobase": V.F22}.get(w, 10 ** 9)
    if not since <= n < until:
        return None
    # (RHEL3 and FC3 use the section parser of FC4)
    dep = {"--ignoredeps": 0, "--resolvedeps": 0, "--nobase": V.F18, "--instLangs": V.F32,
           "--excludeWeakdeps": V.F32}.get(w, 10 ** 9)
    return 1 if n >= dep else 0


def headers(v, st):
    due = [(w, header_due(v, w)) for w in HEADERS]
    n_v = V.stringToVersion(v)
    for n in (0, 1, 2):
        for combo in itertools.permutations(due, n):
            ws = [w for w, _d in combo]
            if any(d is None for _w, d in combo) and n > 1:
                continue
            refused = any(d is None for _w, d in combo) or ({"--nocore"} & set(ws) and {"--default"} & set(ws)) or ({"--nobase", "--default"} <= set(ws))
            for pre, count in ((0, 1), (2, 1), (1, 2)):
                text = "# c\n" * pre + ("%packages " + " ".join(ws) + "\na\n%end\n") * count
                at = [pre + 1 + 3 * i for i in range(count)]
                if count == 2 and any(w.startswith("--n") or w == "--default" for w in ws):
                    continue
                st.count("headers")
                for mk in (fast, fresh):
                    ok, msgs, _c = warned(v, text, mk)
                    got = sorted(int(re.search(r"line (\d+)", m).group(1)) for m in msgs if "line" in m)
                    # what is only announced is announced once per header
                    want = sorted(x for x in at for w in {w.split()[0].split("=")[0] for w in ws}
                                  for _i in range(header_due(v, w) or 0))
                    wrong = None
                    if (ok is True) == bool(refused):
                        wrong = "is %s, expected %s" % ("accepted" if ok is True else "refused (%s)" % ok, "refused" if refused else "accepted")
                    elif ok is True and got != want:
                        wrong = "gives warnings %s, expected one for each of the lines %s" % (msgs, want)
                    if wrong is None:
                        break
                    if mk is fresh:
                        bad(st, "header", "%s %r" % (v, text), "%s: %r %s" % (v, text, wrong), version=v, kickstart=text)
    if n_v >= V.F8:
        for name, since in (("%pre", 0), ("%post", 0), ("%traceback", 0), ("%onerror", V.F24), ("%pre-install", V.F24)):
            if n_v < since:
                continue
            for opts in ("", " --erroronfail", " --interpreter=/x", " --log=/l", " --logfile=/l"):
                text = "\n%s%s\nx\n%%end\n" % (name, opts)
                st.count("headers")
                ok, msgs, _c = warned(v, text, fresh)
                if ok is True and len(msgs) != (name == "%traceback" and n_v >= V.F34):
                    bad(st, "header", "%s %r" % (v, text), "%s: %r gives warnings %s" % (v, text, msgs), version=v, kickstart=text)


def expect(st, v, text, at, n, names, path):
    for mk in (fast, fresh):
        st.count("evaluations")
        ok, msgs, _c = warned(v, text, mk, path)
        if ok is not True:
            return                  # a repeated definition: C10
        got = []
        for m in msgs:
            x = re.search(r"line (\d+)", m)
            got.append(int(x.group(1)) if x else None)
        want = [x for x in at for _i in range(n)]
        wrong = None
        if got != want:
            wrong = "gives warnings for lines %s, not %s" % (got, want)
        elif names and not all(any(re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(x), m) for x in names) for m in msgs):
            wrong = "gives a warning that does not name %s: %s" % ("/".join(names), msgs)
        if wrong is None:
            st.outcome((v, text))
            return
        if mk is fresh:
            bad(st, "use", "%s %r" % (v, text), "%s: %r %s" % (v, text, wrong), version=v, kickstart=text)


# C ------------------------------------------------------------------------
# One call of a history: (kind, names, keyword arguments).
CALLS = [
    ("add", ("--aa",), dict(version=V.FC3, help="h-aa")),
    ("add", ("--aa",), dict(version=V.F9, help="h-aa9", action="store_true")),
    ("add", ("--aa",), dict(deprecated=V.F10)),
    ("remove", "--aa", dict(version=V.F12)),
    ("add", ("--bb", "-b"), dict(version=V.FC4, help="h-bb", type=commaSplit, dest="bdest")),
    ("add", ("-b",), dict(version=V.F11, help="h-b11", type=int)),
    ("add", ("--bb", "-b"), dict(deprecated=V.F13)),
    ("remove", "--bb", dict(version=V.F14)),
    ("remove", "-b", dict(version=V.F15)),
    ("add", ("--cc",), dict(version=V.F8, help="h-cc", type=ksboolean, default=True)),
    ("add", ("--cc",), dict(deprecated=V.F16, type=ksboolean)),
    ("remove", "--zz", dict(version=V.F17)),
]
WORDS = ["--aa", "--aa=1", "--bb=x,y", "-b", "-b=5", "--cc=off", "--cc=maybe", "7", "--a", "--zz"]


class Model:
    """What the calls so far mean: a list of actions in the order added."""

    def __init__(self):
        self.acts = []
        self.docs = []

    def do(self, call):
        kind, names, kw = call
        if kind == "remove":
            for a in self.acts:
                if names in a["names"]:
                    self.acts.remove(a)
                    a["marks"].append(("versionremoved", kw["version"]))
                    return
            return
        old = next((a for a in self.acts if set(names) & set(a["names"])), None)
        ms = list(old["marks"]) if old else []
        if kw.get("deprecated"):
            if not old:
                ms.append(("versionadded", kw["deprecated"]))
            ms.append(("deprecated", kw["deprecated"]))
        else:
            ms.append(("versionchanged" if old else "versionadded", kw["version"]))
        # the names are the new option's now
        for a in list(self.acts):
            a["names"] = [n for n in a["names"] if n not in names]
            if not a["names"]:
                self.acts.remove(a)
        long = [n for n in names if n.startswith("--")]
        self.acts.append({"names": list(names), "marks": ms, "flag": kw.get("action") == "store_true",
                          "type": kw.get("type"), "dep": bool(kw.get("deprecated")),
                          "dest": kw.get("dest") or (long or names)[0].lstrip("-").replace("-", "_"),
                          "default": False if kw.get("action") == "store_true" else kw.get("default")})

    def find(self, name):
        hit = [a for a in self.acts if name in a["names"]]
        if not hit and name.startswith("--"):
            hit = [a for a in self.acts if any(n.startswith(name) for n in a["names"])]
            if len({n for a in hit for n in a["names"] if n.startswith(name)}) > 1:
                return None
        return hit[0] if hit else None

    def parse(self, words):
        """("ok", {dest: value}, deprecated words) or ("error", number of them)"""
        ns = {}
        for a in self.acts:
            ns.setdefault(a["dest"], a["default"])
        dep = []
        # every word that names a deprecated option is warned about, even if the line is then refused
        for w in words:
            if w.startswith("-"):
                a = self.lookup(w)[0]
                if a is not None and a["dep"]:
                    dep.append(a["names"][0])
        i = 0
        try:
            while i < len(words):
                w = words[i]
                i += 1
                if not w.startswith("-"):
                    raise ValueError(w)
                a, val = self.lookup(w)
                if a is None:
                    raise ValueError(w)
                if a["flag"]:
                    if val is not None:
                        raise ValueError(w)
                    ns[a["dest"]] = True
                    continue
                if val is None:
                    if i >= len(words) or words[i].startswith("-"):
                        raise ValueError(w)
                    val = words[i]
                    i += 1
                ns[a["dest"]] = self.convert(a["type"], val)
        except ValueError:
            return ("error", dep)
        return ("ok", ns, dep)

    def lookup(self, w):
        name, eq, val = w.partition("=")
        return self.find(name), (val if eq else None)

    @staticmethod
    def convert(t, val):
        if t is commaSplit:
            return [x.strip() for x in val.split(",") if x.strip()]
        if t is ksboolean:
            if val.lower() in ("on", "yes", "true", "1"):
                return True
            if val.lower() in ("off", "no", "false", "0"):
                return False
            raise ValueError(val)
        if t is int:
            return int(val)
        return val


def real_parse(op, words):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            r = ("ok", dict(vars(op.parse_args(list(words), lineno=17))))
        except KickstartParseError as e:
            r = ("error",) if e.lineno == 17 else ("error at line %s" % e.lineno,)
        except Exception as e:      # pylint: disable=broad-except
            r = (type(e).__name__, str(e))
    msgs = [str(w.message) for w in ws if issubclass(w.category, KickstartDeprecationWarning)]
    return r, msgs


def histories(item, st):
    first, depth = item
    for n in range(depth):
        for rest in itertools.product(range(len(CALLS)), repeat=n):
            one_history((first,) + rest, st, 2 if n < depth - 1 else 1)


def one_history(idx, st, width):
    op = KSOptionParser(prog="p", description="d", version=V.FC3)
    m = Model()
    case = {"calls": [repr(CALLS[i]) for i in idx]}
    try:
        for i in idx:
            kind, names, kw = CALLS[i]
            # a plain redefinition without help is a mistake of the program
            if kind == "remove":
                op.remove_argument(names, **kw)
            else:
                kw = dict(kw)
                if kw.get("deprecated") and not m.find_exact(names):
                    kw["help"] = "h-dep"
                op.add_argument(*names, **kw)
            m.do(CALLS[i])
    except Exception as e:      # pylint: disable=broad-except
        bad(st, "history", repr(idx), "%s raised %s: %s" % (case["calls"], type(e).__name__, e), **case)
        return
    st.count("histories")
    text = op.format_help()
    st.outcome(tuple(sorted((tuple(a["names"]), tuple(a["marks"])) for a in m.acts)))
    for a in m.acts:
        for n in a["names"]:
            if n not in text:
                bad(st, "history-doc", repr(idx), "%s: the help does not mention %s: %s" % (case["calls"], n, text), **case)
        for k, x in a["marks"]:
            if ".. %s:: %s" % (k, V.versionToLongString(x)) not in text:
                bad(st, "history-doc", repr(idx), "%s: the help does not say that %s is %s %s: %s" % (case["calls"], a["names"], k, V.versionToLongString(x), text), **case)
    for n in range(width + 1):
        for words in itertools.product(WORDS, repeat=n):
            st.count("parses")
            want = m.parse(words)
            r, msgs = real_parse(op, words)
            if r[0] != want[0] or (r[0] == "ok" and r[1] != want[1]):
                bad(st, "history-parse", "%r %r" % (idx, words), "after %s, %s gives %s, expected %s" % (case["calls"], words, r, want[:2]), words=list(words), **case)
            elif r[0] == "ok" and (len(msgs) != len(want[-1]) or any("line 17" not in x or y not in x for x, y in zip(msgs, want[-1]))):
                bad(st, "history-warn", "%r %r" % (idx, words), "after %s, %s warns %s, expected one warning for each of %s" % (case["calls"], words, msgs, want[-1]), words=list(words), **case)


def find_exact(self, names):
    return any(set(names) & set(a["names"]) for a in self.acts)


Model.find_exact = find_exact


def body(item, st):
    what = item[0]
    if what == "A":
        documented(item[1], st)
    elif what == "S":
        silent(item[1], st)
    elif what == "H":
        headers(item[1], st)
    elif what == "B":
        announced(item[1:], st)
    else:
        histories(item[1:], st)


def main():
    t0 = time.time()
    tier = core.tier()
    depth = 4 if tier == "quick" else 5
    items = [("C", i, depth) for i in range(len(CALLS))]
    items += [(p, v) for p in "SAH" for v in VERSIONS]
    items += [("B", v, c) for v in VERSIONS for c in G.commands(v)
              if G.spec()[v][c]["status"] == "deprecated" or any(o.get("deprecated") for o in G.spec()[v][c]["opts"])]
    st = core.pmap(body, items)
    core.finish(PROP, st, "exploration", tier, t0, {
        "evaluations": st.n["evaluations"] + st.n["parses"], "distinct_nontrivial": len(st.outcomes),
        "histories": st.n["histories"], "parses": st.n["parses"], "deprecated_uses": st.n["uses"], "lines": st.n["lines"], "headers": st.n["headers"],
        "documented_commands": st.n["commands"], "documented_options": st.n["options"], "marks": st.n["marks"],
        "model_states": st.n["histories"], "traces_validated_against_impl": st.n["parses"], "history_depth": depth,
        "exhaustive": True,
        "rule": "help of every command of every version; every use of a deprecated option or command, in lines and %%packages headers; all lines of one or two options for the warnings they are due; all histories of "
                "%d parser calls up to depth %d, all command lines of up to 2 (after the longest, 1) of %d words in each state" % (len(CALLS), depth, len(WORDS)),
        "samples": st.samples},
        assumptions=["spec/syntax.json is the syntax of the versions (decided by C02)",
                     "the marks of RHEL versions are only checked to be versions"])


if __name__ == "__main__":
    main()
