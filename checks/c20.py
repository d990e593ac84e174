"""C20: the registry of commands does what a program asks for, and nothing else.

Model: a handler is the list of the lines in force.  Reading a line appends it,
or leaves the list alone when it is refused; resetCommand drops the lines of its
command, whatever name was used; masked commands' lines are never added; a
replaced class takes the place of the one it replaces.
A  all sequences of operations (read, reset, write) up to a depth; all commands
   of all versions under all of their names.
B  maskAllExcept: every command alone, and all small sets.
C  commandUpdates, dataUpdates, mapping, dataMapping: every command and data
   class of every version replaced; other handlers are as always.
D  dispatcher and handleCommand: what is passed and what comes back for every
   accepted line.
E  registerSection: all sequences of registrations.
"""
import itertools
import os
import shlex
import sys
import time
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, docs, grammar as G            # noqa: E402
from mc.core import VERSIONS, BaseData, KickstartParser, KickstartParseError, canon_handler, fast, fresh, handler_class, run_on     # noqa: E402
from pykickstart.sections import NullSection, Section          # noqa: E402

PROP = "C20"


def bad(st, key, v, what, **case):
    st.violation("%s:%s:%s" % (key, v, case.get("kickstart", case.get("name", ""))), "%s: %s" % (v, what), dict(case, kind=key, version=v))


# names that are one command
SAME = [("auth", "authconfig"), ("part", "partition"), ("reboot", "halt", "shutdown", "poweroff"), ("text", "graphical", "cmdline"), ("install", "upgrade")]


def names_of(v, c):
    for g in SAME:
        if c in g:
            if "upgrade" in g and core.at_least(v, "F20"):
                return (c,)         # no longer
            return tuple(n for n in g if n in G.spec()[v])
    return (c,)


def usable(v):
    return [c for c in G.commands(v) if G.spec()[v][c]["status"] == "ok" and c != "method"]


def accepted(v, c, n=3):
    """some accepted lines with different outcomes"""
    out, seen = [], set()
    for ln in G.singles(v, c):
        h = fast(v)
        if run_on(h, ln + "\n").ok and str(h) not in seen:
            seen.add(str(h))
            out.append(ln)
            if len(out) == n:
                break
    return out


def look(h):
    return canon_handler(h), str(h)


_empty = {}


def empty(v):
    if v not in _empty:
        _empty[v] = look(fresh(v))
    return _empty[v]


# --------------------------------------------------------------------------
def resets(v, c, st):
    """every name of the command, after every kind of line, with others around"""
    lines = accepted(v, c)
    other = ("network", "network --bootproto=dhcp --device=eth9") if c != "network" else ("timezone", "timezone --utc Europe/X")
    for ln in lines:
        h = fast(v)
        run_on(h, ln + "\n")
        with_ = look(h)
        for name in names_of(v, c):
            for around in (False, True):
                for mk in (fast, fresh):
                    h = mk(v)
                    text = ln + "\n"
                    if around:
                        text = other[1] + "\n" + text
                    if not run_on(h, text).ok:
                        break
                    old = h.commands[c]
                    h.resetCommand(name)
                    st.count("evaluations", 2)
                    got = look(h)
                    if around:
                        h2 = mk(v) if mk is fresh else core.FastHandler.reset(core._fast[v])
                    problems = []
                    if around:
                        run_on(h2, other[1] + "\n")
                        want = look(h2)
                        if mk is fast:
                            h = fast(v)
                            run_on(h, text)
                            old = h.commands[c]
                            h.resetCommand(name)
                    else:
                        want = empty(v)
                    if got != want:
                        problems.append("is not as without it: %s" % (core.diff(got[0], want[0]) or got[1]))
                    new = h.commands[c]
                    if new is old or type(new) is not type(old) or new.handler is not h:
                        problems.append("has %r for %r" % (new, old))
                    if any(h.commands[n] is not new for n in names_of(v, c)):
                        problems.append("has several objects for %s" % (names_of(v, c),))
                    if not any(x is new for x in vars(h).values()) or any(x is old for x in vars(h).values()):
                        problems.append("has an attribute for the old object, or none for the new one")
                    if new.seen:
                        problems.append("has seen the command")
                    o = run_on(h, ln + "\n")
                    if not around and (not o.ok or look(h) != with_):
                        problems.append("reads %r as %s" % (ln, o.brief() if not o.ok else core.diff(look(h)[0], with_[0])))
                    if not problems:
                        break
                else:
                    bad(st, "reset", v, "after %r and resetCommand(%r) the handler %s" % (text, name, "; ".join(problems)), kickstart=text, name=name)
                st.outcome(v, ln, name, around)
    for name in ("nosuchcommand", "", c.upper(), c + "x"):
        h = fast(v)
        st.count("evaluations")
        try:
            h.resetCommand(name)
            bad(st, "reset-unknown", v, "resetCommand(%r) is accepted" % name, name=name)
        except KeyError:
            pass
        if look(h) != empty(v):
            bad(st, "reset-unknown", v, "resetCommand(%r) has changed something" % name, name=name)


# --------------------------------------------------------------------------
READ = [("autopart", "autopart"), ("part", "part / --size=1"), ("part", "partition /b --size=2"), ("raid", "raid /r --device=md0 --level=1 raid.01 raid.02"), ("network", "network --bootproto=dhcp --device=eth0"),
        ("network", "network --bootproto=dhcp --device=eth1"), ("reboot", "reboot"), ("reboot", "halt"), ("auth", "auth --enablemd5"),
        ("user", "user --name=u"), ("lang", "lang en_US"), (None, "bogus"), (None, "user")]
RESET = ["autopart", "part", "partition", "raid", "network", "reboot", "halt", "authconfig", "user", "lang", "nosuch"]
GROUP = {"partition": "part", "halt": "reboot", "authconfig": "auth"}


def sequence(v, ops, st):
    h = fast(v)
    force = []
    for i, (op, x) in enumerate(ops):
        if op == "read":
            o = run_on(h, x[1] + "\n")
            st.count("transitions")
            ok = x[0] is not None and compatible(v, force, x[0])
            if x[0] == "auth" and core.VIDX[v] >= core.VIDX["F28"] and v != "RHEL8":
                pass
            if o.ok != ok:
                return "%r is %s, %r is in force" % (x[1], o.brief(), force)
            if ok:
                force.append(x)
        elif op == "reset":
            st.count("transitions")
            try:
                h.resetCommand(x)
                if x not in G.spec()[v]:
                    return "resetCommand(%r) is accepted" % x
            except KeyError:
                if x in G.spec()[v]:
                    return "resetCommand(%r): KeyError" % x
            force = [f for f in force if f[0] != GROUP.get(x, x)]
        else:
            str(h)
    got = look(h)
    key = (v, tuple(force))
    if key not in _ref:
        r = fresh(v)
        o = run_on(r, "".join(f[1] + "\n" for f in force))
        _ref[key] = look(r) if o.ok else None
    st.outcome(key)
    if got != _ref[key]:
        return "%s is not %r" % (core.diff(got[0], _ref[key][0]) if _ref[key] else got, force)
    return None


_ref = {}


def compatible(v, force, c):
    f = {x[0] for x in force}
    if core.VIDX[v] >= core.VIDX["F20"] or v == "RHEL6":
        if c == "autopart" and f & {"part", "raid"} or c in ("part", "raid") and "autopart" in f:
            return False
    return True


def sequences(v, first, depth, st):
    ops = [("read", x) for x in READ] + [("reset", x) for x in RESET]
    ops = [o for o in ops if not (o[0] == "read" and o[1][0] and not run_on(fresh(v), o[1][1] + "\n").ok)]
    seen = set()
    for k in range(0, depth):
        for rest in itertools.product(ops, repeat=k):
            seq = (first,) + rest
            # two reads of the same entry are refused or warned about elsewhere
            reads = [o[1][1] for o in seq if o[0] == "read" and o[1][0]]
            if len(reads) != len(set(reads)):
                continue
            st.count("evaluations")
            r = sequence(v, seq, st)
            if r is not None and seq not in seen:
                seen.add(seq)
                bad(st, "sequence", v, "%s: %s" % ([o[1] if o[0] == "reset" else o[1][1] for o in seq], r), kickstart=repr(seq))


# --------------------------------------------------------------------------
def mask(v, keep, st, text=None, lines=None):
    """only the commands in keep are looked at"""
    if lines is None:
        lines = [(l.split(" ")[0], l) for l in docs.big(v, 0).split("%pre")[0].split("\n") if l]
    h = handler_class(v)()
    objs = {n: getattr(h, n) for n in vars(h) if isinstance(getattr(h, n), core.KickstartCommand)}
    untouched = {n: core.canon_obj(o) for n, o in objs.items() if n != "method"}
    h.maskAllExcept(keep)
    o = run_on(h, "".join(l + "\n" for _c, l in lines) + "%packages\np\n%end\n" if core.at_least(v, "F8") else "".join(l + "\n" for _c, l in lines) + "%packages\np\n")
    st.count("evaluations")
    st.outcome(v, tuple(keep))
    if not o.ok:
        bad(st, "mask", v, "with all masked but %r, the document is refused: %s" % (keep, o.brief()), name=repr(keep))
        return
    ref = fresh(v)
    o2 = run_on(ref, "".join(l + "\n" for c, l in lines if c in keep))
    if not o2.ok:
        return
    for n, obj in objs.items():
        if n == "method":
            continue
        names = [c for c in ref.commands if ref.commands[c] is getattr(ref, n)]
        want = core.canon_obj(getattr(ref, n))
        got = core.canon_obj(obj)
        if got != want or getattr(h, n) is not obj:
            bad(st, "mask", v, "with all masked but %r, %s is %s" % (keep, n, core.diff(got, want)), name=repr(keep))
        if not any(c in keep for c in names) and got != untouched[n]:
            bad(st, "mask", v, "with all masked but %r, %s is %s" % (keep, n, core.diff(got, untouched[n])), name=repr(keep))
    if h.packages.packageList != ["p"]:
        bad(st, "mask", v, "with all masked but %r, %%packages is not read" % keep, name=repr(keep))
    # wrong lines of masked commands are nobody's business, unknown commands still are
    c0 = [c for c in usable(v) if c not in keep][:3]
    o = run_on(h, "".join(c + " --nosuchoption bogus 'a b'\n" for c in c0))
    if not o.ok:
        bad(st, "mask", v, "with all masked but %r, a wrong line of %s is an error" % (keep, c0), name=repr(keep))
    for k in [k for k in keep if k in G.spec()[v]][:1]:
        o = run_on(h, k + " --nosuchoption bogus 'a b'\n")
        if o.ok != run_on(fast(v), k + " --nosuchoption bogus 'a b'\n").ok:
            bad(st, "mask", v, "with all masked but %r, a wrong line of %s is taken differently" % (keep, k), name=repr(keep))
    if run_on(h, "nosuchcommand\n").ok:
        bad(st, "mask", v, "with all masked but %r, unknown commands are none" % keep, name=repr(keep))
    o = run_on(fresh(v), "nosuchcommand\n")


def masks(v, st):
    cs = usable(v)
    for c in cs:
        mask(v, [c], st)
    mask(v, [], st)
    mask(v, list(cs), st)
    mask(v, list(reversed(cs)), st)
    for a, b in itertools.combinations(("part", "partition", "autopart", "text", "reboot", "nosuch", "url"), 2):
        mask(v, [a, b], st)
    if look(fresh(v)) != empty(v):
        bad(st, "mask", v, "masking has changed other handlers")


# --------------------------------------------------------------------------
def custom(base, name, log):
    def parse(self, args):
        log.append((self.currentCmd, list(args), self.lineno))
        return base.parse(self, args)
    return type(name, (base,), {"parse": parse})


def updates(v, c, st, quick):
    lines = accepted(v, c, 1 if quick else 2)
    names = names_of(v, c)
    base = type(fresh(v).commands[c])
    attr = base.__name__.split("_", 1)[1].lower()
    for cname in (base.__name__, "Site_" + base.__name__.split("_", 1)[1], "My" + base.__name__.replace("_", "")):
        for ln in lines:
            log = []
            cl = custom(base, cname, log)
            handlers = [(handler_class(v)(commandUpdates={n: cl for n in names}), "commandUpdates")]
            from pykickstart.handlers.control import commandMap, dataMap
            vn = getattr(core.ksversion, v)
            before = dict(commandMap[vn])
            if not quick or cname == base.__name__:
                handlers.append((handler_class(v)(mapping=dict(before, **{n: cl for n in names})), "mapping"))
            for h, how in handlers:
                del log[:]
                o = run_on(h, "\n" + ln + "\n")
                r = fresh(v)
                run_on(r, "\n" + ln + "\n")
                st.count("evaluations", 2)
                st.outcome(v, c, cname, ln, how)
                problems = []
                if not o.ok:
                    problems.append("%r is refused: %s" % (ln, o.brief()))
                if len(log) != 1 or log[0][0] != c or log[0][2] != 2:
                    problems.append("the class has parsed %r" % log)
                obj = h.commands[c]
                if type(obj) is not cl or any(h.commands[n] is not obj for n in names):
                    problems.append("the commands are %r" % {n: h.commands[n] for n in names})
                a = attr if "_" in cname else cname.lower()
                rival = any(type(x).__name__.split("_", 1)[-1].lower() == a and x is not obj for x in h.commands.values())
                if getattr(h, a, None) is not obj and not rival or obj.handler is not h:
                    problems.append("the attribute %s is %r" % (a, getattr(h, a, None)))
                if core.canon_obj(obj) != core.canon_obj(r.commands[c]):
                    problems.append("it is %s" % core.diff(core.canon_obj(obj), core.canon_obj(r.commands[c])))
                if "_" in cname or attr not in ("url", "nfs", "cdrom", "harddrive", "liveimg", "hmc"):
                    if cname == base.__name__ and str(h) != str(r):
                        problems.append("%r is written" % str(h))
                    if sorted(str(h).split("\n")) != sorted(str(r).split("\n")):
                        problems.append("%r is written" % str(h))
                h.resetCommand(c)
                if type(h.commands[c]) is not cl:
                    problems.append("after resetCommand it is %r" % h.commands[c])
                if set(h.commands) != set(r.commands):
                    problems.append("it has commands %r" % sorted(set(h.commands) ^ set(r.commands)))
                if dict(commandMap[vn]) != before:
                    problems.append("the map of all handlers is changed")
                    commandMap[vn].clear()
                    commandMap[vn].update(before)
                if problems:
                    bad(st, "updates", v, "%s={%r: %s}: %s" % (how, c, cname, "; ".join(problems)), kickstart=ln, name=cname)
    # a command of its own
    log = []
    cl = custom(base, "Site_Confirm", log)
    for ln in lines[:1]:
        h = handler_class(v)(commandUpdates={"confirm": cl})
        o = run_on(h, ln.replace(ln.split(" ")[0], "confirm", 1) + "\n")
        st.count("evaluations")
        if set(h.commands) != set(fresh(v).commands) | {"confirm"} or type(h.confirm) is not cl or type(h.commands[c]) is not base or not h.hasCommand("confirm"):
            bad(st, "new-command", v, "a command added has changed others, or is none: %r" % h.commands.get("confirm"), name=c)
        if c not in ("text", "graphical", "cmdline", "reboot", "halt", "shutdown", "poweroff", "install", "upgrade") and (len(log) != 1 or log[0][0] != "confirm"):
            bad(st, "new-command", v, "a command added is not called: %s" % o.brief(), name=c)
        del log[:]
    if fresh(v).hasCommand("confirm") or run_on(fresh(v), "confirm\n").ok:
        bad(st, "new-command", v, "a command added is in all handlers", name=c)


def only(v, st):
    """mapping and dataMapping are all there is"""
    from pykickstart.handlers.control import commandMap, dataMap
    vn = getattr(core.ksversion, v)
    cs = sorted(commandMap[vn])
    for i, c in enumerate(cs):
        sub = {n: commandMap[vn][n] for n in [c] + cs[i + 1:i + 3]}
        h = handler_class(v)(mapping=sub)
        st.count("evaluations", len(cs))
        st.outcome(v, c)
        if set(h.commands) != set(sub) or any(type(h.commands[n]) is not t for n, t in sub.items()):
            bad(st, "mapping", v, "mapping of %r gives %r" % (sorted(sub), h.commands), name=c)
        for n in cs:
            if n in sub:
                continue
            o = run_on(h, n + "\n")
            if o.ok or o.exctype != "KickstartParseError":
                bad(st, "mapping", v, "with a mapping of %r, %r is %s" % (sorted(sub), n, o.brief()), name=c)
    for m in (None, {}):
        h = handler_class(v)(mapping=m, dataMapping=m)
        if {n: type(x) for n, x in h.commands.items()} != dict(commandMap[vn]) or look(h) != empty(v):
            bad(st, "mapping", v, "mapping=%r gives other commands" % m)
    ds = sorted(dataMap[vn])
    for d in ds:
        base = dataMap[vn][d]
        cl = type("Site" + d, (base,), {})
        before = dict(dataMap[vn])
        for h, rest in ((handler_class(v)(dataUpdates={d: cl}), ds), (handler_class(v)(dataMapping={d: cl}), [d])):
            st.count("evaluations")
            for n in ds:
                want = None if n not in rest else cl if n == d else base if n == d else before[n]
                if getattr(h, n, None) is not want:
                    bad(st, "data", v, "with %s replaced, %s is %r" % (d, n, getattr(h, n, None)), name=d)
        if dict(dataMap[vn]) != before or getattr(fresh(v), d) is not base:
            bad(st, "data", v, "replacing %s has changed other handlers" % d, name=d)
            dataMap[vn].clear()
            dataMap[vn].update(before)
        # the parser makes objects of this class
        for c in usable(v):
            hh = fast(v)
            if hh.commands[c].dataClass is not base:
                continue
            for ln in accepted(v, c, 2):
                h = handler_class(v)(dataUpdates={d: cl})
                run_on(h, ln + "\n")
                r = fresh(v)
                run_on(r, ln + "\n")
                lst = h.commands[c].dataList()
                st.count("evaluations")
                st.outcome(v, d, ln)
                if [type(x) for x in lst] != [cl] * len(lst) or len(lst) != len(r.commands[c].dataList()) or str(h) != str(r):
                    bad(st, "data", v, "with %s replaced, %r gives %r, %r" % (d, ln, lst, str(h)), kickstart=ln)


# --------------------------------------------------------------------------
class Recorder(KickstartParser):
    def handleCommand(self, lineno, args):
        obj = KickstartParser.handleCommand(self, lineno, args)
        self.got.append((lineno, list(args), obj))
        return obj


def returned(v, c, st):
    for ln in G.singles(v, c):
        try:
            words = shlex.split(ln, comments=True)
        except ValueError:
            continue
        for mk in (fast, fresh):
            h = mk(v)
            p = Recorder(h)
            p.got = []
            o = run_on(h, "\n# c\n" + ln + "\n", parser=p)
            st.count("evaluations")
            if not o.ok:
                # nothing is handed on
                problems = ["returns %r though it is refused" % p.got] if p.got else []
                h2 = mk(v)
                h2.currentLine = ln
                try:
                    h2.dispatcher(words, 3)
                    problems.append("is accepted by dispatcher")
                except KickstartParseError as e:
                    if e.lineno != 3:
                        problems.append("is refused by dispatcher at line %r" % e.lineno)
                except Exception as e:      # pylint: disable=broad-except
                    if type(e).__name__ == o.exctype:
                        break               # for C08 to judge
                    problems.append("is refused by dispatcher with %s" % type(e).__name__)
                if not problems:
                    break
                continue
            obj = h.commands[c]
            lst = obj.dataList()
            problems = []
            if len(p.got) != 1 or p.got[0][0] != 3 or p.got[0][1] != words:
                problems.append("handleCommand is given %r" % [g[:2] for g in p.got])
            else:
                r = p.got[0][2]
                if isinstance(r, BaseData):
                    if not lst or lst[-1] is not r:
                        problems.append("returned object is not the last of the list")
                elif r is not obj or lst:
                    problems.append("%r is returned" % r)
                if getattr(r, "lineno", None) != 3:
                    problems.append("the line number of the object is %r" % getattr(r, "lineno", None))
            if obj.currentCmd != c or obj.lineno != 3 or not obj.seen and c not in ("cdrom", "harddrive", "nfs", "url", "liveimg"):
                problems.append("command is %r, line %r" % (obj.currentCmd, obj.lineno))
            want = look(h)
            h2 = mk(v)
            h2.currentLine = ln
            x = h2.dispatcher(words, 3)
            if look(h2) != want:
                problems.append("dispatcher makes %s of it" % core.diff(look(h2)[0], want[0]))
            if type(x) is not type(p.got[0][2]) or getattr(x, "lineno", 0) != 3:
                problems.append("dispatcher returns %r" % x)
            st.outcome(v, ln)
            if not problems:
                break
        else:
            bad(st, "returned", v, "%r: %s" % (ln, "; ".join(problems)), kickstart=ln)


def has(v, st):
    h = fresh(v)
    every = set(itertools.chain(*[G.spec()[w] for w in VERSIONS]))
    for c in sorted(every):
        st.count("evaluations")
        if h.hasCommand(c) != (c in h.commands) and not (c not in h.commands and hasattr(h, c)):
            bad(st, "hasCommand", v, "hasCommand(%r) is %r" % (c, h.hasCommand(c)), name=c)
        if (c in h.commands) != (c in G.spec()[v]):
            bad(st, "commands", v, "commands has %r: %r" % (c, c in h.commands), name=c)
    for c in ("nosuch", "", "Part", " part"):
        if h.hasCommand(c):
            bad(st, "hasCommand", v, "hasCommand(%r)" % c, name=c)


# --------------------------------------------------------------------------
def section(tag, log, every):
    class S(Section):
        sectionOpen = tag
        allLines = every

        def __init__(self, *args, **kwargs):
            Section.__init__(self, *args, **kwargs)
            self.data = kwargs.get("dataObj")

        def handleHeader(self, lineno, args):
            log.append(("header", lineno, list(args), self.data))
            self.timesSeen += 1

        def handleLine(self, line):
            log.append(("line", line, self.data))

        def finalize(self):
            log.append(("end", self.data))
    return S


SECTIONS = ["%pre", "%post", "%packages", "%addon", "%foo"]


def registrations(v, n, st):
    """Sequences of registrations; the last one for a name counts, for this parser only."""
    text = "".join("%s a 'b c'\n  x\n\n# y\n%%end\n" % s for s in SECTIONS)
    ref = fresh(v)
    for seq in itertools.chain.from_iterable(itertools.product(range(len(SECTIONS) * 2), repeat=k) for k in range(1, n + 1)):
        log = []
        h = fast(v)
        p = KickstartParser(h)
        last = {}
        for i, x in enumerate(seq):
            tag, every = SECTIONS[x // 2], bool(x % 2)
            p.registerSection(section(tag, log, every)(h, dataObj=i))
            last[tag] = (i, every)
        body = "".join("%s a 'b c'\n  x\n\n# y\n%%end\n" % s for s in SECTIONS if s in last)
        o = run_on(h, body, parser=p)
        want, at = [], 1
        for s in SECTIONS:
            if s in last:
                i, every = last[s]
                want.append(("header", at, [s, "a", "b c"], i))
                want += [("line", l, i) for l in (["  x\n", "\n", "# y\n"] if every else ["  x\n"])]
                want.append(("end", i))
                at += 5
        st.count("evaluations")
        st.outcome(v, seq)
        if not o.ok or log != want:
            bad(st, "sections", v, "with sections %r registered, %r is %s" % ([SECTIONS[x // 2] for x in seq], body, o.brief() if not o.ok else log), kickstart=body, name=repr(seq))
        if h.scripts or h.packages.packageList:
            bad(st, "sections", v, "with sections %r registered, the usual ones have read something too" % (seq,), name=repr(seq))
    # errors
    p = KickstartParser(fast(v))
    for s in (NullSection(p.handler, sectionOpen=""), NullSection(p.handler, sectionOpen="x"), NullSection(p.handler, sectionOpen=" %x"), section("x", [], True)(p.handler), section(None, [], True)(p.handler)):
        st.count("evaluations")
        try:
            p.registerSection(s)
            bad(st, "sections", v, "registerSection(%r) is accepted" % (s,))
        except TypeError:
            pass
    for s in SECTIONS:
        if (s == "%foo") == run_on(fresh(v), s + "\n%end\n").ok and s != "%addon":
            bad(st, "sections", v, "registering sections has changed other parsers: %s" % s)


def body(item, st):
    warnings.simplefilter("ignore")
    kind, v = item[:2]
    if kind == "resets":
        for c in item[2]:
            resets(v, c, st)
    elif kind == "sequences":
        sequences(v, item[2], item[3], st)
    elif kind == "masks":
        masks(v, st)
    elif kind == "updates":
        for c in item[2]:
            updates(v, c, st, item[3])
    elif kind == "only":
        only(v, st)
        has(v, st)
    elif kind == "returned":
        for c in item[2]:
            returned(v, c, st)
    else:
        registrations(v, item[2], st)
    st.sample({"item": repr(item)})


def main():
    t0 = time.time()
    tier = core.tier()
    quick = tier == "quick"
    items = []
    near = ("FC3", "RHEL6", "RHEL7", "F34")
    for v in VERSIONS:
        cs = usable(v)
        for i in range(0, len(cs), 10):
            items.append(("resets", v, cs[i:i + 10]))
            items.append(("returned", v, cs[i:i + 10]))
            if v in near or not quick:
                items.append(("updates", v, cs[i:i + 10], quick))
        if v in near or not quick:
            items += [("only", v), ("masks", v), ("sections", v, 2 if quick else 3)]
            items += [("sequences", v, o, (3 if v in ("RHEL6", "F34") else 2) if quick else 4 if v in ("RHEL6", "F34") else 3) for o in [("read", x) for x in READ] + [("reset", x) for x in RESET]
                      if o[0] == "reset" or not o[1][0] or run_on(fast(v), o[1][1] + "\n").ok]
    items.sort(key=lambda i: (i[0] not in ("masks", "only"), i[0] != "updates", i[0] != "sequences"))
    st = core.pmap(body, items)
    core.finish(PROP, st, "model_checking", tier, t0, {
        "evaluations": st.n["evaluations"], "transitions": st.n["transitions"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True,
        "model_states": len(st.outcomes), "traces_validated_against_impl": st.n["evaluations"],
        "rule": "all sequences of reading and resetting, all commands under all names, masks, replaced classes, registrations of sections; each compared with the model on the real code",
        "samples": st.samples})


if __name__ == "__main__":
    main()
