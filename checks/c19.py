"""C19: a configuration built by a program is written as the file that says the same.

Model: an accepted line is the set of attribute values it gives (what differs
from a command or data object nobody touched).  Building that set through any
public way - keyword arguments of the constructor, calling the object, plain
assignment, data objects taken from the handler - and writing it must give what
writing the parsed file gives.
A  every accepted line of every command of every version, each way.
B  pairs of options (the newest versions; thorough: all).
C  editing: the handler of one line, changed by the program into another line.
D  documents: whole handlers built by hand; copies are equal and independent.
E  %packages and scripts: all combinations of attributes, add() on all short
   sequences of names.
"""
import copy
import itertools
import os
import sys
import time
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, docs, grammar as G            # noqa: E402
from mc.core import VERSIONS, at_least, canon_handler, canon_obj, fast, fresh, run_on     # noqa: E402
from pykickstart import constants as K             # noqa: E402
from pykickstart.parser import Group, Script       # noqa: E402

PROP = "C19"
CMD = ("ctor", "call", "assign")
_default = {}


def written(x):
    """As written, without the comment on the two formats of keyboard."""
    return "\n".join(ln for ln in str(x).split("\n") if ln not in ("# new format:",) and not ln.startswith("# old format: "))


def is_property(t, n):
    return any(isinstance(c.__dict__.get(n), property) for c in t.__mro__)


def settable(t, n):
    for c in t.__mro__:
        if n in c.__dict__ and isinstance(c.__dict__[n], property):
            return c.__dict__[n].fset is not None
    return True


def lists(v):
    return list(v) if isinstance(v, list) else v


def given(obj, base=None):
    """The attributes a line gave: what differs from an untouched object."""
    t = type(obj)
    if base is None:
        if t not in _default:
            _default[t] = t()
        base = _default[t]
    plain, props = {}, {}
    for n in core.public_attrs(obj):
        if n in t.removedAttrs or n == "seen" or not hasattr(obj, n) or not hasattr(base, n):
            continue
        v = getattr(obj, n)
        if core.canon_value(v) == core.canon_value(getattr(base, n)):
            continue
        (props if is_property(t, n) else plain)[n] = lists(v)
    return plain, {n: v for n, v in props.items() if settable(t, n)}


def private(obj):
    d = vars(_default.setdefault(type(obj), type(obj)()))
    return any(n.startswith("_") and x != d.get(n) for n, x in list(vars(obj).items()))


def removed(obj):
    """does it carry an attribute the version has removed?"""
    if isinstance(obj, core.KickstartCommand) or isinstance(obj, core.BaseData):
        t = type(obj)
        if t not in _default:
            _default[t] = t()
        d = vars(_default[t])
        return any(n in vars(obj) and getattr(obj, n) != d.get(n) for n in t.removedAttrs)
    return False


def build(t, plain, props, how, obj=None, pos=()):
    """An object of class t with those attributes."""
    if how == "ctor":
        y = t(*pos, **plain)
        for n, v in props.items():
            if core.canon_value(getattr(y, n)) != core.canon_value(v):
                y = t(*pos, **dict(plain, **{n: v}))
        return y
    y = t(*pos) if obj is None else obj
    for n, v in list(plain.items()) + list(props.items()):
        if n in props and core.canon_value(getattr(y, n)) == core.canon_value(v):
            continue
        if how == "call":
            y(**{n: v})
        else:
            setattr(y, n, v)
    if how == "call" and not props:
        y(**plain)
    return y


def bad(st, kind, v, ln, what, **case):
    st.violation("%s:%s:%s" % (kind, v, ln), "%s: %s" % (v, what), dict(case, kind=kind, version=v, kickstart=ln))


def one(v, c, ln, st, hows=CMD):
    """every way to build what ln says"""
    h = fast(v)
    o = run_on(h, ln + "\n")
    if not o.ok:
        return False
    text = written(h)
    obj = h.commands[c]
    data = obj.dataList()
    data = list(data) if data else []
    if removed(obj) or any(removed(x) for x in data):
        return False
    st.outcome(v, ln)
    parts = []
    for x in data:
        p, q = given(x)
        parts.append((x, p, q))
        for how in hows:
            st.count("evaluations")
            y = build(type(x), p, q, how)
            if written(y) != written(x) or canon_obj(y) != canon_obj(x):
                bad(st, "data-" + how, v, ln, "%s built from %r by %s is %r, parsed from %r it is %r %s"
                    % (type(x).__name__, p, how, written(y), ln, written(x), core.diff(canon_obj(y), canon_obj(x))), attributes=repr(p))
            full = {n: lists(getattr(x, n)) for n in core.public_attrs(x) if hasattr(x, n) and not is_property(type(x), n)}
        y = type(x)(**full)
        if written(y) != written(x):
            bad(st, "data-all", v, ln, "%s built from all of its attributes %r is %r, not %r" % (type(x).__name__, full, written(y), written(x)), attributes=repr(full))
        if x != y or not x == y:
            if type(x).__eq__ is not object.__eq__:
                bad(st, "data-eq", v, ln, "%r: the data built from %r is not equal to the one parsed" % (ln, p))
        # the class a program gets from the handler is the one the parser uses
        names = [n for n, t in vars(h).items() if t is type(x)]
        if len(names) != 1 or type(getattr(h, names[0])()) is not type(x) or obj.dataClass is not type(x):
            bad(st, "data-class", v, ln, "%r: data of class %s, the handler has %r" % (ln, type(x).__name__, names))
    plain, props = given(obj)
    listname = [n for n, x in plain.items() if isinstance(x, list) and x and x == data]
    want = written(obj)
    if not plain and not props and private(obj):
        return False            # says no more than a command nobody touched, but is written
    for how in hows:
        st.count("evaluations")
        y = build(type(obj), plain, props, how, pos=(obj.writePriority,))
        y.handler = h
        y.seen = True
        if written(y) != want:
            bad(st, "command-" + how, v, ln, "%s built from %r by %s is %r, parsed from %r it is %r" % (type(obj).__name__, plain, how, written(y), ln, want), attributes=repr(plain))
    # on a handler
    plain = {n: x for n, x in plain.items() if n not in listname}
    for how in hows[1:]:
        for mk in (fast, fresh):
            st.count("evaluations")
            h2 = mk(v)
            tgt = h2.commands[c]
            tgt.seen = True
            build(type(tgt), plain, props, how, tgt)
            for x, p, q in parts:
                tgt.dataList().append(build(type(x), p, q, how))
            got = written(h2)
            if got == text:
                break
        else:
            bad(st, "handler-" + how, v, ln, "a handler given %r by %s writes %r, parsed from %r it writes %r" % (plain or [p for _x, p, _q in parts], how, got, ln, text), attributes=repr(plain))
    return True


def good(v, c):
    """accepted lines, one per outcome"""
    out, seen = [], set()
    for ln in G.singles(v, c):
        h = fast(v)
        if not run_on(h, ln + "\n").ok:
            continue
        k = written(h)
        if k not in seen:
            seen.add(k)
            out.append((ln, k))
    return out


def edit(v, c, cap, st):
    """L1 turned into L2 by the program"""
    lines = good(v, c)
    if cap:
        lines = lines[:: max(1, len(lines) // cap)]
    want = {}
    for ln, text in lines:
        h = fast(v)
        run_on(h, ln + "\n")
        obj = h.commands[c]
        if removed(obj) or any(removed(x) for x in obj.dataList() or []):
            continue
        vals = {n: copy.copy(getattr(obj, n)) for n in core.public_attrs(obj)
                if n in vars(obj) and n not in type(obj).removedAttrs}
        priv = {n for n, x in list(vars(obj).items()) if n.startswith("_") and x != vars(_fresh_cmd(v, c)).get(n)}
        want[ln] = (vals, text, priv, obj.dataList())
    for (l1, w1), (l2, w2) in itertools.permutations(want.items(), 2):
        if w1[2] or w2[2]:
            continue        # says something a program cannot
        h = fast(v)
        run_on(h, l1 + "\n")
        obj = h.commands[c]
        st.count("evaluations")
        obj(**{n: copy.copy(x) for n, x in w2[0].items()})
        if written(h) != w2[1]:
            bad(st, "edit", v, "%s -> %s" % (l1, l2), "the handler of %r, given the attributes of %r, writes %r, not %r" % (l1, l2, written(h), w2[1]))
        # only what is different
        if w1[3] is None:
            h = fast(v)
            run_on(h, l1 + "\n")
            obj = h.commands[c]
            for n, x in w2[0].items():
                if getattr(obj, n) != x:
                    setattr(obj, n, copy.copy(x))
            st.count("evaluations")
            if written(h) != w2[1]:
                bad(st, "edit", v, "%s -> %s" % (l1, l2), "the handler of %r, changed to the attributes of %r, writes %r, not %r" % (l1, l2, written(h), w2[1]))
        st.outcome(v, l1, l2)


_fc = {}


def _fresh_cmd(v, c):
    if (v, c) not in _fc:
        _fc[v, c] = type(fresh(v).commands[c])()
    return _fc[v, c]


def entries(v, c, st):
    """entries of a list taken out, put in another order and replaced"""
    lines = [l for l, _t in good(v, c)][:8]
    for a, b in itertools.permutations(lines, 2):
        h = fast(v)
        if not run_on(h, a + "\n" + b + "\n").ok:
            continue
        d = h.commands[c].dataList()
        if d is None or len(d) != 2:
            continue
        both = [written(x) for x in d]
        singles = []
        for l in (a, b):
            h1 = fast(v)
            run_on(h1, l + "\n")
            singles.append((written(h1), [written(x) for x in h1.commands[c].dataList()]))
        for keep in (0, 1):
            h = fast(v)
            run_on(h, a + "\n" + b + "\n")
            d = h.commands[c].dataList()
            if [written(d[keep])] != singles[keep][1]:
                continue
            x = d[1 - keep]
            d.remove(x)
            st.count("evaluations")
            if len(d) != 1 or (written(d[0]) == both[keep]) != (written(h) == singles[keep][0]):
                bad(st, "remove", v, a + "\n" + b, "with the entry %r removed %r is written" % (written(x), written(h)))
        st.outcome(v, a, b)


def build_packages(p, q):
    for n in ("addBase", "nocore", "default", "environment", "excludeDocs", "handleMissing", "handleBroken", "instLangs",
              "multiLib", "excludeWeakdeps", "timeout", "retries", "seen"):
        setattr(p, n, getattr(q, n))
    p.packageList = list(q.packageList)
    p.excludedList = list(q.excludedList)
    p.groupList = [Group(name=g.name, include=g.include) for g in q.groupList]
    p.excludedGroupList = [Group(g.name) for g in q.excludedGroupList]


def build_script(s):
    kw = {n: getattr(s, n) for n in ("errorOnFail", "inChroot", "interp", "logfile", "type") if getattr(s, n) != getattr(Script(""), n)}
    return [Script(s.script, **kw), Script(s.script.splitlines(True), **kw)]


def fast_last(v):
    return core._fast[v].h


def document(v, text, st):
    text = text.replace("logging\n", "logging --level=debug\n")       # without options it cannot be told from none
    h = fresh(v)
    o = run_on(h, text)
    if o.ok and any(removed(x) for c in core.command_objects(h).values() for x in [c] + list(c.dataList() or [])):
        # options that were removed, which a program can no longer give
        text = "\n".join(l for l in text.split("\n") if not (run_on(fast(v), l + "\n").ok and any(
            removed(x) for c in core.command_objects(fast_last(v)).values() for x in [c] + list(c.dataList() or []))))
        h = fresh(v)
        o = run_on(h, text)
    if not o.ok:
        raise core.KickstartError(o.msg)
    want = written(h)
    state = canon_handler(h)
    st.outcome(v, text)
    for how in ("call", "assign"):
        b = fresh(v)
        for n, c in core.command_objects(h).items():
            if n == "method" or not c.seen and not core.canon_obj(c) != core.canon_obj(b.commands[n]):
                continue
            t = b.commands[n]
            p, q = given(c)
            data = c.dataList()
            for m in [m for m, x in p.items() if isinstance(x, list) and x and x == data]:
                p.pop(m)
            t.seen = c.seen
            build(type(t), p, q, how, t)
            for x in data or []:
                p, q = given(x)
                t.dataList().append(build(type(x), p, q, how))
        for i, s in enumerate(h.scripts):
            b.scripts.append(build_script(s)[i % 2])
        build_packages(b.packages, h.packages)
        b._null_section_strings = list(h._null_section_strings)
        st.count("evaluations")
        if str(b) != want:
            x, y = str(b).split("\n"), want.split("\n")
            d = [l for l in x if l not in y] + ["instead of"] + [l for l in y if l not in x]
            bad(st, "document", v, text, "built by %s, a handler writes %r" % (how, d if len(d) > 1 else str(b)))
    # copies
    c = copy.deepcopy(h)
    st.count("evaluations", 3)
    if str(c) != want or canon_handler(c) != state:
        bad(st, "deepcopy", v, text, "a deep copy writes something else: %s" % core.diff(canon_handler(c), state))
    other = docs.big(v, 1)
    for n, t in core.command_objects(c).items():
        if t.handler is not c:
            bad(st, "deepcopy-handler", v, text, "the command %s of a deep copy belongs to another handler" % n)
            break
    c2 = copy.deepcopy(fresh(v))
    run_on(c2, other)
    ref = fresh(v)
    run_on(ref, other)
    if str(c2) != str(ref) or canon_handler(c2) != canon_handler(ref):
        bad(st, "deepcopy-parse", v, other, "a copy of an unused handler reads the document differently: %s" % core.diff(canon_handler(c2), canon_handler(ref)))
    for l in text.split("\n"):
        run_on(c, l + "\n")
    c.packages.add(["zzz", "@zzz", "-yyy"])
    c.scripts.append(Script("x"))
    if written(h) != want or canon_handler(h) != state:
        bad(st, "deepcopy-shared", v, text, "using a deep copy has changed the original: %s" % core.diff(canon_handler(h), state))


def end(v):
    return "%end\n" if at_least(v, "F8") else ""


PTOK = ["a", "b", "@g", "@h --optional", "@g --nodefaults", "-a", "-b", "-@g", "@^e", "-@^e", "*", "-*", "a b", "  a  ", "a # c"]


METHODS = ("cdrom", "harddrive", "nfs", "url", "liveimg", "hmc")


def method(v, st):
    """the installation method, chosen and set up through handler.method"""
    here = [c for c in METHODS if c in G.spec()[v]]
    lines = {c: [l for l, _t in good(v, c)] for c in here}
    for m in [m for m in METHODS if m not in here] + ["", "bogus"]:
        h = fast(v)
        st.count("evaluations")
        try:
            h.method.method = m
            bad(st, "method", v, m, "the method %r can be chosen" % m)
        except AttributeError:
            pass
    before = [None] + [(c, lines[c][-1]) for c in here]
    for c in here:
        for ln, prev in itertools.product(lines[c], before):
            h = fast(v)
            run_on(h, ln + "\n")
            want = written(h)
            obj = h.commands[c]
            if removed(obj):
                continue
            got = h.method.method
            p, q = given(obj)
            q = {n: x for n, x in q.items()}
            seen = {n: getattr(h.method, n) for n in p}
            if got != c or seen != p:
                bad(st, "method", v, ln, "%r: the method is %r with %r, not %r with %r" % (ln, got, seen, c, p))
            st.count("evaluations", 2)
            st.outcome(v, ln, prev)
            for mk in (fast, fresh):
                h = mk(v)
                if prev and prev[0] != c:
                    run_on(h, prev[1] + "\n")
                h.method.method = c
                for n, x in p.items():
                    setattr(h.method, n, x)
                for n, x in q.items():
                    setattr(h.method, n, x)
                text, now = written(h), h.method.method
                h.method.method = None
                none, left = written(h), h.method.method
                if text == want and now == c and left is None and none == empty(v):
                    break
            else:
                if text != want or now != c:
                    bad(st, "method", v, "%r then %r" % (prev, ln), "after %r, given the method %r with %r, %r is written, not %r" % (prev, c, p, text, want))
                if left is not None or none != empty(v):
                    bad(st, "method-none", v, ln, "with no method chosen it is %r, and %r is written" % (left, none))


_empty = {}


def empty(v):
    if v not in _empty:
        _empty[v] = str(fresh(v))
    return _empty[v]


def contradicts(seq):
    names = [s.partition("#")[0].split("--")[0].strip() for s in seq]
    return any("-" + n in names for n in names) or len([n for n in set(names) if n.startswith("@^")]) > 1


def packages(v, n, st):
    for k in range(1, n + 1):
        for seq in itertools.product(PTOK, repeat=k):
            h = fast(v)
            o = run_on(h, "%packages\n" + "\n".join(seq) + "\n" + end(v))
            if not o.ok:
                continue
            st.count("evaluations", 3)
            st.outcome(v, seq)
            want = written(h)
            q = core.canon_packages(h.packages)
            p = h.packages
            b = fresh_packages(v)
            build_packages(b, p)
            if str(b) != str(p):
                bad(st, "packages-built", v, "\n".join(seq), "packages built from %r are %r, not %r" % (q, str(b), str(p)))
            ps = str(p)
            for way, chunks in (("at once", [[s for s in seq]]), ("one by one", [[s] for s in seq])):
                if way == "at once" and contradicts(seq):
                    continue        # which one wins is not said
                b = fresh_packages(v)
                b.seen = True
                for ch in chunks:
                    b.add([s.partition("#")[0].strip() for s in ch])
                if str(b) != ps or core.canon_packages(b) != q:
                    bad(st, "packages-add", v, "\n".join(seq), "added %s, packages are %s" % (way, core.diff(core.canon_packages(b), q)))
            if want != written(h):
                bad(st, "packages-write", v, "\n".join(seq), "writing changes what is written")


def fresh_packages(v):
    from pykickstart.parser import Packages
    p = Packages()
    p._ver = getattr(core.ksversion, v)
    return p


SCRIPT = {
    "type": [(K.KS_SCRIPT_PRE, "%pre"), (K.KS_SCRIPT_POST, "%post"), (K.KS_SCRIPT_TRACEBACK, "%traceback"), (K.KS_SCRIPT_PREINSTALL, "%pre-install"), (K.KS_SCRIPT_ONERROR, "%onerror")],
    "interp": [("/bin/sh", ""), ("/bin/x", " --interpreter=/bin/x"), ("/bin/x -y 'z'", " --interpreter=\"/bin/x -y 'z'\"")],
    "logfile": [(None, ""), ("/l", " --logfile=/l"), ("/l m", " --logfile='/l m'")],
    "errorOnFail": [(False, ""), (True, " --erroronfail")],
    "chroot": [(True, ""), (False, " --nochroot")],
    "body": ["", "\n", "a\n", "a\nb\n", " a \n\n#b\n"],
}


def scripts(v, st):
    for (t, name), (interp, i), (log, l), (eof, e), (ch, n), body in itertools.product(*[SCRIPT[k] for k in ("type", "interp", "logfile", "errorOnFail", "chroot", "body")]):
        if n and t != K.KS_SCRIPT_POST:
            continue
        h = fast(v)
        o = run_on(h, name + i + l + e + n + "\n" + body + end(v))
        st.count("evaluations")
        kw = dict(type=t, interp=interp, logfile=log, errorOnFail=eof, inChroot=ch if t == K.KS_SCRIPT_POST else False)
        if not o.ok:
            if not (t == K.KS_SCRIPT_PREINSTALL and not at_least(v, "F24") or t == K.KS_SCRIPT_ONERROR and not at_least(v, "F27")):
                bad(st, "script", v, name + i + l + e + n, "refused: %s" % o.brief())
            continue
        if not h.scripts:
            continue            # an empty one is no script
        want = written(h)
        ref = [core.canon_script(s) for s in h.scripts]
        h = fast(v)
        s = Script(body, **kw)
        h.scripts.append(s)
        st.outcome(v, name, i, l, e, n, body)
        if written(h) != want and [core.canon_script(s)] == ref:
            bad(st, "script", v, name + i + l + e + n + "\n" + body, "the script built from %r is written %r, not %r" % (kw, written(h), want))
        if [core.canon_script(s)] != ref:
            bad(st, "script-kw", v, name + i + l + e + n + "\n" + body, "the script %r, parsed it is %r" % (core.canon_script(s), ref))
        # and it is read as built
        text = written(h)
        h2 = fast(v)
        o = run_on(h2, text)
        if not o.ok or [core.canon_script(x) for x in h2.scripts] != ref:
            bad(st, "script-reread", v, str(s), "the script built from %r is read back as %r" % (kw, [core.canon_script(x) for x in h2.scripts]))


def body(item, st):
    warnings.simplefilter("ignore")
    kind, v = item[:2]
    if kind == "lines":
        for c in item[2]:
            for ln in G.singles(v, c):
                if one(v, c, ln, st):
                    st.sample({"version": v, "kickstart": ln})
    elif kind == "combos":
        for ln in G.combos(v, item[2], 2, 1, bases=G.BASES[item[2]][:item[3]]):
            one(v, item[2], ln, st, ("ctor", "call"))
    elif kind == "edit":
        edit(v, item[2], item[3], st)
        entries(v, item[2], st)
    elif kind == "document":
        document(v, docs.big(v, item[2]), st)
    elif kind == "method":
        method(v, st)
    elif kind == "packages":
        packages(v, item[2], st)
    else:
        scripts(v, st)


def main():
    t0 = time.time()
    tier = core.tier()
    quick = tier == "quick"
    items = []
    near = ("FC3", "RHEL6", "RHEL7", "F34") if quick else VERSIONS
    for v in VERSIONS:
        cmds = [c for c in G.commands(v) if G.spec()[v][c]["status"] == "ok" and c != "method"]
        for i in range(0, len(cmds), 12):
            items.append(("lines", v, cmds[i:i + 12]))
        for c in cmds:
            if v in near:
                items.append(("edit", v, c, 12 if quick else 60))
            if v in near and (not quick or v in ("F34", "RHEL6")):
                items.append(("combos", v, c, 1 if quick else 3))
        items += [("document", v, 0), ("document", v, 1)]
        if v in near:
            items += [("packages", v, 2 if quick else 3)]
        items.append(("scripts", v))
        if G.spec()[v]["method"]["status"] == "ok":
            items.append(("method", v))
    items.sort(key=lambda i: (i[0] != "packages", i[0] != "combos", i[0] != "edit"))
    st = core.pmap(body, items)
    core.finish(PROP, st, "model_checking", tier, t0, {
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True,
        "model_states": len(st.outcomes), "traces_validated_against_impl": st.n["evaluations"],
        "rule": "every accepted line, pairs of options, edits of one line into another, documents, %packages and scripts, each built by a program in every public way and compared with the parsed file",
        "samples": st.samples})


if __name__ == "__main__":
    main()
