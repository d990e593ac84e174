"""C12: commands do not interfere, and what is written does not depend on their order.

Reference model: the configuration of a file is made of what each of its
commands gives on its own; the commands in GROUPS are one setting, the last one
counts; the commands in EXCLUDED are refused together.
A  all ordered pairs of commands (and sections), for several lines of each.
B  a command in between of two lines of another one.
C  documents of nearly all commands: each order rotated and reversed, each
   command left out, each moved to the front and to the end.
D  all triples in the newest versions (thorough).
Every model outcome is compared with the real parser and writer.
"""
import collections
import itertools
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, docs, grammar as G            # noqa: E402
from mc.core import VERSIONS, at_least, canon_commands, canon_handler, fast, fresh, run_on     # noqa: E402

PROP = "C12"

# one setting, several commands: the last one counts
GROUPS = [("cmdline", "graphical", "text"), ("halt", "poweroff", "reboot", "shutdown"), ("install", "upgrade")]
ALIASES = {"auth": "authconfig", "partition": "part"}
STORAGE = ("part", "raid", "volgroup", "logvol")
# what refers to something comes after it in a written file
ORDER = [("clearpart", "part"), ("part", "raid"), ("part", "volgroup"), ("volgroup", "logvol"), ("raid", "volgroup"), ("logvol", "snapshot"), ("zerombr", "part"),
         ("iscsiname", "iscsi"), ("group", "user")]
SECTIONS = {
    "%pre": "%pre --log=/a\necho a\n%end\n", "%post": "%post --nochroot\necho b\n%end\n", "%traceback": "%traceback\necho c\n%end\n",
    "%packages": "%packages --excludedocs\np\n@g\n-q\n%end\n", "%addon": "%addon org_x y\nz\n%end\n",
}


def group(v, c):
    for g in GROUPS:
        if c in g and G.spec()[v][c]["status"] == "ok":
            return g
    return (c,)


def excluded(v, a, b):
    s = {a, b}
    if "autopart" in s and s & set(STORAGE):
        return v == "RHEL6" or at_least(v, "F20") or at_least(v, "F16") and "volgroup" in s
    return s == {"autopart", "reqpart"} or "mount" in s and bool(s & set(STORAGE + ("autopart", "reqpart")))


def read(v, text, mk=fast):
    h = mk(v)
    o = run_on(h, text)
    state = canon_handler(h)
    state["commands"] = dict(state["commands"])
    return o, state, str(h), method(h)


def method(h):
    m = h.commands.get("method")
    return m.method if m is not None else None


_single = {}


def single(v, text, mk=fast):
    """What one part of a file gives on its own: warnings, changes, text"""
    k = (v, text)
    if k not in _single:
        if (v, None) not in _single:
            _single[v, None] = read(v, "", fresh)
        empty = _single[v, None]
        o, s, t, m = read(v, text, mk)
        ch = {n: x for n, x in s["commands"].items() if x != empty[1]["commands"][n]}
        rest = {n: x for n, x in s.items() if n != "commands" and x != empty[1][n]}
        add = collections.Counter(t.split("\n"))
        add.subtract(empty[2].split("\n"))
        _single[k] = (o, ch, rest, add, m)
    return _single[k]


def expect(v, parts, of=None):
    """parts: [(command, text)] -> what all of them together are"""
    of = of or single
    single(v, "")
    empty = _single[v, None] if of is single else _single[v, True]
    if any(excluded(v, a, b) for (a, _t), (b, _u) in itertools.combinations(parts, 2)):
        return None
    state = dict(empty[1], commands=dict(empty[1]["commands"]))
    lines = collections.Counter(empty[2].split("\n"))
    last = {}
    for c, t in parts:
        last[group(v, c)] = (c, t)
    warns = []
    for c, t in parts:
        o, ch, rest, add, _m = of(v, t)
        warns += o.warns
        if last[group(v, c)] != (c, t):
            continue
        state["commands"].update(ch)
        for n in rest:
            if n in ("scripts", "null"):
                state[n] = list(state.get(n) or []) + list(rest[n])
            else:
                state[n] = rest[n]
        lines.update(add)
    return state, sorted(warns), +lines


_written = {}


def written_single(v, text):
    """The same for the file that is written for one part."""
    k = (v, text)
    if k not in _written:
        if (v, True) not in _single:
            _single[v, True] = read(v, read(v, "", fresh)[2], fresh)
        empty = _single[v, True]
        o, s, t, m = read(v, read(v, text)[2])
        o.warns = []
        ch = {n: x for n, x in s["commands"].items() if x != empty[1]["commands"][n]}
        rest = {n: x for n, x in s.items() if n != "commands" and x != empty[1][n]}
        add = collections.Counter(t.split("\n"))
        add.subtract(empty[2].split("\n"))
        _written[k] = (o, ch, rest, add, m)
    return _written[k]


def check(v, parts, st, what, mk=fast):
    text = "".join(t for _c, t in parts)
    want = expect(v, parts)
    o, state, written, meth = read(v, text, mk)
    st.count("evaluations")
    wrong = None
    if want is None:
        if o.ok:
            wrong = "accepted"
        elif o.exctype != "KickstartParseError":
            wrong = o.brief()
    elif not o.ok:
        wrong = o.brief()
    elif sorted(o.warns) != want[1]:
        wrong = "warnings %s, expected %s" % (o.warns, want[1])
    elif state != want[0]:
        wrong = "%s" % core.diff(want[0], state)
    elif collections.Counter(written.split("\n")) != want[2]:
        got = collections.Counter(written.split("\n"))
        wrong = "written: missing %r, too much %r" % (list((want[2] - got).elements())[:4], list((got - want[2]).elements())[:4])
    else:
        wrong = ordered(parts, written)
    if wrong:
        if mk is fast:
            return check(v, parts, st, what, fresh)
        st.violation("%s:%s:%r" % (what, v, text), "%s %s %r: %s" % (v, what, text[:300], wrong), {"version": v, "kickstart": text})
    st.outcome(v, text)
    return written, state, meth


def ordered(parts, written):
    words = [l.split(" ")[0] for l in written.split("\n") if l]
    have = {c for c, _t in parts}
    for a, b in ORDER:
        if a in have and b in have and a in words and b in words:
            if len(words) - 1 - words[::-1].index(a) > words.index(b):
                return "%s is written after %s" % (a, b)
    return None


def reread(v, parts, res, st, mk=fast):
    """What was written reads back as the same."""
    written, _state, meth = res
    for _c, t in parts:
        written_single(v, t)
    want = expect(v, parts, written_single)
    o, again, text, m2 = read(v, written, mk)
    st.count("evaluations")
    wrong = None
    if not o.ok:
        wrong = "written text: %s" % o.brief()
    elif again["commands"] != want[0]["commands"]:
        wrong = "written text: %s" % core.diff(want[0]["commands"], again["commands"])
    elif again["packages"] != want[0]["packages"]:
        wrong = "written text: %s" % core.diff(want[0]["packages"], again["packages"])
    elif m2 != meth:
        wrong = "method %s reads back as %s" % (meth, m2)
    elif collections.Counter(text.split("\n")) != want[2]:
        wrong = "written again: %r" % text
    if wrong:
        if mk is fast:
            return reread(v, parts, read_all(v, parts), st, fresh)
        text = "".join(t for _c, t in parts)
        st.violation("reread:%s:%r" % (v, text), "%s %r: %s" % (v, text[:300], wrong), {"version": v, "kickstart": text})


def read_all(v, parts):
    _o, state, written, meth = read(v, "".join(t for _c, t in parts), fresh)
    return written, state, meth


_lines = {}


def lines_of(v):
    """command -> accepted lines, different ones"""
    if v not in _lines:
        out = collections.OrderedDict()
        for c in G.commands(v):
            if c == "method" or c in ALIASES or G.spec()[v][c]["status"] == "removed":
                continue
            if c == "halt" and not at_least(v, "F18"):
                # does not say anything before F18
                continue
            good = []
            for b in reversed(G.BASES[c]) if c not in ("raid",) else G.BASES[c]:
                t = G.line(c, b) + "\n"
                if run_on(fast(v), t).ok:
                    good.append(t)
            for o in G.spec()[v][c]["opts"]:
                t = G.line(c, G.BASES[c][0], *G.primary_tokens(c, o, 1)) + "\n"
                if len(good) < 4 and t not in good and run_on(fast(v), t).ok:
                    good.append(t)
            if good:
                out[c] = good
        if at_least(v, "F8"):
            for s in SECTIONS:
                if run_on(fast(v), SECTIONS[s]).ok:
                    out[s] = [SECTIONS[s]]
        _lines[v] = out
    return _lines[v]


def pairs(v, a, full, st):
    L = lines_of(v)
    for b in L:
        if b == a:
            continue
        texts = {}
        for x in L[a] if full else L[a][:2]:
            for y in L[b] if full else L[b][:1]:
                parts = [(a, x), (b, y)]
                r = check(v, parts, st, "pair")
                if r is None:
                    continue
                texts[x, y] = r
        # in the other order the same is written, unless they are one setting
        for (x, y), r in list(texts.items())[:None if full else 1]:
            if group(v, a) == group(v, b) or excluded(v, a, b):
                continue
            if a < b:
                r2 = read(v, y + x)
                st.count("evaluations")
                if a[0] != "%" and b[0] != "%" and (r[0] != r2[2] or r[2] != r2[3]):
                    f1, f2 = read(v, x + y, fresh), read(v, y + x, fresh)
                    if f1[2:] != f2[2:]:
                        st.violation("order:%s:%r" % (v, x + y), "%s %r and the other way round are written as %r and %r" % (v, x + y, r[0], r2[2]), {"version": v, "kickstart": x + y})
                reread(v, [(a, x), (b, y)], r, st)


def between(v, a, st):
    """a1 b a2 is a1 a2 b"""
    L = lines_of(v)
    good = None
    for x, y in itertools.permutations(L[a][:3], 2):
        if run_on(fast(v), x + y).ok:
            good = (x, y)
            break
    if good is None:
        return
    x, y = good
    for b in L:
        if b == a or excluded(v, a, b) or group(v, a) == group(v, b):
            continue
        z = L[b][0]

        def view(text, mk):
            o, s, t, m = read(v, text, mk)
            return o.ok, sorted(o.warns), s, t, m
        one, two = view(x + z + y, fast), view(x + y + z, fast)
        st.count("evaluations", 2)
        st.outcome(v, x, z, y)
        if one != two or not one[0]:
            one, two = view(x + z + y, fresh), view(x + y + z, fresh)
            if one != two or not one[0]:
                d = core.diff(one[2], two[2])
                st.violation("between:%s:%r" % (v, x + z + y), "%s %r is not %r: %s" % (v, x + z + y, x + y + z, d), {"version": v, "kickstart": x + z + y})


def whole(v, which, st, quick):
    """documents of nearly all commands"""
    text = docs.big(v, which)
    text = text[:text.index("%pre")]
    parts = [(ALIASES.get(l.split(" ")[0], l.split(" ")[0]), l + "\n") for l in text.split("\n") if l]
    seen, uniq = set(), []
    for c, t in parts:
        if c not in seen and (c != "halt" or at_least(v, "F18")):
            seen.add(c)
            uniq.append((c, t))
    parts = uniq
    n = len(parts)
    orders = [parts, parts[::-1]]
    orders += [parts[i:] + parts[:i] for i in range(1, n)]
    orders += [parts[:i] + parts[i + 1:] for i in range(n)]
    orders += [[parts[i]] + parts[:i] + parts[i + 1:] for i in range(1, n)]
    orders += [parts[:i] + parts[i + 1:] + [parts[i]] for i in range(n - 1)]
    if quick:
        orders = orders[:2] + orders[2::3]
    for o in orders:
        r = check(v, o, st, "document")
        if o is orders[0]:
            reread(v, o, r, st)


def triples(v, a, st):
    L = lines_of(v)
    for b, c in itertools.permutations([x for x in L if x != a], 2):
        check(v, [(x, L[x][0]) for x in (a, b, c)], st, "triple")


def body(item, st):
    kind, v = item[:2]
    if kind == "pairs":
        pairs(v, item[2], item[3], st)
    elif kind == "between":
        between(v, item[2], st)
    elif kind == "whole":
        whole(v, item[2], st, item[3])
    else:
        triples(v, item[2], st)
    st.sample({"item": repr(item)})


def main():
    t0 = time.time()
    tier = core.tier()
    quick = tier == "quick"
    items = []
    for v in VERSIONS:
        for c in lines_of(v):
            items.append(("pairs", v, c, not quick or v in ("F34",)))
            if not quick or v in ("FC3", "RHEL6", "RHEL7", "F34"):
                items.append(("between", v, c))
            if not quick and v in ("RHEL7", "F34"):
                items.append(("triples", v, c))
        items += [("whole", v, 0, quick), ("whole", v, 1, quick)]
    items.sort(key=lambda i: (i[0] != "triples", not (i[0] == "pairs" and i[3]), i[0] != "whole"))
    st = core.pmap(body, items)
    core.finish(PROP, st, "model_checking", tier, t0, {
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True,
        "model_states": len(st.outcomes), "traces_validated_against_impl": st.n["evaluations"],
        "rule": "all ordered pairs of commands and sections, a command between two lines of another, documents of nearly all commands in many orders; every outcome compared with the model",
        "samples": st.samples})


if __name__ == "__main__":
    main()
