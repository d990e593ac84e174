"""C11: how a line is spelled does not matter, only what it says.

Metamorphic enumeration on the real parser; the relation between the spellings
is the oracle.
A  tokens: every line of the grammar in every spelling of its blanks, quotes,
   escapes, comment and line end.
B  options: every value as --option=value and --option value.
C  order: every set of options up to a size in every order, and with the words
   that are not options in every place between them.
D  documents: blank lines, comments, blanks and line ends all over a document of
   nearly all commands, and the headers of sections.
"""
import itertools
import os
import shlex
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, docs, grammar as G                   # noqa: E402
from mc.core import VERSIONS, canon_handler, fast, fresh, run_on   # noqa: E402

PROP = "C11"

# these keep the rest of the line as it was typed
RAW = ("auth", "authconfig", "authselect")
# these keep the words in the order they were given
ORDERED = RAW + ("realm",)
# the last one counts (by design, and C02 checks it)
ALTERNATIVES = {
    "autopart": [("--nolvm", "--type")],
    "bootloader": [("--linear", "--nolinear")],
    "lilo": [("--linear", "--nolinear")],
    "clearpart": [("--all", "--linux", "--none")],
    "firewall": [("--enabled", "--enable", "--disabled", "--disable")],
    "firstboot": [("--enabled", "--enable", "--disabled", "--disable", "--reconfig")],
    "network": [("--activate", "--no-activate")],
    "rootpw": [("--iscrypted", "--plaintext")],
    "selinux": [("--enforcing", "--permissive", "--disabled")],
    "sshpw": [("--iscrypted", "--plaintext")],
    "user": [("--iscrypted", "--plaintext")],
    "zipl": [("--secure-boot", "--force-secure-boot", "--no-secure-boot")],
    "%packages": [("--instLangs", "--inst-langs")],
}
# these collect what several options give, in the order of the options
COLLECTED = {"firewall": ("ports", "services")}


# ------------------------------------------------------------------ spellings
def single(t):
    return "'" + t.replace("'", "'\"'\"'") + "'"


def double(t):
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'


def escaped(t):
    return "".join("\\" + c for c in t) if t else "''"


def pieces(t):
    """half of it quoted, the option name not"""
    k = t.find("=") + 1 or len(t) // 2
    return (G.q(t[:k]) if k else "") + double(t[k:])


def empties(t):
    return "''" + G.q(t) + '""'


STYLES = [single, double, escaped, pieces, empties]


def spellings(tokens, full=True):
    """(what it is, line without its end) for every spelling of the words."""
    plain = [G.q(t) for t in tokens]
    base = " ".join(plain)
    yield "plain", base
    for sep in ("  ", "\t", " \t  "):
        yield "blanks %r" % sep, sep.join(plain)
    for lead in (" ", "\t", "    "):
        yield "indented %r" % lead, lead + base
    for trail in (" ", "\t", "  # comment", " # it's --bogus \"", "\t#", "   #x # y"):
        yield "ends in %r" % trail, base + trail
    for st in STYLES:
        yield "all " + st.__name__, " ".join(st(t) for t in tokens)
    for i in range(len(tokens)):
        for st in STYLES if full else STYLES[1:2]:
            yield "word %d %s" % (i, st.__name__), " ".join(plain[:i] + [st(tokens[i])] + plain[i + 1:])
        if i:
            yield "blanks before %d" % i, " ".join(plain[:i]) + " \t " + " ".join(plain[i:])


def raw_spellings(line):
    yield "plain", line
    for lead in (" ", "\t", "    "):
        yield "indented %r" % lead, lead + line
    for trail in (" ", "\t", " \t "):
        yield "ends in %r" % trail, line + trail


ENDS = ["\n", "", "\r\n", "\r", "\n\n", "\r\n\r\n", "\n# c\n", "\n   \n"]


# -------------------------------------------------------------------- running
def result(v, text, mk, cmd=None, write=True):
    h = mk(v)
    o = run_on(h, text)
    if cmd in COLLECTED:
        state = canon_handler(h)
        c = dict(state["commands"][cmd])
        for a in COLLECTED[cmd]:
            if isinstance(c.get(a), list):
                c[a] = sorted(c[a])
        state = dict(state, commands=dict(state["commands"], **{cmd: c}))
        return (o.ok, o.exctype, sorted(o.warns), state, sorted(str(h)) if o.ok and write else None), o
    return (o.ok, o.exctype, sorted(o.warns), canon_handler(h), str(h) if o.ok and write else None), o


def same(a, b):
    return a[0] == b[0] and a[1] == b[1] and a[2] == b[2] and a[3] == b[3] and a[4] == b[4]


def explain(a, b):
    if (a[0], a[1]) != (b[0], b[1]):
        return "%s, %s" % (a[1] or "accepted", b[1] or "accepted")
    if a[2] != b[2]:
        return "warnings %s, %s" % (a[2], b[2])
    return "%s" % (core.diff(a[3], b[3]) or "written %r, %r" % (a[4], b[4]))


def compare(v, texts, st, key, loose=False, cmd=None, write=True):
    """All texts have to mean the same as the first one."""
    want, _o = result(v, texts[0][1], fast, cmd, write)
    st.count("evaluations")
    st.outcome(v, texts[0][1])
    seen = {texts[0][1]}
    for what, t in texts[1:]:
        if t in seen:
            continue
        seen.add(t)
        got, _o = result(v, t, fast, cmd, write)
        st.count("evaluations")
        if loose and not want[0] and not got[0] and got[1] == want[1]:
            # what was taken from a wrong line before it was found wrong
            continue
        if not same(want, got):
            a, _o = result(v, texts[0][1], fresh, cmd, write)
            b, _o = result(v, t, fresh, cmd, write)
            if not same(a, b):
                st.violation("%s:%s:%r" % (key, v, texts[0][1]), "%s %s: %r and %r: %s" % (v, what, texts[0][1], t, explain(a, b)),
                             {"version": v, "kickstart": texts[0][1], "other": t})
                return False
    return want[0]


# ------------------------------------------------------------------- A tokens
FREE = ["x", "a b", "a'b", 'a"b', "a\\b", "a#b", "#", "\u00e9\u20ac", "=", "a=b", "--x", "%x", "$HOME", "*", "a;b", "!", ""]


def tokens_of(v, cmd, st, full):
    if cmd in RAW:
        for b in G.BASES[cmd]:
            line = G.line(cmd, b)
            texts = [(w, s + e) for w, s in raw_spellings(line) for e in ENDS]
            compare(v, texts, st, "A")
        return
    lines = list(G.singles(v, cmd)) if full else [G.line(cmd, b) for b in G.BASES[cmd]] + [G.line(cmd, G.BASES[cmd][0], "extra")]
    for ln in lines:
        toks = shlex.split(ln)
        texts = [(w, s + "\n") for w, s in spellings(toks, full)]
        texts += [("end %r" % e, ln + e) for e in ENDS]
        compare(v, texts, st, "A", True, None, full)


def free(v, cmd, st):
    """any text as the value of every option that takes one"""
    for o in G.spec()[v][cmd]["opts"]:
        if o["kind"] != "value":
            continue
        for x in FREE:
            for b in G.BASES[cmd][:2]:
                toks = shlex.split(G.line(cmd, b)) + ["%s=%s" % (o["names"][0], x)]
                texts = [(w, s + "\n") for w, s in spellings(toks) if w.startswith(("plain", "all", "word %d " % (len(toks) - 1), "ends in ' #"))]
                if not x.startswith("-"):
                    two = toks[:-1] + [o["names"][0], x]
                    texts += [("apart, " + w, s + "\n") for w, s in spellings(two) if w.startswith(("plain", "all"))]
                compare(v, texts, st, "A", True)


# ------------------------------------------------------------------ B options
def apart(v, cmd, st):
    for o in G.spec()[v][cmd]["opts"]:
        if o["kind"] != "value":
            continue
        for b in G.BASES[cmd]:
            words = shlex.split(b)
            for val in G.option_values(cmd, o):
                if val.startswith("-"):
                    continue
                for n in o["names"]:
                    texts = [("joined", G.line(cmd, b, G.q("%s=%s" % (n, val))) + "\n"),
                             ("apart", G.line(cmd, b, n, G.q(val)) + "\n")]
                    if not any(w.split("=")[0] in o["names"] or exclusive(cmd, n, w) for w in words):
                        texts.append(("apart, first", G.line(cmd, " ".join([n, G.q(val)] + [G.q(w) for w in words])) + "\n"))
                    compare(v, texts, st, "B", True)


# -------------------------------------------------------------------- C order
def units(words):
    """Splits the words of a base into options and other words."""
    opts, rest = [], []
    for w in words:
        (opts if w.startswith("-") else rest).append(w)
    return opts, rest


def exclusive(cmd, s, t):
    """Alternatives: the last one counts, so their order is part of what the
    line says."""
    s, t = s.split("=")[0], t.split("=")[0]
    return any(s in g and t in g for g in ALTERNATIVES.get(cmd, ()))


def order(v, cmd, n, st):
    opts = [o for o in G.spec()[v][cmd]["opts"]]
    for sub in itertools.combinations(opts, n):
        for toks in itertools.product(*[G.primary_tokens(cmd, o, 1) for o in sub]):
            for b in G.BASES[cmd]:
                bo, rest = units(shlex.split(b))
                if any(t.split("=")[0] == x.split("=")[0] for t in toks for x in bo):
                    continue
                if any(exclusive(cmd, s, t) for s, t in itertools.combinations(list(toks) + bo, 2)):
                    st.count("alternatives")
                    continue
                toks = [shlex.split(t)[0] for t in toks]
                texts = []
                for p in itertools.permutations(toks):
                    texts.append(("order", [cmd] + bo + rest + list(p)))
                    if any(o["kind"] == "optvalue" for o in sub):
                        # takes a word that follows
                        continue
                    texts.append(("options first", [cmd] + list(p) + bo + rest))
                    texts.append(("words in front", [cmd] + rest + list(p) + bo))
                    if rest and n > 1:
                        texts.append(("words between", [cmd] + list(p[:1]) + rest + bo + list(p[1:])))
                compare(v, [(w, " ".join(G.q(t) for t in x) + "\n") for w, x in texts], st, "C", True, cmd, n == 1)


# ---------------------------------------------------------------- D documents
def doc_spellings(text):
    lines = text.split("\n")[:-1]
    yield "no last end", "\n".join(lines)
    depth = 0
    out = {"blank": [], "comment": [], "indent": [], "trail": [], "mixed": [], "crlf": []}
    for i, x in enumerate(lines):
        sec = x.startswith("%") and not x.startswith("%end") and not x.startswith("%include")
        if depth == 0:
            out["blank"] += ["", "   ", "\t"]
            out["comment"] += ["# lang x", "   #%pre", "#!"]
        raw = x.split(" ")[0] in RAW
        if depth == 0 or x == "%end":
            out["indent"].append("  \t" + x)
            out["trail"].append(x + (" \t" if raw else " \t # it's"))
        else:
            out["indent"].append(x)
            out["trail"].append(x)
        out["blank"].append(x)
        out["comment"].append(x)
        out["mixed"].append(x + ("\r", "", " \r")[i % 3] if depth == 0 else x)
        out["crlf"].append(x + "\r" if depth == 0 or x == "%end" else x)
        if sec:
            depth = 1
        elif x == "%end":
            depth = 0
    for k in sorted(out):
        yield k, "".join(x + "\n" for x in out[k])


def big(v, which, st):
    text = docs.big(v, which)
    if not core.at_least(v, "F8"):
        # the end of a section is open before F8, blank lines would be its
        text = "".join(x + "\n" for x in text.split("\n")[:-1] if not x.startswith("%end"))
        cut = text.index("%pre")
        head, tail = text[:cut], text[cut:]
        texts = [(w, t + tail) for w, t in [("plain", head)] + [d for d in doc_spellings(head) if d[0] != "no last end"]]
    else:
        texts = [("plain", text)] + list(doc_spellings(text))
    compare(v, texts, st, "D")


HEADERS = {
    "%pre": ["--log=/l", "--interpreter=/usr/bin/py x", "--erroronfail"],
    "%post": ["--log=/l", "--interpreter=/usr/bin/python", "--nochroot", "--erroronfail"],
    "%traceback": ["--log=/l", "--interpreter=/a b"],
    "%onerror": ["--log=/l", "--interpreter=/a b"],
    "%pre-install": ["--log=/l", "--interpreter=/a b", "--erroronfail"],
    "%packages": ["--excludedocs", "--ignoremissing", "--nobase", "--nocore", "--instLangs=cs,en", "--multilib", "--timeout=5", "--retries=6", "--exclude-weakdeps", "--inst-langs=de", "--ignorebroken", "--default"],
    "%addon": ["org_x", "--o=1"],
}


def headers(v, name, n, st):
    bodies = {"%packages": "p\n@g\n-q\n", "%addon": "x\n"}
    tail = bodies.get(name, "echo\n") + ("%end\n" if core.at_least(v, "F8") else "")
    for k in range(n + 1):
        for sub in itertools.combinations(HEADERS[name], k):
            if any(exclusive(name, a, b) for a, b in itertools.combinations(sub, 2)):
                continue
            toks = [name] + list(sub)
            texts = [(w, s + "\n" + tail) for w, s in spellings(toks)
                     if not w.startswith(("word 0", "all")) and not (name == "%addon" and w != "plain" and not w.startswith(("blanks", "indented", "ends")))]
            if name != "%addon":
                for p in itertools.permutations(sub):
                    texts.append(("order", " ".join([name] + [G.q(t) for t in p]) + "\n" + tail))
                split = [y for t in sub for y in (t.split("=", 1) if t.startswith("--") else [t])]
                texts.append(("apart", " ".join([name] + [G.q(t) for t in split]) + "\n" + tail))
            compare(v, texts, st, "D", True)


def body(item, st):
    kind, v = item[:2]
    if kind == "tokens":
        tokens_of(v, item[2], st, item[3])
        if item[3] and item[2] not in ORDERED:
            free(v, item[2], st)
    elif kind == "apart":
        apart(v, item[2], st)
    elif kind == "order":
        order(v, item[2], item[3], st)
    elif kind == "big":
        big(v, item[2], st)
    else:
        headers(v, item[2], item[3], st)
    st.sample({"item": repr(item)})


def main():
    t0 = time.time()
    tier = core.tier()
    quick = tier == "quick"
    items = []
    for v in VERSIONS:
        h = fresh(v)
        for c in G.commands(v):
            new = v in ("FC3", "RHEL7", "F34")
            items.append(("tokens", v, c, not quick or v == "F34"))
            if c not in ORDERED:
                cls = type(h.commands.get(c))
                # quick: every implementation of a command once, and the newest versions
                if quick and (c, cls) in _seen and not new:
                    continue
                _seen.add((c, cls))
                items += [("apart", v, c), ("order", v, c, 1), ("order", v, c, 2)]
                if not quick and v in ("FC3", "RHEL6", "RHEL8", "F34"):
                    items.append(("order", v, c, 3))
        items += [("big", v, 0), ("big", v, 1)]
        items += [("headers", v, s, 2 if quick else 3) for s in sorted(HEADERS)]
    items.sort(key=lambda i: (i[0] != "order", i[0] != "tokens"))
    st = core.pmap(body, items)
    core.finish(PROP, st, "exploration", tier, t0, {
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True, "alternatives_skipped": st.n["alternatives"],
        "rule": "all lines of the grammar in all spellings of blanks, quotes, escapes, comments, line ends, options and their order; non-trivial: distinct lines",
        "samples": st.samples})


_seen = set()

if __name__ == "__main__":
    main()
