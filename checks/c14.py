"""C14: ksflatten writes the file with everything included, or nothing.

A  all documents up to a depth over an alphabet of lines, every part of them in
   an included file (or nested ones): the output is what writing the inlined
   document gives, has no %include, reads back as the same configuration, and
   flattening it again gives the same text, on stdout as with -o.
B  for every version the document of nearly all commands, cut at every line.
C  failures: exit status, message, and an output file that is as it was.
"""
import itertools
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, docs, tool                           # noqa: E402
from mc.core import VERSIONS, at_least, canon_handler, fast, fresh, run_on      # noqa: E402
from tools import ksflatten                               # noqa: E402

PROP = "C14"
ALPHA = ["skipx", "user --name=u~", "nosuchcommand", "# c~", "%pre", "%packages --nocore", "body~", "-b~", "%end", "%addon x y~"]


def flatten(*argv):
    rc, out, err = tool.call(ksflatten.main, argv)
    msg = ""
    if isinstance(rc, tuple):
        rc, msg = rc
    return rc, msg, out, err


def name(v):
    return "DEVEL" if v == VERSIONS[-1] else v


def solid(v, text):
    """Before F8 a section has no end, and what blank lines follow it is open."""
    return text if at_least(v, "F8") else "".join(x for x in text.splitlines(True) if x.strip())


def check(v, inline, argv, sc, st, what, both, case, mk=fast):
    """ksflatten with argv has to do to the files what the inlined text says."""
    st.count("evaluations")
    h = mk(v)
    o = run_on(h, inline)
    a, want = (canon_handler(h), str(h)) if o.ok else (None, None)
    rc, msg, out, err = flatten("-v", v, *argv)
    wrong = None
    if not o.ok:
        st.count("rejected")
        if rc != 1 or not msg or out or argv[1] not in msg:
            wrong = "%s, but exit %r, %r, output %r" % (o.brief(), rc, msg, out)
    else:
        if rc != 0 or msg or err:
            wrong = "exit %r %r %r" % (rc, msg, err)
        elif out != want:
            wrong = "writes %r instead of %r" % (out, want)
        elif not out.startswith("# Generated by pykickstart") or "\n#version=%s\n" % name(v) not in out:
            wrong = "does not say which version it is: %r" % out
        elif any(x.startswith("%include") for x in out.split("\n")):
            wrong = "still includes: %r" % out
        else:
            h2 = mk(v)
            o2 = run_on(h2, out)
            b = canon_handler(h2)
            for x in (a, b):
                x["commands"] = {n: {k: y for k, y in c.items() if k != "seen"} for n, c in x["commands"].items()}
            if not o2.ok or solid(v, str(h2)) != solid(v, want):
                wrong = "cannot be read back as it is: %s" % o2.brief()
            elif a["scripts"] != b["scripts"] and at_least(v, "F8") or a["commands"] != b["commands"]:
                wrong = "reads back differently: %s" % core.diff(a, b)
        if not wrong and both:
            sc.write("out.cfg", "old\n" * 1000)
            rc, msg, out2, err = flatten("-o", "out.cfg", "-v", v, *argv)
            got = sc.content()["a/b/work/out.cfg"].decode("utf-8")
            if rc != 0 or msg or err or out2 or got != want:
                wrong = "with -o: exit %r %r, printed %r, written %r" % (rc, msg, out2, got)
            rc, msg, out2, err = flatten("-c", "out.cfg", "--output=out.cfg", "--version", v)
            got2 = sc.content()["a/b/work/out.cfg"].decode("utf-8")
            if not wrong and (rc != 0 or solid(v, got2) != solid(v, got)):
                wrong = "flattened again: exit %r %r, %r instead of %r" % (rc, msg, got2, got)
            os.remove(os.path.join(sc.work, "out.cfg"))
    if wrong and mk is fast:
        return check(v, inline, argv, sc, st, what, both, case, fresh)
    if wrong:
        st.violation("%s:%s" % (v, what), "ksflatten %s with %s: %s" % (" ".join(argv), what, wrong), case)
    st.outcome(v, what, rc)


def carvings(n, deep):
    yield None
    for i, j in itertools.combinations(range(n + 1), 2):
        yield ("one", i, j)
    if deep:
        for i, k, l, j in itertools.combinations_with_replacement(range(n + 1), 4):
            if k < l:
                yield ("nest", i, k, l, j)


def put(sc, lines, c):
    files = {"main.ks": lines}
    if c and c[0] == "one":
        files = {"main.ks": lines[:c[1]] + ["%include a.ks\n"] + lines[c[2]:], "a.ks": lines[c[1]:c[2]]}
    elif c:
        _, i, k, l, j = c
        files = {"main.ks": lines[:i] + ["%include sub/a.ks\n"] + lines[j:], "sub/a.ks": lines[i:k] + ["%include b.ks\n"] + lines[l:j], "sub/b.ks": lines[k:l]}
    for n, t in files.items():
        sc.write(n, "".join(t))
    return {n: "".join(t) for n, t in files.items()}


def documents(v, n, prefix, deep, sc, st):
    for rest in itertools.product(ALPHA, repeat=n - len(prefix)):
        lines = [x.replace("~", str(i)) + "\n" for i, x in enumerate(prefix + rest)]
        for c in carvings(n, deep):
            files = put(sc, lines, c)
            check(v, "".join(lines), ("-c", "main.ks"), sc, st, "%r" % sorted(files.items()), n < 3, {"version": v, "files": files})
    st.sample({"version": v, "lines": lines, "carving": c})


def large(v, sc, st):
    lines = docs.big(v).splitlines(True)
    # a section cut in two is C06's business; here the commands
    sec = [i for i, ln in enumerate(lines) if ln.startswith("%")][0]
    for i in range(sec):
        for c in (("one", i, len(lines)), ("one", 0, i + 1)):
            files = put(sc, lines, c)
            check(v, "".join(lines), ("-c", "main.ks"), sc, st, "all commands cut at %d %s" % (i, c), i in (0, sec - 1), {"version": v, "files": files})


def failures(sc, st):
    sc.write("good.ks", "skipx\n")
    sc.write("bad.ks", "skipx\nnosuchcommand\n")
    sc.write("badinc.ks", "%include missing.ks\n")
    sc.write("quote.ks", "lang 'x\n")
    sc.write("latin.ks", b"rootpw --plaintext h\xe9\n")
    sc.write("open.ks", "%pre\nx\n")
    sc.write("unknown.ks", "%nosuch\n%end\n")
    sc.write("empty.ks", "")
    sc.write("utf8.ks", "rootpw --plaintext h\u00e9\u20ac\n%pre\n\u00e9\n%end\n")
    sc.write("dir/x", "")
    sc.write("out.cfg", "old\n")
    before = sc.content()
    for argv, want in ((("-c", "good.ks"), 0), (("--config=good.ks",), 0), (("-c", "empty.ks"), 0), (("-c", "utf8.ks"), 0), (("-c", "good.ks", "-v", "FC3"), 0), (("-c", "good.ks", "-v", "DEVEL"), 0),
                       (("-c", "bad.ks"), 1), (("-c", "badinc.ks"), 1), (("-c", "quote.ks"), 1), (("-c", "latin.ks"), 1), (("-c", "open.ks"), 1), (("-c", "unknown.ks"), 1),
                       (("-c", "missing.ks"), 1), (("-c", "dir"), 1), (("-c", ""), 1), (("-c", "good.ks", "-v", "nosuch"), 1), (("-c", "nosuch://x"), 1), ((), 2), (("--bogus",), 2), (("good.ks",), 2)):
        for out in ((), ("-o", "out.cfg")):
            if want == 0 and out:
                continue
            rc, o, e = tool.command(sc, "ksflatten.py", argv + out)
            st.count("evaluations")
            st.outcome(argv, out, rc)
            wrong = None
            if rc != want:
                wrong = "exits with %r instead of %r: %r" % (rc, want, e)
            elif "Traceback" in e:
                wrong = "ends in a traceback: %s" % e
            elif rc and (not o + e or o.startswith("# Generated")):
                wrong = "says %r" % (o + e)
            elif rc == 0 and (not o.startswith("# Generated") or e):
                wrong = "writes %r %r" % (o, e)
            elif sc.content() != before:
                wrong = "changed files"
            elif "utf8.ks" in argv and o.count("\u00e9") != 2:
                wrong = "writes %r" % o
            if wrong:
                st.violation("cmd:%s" % (argv + out,), "ksflatten %s %s" % (" ".join(argv + out), wrong), {"argv": argv + out})
    for out in ("dir", "nosuchdir/x", ""):
        rc, msg, o, e = flatten("-c", "good.ks", "-o", out)
        st.count("evaluations")
        if out and (rc != 1 or out not in msg or o) or not out and rc != 0 or sc.content() != before:
            st.violation("out:%s" % out, "ksflatten -o %r: exit %r, %r" % (out, rc, msg), {"out": out})
    for v in VERSIONS:
        rc, msg, o, e = flatten("-c", "good.ks", "-v", v, "-o", "new.cfg")
        st.count("evaluations")
        if rc != 0 or b"#version=%s\n" % name(v).encode() not in sc.content().get("a/b/work/new.cfg", b""):
            st.violation("new:%s" % v, "ksflatten -v %s -o new.cfg: exit %r, %r" % (v, rc, sc.content().get("a/b/work/new.cfg")), {"version": v})
        os.remove(os.path.join(sc.work, "new.cfg"))


def body(item, st):
    with tool.Scratch() as sc:
        os.mkdir(os.path.join(sc.work, "dir"))
        os.mkdir(os.path.join(sc.work, "sub"))
        if item[0] == "doc":
            documents(*item[1:], sc=sc, st=st)
        elif item[0] == "big":
            large(item[1], sc, st)
        else:
            failures(sc, st)


def main():
    t0 = time.time()
    tier = core.tier()
    quick = tier == "quick"
    items = [("fail",)]
    items += [("big", v) for v in (["FC3", "RHEL5", "F16", "RHEL7", "F34"] if quick else VERSIONS)]
    for v in ["RHEL3", "F7", "RHEL6", "F34"] if quick else VERSIONS:
        items += [("doc", v, n, (), True) for n in (1, 2)]
    for v in ["F34"] if quick else ["F7", "RHEL6", "F34"]:
        items += [("doc", v, 3, (a, b), not quick) for a in ALPHA for b in ALPHA]
    if not quick:
        items += [("doc", "F34", 4, (a, b), False) for a in ALPHA for b in ALPHA]
    st = core.pmap(body, items)
    core.finish(PROP, st, "exploration", tier, t0, {
        "evaluations": st.n["evaluations"], "rejected": st.n["rejected"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True,
        "rule": "all documents over the alphabet up to the depth, all ways to put one part of them in a file (or in nested files); non-trivial: distinct documents",
        "samples": st.samples},
        assumptions=["what a document without includes means and how it is written is C01-C05's business"])


if __name__ == "__main__":
    main()
