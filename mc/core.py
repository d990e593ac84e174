"""Common machinery: locating the tree under test, running cases on real
handlers, canonical views of handler state, parallel exhaustive enumeration,
violation / evidence reporting.

Nothing in here knows what the right answer is; oracles live in the checks.
"""
import collections
import copy
import hashlib
import io
import json
import multiprocessing
import os
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

sys.dont_write_bytecode = True
sys.setrecursionlimit(3000)
if REPO not in sys.path:
    sys.path.insert(0, REPO)

# messages are compared only for being present, never for their language
for _k in ("LANGUAGE", "LC_ALL", "LC_MESSAGES"):
    os.environ.pop(_k, None)
os.environ["LANG"] = "C.UTF-8"

import pykickstart                                     # noqa: E402
if os.path.dirname(os.path.dirname(os.path.abspath(pykickstart.__file__))) != os.path.abspath(REPO):
    sys.stderr.write("wrong tree imported: %s\n" % pykickstart.__file__)
    sys.exit(3)

from pykickstart import version as ksversion           # noqa: E402
from pykickstart.base import BaseData, KickstartCommand, DeprecatedCommand, RemovedCommand  # noqa: E402
from pykickstart.errors import KickstartError, KickstartParseError, KickstartParseWarning, KickstartDeprecationWarning  # noqa: E402
from pykickstart.parser import KickstartParser         # noqa: E402

NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
SEED = int(os.environ.get("VERIF_SEED", "1"))

# --------------------------------------------------------------------------
# versions
# --------------------------------------------------------------------------
# The published syntax versions, oldest first.  This is the specification (it
# is what the documentation and ksvalidator -l list), not read from the tree.
VERSIONS = ["RHEL3", "FC3", "RHEL4", "FC4", "FC5", "FC6", "RHEL5", "F7", "F8", "F9",
            "F10", "F11", "F12", "F13", "RHEL6", "F14", "F15", "F16", "F17", "F18",
            "F19", "F20", "F21", "RHEL7", "F22", "F23", "F24", "F25", "F26", "F27",
            "F28", "RHEL8", "F29", "F30", "F31", "F32", "F33", "F34"]
VIDX = {v: i for i, v in enumerate(VERSIONS)}


def at_least(v, w):
    return VIDX[v] >= VIDX[w]


# --------------------------------------------------------------------------
# canonical views
# --------------------------------------------------------------------------
IGNORED_ATTRS = frozenset(["op", "handler", "lineno", "currentCmd", "currentLine",
                           "writePriority"])


def canon_value(v):
    if isinstance(v, BaseData):
        return ("obj", canon_obj(v))
    if isinstance(v, (list, tuple)):
        return [canon_value(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return ["set"] + sorted((canon_value(x) for x in v), key=repr)
    if isinstance(v, dict):
        return {str(k): canon_value(x) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, bytes):
        return "bytes:" + v.decode("latin1")
    if callable(v):
        return "<callable>"
    return "<%s>" % type(v).__name__


_attrs = {}


def public_attrs(obj):
    """The names that make up the configuration an object holds: what its
    constructor sets up, plus public properties.  Whatever a parse() leaves
    behind on the side (argparse helper variables) is not part of it."""
    k = type(obj)
    names = _attrs.get(k)
    if names is None:
        try:
            proto = vars(k())
        except Exception:       # pylint: disable=broad-except
            proto = vars(obj)
        names = set(n for n in proto if not n.startswith("_") and n not in IGNORED_ATTRS)
        for c in k.__mro__:
            for n, d in vars(c).items():
                if isinstance(d, property) and not n.startswith("_") and n != "dataClass" and n not in IGNORED_ATTRS:
                    names.add(n)
        names = _attrs[k] = sorted(names)
    return names


def canon_obj(obj):
    out = {}
    for n in public_attrs(obj):
        try:
            v = getattr(obj, n)
        except AttributeError:
            continue
        out[n] = canon_value(v)
    return out


def command_objects(handler):
    """name -> command object, one entry per distinct object (first name wins, sorted)."""
    seen = {}
    out = {}
    for n in sorted(handler.commands):
        c = handler.commands[n]
        if c is None or id(c) in seen:
            continue
        seen[id(c)] = n
        out[n] = c
    return out


def canon_commands(handler, only=None):
    f = _fast_of.get(id(handler))
    if f is not None and f.h is handler and only is None:
        return f.canon()
    out = {}
    for n, c in command_objects(handler).items():
        if only is not None and n not in only:
            continue
        if n == "method":
            continue      # a proxy; its targets are covered on their own
        out[n] = canon_obj(c)
    return out


def canon_script(s):
    return {"type": s.type, "script": s.script, "interp": s.interp, "inChroot": s.inChroot,
            "logfile": s.logfile, "errorOnFail": s.errorOnFail}


def canon_packages(p):
    d = {}
    for n in ("addBase", "nocore", "default", "environment", "excludedList", "excludeDocs",
              "handleMissing", "handleBroken", "packageList", "instLangs", "multiLib",
              "excludeWeakdeps", "timeout", "retries", "seen"):
        d[n] = canon_value(getattr(p, n, None))
    d["groupList"] = [[g.name, g.include] for g in p.groupList]
    d["excludedGroupList"] = [[g.name, g.include] for g in p.excludedGroupList]
    return d


def canon_handler(handler):
    return {"commands": canon_commands(handler),
            "scripts": [canon_script(s) for s in handler.scripts],
            "packages": canon_packages(handler.packages),
            "platform": handler.platform,
            "null": list(getattr(handler, "_null_section_strings", []))}


# --------------------------------------------------------------------------
# running the real code
# --------------------------------------------------------------------------
class Outcome(object):
    __slots__ = ("ok", "exc", "exctype", "lineno", "msg", "warns", "handler", "parser")

    def brief(self):
        if self.ok:
            return "accepted"
        return "%s(line %s): %s" % (self.exctype, self.lineno, (self.msg or "").strip().replace("\n", " ")[:160])


class quiet_stderr(object):
    def __enter__(self):
        self._s = sys.stderr
        self.buf = io.StringIO()
        sys.stderr = self.buf
        return self.buf

    def __exit__(self, *a):
        sys.stderr = self._s


def warn_kind(w):
    if issubclass(w.category, KickstartDeprecationWarning):
        return "deprecated"
    if issubclass(w.category, KickstartParseWarning):
        return "parse"
    return None


def run_on(handler, text, parser=None, **pkw):
    """Parse text with the real parser on the given handler."""
    o = Outcome()
    o.handler = handler
    o.exc = None
    o.exctype = o.lineno = o.msg = None
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        if parser is None:
            parser = KickstartParser(handler, **pkw)
        o.parser = parser
        try:
            parser.readKickstartFromString(text)
            o.ok = True
        except Exception as e:       # pylint: disable=broad-except
            o.ok = False
            o.exc = e
            o.exctype = type(e).__name__
            o.lineno = getattr(e, "lineno", None)
            o.msg = str(e)
    o.warns = [k for k in (warn_kind(w) for w in ws) if k]
    return o


_classes = {}


def handler_class(v):
    if v not in _classes:
        _classes[v] = ksversion.returnClassForVersion(v)
    return _classes[v]


def fresh(v):
    return handler_class(v)()


_COPY = (list, dict, set)
_fast_of = {}
_pristine_ids = {}


def is_pristine(view):
    return _pristine_ids.get(id(view)) is view




class FastHandler(object):
    """A handler whose state is put back to pristine before every case.

    Building a handler costs 10-25 ms, a parse 0.1 ms, so bulk enumeration
    restores the attribute dictionaries of a single handler instead.  Every
    violation found this way is confirmed on a freshly built handler before it
    is reported (see confirm()).
    """

    def __init__(self, v):
        self.v = v
        self.h = fresh(v)
        self.cmds = dict(self.h.commands)
        self.objs = []
        seen = set()
        for c in self.cmds.values():
            if c is None or id(c) in seen:
                continue
            seen.add(id(c))
            self.objs.append((c, self._snap(c)))
        self.names = command_objects(self.h)
        self.names.pop("method", None)
        snaps = {id(c): sn[0] for c, sn in self.objs}
        self.view = [(n, c, {k: (copy.copy(x) if isinstance(x, _COPY) else x)
                             for k, x in snaps[id(c)].items() if k not in IGNORED_ATTRS}, canon_obj(c))
                     for n, c in self.names.items()]
        for _n, _c, _d, view in self.view:
            _pristine_ids[id(view)] = view
        _fast_of[id(self.h)] = self
        self.hsnap = self._snap(self.h)
        self.psnap = self._snap(self.h.packages)

    @staticmethod
    def _dup(x):
        if isinstance(x, dict) and any(isinstance(y, list) for y in x.values()):
            return {k: list(y) if isinstance(y, list) else y for k, y in x.items()}
        return copy.copy(x)

    @staticmethod
    def _snap(obj):
        plain, cp = {}, []
        for k, x in obj.__dict__.items():
            if isinstance(x, _COPY):
                cp.append((k, FastHandler._dup(x)))
            plain[k] = x
        return plain, cp

    @staticmethod
    def _restore(obj, snap):
        d = obj.__dict__
        d.clear()
        d.update(snap[0])
        for k, x in snap[1]:
            d[k] = FastHandler._dup(x)

    def canon(self):
        """As canon_commands, but objects that are untouched are not walked."""
        out = {}
        if self.h.commands.keys() != self.cmds.keys() or any(self.h.commands[n] is not c for n, c in self.cmds.items()):
            for n, c in command_objects(self.h).items():
                if n != "method":
                    out[n] = canon_obj(c)
            return out
        for n, c, plain, pristine in self.view:
            d = c.__dict__
            for k, x in plain.items():
                try:
                    y = d[k]
                except KeyError:
                    break
                if x is not y and (type(x) is not type(y) or x != y):
                    break
            else:
                out[n] = pristine           # shared: do not modify
                continue
            out[n] = canon_obj(c)
        return out

    def reset(self):
        for c, s in self.objs:
            self._restore(c, s)
        pk = self.h.packages
        self._restore(self.h, self.hsnap)
        self.h.packages = pk
        self._restore(pk, self.psnap)
        return self.h


_fast = {}

def fast(v):
    f = _fast.get(v)
    if f is None:
        f = _fast[v] = FastHandler(v)
    return f.reset()


# --------------------------------------------------------------------------
# enumeration / reporting
# --------------------------------------------------------------------------
class Stats(object):
    def __init__(self):
        self.n = collections.Counter()
        self.outcomes = set()
        self.samples = []
        self.viol = []

    def count(self, key, k=1):
        self.n[key] += k

    def outcome(self, *parts):
        self.outcomes.add(hashlib.md5(repr(parts).encode("utf-8", "replace")).hexdigest()[:12])

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, key, detail, case):
        """key: stable identification (used by the known-findings file);
        case: JSON-able replay description."""
        self.n["violations"] += 1
        if self.n["violations"] <= 2000:
            self.viol.append({"key": key, "detail": detail, "case": case})

    def merge(self, o):
        self.n.update(o.n)
        self.outcomes |= o.outcomes
        for s in o.samples:
            self.sample(s)
        self.viol.extend(o.viol)


def in_tree(exc):
    """Was this exception raised by (or below) code of the tree under test?"""
    tb = exc.__traceback__
    root = os.path.abspath(REPO) + os.sep
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def _call(args):
    fn, item = args
    st = Stats()
    try:
        fn(item, st)
    except Exception as e:       # pylint: disable=broad-except
        if in_tree(e):
            # the code under test blew up where no check expects an exception
            st.violation("crash:%s" % type(e).__name__,
                         "unexpected %s from the code under test: %s\n%s" % (type(e).__name__, e, traceback.format_exc()),
                         {"item": repr(item)[:500]})
            return (st, None)
        return (None, "%r\n%s" % (item, traceback.format_exc()))
    return (st, None)


def pmap(fn, items, procs=None):
    """Run fn(item, stats) for every item, in parallel worker processes; merge."""
    items = list(items)
    total = Stats()
    procs = min(procs or NPROC, max(1, len(items)))
    if procs == 1:
        res = map(_call, [(fn, i) for i in items])
        pool = None
    else:
        ctx = multiprocessing.get_context("fork")
        pool = ctx.Pool(procs)
        res = pool.imap_unordered(_call, [(fn, i) for i in items], chunksize=max(1, min(8, len(items) // (procs * 8))))
    err = None
    for st, e in res:
        if e is not None:
            err = err or e
        else:
            total.merge(st)
            if total.viol and os.environ.get("VERIF_FASTFAIL"):      # mutation runs only
                if pool is not None:
                    pool.terminate()
                return total
    if pool is not None:
        pool.close()
        pool.join()
    if err is not None:
        sys.stderr.write("harness error on " + err)
        if not total.viol:
            sys.exit(3)
    return total


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == prop]


def finish(prop, st, level, tier, t0, coverage, assumptions=(), trace=None):
    """Write evidence, print verdict, exit."""
    known = {}
    for k in load_known(prop):
        known[k["key"]] = k
    new, old = [], collections.OrderedDict()
    for v in st.viol:
        if v["key"] in known:
            old[v["key"]] = known[v["key"]]
        else:
            new.append(v)
    cov = dict(coverage)
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (prop, old[k]["what"]))
    print("%s tier=%s %s wall=%.1fs" % (prop, tier, json.dumps({k: v for k, v in cov.items() if k not in ("samples", "rule")}, sort_keys=True, default=str), time.time() - t0))
    if not new:
        print("OK property=%s" % prop)
        sys.exit(0)
    new.sort(key=lambda v: (len(json.dumps(v["case"], default=str)), v["key"]))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, prop + ".json")
    with open(path, "w") as f:
        json.dump({"property": prop, "count": len(new), "first": new[0],
                   "others": new[1:int(os.environ.get("VERIF_SHOW", "40"))]}, f, indent=1, default=str)
        f.write("\n")
    print("first violation (of %d): %s" % (len(new), new[0]["detail"]))
    print("  key: %s" % new[0]["key"])
    print("  case: %s" % json.dumps(new[0]["case"], default=str)[:1500])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    sys.exit(1)


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[1:]:
        if a in ("quick", "thorough"):
            t = a
    return t


def diff(a, b, path=""):
    """Human readable first differences between two canonical values."""
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                out.append("%s.%s: only in second: %r" % (path, k, b[k]))
            elif k not in b:
                out.append("%s.%s: only in first: %r" % (path, k, a[k]))
            elif a[k] != b[k]:
                out.extend(diff(a[k], b[k], "%s.%s" % (path, k)))
        return out[:6]
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                out.extend(diff(x, y, "%s[%d]" % (path, i)))
        return out[:6]
    if a != b:
        return ["%s: %r != %r" % (path, a, b)]
    return []
