"""Documents that use as much of a version as possible."""
from mc import core, grammar as G
from mc.core import fresh, run_on

_cache = {}
TAIL = ["%%pre --log=/p%d\necho pre%d\n%%end\n", "%%post --nochroot --interpreter=/usr/bin/python%d\necho post%d\n%%end\n",
        "%%addon org_%d x%d\nbody\n%%end\n", "%%packages --excludedocs\n@g%d --optional\np%d\n-q\n%%end\n"]


def big(v, which=0):
    """A document with one line of every command that goes together with the others;
    which selects different arguments."""
    k = (v, which)
    if k not in _cache:
        doc = ""
        for cmd in G.commands(v):
            if G.spec()[v][cmd]["status"] != "ok" or cmd == "method":
                continue
            bases = G.BASES[cmd]
            order = bases if which == 0 else list(reversed(bases))
            for b in order:
                cand = [G.line(cmd, b)]
                if which:
                    # another value, if there is an option to take it
                    for o in G.spec()[v][cmd]["opts"]:
                        if o["kind"] == "value" and not o.get("deprecated"):
                            cand.insert(0, G.line(cmd, b, *G.primary_tokens(cmd, o, 2)[-1:]))
                for ln in cand:
                    if run_on(core.fast(v), doc + ln + "\n").ok:
                        doc += ln + "\n"
                        break
                else:
                    continue
                break
        for t in TAIL:
            doc += t % (which, which)
        _cache[k] = doc
    return _cache[k]
