"""C10: contradictions and repetitions are noticed in any order, at any distance.

Reference model (hand written, from the documentation): a line is refused if an
accepted line before it excludes it (EXCLUDES), or takes its name where that is
an error; it is warned about if an accepted line before it defines the same
thing; and it is kept otherwise.
A  all sequences of storage commands up to depth N, in all versions, reading on
   after errors and stopping at the first one.
B  for every command that defines named things: all sequences over two
   definitions of the same thing, one of another thing and an unrelated line.
Every model trace is replayed on the real parser.
"""
import itertools
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, grammar as G                         # noqa: E402
from mc.core import VERSIONS, VIDX, at_least, canon_commands, fast, fresh, quiet_stderr, run_on   # noqa: E402

PROP = "C10"

# letter -> (command, key of what it defines, line)
LINES = {
    "A": ("autopart", None, "autopart"),
    "q": ("reqpart", None, "reqpart"),
    "m": ("mount", "/m", "mount /dev/a /m"),
    "n": ("mount", "/n", "mount /dev/b /n"),
    "p": ("part", "/a", "part /a --size=1"),
    "P": ("part", "/a", "partition /a --onpart=sda1"),
    "s": ("part", None, "part swap --size=1"),
    "r": ("raid", "md0", "raid /r --device=md0 --level=1 raid.01 raid.02"),
    "v": ("volgroup", "vg", "volgroup vg pv.01"),
    "l": ("logvol", "vg/lv", "logvol /l --vgname=vg --name=lv --size=1"),
    "b": ("btrfs", "/b", "btrfs /b --label=x p.1"),
    "S": ("snapshot", "sn", "snapshot vg/lv --name=sn --when=pre-install"),
    "c": ("clearpart", None, "clearpart --all"),
    "z": ("zerombr", None, "zerombr"),
    "R": ("raid", "md0", "raid /r2 --device=md0 --useexisting"),
    "V": ("volgroup", "vg", "volgroup vg --useexisting"),
    "L": ("logvol", "vg/lv", "logvol /l2 --vgname=vg --name=lv --size=7"),
}
FAMILY = ("part", "raid", "volgroup", "logvol")
ERROR_KEY = ("snapshot", "multipath")       # the same name again is an error


def excludes(v):
    out = set()

    def add(a, bs):
        for b in bs:
            out.add((a, b))
            out.add((b, a))
    if v == "RHEL6" or at_least(v, "F20"):
        add("autopart", FAMILY)
    elif at_least(v, "F16"):
        add("autopart", ("volgroup",))
    add("autopart", ("reqpart",))
    add("mount", FAMILY + ("autopart", "reqpart"))
    return out


# command -> (the same thing twice, another thing), since, until
DUP = {
    "part": ("part /a --size=1", "partition /a --size=2 --asprimary", "part /b --size=1", "RHEL3", None),
    "part pv": ("part pv.01 --size=1", "part pv.01 --size=2", "part pv.02 --size=1", "RHEL3", None),
    "raid": ("raid /a --device=md0 --level=1 raid.01 raid.02", "raid /b --device=md0 --level=0 raid.03 raid.04", "raid /a --device=md1 --level=1 raid.01 raid.02", "RHEL3", None),
    "logvol": ("logvol /a --vgname=vg --name=lv --size=1", "logvol /b --vgname=vg --name=lv --size=2", "logvol /a --vgname=vg2 --name=lv --size=1", "RHEL3", None),
    "logvol name": ("logvol /a --vgname=vg --name=lv --size=1", "logvol /b --vgname=vg --name=lv --size=2", "logvol /a --vgname=vg --name=lv2 --size=1", "RHEL3", None),
    "volgroup": ("volgroup vg pv.01", "volgroup vg pv.02", "volgroup vg2 pv.01", "RHEL3", None),
    "btrfs": ("btrfs /a --label=x p.1", "btrfs /a --label=y p.2", "btrfs /b --label=x p.1", "F17", None),
    "device": ("device m1", "device m1 --opts=x", "device m2", "F8", "F23"),
    "dmraid": ("dmraid --name=n --dev=d", "dmraid --name=n --dev=d", "dmraid --name=n --dev=e", "FC6", "F23"),
    "dmraid name": ("dmraid --name=n --dev=d", "dmraid --name=n --dev=d", "dmraid --name=o --dev=d", "FC6", "F23"),
    "fcoe": ("fcoe --nic=e0", "fcoe --nic=e0", "fcoe --nic=e1", "F12", None),
    "group": ("group --name=g", "group --name=g --gid=5", "group --name=h", "F12", None),
    "user": ("user --name=u", "user --name=u --uid=5", "user --name=w", "FC6", None),
    "network": ("network --device=eth0 --bootproto=dhcp", "network --device=eth0 --bootproto=static --ip=1.1.1.1 --netmask=255.0.0.0", "network --device=eth1", "RHEL3", None),
    "nvdimm": ("nvdimm use --namespace=n", "nvdimm use --namespace=n", "nvdimm use --namespace=m", "F28", None),
    "nvdimm dev": ("nvdimm use --blockdevs=p0,p1", "nvdimm use --blockdevs=p0,p1", "nvdimm use --blockdevs=p2", "F28", None),
    "repo": ("repo --name=r --baseurl=http://h", "repo --name=r --mirrorlist=http://m", "repo --name=s --baseurl=http://h", "FC6", None),
    "snapshot": ("snapshot vg/lv --name=s --when=pre-install", "snapshot vg/lx --name=s --when=post-install", "snapshot vg/lv --name=t --when=pre-install", "F26", None),
    "sshkey": ("sshkey --username=u k1", "sshkey --username=u k2", "sshkey --username=w k1", "F22", None),
    "sshpw": ("sshpw --username=u p1", "sshpw --username=u p2", "sshpw --username=w p1", "F13", None),
    "zfcp": ("zfcp --devnum=1 --wwpn=2 --fcplun=3", "zfcp --devnum=1 --wwpn=2 --fcplun=3", "zfcp --devnum=2 --wwpn=2 --fcplun=3", "F12", None),
    "zfcp lun": ("zfcp --devnum=1 --wwpn=2 --fcplun=3", "zfcp --devnum=1 --wwpn=2 --fcplun=3", "zfcp --devnum=1 --wwpn=2 --fcplun=4", "F12", None),
    "zfcp scsi": ("zfcp --devnum=1 --wwpn=2 --fcplun=3 --scsiid=4 --scsilun=5", "zfcp --devnum=1 --wwpn=2 --fcplun=3 --scsiid=4 --scsilun=5", "zfcp --devnum=2 --wwpn=2 --fcplun=3 --scsiid=4 --scsilun=5", "FC3", "F11"),
    "multipath": ("multipath --name=m --device=d --rule=r", "multipath --name=n --device=d --rule=r", "multipath --name=m --device=e --rule=r", "FC6", "F23"),
}
# several of the same are fine
PLAIN = {
    "part swap": ("part swap --size=1", "part swap --size=2", "part /swap --size=1", "RHEL3", None),
    "iscsi": ("iscsi --ipaddr=1.1.1.1", "iscsi --ipaddr=1.1.1.1", "iscsi --ipaddr=1.1.1.2", "FC6", None),
    "mount": ("mount /dev/a /m", "mount /dev/b /m", "mount /dev/a /n", "F27", None),
    "driverdisk": ("driverdisk sda1", "driverdisk sda1", "driverdisk sda2", "RHEL3", None),
    "module": ("module --name=m", "module --name=m", "module --name=n", "F29", None),
    "timesource": ("timesource --ntp-server=a", "timesource --ntp-server=b", "timesource --ntp-pool=c", "F33", None),
}
EXTRA_VERSIONS = {"nvdimm": ("RHEL7", "RHEL8"), "snapshot": ("RHEL7", "RHEL8"), "module": ("RHEL8",), "sshkey": ("RHEL7",)}


def applies(name, v):
    _a, _b, _c, since, until = DUP.get(name) or PLAIN[name]
    cmd = name.split()[0]
    if G.spec()[v].get(cmd, {}).get("status") != "ok":
        return False
    return v in EXTRA_VERSIONS.get(cmd, ()) or VIDX[since] <= VIDX[v] and (until is None or VIDX[v] <= VIDX[until])


def alphabet(v):
    S = G.spec()[v]
    return [k for k, (c, _key, _l) in LINES.items() if S.get(c, {}).get("status") == "ok"]


class Model(object):
    def __init__(self, v):
        self.excl = excludes(v)
        self.cmds, self.keys = set(), set()

    def line(self, cmd, key):
        """ok, warn or error"""
        if any((cmd, c) in self.excl for c in self.cmds):
            return "error"
        dup = key is not None and (cmd, key) in self.keys
        if dup and cmd in ERROR_KEY:
            return "error"
        self.cmds.add(cmd)
        if key is not None:
            self.keys.add((cmd, key))
        return "warn" if dup and cmd != "mount" else "ok"


def run_model(v, seq):
    m = Model(v)
    return [m.line(c, k) for c, k, _l in seq]


def execute(v, seq, st, mk=fast):
    """seq: [(command, key, line)]"""
    verdicts = run_model(v, seq)
    text = "".join(l + "\n" for _c, _k, l in seq)
    good = "".join(l + "\n" for (_c, _k, l), r in zip(seq, verdicts) if r != "error")
    wrong = None
    h = mk(v)
    with quiet_stderr():
        o = run_on(h, text, errorsAreFatal=False)
    got = canon_commands(h)
    written = str(h)
    lines = positions(h)
    h2 = mk(v)
    o2 = run_on(h2, good)
    want = canon_commands(h2)
    st.count("evaluations", 2)
    if not o.ok:
        wrong = "stopped with errorsAreFatal=False: %s" % o.brief()
    elif o.parser.errorsCount != verdicts.count("error"):
        wrong = "%d lines refused, expected %s" % (o.parser.errorsCount, verdicts)
    elif not o2.ok:
        wrong = "without the refused lines: %s" % o2.brief()
    elif o2.warns.count("parse") != verdicts.count("warn"):
        wrong = "%d warnings, expected %s" % (o2.warns.count("parse"), verdicts)
    elif got != want:
        wrong = "not as without the refused lines: %s" % core.diff(want, got)
    elif [n for n in lines if verdicts[n - 1] == "error"]:
        wrong = "refused lines %s kept" % [n for n in lines if verdicts[n - 1] == "error"]
    elif "error" in verdicts:
        # what is written can be read, and is the same
        o3 = run_on(mk(v), written)
        st.count("evaluations")
        if not o3.ok:
            wrong = "written text: %s" % o3.brief()
        first = verdicts.index("error")
        h = mk(v)
        o = run_on(h, text)
        got = canon_commands(h)
        h2 = mk(v)
        run_on(h2, "".join(l + "\n" for _c, _k, l in seq[:first]))
        st.count("evaluations", 2)
        if o.ok or o.lineno != first + 1 or o.exctype != "KickstartParseError":
            wrong = wrong or "expected an error on line %d: %s" % (first + 1, o.brief())
        elif got != canon_commands(h2):
            wrong = wrong or "not as up to the error: %s" % core.diff(canon_commands(h2), got)
        elif o.warns.count("parse") != verdicts[:first].count("warn"):
            wrong = wrong or "%d warnings up to the error, expected %s" % (o.warns.count("parse"), verdicts[:first])
    if wrong and mk is fast:
        return execute(v, seq, st, fresh)
    st.outcome(v, [s[2] for s in seq], verdicts)
    if wrong:
        st.violation("%s:%r" % (v, text), "%s %r: %s" % (v, text, wrong), {"version": v, "kickstart": text, "model": verdicts})


def positions(h):
    out = []
    for _n, c in core.command_objects(h).items():
        try:
            lst = c.dataList() or []
        except Exception:       # pylint: disable=broad-except
            lst = []
        out += [getattr(d, "lineno", 0) for d in lst]
    return [n for n in out if n]


def dups(v, name, n, st):
    a1, a2, b, _s, _u = DUP.get(name) or PLAIN[name]
    cmd = name.split()[0]
    dup = name in DUP
    letters = [(cmd, "a" if dup else None, a1), (cmd, "a" if dup else None, a2), (cmd, "b" if dup or name == "part swap" else None, b), ("lang", None, "lang en_US"), ("comment", None, "# c")]
    if a1 == a2:
        del letters[1]
    for k in range(1, n + 1):
        for seq in itertools.product(letters, repeat=k):
            if seq[0][0] == cmd:
                st.count("model_states")
            execute(v, list(seq), st)


def body(item, st):
    if item[0] == "dup":
        dups(item[1], item[2], item[3], st)
    else:
        _k, v, n, prefix = item
        for rest in itertools.product(alphabet(v), repeat=n - len(prefix)):
            st.count("model_states")
            execute(v, [LINES[x] for x in tuple(prefix) + rest], st)
    st.sample({"item": repr(item)})


def main():
    t0 = time.time()
    tier = core.tier()
    quick = tier == "quick"
    items = []
    for v in VERSIONS:
        items += [("dup", v, c, 3 if quick and v not in ("RHEL7", "F34") else 4) for c in list(DUP) + list(PLAIN) if applies(c, v)]
        items += [("seq", v, 1, ()), ("seq", v, 2, ())]
    for v in ("FC3", "RHEL6", "F16", "F20", "RHEL7", "RHEL8", "F34") if quick else VERSIONS:
        items += [("seq", v, 3, (a,)) for a in alphabet(v)]
    for v in () if quick else ("RHEL6", "F19", "RHEL8", "F34"):
        items += [("seq", v, 4, (a, b)) for a in alphabet(v) for b in alphabet(v)]
    st = core.pmap(body, items)
    core.finish(PROP, st, "model_checking", tier, t0, {
        "evaluations": st.n["evaluations"], "model_states": st.n["model_states"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True,
        "rule": "all sequences of storage lines and of definitions of the same and of other things; every model trace replayed on the parser",
        "samples": st.samples})


if __name__ == "__main__":
    main()
