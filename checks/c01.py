"""C01: what is written reads back as the same configuration.

Exhaustive enumeration, on the real parser and writer, of
  A  every command line  base + {every option at every value of its domain}
  B  every command line  base + every pair (thorough: triple) of options
  C  every sequence of up to 3 lines of a command that can be repeated
  D  blanks, '#', ';' and quotes in the values of every option (and positional
     argument) whose value is written so that they survive (spec/freetext.json)
in every syntax version.  For every accepted input: writing does not raise and
does not change the configuration, the text is accepted by a new handler of
the same version, the configuration is the same (modulo mc/normal.py), and
writing it again gives the same text.
"""
import itertools
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, golden, grammar as G                       # noqa: E402
from mc.core import VERSIONS, VERIF, KickstartError, canon_commands, diff, fast, fresh, run_on   # noqa: E402
from mc.normal import FW_WORDS, norm_all                          # noqa: E402

PROP = "C01"


def text_view(s):
    """The commands of a written file: comments do not count."""
    return [ln for ln in s.split("\n") if ln and not ln.startswith("#")]


def judge(v, text, mk):
    """None if text is rejected; (True, view) if fine; (False, key, detail)."""
    h = mk(v)
    o = run_on(h, text)
    if not o.ok:
        return None
    before = canon_commands(h)
    try:
        out = str(h)
    except Exception as e:      # pylint: disable=broad-except
        return (False, "write", "writing raised %s: %s" % (type(e).__name__, e))
    after = canon_commands(h)
    if before != after:
        return (False, "mutate", "writing changed the configuration: %s" % diff(before, after))
    a = norm_all(v, after)
    h = mk(v)
    o2 = run_on(h, out)
    if not o2.ok:
        return (False, "reread", "the written file is rejected: %s\n%s" % (o2.brief(), out))
    b = norm_all(v, canon_commands(h))
    # port names become options of their own, and those read as port numbers
    fw = FW_WORDS.keys() & set(before.get("firewall", {}).get("ports") or ())
    if fw:
        for x in (a["firewall"], b["firewall"]):
            x.update({k: sorted(set(x[k])) for k in ("ports", "services") if k in x})
    if a != b:
        return (False, "data", "read back differently: %s\n%s" % (diff(a, b), out))
    out2 = str(h)
    if not fw and text_view(out) != text_view(out2):
        return (False, "text", "written differently after reading back:\n%s---\n%s" % (out, out2))
    return (True, out)


def nolinear(ln):
    return "--nolinear" in ln.split() and ln.split()[0] in ("bootloader", "lilo")


def check(v, text, st, part):
    st.count("evaluations")
    r = judge(v, text, fast)
    if r is None:
        st.count("rejected")
        return
    if r[0]:
        st.count("accepted")
        st.outcome(r[1])
        return
    r2 = judge(v, text, fresh)
    if r2 is None or r2[0]:
        return                  # only with leftovers of other cases: C09 decides that
    if r[1] in ("data", "text") and nolinear(text):
        key = "%s --nolinear" % text.split()[0]
    else:
        key = "%s:%s:%s:%s" % (part, r2[1], v, text.strip())
    st.violation(key, "%s %s: %s" % (v, text.strip(), r2[2]), {"version": v, "kickstart": text})


# commands that may be given several times
REPEATED = ["btrfs", "device", "dmraid", "driverdisk", "fcoe", "group", "iscsi", "logvol", "module", "mount",
            "multipath", "network", "nvdimm", "part", "raid", "repo", "snapshot", "sshkey", "sshpw", "timesource",
            "user", "volgroup", "zfcp"]
REPEAT_LINES = {
    "btrfs": ["/a --label=l1 p.1", "/b --label=l2 p.2 p.3 --data=1", "/c --subvol --name=s1 l1"],
    "device": ["scsi aaa", "eth bbb --opts=\"x=1\"", "ccc"],
    "dmraid": ["--name=n1 --dev=d1", "--name=n2 --dev=d2,d3", "--name=/dev/n3 --dev=d4"],
    "driverdisk": ["sda1", "sdb2 --type=ext3", "--source=http://h/d"],
    "fcoe": ["--nic=eth0", "--nic=eth1 --dcb=on", "--nic=eth2"],
    "group": ["--name=g1", "--name=g2 --gid=0", "--name=g3 --gid=5"],
    "iscsi": ["--ipaddr=1.1.1.1", "--ipaddr=1.1.1.2 --port=4", "--ipaddr=1.1.1.3 --user=u --password=p"],
    "logvol": ["/a --name=a --vgname=v --size=1", "/b --name=b --vgname=v --size=2 --grow", "swap --name=a --vgname=w --recommended"],
    "module": ["--name=m1", "--name=m2 --stream=s", "--name=m3 --disable"],
    "mount": ["/dev/sda1 /", "/dev/sda2 /b --reformat=ext4", "/dev/sda3 none"],
    "multipath": ["--name=m1 --device=d1 --rule=r1", "--name=m2 --device=d2 --rule=r2", "--name=m1 --device=d3 --rule=r1"],
    "network": ["--device=eth0 --bootproto=dhcp", "--device=eth1 --bootproto=static --ip=1.1.1.2 --netmask=255.0.0.0 --gateway=1.1.1.1", "--device=eth2 --onboot=no"],
    "nvdimm": ["use --namespace=n0.0", "use --blockdevs=p1,p2", "reconfigure --namespace=n1.0 --sectorsize=512 --mode=sector"],
    "part": ["/ --size=10", "/b --size=20 --grow --ondisk=sda", "pv.01 --onpart=sdb1"],
    "raid": ["/ --device=md0 --level=1 raid.1 raid.2", "/b --device=md1 --level=0 raid.3 raid.4", "pv.1 --device=md2 --level=5 raid.5 raid.6 raid.7"],
    "repo": ["--name=r1 --baseurl=http://h/1", "--name=r2 --mirrorlist=http://h/2", "--name=r3 --baseurl=http://h/3 --cost=0"],
    "snapshot": ["v/a --name=s1 --when=pre-install", "v/b --name=s2 --when=post-install", "v/a --name=s3 --when=post-install"],
    "sshkey": ["--username=u1 k1", "--username=u2 k2", "--username=u1 k3"],
    "sshpw": ["--username=u1 p1", "--username=u2 p2 --iscrypted", "--username=u3 p3 --lock"],
    "timesource": ["--ntp-server=n1", "--ntp-server=n2 --nts", "--ntp-pool=p1"],
    "user": ["--name=u1", "--name=u2 --groups=a,b --uid=0", "--name=u3 --lock"],
    "volgroup": ["v1 pv.1", "v2 pv.2 pv.3 --pesize=4096", "v3 --useexisting"],
    "zfcp": ["--devnum=1 --wwpn=2 --fcplun=3", "--devnum=4 --wwpn=5 --fcplun=6", "--devnum=7 --wwpn=8 --fcplun=9"],
}



def repeated(v, cmd):
    lines = ["%s %s" % (cmd, a) for a in REPEAT_LINES[cmd]]
    if cmd == "zfcp":
        lines += ["zfcp --devnum=%d --wwpn=5 --fcplun=6 --scsiid=1 --scsilun=2" % i for i in (1, 2)]
    for n in (2, 3):
        for seq in itertools.product(lines, repeat=n):
            yield "\n".join(seq) + "\n"


# D ------------------------------------------------------------------------
FREE = ["a b", "a  b", "#a", "a#b", "a;b", "a'b"]


# values that are written without quotes, if they are written at all: alone they
# are not, so they are in the table, but together with the option that makes
# them effective they do not qualify
UNQUOTED = {(c, o) for c in ("autopart", "logvol", "part", "partition", "raid") for o in ("--luks-version", "--pbkdf")} | \
           {("btrfs", "--name"), ("clearpart", "--disklabel"), ("clearpart", "--drives"), ("logvol", "--poolname"), ("vnc", "--port")}


def free_slots(v, cmd):
    """(slot id, function value -> line) for everything that takes a free value."""
    opts = G.spec()[v][cmd]["opts"]
    for i, b in enumerate(G.BASES[cmd]):
        for o in opts:
            if o["kind"] == "flag" or o.get("choices") or o.get("type") in ("int", "ksboolean"):
                continue
            n = o["names"][0]
            yield ("%d %s" % (i, n), lambda val, n=n, b=b: G.line(cmd, b, "%s=%s" % (n, G.q(val))))
        words = b.split()
        for j, w in enumerate(words):
            if not w.startswith("--"):
                yield ("%d @%d" % (i, j), lambda val, words=words, j=j: G.line(cmd, " ".join(words[:j] + [G.q(val)] + words[j + 1:])))


_free = None


def free_table():
    global _free
    if _free is None:
        with open(os.path.join(VERIF, "spec", "freetext.json")) as f:
            raw = json.load(f)
        _free = {v: {c: raw["tables"][t] for c, t in raw["versions"][v].items()} for v in raw["versions"]}
    return _free


# E: two different commands, both orders ------------------------------------
def two_lines(v, first):
    cmds = [c for c in G.commands(v) if G.spec()[v][c]["status"] == "ok" and c != "method"]
    for c in cmds:
        if c != first:
            for a in G.BASES[first][:2]:
                for b in G.BASES[c][:2]:
                    yield G.line(first, a) + "\n" + G.line(c, b) + "\n"


_ends = {}


def run_ends(cmd):
    """The versions where the syntax of a command changes: the first and the
    last of every run of versions with the same frozen table."""
    if cmd not in _ends:
        t = golden.load("pair-" + cmd)["versions"]
        out = set()
        for idx in t.values():
            vs = [v for v in VERSIONS if v in idx]
            for i, v in enumerate(vs):
                if i in (0, len(vs) - 1) or idx[v] != idx[vs[i - 1]] or idx[v] != idx[vs[i + 1]]:
                    out.add(v)
        _ends[cmd] = out
    return _ends[cmd]


TWO = ("FC3", "RHEL5", "RHEL6", "RHEL7", "RHEL8", "F34")


def body(item, st):
    v, cmd, tier = item
    if G.spec()[v][cmd]["status"] != "ok" or cmd == "method":
        return
    first = True
    for ln in G.singles(v, cmd):
        check(v, ln + "\n", st, "A")
        if first and st.n["accepted"]:
            st.sample({"version": v, "line": ln})
            first = False
    for ln in G.combos(v, cmd, 2):
        check(v, ln + "\n", st, "B")
    if tier == "thorough" or v in ("F34", "RHEL8"):
        for ln in G.combos(v, cmd, 3, bases=G.BASES[cmd][:1] if tier == "quick" else None):
            check(v, ln + "\n", st, "B3")
    if tier == "thorough":
        for ln in G.combos(v, cmd, 2, k=3):
            check(v, ln + "\n", st, "Bk")
    if tier == "thorough" or v in run_ends(cmd):
        for ln in golden.wide_lines(v, cmd):
            check(v, ln + "\n", st, "W")
            st.count("wide")
    if tier == "thorough" or v in TWO:
        for text in two_lines(v, cmd):
            check(v, text, st, "E")
            st.count("two_commands")
    if cmd in REPEATED:
        for text in repeated(v, cmd):
            check(v, text, st, "C")
    for slot, fn in free_slots(v, cmd):
        ok = free_table().get(v, {}).get(cmd, {}).get(slot, "")
        for i, val in enumerate(FREE):
            if str(i) in ok:
                check(v, fn(val) + "\n", st, "D")
                st.count("free")
                if (cmd, slot.split()[-1]) not in UNQUOTED and (tier == "thorough" or i == 3 or (i == 0 and v in ("F34", "RHEL8"))):
                    for o in G.spec()[v][cmd]["opts"]:
                        for t in G.primary_tokens(cmd, o):
                            if o["names"][0] != slot.split()[-1]:
                                check(v, fn(val) + " " + t + "\n", st, "D2")
                                st.count("free")


def main():
    t0 = time.time()
    tier = core.tier()
    items = [(v, c, tier) for v in VERSIONS for c in G.commands(v)]
    items.sort(key=lambda it: -len(G.spec()[it[0]][it[1]]["opts"]))
    st = core.pmap(body, items)
    core.finish(PROP, st, "exploration", tier, t0, {
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes),
        "accepted": st.n["accepted"], "rejected": st.n["rejected"], "free_text_cases": st.n["free"],
        "wide": st.n["wide"], "two_commands": st.n["two_commands"],
        "versions": len(VERSIONS), "exhaustive": True,
        "rule": "base x option x value, base x option pairs (triples), every value x every other option, sequences of <=3 "
                "repeated lines, pairs of commands, free-text values, in every version; non-trivial: accepted and yielding a distinct written file",
        "samples": st.samples},
        assumptions=["settings listed in mc/normal.py have no effect and need not be written",
                     "values with blanks or quotes only in the slots of spec/freetext.json"])


if __name__ == "__main__":
    main()
