"""The finite alphabets: for every command a few minimal argument lists
("bases"), and for every option a small ordered domain of values.

These are hand written from the documentation.  Which options exist in which
version comes from the committed table spec/syntax.json.
"""
import itertools
import json
import os
import shlex

from mc.core import VERIF, VERSIONS, VIDX

# --- minimal argument lists (several where the command has several shapes) ---
BASES = {
    "auth": ["--enablemd5", "--useshadow --enablenis"],
    "authconfig": ["--enablemd5", "--useshadow --enablenis"],
    "authselect": ["select sssd", "--foo"],
    "autopart": [""],
    "autostep": [""],
    "bootloader": ["", "--location=mbr"],
    "btrfs": ["/mnt --label=bl part.01", "/mnt --subvol --name=sv1 bl", "none --data=0 p.1 p.2"],
    "cdrom": [""],
    "clearpart": ["", "--all"],
    "cmdline": [""],
    "device": ["scsi 3c589_cs", "3c589_cs"],
    "deviceprobe": ["", "usb pci"],
    "dmraid": ["--name=n1 --dev=d1"],
    "driverdisk": ["sda5", "--source=http://h/d.img", ""],
    "eula": ["--agreed", ""],
    "fcoe": ["--nic=eth0"],
    "firewall": ["", "--enabled"],
    "firstboot": ["", "--enabled"],
    "graphical": [""],
    "group": ["--name=g1"],
    "halt": [""],
    "harddrive": ["--partition=sda1 --dir=/inst", "--dir=/inst"],
    "hmc": [""],
    "ignoredisk": ["", "--drives=sda"],
    "install": [""],
    "interactive": [""],
    "iscsi": ["--ipaddr=1.1.1.1"],
    "iscsiname": ["iqn.x"],
    "key": ["012345", ""],
    "keyboard": ["us", ""],
    "lang": ["en_US"],
    "langsupport": ["", "en_US", "en_US cs_CZ"],
    "lilo": ["", "--location=mbr"],
    "lilocheck": [""],
    "liveimg": ["--url=http://h/l.img"],
    "logging": ["", "--host=h1"],
    "logvol": ["/ --name=lv1 --vgname=vg1 --size=10", "swap --name=lv2 --vgname=vg1 --recommended",
               "none --name=pool --vgname=vg1 --thinpool --size=10",
               "/t --name=lt --vgname=vg1 --thin --poolname=pool --size=10",
               "/u --name=lv3 --vgname=vg1 --useexisting",
               "/c --name=lc --vgname=vg1 --size=10 --cachesize=10 --cachepvs=pv.01"],
    "mediacheck": [""],
    "method": [""],
    "module": ["--name=m1"],
    "monitor": [""],
    "mount": ["/dev/sda1 /", "/dev/sda2 none", "UUID=1-2 /home --reformat=ext4"],
    "mouse": ["generic3", ""],
    "multipath": ["--name=m1 --device=d1 --rule=r1"],
    "network": ["", "--device=eth0 --bootproto=static --ip=1.1.1.2 --netmask=255.0.0.0"],
    "nfs": ["--server=s1 --dir=/d"],
    "nvdimm": ["reconfigure --namespace=n0.0 --sectorsize=512", "use --namespace=n0.0", "use"],
    "ostreesetup": ["--osname=o --url=http://h/r --ref=x/y"],
    "part": ["/ --size=10", "swap --recommended", "/p --onpart=sda3", "pv.01 --size=1 --grow"],
    "partition": ["/ --size=10", "swap --recommended", "/p --onpart=sda3", "pv.01 --size=1 --grow"],
    "poweroff": [""],
    "raid": ["/ --device=md0 --level=1 raid.01 raid.02", "/e --device=md1 --useexisting",
             "pv.01 --device=md2 --level=RAID5 raid.01 raid.02 raid.03"],
    "realm": ["join d.com", "join --client-software=sssd d.com", "join --one-time-password=pw --computer-ou=ou d.com"],
    "reboot": [""],
    "repo": ["--name=r1 --baseurl=http://h/r", "--name=r2 --mirrorlist=http://h/m", "--name=r3"],
    "reqpart": [""],
    "rescue": [""],
    "rhsm": ["--organization=123 --activation-key=k1", "--organization=o"],
    "rootpw": ["pw1", "", "'a#b c'", "'#x'"],
    "selinux": ["", "--enforcing"],
    "services": ["", "--enabled=s1"],
    "shutdown": [""],
    "skipx": [""],
    "snapshot": ["vg/lv --name=sn1 --when=pre-install", "lv --name=sn1 --when=pre-install",
                 "vg/ --name=sn1 --when=pre-install", "/lv --name=sn1 --when=pre-install",
                 "a/b/c --name=sn1 --when=pre-install", "vg/lv --name=sn1", "vg/lv --when=post-install"],
    "sshkey": ["--username=u1 key1"],
    "sshpw": ["--username=u1 pw1"],
    "syspurpose": ["", "--role=r1"],
    "text": [""],
    "timesource": ["", "--ntp-server=n1"],
    "timezone": ["Europe/Prague", ""],
    "unsupported_hardware": [""],
    "updates": ["", "http://h/u.img"],
    "upgrade": [""],
    "url": ["--url=http://h/u", ""],
    "user": ["--name=u1"],
    "vnc": [""],
    "volgroup": ["vg1 pv.01", "vg2 pv.01 pv.02", "vg3 --useexisting"],
    "xconfig": ["", "--startxonboot"],
    "zerombr": [""],
    "zfcp": ["--devnum=1 --wwpn=2 --fcplun=3", "--devnum=1 --wwpn=2 --fcplun=3 --scsiid=4 --scsilun=5"],
    "zipl": [""],
}

BOOLS = ["on", "off", "yes", "no", "true", "false", "1", "0", "On", "NO"]

# --- option value domains: (command, option) > (None, option) > type -------
VALUES = {
    (None, "--fstype"): ["ext4", "btrfs", "xfs", "tmpfs"],
    (None, "--luks-version"): ["luks2", "luks1"],
    (None, "--level"): None,
    ("raid", "--level"): ["1", "0", "RAID0", "raid1", "RAID4", "4", "5", "RAID6", "6", "10", "RAID10", "linear", "stripe", "mirror"],
    ("raid", "--device"): ["md0", "3", "/dev/md7", "root", "md127"],
    ("raid", "--spares"): ["1", "0", "3"],
    ("btrfs", "--data"): ["0", "1", "raid0", "RAID1", "raid10", "single", "10"],
    ("btrfs", "--metadata"): ["0", "1", "raid0", "RAID1", "raid10", "single", "dup"],
    ("btrfs", "--parent"): ["bl"],
    ("logging", "--level"): ["info", "debug", "error", "critical", "warning"],
    ("logging", "--port"): ["514", "1"],
    ("autopart", "--type"): ["lvm", "plain", "btrfs", "thinp", "partition", "LVM"],
    ("bootloader", "--location"): ["mbr", "partition", "none", "boot"],
    ("lilo", "--location"): ["mbr", "partition", "none", "boot"],
    ("bootloader", "--timeout"): ["5", "0", "10"],
    ("bootloader", "--append"): ["quiet", "rhgb quiet", "a=b"],
    ("bootloader", "--boot-drive"): ["sda", "sda,sdb"],
    ("firewall", "--port"): ["1234:tcp", "22", "53:udp", "1:tcp,2:udp", "imap:tcp", "x:TCP", "ssh", "telnet:tcp", "smtp,http", "ftp:tcp", "ssh:udp", "22:tcp"],
    ("firewall", "--service"): ["dns", "dns,ntp"],
    ("firewall", "--trust"): ["eth0", "eth1"],
    ("firewall", "--high"): ["x"],
    ("harddrive", "--biospart"): ["bp1"],
    ("multipath", "--device"): ["d1", "d2"],
    ("multipath", "--name"): ["m1", "/dev/m2"],
    ("network", "--bootproto"): ["dhcp", "bootp", "static", "query", "ibft"],
    ("network", "--vlanid"): ["1", "0", "4095", "4096", "-1", "x", "171"],
    ("network", "--bindto"): ["mac"],
    ("network", "--device"): ["eth0", "bond0", "00:11:22:33:44:55"],
    ("network", "--interfacename"): ["vlan0", "ens7.171", "vlan1", "vlan.5", "ens7.x", "vlanx", "vlan4095", "ens7.4096", "ens7.4094", "mydev"],
    ("network", "--teamslaves"): ["p3p1", "p3p1,p3p2", "p3p1'{\"prio\": -10}',p3p2'{\"prio\": 100}'", "a'{\"q\":1}'"],
    ("network", "--teamconfig"): ["{\"runner\": {\"name\": \"activebackup\"}}", "{}"],
    ("network", "--essid"): ["net", "my net"],
    ("network", "--ethtool"): ["speed", "autoneg off"],
    ("network", "--ip"): ["1.2.3.4", "dhcp"],
    ("network", "--bondslaves"): ["e1", "e1,e2"],
    ("network", "--bondopts"): ["mode=active-backup", "mode=a,miimon-100,primary=e1", "a;b"],
    ("network", "--bridgeslaves"): ["e1", "e1,e2"],
    ("network", "--bridgeopts"): ["priority=4096", "stp=no,priority=0", "bad", "a=1=2", "a=1,,b=2"],
    ("network", "--nameserver"): ["1.1.1.1", "1.1.1.1,2.2.2.2"],
    ("network", "--ipv6"): ["auto", "1::2", "1::2/64"],
    ("nvdimm", "--mode"): ["sector"],
    ("nvdimm", "--sectorsize"): ["512", "4096", "x"],
    ("part", "--onpart"): ["sda1", "/dev/sda2", "LABEL=x"],
    ("partition", "--onpart"): ["sda1", "/dev/sda2", "LABEL=x"],
    ("part", "--size"): ["100", "1", "-1", "x"],
    ("logvol", "--size"): ["100", "1", "-1", "x"],
    ("logvol", "--percent"): ["50", "0", "100", "101"],
    ("logvol", "--cachemode"): ["writeback", "writethrough", "bad"],
    ("logvol", "--cachesize"): ["10", "1"],
    ("logvol", "--metadatasize"): ["4", "1"],
    ("logvol", "--chunksize"): ["64", "65536"],
    ("mount", "--mkfsoptions"): ["-L x", "-q"],
    ("mount", "--mountoptions"): ["ro", "ro,noatime"],
    ("ostreesetup", "--url"): ["http://h/r", "https://h/r", "file:///x", "ftp://h/r"],
    ("repo", "--ignoregroups"): BOOLS[:4],
    ("repo", "--cost"): ["1", "0", "1000"],
    ("snapshot", "--when"): ["pre-install", "post-install", "Post-Install", "never"],
    ("snapshot", "--name"): ["sn1", "sn2"],
    ("rhsm", "--activation-key"): ["k2", "k3", ""],
    ("syspurpose", "--addon"): ["a1", "a2"],
    ("user", "--password"): ["pw", "a#b"],
    ("sshpw", "--password"): ["pw", "a#b"],
    ("keyboard", "--xlayouts"): ["us", "us,cz", "cz (qwerty),us", "us,,cz"],
    ("keyboard", "--switch"): ["grp:alt_shift_toggle", "grp:a,grp:b", "grp:a, grp:b"],
    ("user", "--uid"): ["1000", "0", "x"],
    ("user", "--gid"): ["1000", "0", "x"],
    ("user", "--groups"): ["wheel", "wheel,adm"],
    ("user", "--gecos"): ["john", "john doe"],
    ("group", "--gid"): ["1000", "0", "x"],
    ("url", "--url"): ["http://h/u2"],
    ("vnc", "--connect"): ["host", "host:5900"],
    ("upgrade", "--root-device"): ["sda1", ""],
    ("install", "--root-device"): ["sda1", ""],
    ("volgroup", "--reserved-space"): ["10", "1", "-1"],
    ("raid", "--chunksize"): ["512", "1"],
    (None, "--bytes-per-inode"): ["4096", "1024", "x"],
    ("volgroup", "--reserved-percent"): ["10", "1", "99", "0", "100"],
    ("volgroup", "--pesize"): ["4096", "1", "32768"],
    ("xconfig", "--depth"): ["16", "0"],
    ("monitor", "--monitor"): ["m", "my mon"],
    ("timezone", "--ntpservers"): ["n1", "n1,n2", "n1,n1"],
    ("iscsi", "--port"): ["3261", "3260", "x"],
    ("iscsi", "--iface"): ["if0"],
    ("services", "--disabled"): ["s1", "s1,s2", "s1, s2"],
    ("services", "--enabled"): ["s3", "s3,s4"],
    ("device", "--opts"): ["aic152x=0x340", "io=11 x"],
    ("nfs", "--opts"): ["ro", "ro,vers=3"],
}
TYPE_VALUES = {
    "int": ["7", "0", "x"],
    "ksboolean": BOOLS + ["maybe"],
    "commaSplit": ["a1", "a1,b2", "a1,,b2,"],
    "mountpoint": ["/m"],
    None: ["val1"],
}

# extra positional words that can be appended to any base (mostly rejected)
EXTRA = ["extra", "--bogus", "--bogus=1"]


def option_values(cmd, opt):
    names = opt["names"]
    for n in names:
        if VALUES.get((cmd, n)):
            return VALUES[(cmd, n)]
    if cmd == "partition":
        for n in names:
            if VALUES.get(("part", n)):
                return VALUES[("part", n)]
    if opt.get("choices"):
        return list(opt["choices"]) + ["bogus"]
    for n in names:
        if VALUES.get((None, n)):
            return VALUES[(None, n)]
    return TYPE_VALUES.get(opt.get("type"), TYPE_VALUES[None])


def q(s):
    """Quote s so that the kickstart tokenizer (POSIX shlex) yields it back."""
    return shlex.quote(s)


_SPEC = None


def spec():
    global _SPEC
    if _SPEC is None:
        with open(os.path.join(VERIF, "spec", "syntax.json")) as f:
            raw = json.load(f)
        tables = raw["tables"]
        _SPEC = {}
        for v in VERSIONS:
            _SPEC[v] = {}
            for cmd, (status, t) in raw["versions"][v].items():
                _SPEC[v][cmd] = {"status": status, "opts": tables[t]}
    return _SPEC


def opt_tokens(cmd, opt):
    """All (token string) renderings of one option with its value domain."""
    out = []
    kind = opt["kind"]
    if kind == "flag":
        for n in opt["names"]:
            out.append(n)
    elif kind == "optvalue":
        for n in opt["names"]:
            out.append(n)
        for v in option_values(cmd, opt):
            out.append("%s=%s" % (opt["names"][0], q(v)))
    else:
        vals = option_values(cmd, opt)
        for v in vals:
            out.append("%s=%s" % (opt["names"][0], q(v)))
        for n in opt["names"][1:]:
            out.append("%s=%s" % (n, q(vals[0])))
    return out


def primary_tokens(cmd, opt, k=1):
    kind = opt["kind"]
    if kind in ("flag", "optvalue"):
        return [opt["names"][0]]
    return ["%s=%s" % (opt["names"][0], q(v)) for v in option_values(cmd, opt)[:k]]


def commands(v):
    return sorted(spec()[v])


def line(cmd, base="", *toks):
    return " ".join(x for x in (cmd, base) + tuple(toks) if x)


def singles(v, cmd):
    """base alone, base + every option at every value of its domain."""
    opts = spec()[v][cmd]["opts"]
    for b in BASES[cmd]:
        yield line(cmd, b)
        for e in EXTRA:
            yield line(cmd, b, e)
        for o in opts:
            for t in opt_tokens(cmd, o):
                yield line(cmd, b, t)


def combos(v, cmd, n, k=1, bases=None, ordered=False):
    """base + every n-subset of options (first k values of each domain)."""
    opts = spec()[v][cmd]["opts"]
    it = itertools.permutations(opts, n) if ordered else itertools.combinations(opts, n)
    for sub in it:
        doms = [primary_tokens(cmd, o, k) for o in sub]
        for toks in itertools.product(*doms):
            for b in (bases or BASES[cmd]):
                yield line(cmd, b, *toks)
