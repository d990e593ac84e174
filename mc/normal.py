"""Settings that another setting of the same command makes meaningless.

The writer leaves such settings out (and the unit tests of the project demand
that it does: e.g. ``clearpart --initlabel`` without a clearing mode writes
nothing, the LUKS options without --encrypted are dropped).  The round-trip
oracle therefore compares configurations modulo these rules.  The rules are
written from the documentation of the options, one line each.
"""
import copy

from mc import core, grammar

LUKS = ("cipher", "passphrase", "escrowcert", "backuppassphrase", "luks_version", "pbkdf",
        "pbkdf_memory", "pbkdf_time", "pbkdf_iterations")


def _luks(a):
    if "encrypted" in a and not a["encrypted"]:
        for k in LUKS:
            a.pop(k, None)
    elif not a.get("escrowcert"):
        a.pop("backuppassphrase", None)      # "only valid with --escrowcert"


def _keep(a, *names):
    for k in list(a):
        if k not in names:
            del a[k]


def _bootloader(a):
    a.pop("seen", None)                      # the bootloader command is always written
    if a.get("disabled"):
        _keep(a, "disabled")
    if not a.get("password"):
        a.pop("isCrypted", None)


def _clearpart(a):
    if a.get("type") is None:                # no clearing mode: nothing to do
        a.clear()


# The names that the firewall writer spells as an option of their own; what
# the option opens where services are not a list of their own.
FW_WORDS = {"ssh:tcp": ["22:tcp"], "telnet:tcp": ["23:tcp"], "smtp:tcp": ["25:tcp"],
            "http:tcp": ["80:tcp", "443:tcp"], "ftp:tcp": ["21:tcp"]}


def _firewall(a):
    words = [p for p in a.get("ports") or () if p in FW_WORDS]
    if words:
        a["ports"] = [p for p in a["ports"] if p not in FW_WORDS]
        if "services" in a:
            a["services"] = list(a["services"]) + [w.split(":")[0] for w in words]
        else:
            a["ports"] += [p for w in words for p in FW_WORDS[w]]
    if a.get("use_system_defaults"):
        _keep(a, "use_system_defaults")
    elif a.get("enabled") is False:
        _keep(a, "enabled")


def _vnc(a):
    if not a.get("host"):
        a.pop("port", None)


def _keyboard(a):
    if not a.get("x_layouts") and not a.get("vc_keymap"):
        a.pop("switch_options", None)        # a bare layout name has no switch options
    elif "x_layouts" in a:
        a.pop("keyboard", None)              # superseded by the new format


def _rootpw(a):
    if not a.get("password"):
        a.pop("isCrypted", None)


def _halt(a):
    if not a.get("action"):                  # waiting is the default: not written
        a.clear()


def _seen(a):
    a.pop("seen", None)                      # bare command without effect is not written


def _nothing(a):
    pass


COMMAND = {
    "bootloader": _bootloader, "lilo": _bootloader, "clearpart": _clearpart, "firewall": _firewall, "vnc": _vnc,
    "keyboard": _keyboard, "rootpw": _rootpw, "halt": _halt, "reboot": _halt, "shutdown": _halt, "poweroff": _halt,
    "deviceprobe": _seen, "firstboot": _seen, "monitor": _seen, "selinux": _seen, "syspurpose": _seen,
    "xconfig": _seen, "zipl": _seen, "logging": _seen,
}

# Options that only print a deprecation warning and have no effect any more:
# (command, option, attribute).  They are left out of the comparison only in
# the versions where the committed syntax table marks them deprecated.
GONE = [
    ("firewall", "--high", "high"), ("firewall", "--medium", "medium"), ("firewall", "--telnet", "telnet"),
    ("xconfig", "--card", "card"), ("xconfig", "--hsync", "hsync"), ("xconfig", "--vsync", "vsync"),
    ("xconfig", "--monitor", "monitor"), ("xconfig", "--noprobe", "noprobe"),
    ("xconfig", "--videoram", "videoram"), ("xconfig", "--driver", "driver"),
    ("xconfig", "--resolution", "resolution"), ("xconfig", "--depth", "depth"),
    ("logging", "--level", "level"), ("ignoredisk", "--interactive", "interactive"),
    ("part", "--bytes-per-inode", "bytes_per_inode"), ("raid", "--bytes-per-inode", "bytes_per_inode"),
    ("logvol", "--bytes-per-inode", "bytes_per_inode"),
]


def _o_driverdisk(o):
    if not o.get("partition"):
        o.pop("type", None)                  # the file system type of the partition


def _o_sshpw(o):
    if o.get("sshkey"):
        o.pop("lock", None)                  # about the password, which is not there
        o.pop("isCrypted", None)


def _o_logvol(o):
    if not o.get("thin_volume"):
        o.pop("pool_name", None)             # "valid only with --thin"


def _o_btrfs(o):
    if not o.get("subvol"):
        o.pop("name", None)                  # the name of the subvolume


def _o_repo(o):
    o["ignoregroups"] = bool(o.get("ignoregroups"))


def _o_nvdimm(o):
    if o.get("action") != "reconfigure":
        o.pop("mode", None)                  # parameters of the reconfiguration
        o.pop("sectorsize", None)


OBJECT = {"nvdimm": _o_nvdimm, "driverdisk": _o_driverdisk, "sshpw": _o_sshpw, "logvol": _o_logvol, "btrfs": _o_btrfs, "repo": _o_repo}


def _install(a):
    if not a.get("upgrade"):
        a.pop("root_device", None)           # the root device of the system to upgrade


COMMAND["install"] = COMMAND["upgrade"] = _install

_gone_cache = {}


def gone(v, cmd):
    k = (v, cmd)
    if k not in _gone_cache:
        opts = grammar.spec()[v].get(cmd, {"opts": []})["opts"]
        dep = {n for o in opts if o.get("deprecated") for n in o["names"]}
        _gone_cache[k] = [attr for (c, o, attr) in GONE if c == cmd and o in dep]
    return _gone_cache[k]


def norm(v, cmd, a):
    """Normalise the canonical attribute dict of one command, in place."""
    COMMAND.get(cmd, _nothing)(a)
    _luks(a)
    g = gone(v, cmd)
    for n in g:
        a.pop(n, None)
    of = OBJECT.get(cmd, _nothing)
    for x in a.values():
        if isinstance(x, list):
            for y in x:
                if isinstance(y, tuple) and y and y[0] == "obj":
                    of(y[1])
                    _luks(y[1])
                    for n in g:
                        y[1].pop(n, None)
    return a


_pristine = {}


def norm_all(v, cmds):
    out = {}
    for c, a in cmds.items():
        # untouched commands come as one shared object per handler
        hit = _pristine.get(id(a))
        if hit is not None and hit[0] is a:
            out[c] = hit[1]
        else:
            if core.is_pristine(a):
                n = norm(v, c, copy.deepcopy(a))
                _pristine[id(a)] = (a, n)
            else:
                n = norm(v, c, a)
            out[c] = n
    return out
