From 6a0cdf5c30c4420f0f630c20b57f565c30b7d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 01/56] fix: keep a zero uid, gid and repo cost when writing a
 kickstart file

A value of 0 given on the command line was stored but silently dropped from
the output, so reading the output back gave a different configuration.
---
 pykickstart/commands/group.py | 2 +-
 pykickstart/commands/repo.py  | 2 +-
 pykickstart/commands/user.py  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/group.py b/pykickstart/commands/group.py
index fab5e74..d2ec9d8 100644
--- a/pykickstart/commands/group.py
+++ b/pykickstart/commands/group.py
@@ -49,7 +49,7 @@ class F12_GroupData(BaseData):
 
         if self.name:
             retval += " --name=%s" % self.name
-        if self.gid:
+        if self.gid or self.gid == 0:
             retval += " --gid=%s" % self.gid
 
         return retval + "\n"
diff --git a/pykickstart/commands/repo.py b/pykickstart/commands/repo.py
index f050985..e299ab9 100644
--- a/pykickstart/commands/repo.py
+++ b/pykickstart/commands/repo.py
@@ -74,7 +74,7 @@ class F8_RepoData(FC6_RepoData):
     def _getArgsAsStr(self):
         retval = FC6_RepoData._getArgsAsStr(self)
 
-        if self.cost:
+        if self.cost or self.cost == 0:
             retval += " --cost=%s" % self.cost
         if self.includepkgs:
             retval += " --includepkgs=\"%s\"" % ",".join(self.includepkgs)
diff --git a/pykickstart/commands/user.py b/pykickstart/commands/user.py
index e675e85..f0721a9 100644
--- a/pykickstart/commands/user.py
+++ b/pykickstart/commands/user.py
@@ -78,7 +78,7 @@ class FC6_UserData(BaseData):
             retval += " --iscrypted"
         if self.shell:
             retval += " --shell=%s" % self.shell
-        if self.uid:
+        if self.uid or self.uid == 0:
             retval += " --uid=%s" % self.uid
 
         return retval
@@ -126,7 +126,7 @@ class F19_UserData(F12_UserData):
     def _getArgsAsStr(self):
         retval = F12_UserData._getArgsAsStr(self)
 
-        if self.gid:
+        if self.gid or self.gid == 0:
             retval += " --gid=%d" % (self.gid,)
 
         return retval
-- 
2.43.0


From 49c5a740645d1862dc16f75611a8995e0adfbe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 02/56] fix: do not write a second bootloader line for an
 unused lilo command

In FC3, RHEL3 and RHEL4 the defaults of the lilo command were written as a
second bootloader line, which overrode the real one on reading back.
---
 pykickstart/commands/bootloader.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pykickstart/commands/bootloader.py b/pykickstart/commands/bootloader.py
index efe8ca7..3d6ad63 100644
--- a/pykickstart/commands/bootloader.py
+++ b/pykickstart/commands/bootloader.py
@@ -162,6 +162,15 @@ class FC3_Lilo(FC3_Bootloader):
         op.prog = "lilo"
         return op
 
+    def __str__(self):
+        # Unlike bootloader, which is always written, lilo must only be written
+        # if it was given.  Otherwise its defaults override the real bootloader
+        # command when the output is read back in.
+        if not self.seen:
+            return ""
+
+        return FC3_Bootloader.__str__(self).replace("\nbootloader", "\nlilo", 1)
+
 class FC4_Lilo(RemovedCommand, FC3_Lilo):
     def _getParser(self):
         op = FC3_Lilo._getParser(self)
-- 
2.43.0


From d6aea9e9ce75d2f90a6e2a3cf9da5242ca43c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 03/56] fix: write the --parent option of the btrfs command

---
 pykickstart/commands/btrfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykickstart/commands/btrfs.py b/pykickstart/commands/btrfs.py
index 084f25b..afbbd7f 100644
--- a/pykickstart/commands/btrfs.py
+++ b/pykickstart/commands/btrfs.py
@@ -68,6 +68,8 @@ class F17_BTRFSData(BaseData):
             retval += " --metadata=%s" % self.metaDataLevel.lower()
         if self.subvol:
             retval += " --subvol --name=%s" % self.name
+        if self.parent:
+            retval += " --parent=%s" % self.parent
 
         return retval
 
-- 
2.43.0


From bad6212762cb269331d56fa09e9b6bcc122b8674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 04/56] fix: keep xconfig --depth an integer in F10 so that it
 can be written

The deprecated redefinition of the option dropped its type, and writing the
kickstart file out then failed with a TypeError.
---
 pykickstart/commands/xconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/xconfig.py b/pykickstart/commands/xconfig.py
index 528d4fc..a68acbd 100644
--- a/pykickstart/commands/xconfig.py
+++ b/pykickstart/commands/xconfig.py
@@ -169,7 +169,7 @@ class F10_XConfig(F9_XConfig):
     def _getParser(self):
         op = F9_XConfig._getParser(self)
         op.add_argument("--driver", deprecated=F10)
-        op.add_argument("--depth", deprecated=F10)
+        op.add_argument("--depth", type=int, deprecated=F10)
         op.add_argument("--resolution", deprecated=F10)
         op.add_argument("--videoram", deprecated=F10)
         return op
-- 
2.43.0


From 2f8df05010d0c4e8a39ada02ce7a6f5849bcb855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 05/56] fix: volgroup must not lose members or accept unknown
 options

Physical volumes given before an option were dropped when more followed it
(volgroup vg pv.01 --pesize=4 pv.02), and an unknown option replaced the
members instead of being reported.
---
 pykickstart/commands/volgroup.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pykickstart/commands/volgroup.py b/pykickstart/commands/volgroup.py
index bcda6e6..87f0346 100644
--- a/pykickstart/commands/volgroup.py
+++ b/pykickstart/commands/volgroup.py
@@ -148,13 +148,13 @@ class FC3_VolGroup(KickstartCommand):
         (ns, extra) = self.op.parse_known_args(args=args, lineno=self.lineno)
         # because positional arguments with variable number of values
         # don't parse very well
-        if not ns.partitions:
-            if extra:
-                ns.partitions = extra
-                extra = []
-            elif ns.name:
-                ns.partitions = ns.name[1:]
-                ns.name = [ns.name[0]]
+        if any(arg for arg in extra if arg.startswith("-")):
+            mapping = {"command": "volgroup", "options": extra}
+            raise KickstartParseError(_("Unexpected arguments to %(command)s command: %(options)s") % mapping, lineno=self.lineno)
+
+        positional = ns.name + ns.partitions + extra
+        ns.name = positional[:1]
+        ns.partitions = positional[1:]
 
         if not ns.format:
             ns.preexist = True
-- 
2.43.0


From b897e55ab7e068749fa35ef86843e4e9732ab7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 06/56] fix: raid must not drop members given after an option

With members on both sides of an option (raid / raid.01 --device=md0
--level=1 raid.02) only the first ones were kept.
---
 pykickstart/commands/raid.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pykickstart/commands/raid.py b/pykickstart/commands/raid.py
index 90844e5..7f26116 100644
--- a/pykickstart/commands/raid.py
+++ b/pykickstart/commands/raid.py
@@ -426,9 +426,7 @@ class FC3_Raid(KickstartCommand):
 
         # because positional argumnets with variable number of values
         # don't parse very well
-        if not ns.partitions and extra:
-            ns.partitions = extra
-            extra = []
+        ns.partitions = ns.partitions + extra
 
         if not ns.format:
             ns.preexist = True
-- 
2.43.0


From b0dfb1d2bf2ba578d53747bb78258fd2673107b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 07/56] fix: keep the ignoredisk drives when the deprecated
 --interactive is given

Since F29 --interactive has no effect, but it was still written in place of
--drives or --only-use, and that output is rejected on reading back.
---
 pykickstart/commands/ignoredisk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/commands/ignoredisk.py b/pykickstart/commands/ignoredisk.py
index a44549d..90e7afc 100644
--- a/pykickstart/commands/ignoredisk.py
+++ b/pykickstart/commands/ignoredisk.py
@@ -150,6 +150,10 @@ class F29_IgnoreDisk(F14_IgnoreDisk):
     removedKeywords = F14_IgnoreDisk.removedKeywords
     removedAttrs = F14_IgnoreDisk.removedAttrs
 
+    def __str__(self):
+        # --interactive no longer has any effect and isn't accepted on its own
+        return F8_IgnoreDisk.__str__(self)
+
     def parse(self, args):
         return F8_IgnoreDisk.parse(self, args)
 
-- 
2.43.0


From 3e01fd0956cda89ac2680667f1fac261f59e4f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 08/56] fix: write the RHEL7 timezone command also without a
 timezone

RHEL7 accepts options without a timezone, but wrote nothing for them.
---
 pykickstart/commands/timezone.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index 6f6d412..4157a3d 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -216,6 +216,17 @@ class RHEL7_Timezone(F18_Timezone):
         F18_Timezone.__init__(self, writePriority, *args, **kwargs)
         self.op = self._getParser()
 
+    def __str__(self):
+        retval = KickstartCommand.__str__(self)
+
+        # the timezone itself is optional here
+        args = self._getArgsAsStr().strip()
+        if args:
+            retval += "# System timezone\n"
+            retval += "timezone " + args + "\n"
+
+        return retval
+
     def _getParser(self):
         op = KSOptionParser(prog="timezone", description="""
                             This required command sets the system time zone to
-- 
2.43.0


From 0536b0c8454f0dd5b31f7e4148be4ff9ee54335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:42 +0000
Subject: [PATCH 09/56] fix: keep the order of timezone --ntpservers in F18

The servers went through a set, so their order in the output changed from
one run to the next.
---
 pykickstart/commands/timezone.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index 4157a3d..893ec36 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -165,7 +165,9 @@ class F18_Timezone(FC6_Timezone):
         FC6_Timezone.parse(self, args)
 
         # NTP servers can only be listed once in F18, so weed out the duplicates now.
-        self.ntpservers = list(set(self.ntpservers))
+        # Keep their order, so that the output does not depend on hashing.
+        servers = list(self.ntpservers)
+        self.ntpservers = [s for (i, s) in enumerate(servers) if s not in servers[:i]]
 
         if self.ntpservers and self.nontp:
             msg = _("Options --nontp and --ntpservers are mutually exclusive")
-- 
2.43.0


From a770ac455ced4bd78ebc280597c39a103158be66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:36 +0000
Subject: [PATCH 10/56] fix: do not choke on a quote in a comment after %end

'%end # don't' raised a ValueError about the missing closing quotation.
---
 pykickstart/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index afabb11..80a9afb 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -650,7 +650,12 @@ class KickstartParser(object):
                     obj.handleLine(line)
                     continue
 
-                args = shlex.split(line)
+                # Whatever follows %end does not matter, so do not trip over
+                # a stray quote in it.
+                if possibleSectionStart == "%end":
+                    args = [possibleSectionStart]
+                else:
+                    args = shlex.split(line)
 
                 if args and args[0] == "%end":
                     # This is a properly terminated section.
-- 
2.43.0


From 4d522d64ca4bd1bee7b429af830073f2e46fa89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:36 +0000
Subject: [PATCH 11/56] fix: report a line starting with an empty word as an
 unknown command

It raised an IndexError without any line number.
---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 80a9afb..083e015 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -761,7 +761,7 @@ class KickstartParser(object):
                 if args[0] == "%ksappend":
                     # This is handled by the preprocess* functions, so continue.
                     continue
-                elif args[0][0] == '%':
+                elif args[0].startswith('%'):
                     # This is the beginning of a new section.  Handle its header
                     # here.
                     newSection = args[0]
-- 
2.43.0


From bf5a5b8c98f7e9080e556e57e8174b1f628b9ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:41 +0000
Subject: [PATCH 12/56] fix: do not swallow errors in the contents of an
 include file

With missingIncludeIsFatal=False, any error in an existing include file was
dropped together with the rest of that file.
---
 pykickstart/parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 083e015..63c9db0 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -717,11 +717,12 @@ class KickstartParser(object):
 
         try:
             self.readKickstart(f, reset=False)
-        except KickstartError:
+        except KickstartError as e:
             # Handle the include file being provided over the
             # network in a %pre script.  This case comes up in the
-            # early parsing in anaconda.
-            if self.missingIncludeIsFatal:
+            # early parsing in anaconda.  A problem in the contents of
+            # the include file is something else, though.
+            if self.missingIncludeIsFatal or isinstance(e, KickstartParseError):
                 raise
 
         self._includeDepth -= 1
-- 
2.43.0


From 166e696c3511606b5472edf32531452fcb87aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 13/56] fix: do not lose lines of sections that span included
 files

A section opened by an included file and continued by the including one
lost its remaining lines, lines following a section closed by an included
file were added to that section, and comments at the beginning of a file
included in a section (such as #!/bin/sh) were dropped.
---
 pykickstart/parser.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 63c9db0..558a0b1 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -173,7 +173,7 @@ class PutBackIterator(Iterator):
         self._buf = s
 
     def next(self):
-        if self._buf:
+        if self._buf is not None:
             retval = self._buf
             self._buf = None
             return retval
@@ -666,6 +666,11 @@ class KickstartParser(object):
                         raise KickstartParseError(lineno=lineno)
 
                     self._handleInclude(args[1])
+
+                    # The included file may have closed this section.
+                    if self._state != obj.sectionOpen:
+                        break
+
                     continue
                 elif args and args[0] == "%ksappend":
                     continue
@@ -735,11 +740,21 @@ class KickstartParser(object):
             # Get the next line out of the file, quitting if this is the last line.
             try:
                 self._line = next(lineIter)
-                if self._line == "":
-                    break
             except StopIteration:
                 break
 
+            # We are in the middle of a section if this is an included file,
+            # or if an included file did not close the section it opened.  The
+            # blank lines an included file starts with are skipped below.
+            if self._state not in (STATE_COMMANDS, STATE_END) and \
+               (self._line.strip() or self._includeDepth == 0):
+                lineIter.put(self._line)
+                lineno = self._readSection(lineIter, lineno)
+                continue
+
+            if self._line == "":
+                break
+
             lineno += 1
 
             # Eliminate blank lines, whitespace-only lines, and comments.
@@ -790,10 +805,6 @@ class KickstartParser(object):
                     self._tryFunc(lambda: self.handleCommand(lineno, args))
             elif self._state == STATE_END:
                 break
-            elif self._includeDepth > 0:
-                lineIter.put(self._line)
-                lineno -= 1
-                lineno = self._readSection(lineIter, lineno)
 
     def readKickstartFromString(self, s, reset=True):
         """Process a kickstart file, provided as the string str."""
-- 
2.43.0


From 798d48a28bad114820ae3e30f079b22a1650d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:29 +0000
Subject: [PATCH 14/56] fix: start every section with an empty body

Lines of an unterminated section (or the empty line added at the end of a
file before F8) ended up in the next section of the same kind.
---
 pykickstart/parser.py   | 1 +
 pykickstart/sections.py | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 558a0b1..3eb5381 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -629,6 +629,7 @@ class KickstartParser(object):
                         raise KickstartParseError(_("Section %s does not end with %%end.") % obj.sectionOpen, lineno=lineno)
 
                     self._finalize(obj)
+                    break
             except StopIteration:
                 break
 
diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 12cd900..b730d6f 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -127,7 +127,9 @@ class NullSection(Section):
         self._body = []
 
     def handleHeader(self, lineno, args):
+        Section.handleHeader(self, lineno, args)
         self._args = args
+        self._body = []
 
     def handleLine(self, line):
         self._body.append(line)
@@ -210,6 +212,9 @@ class ScriptSection(Section):
         Section.handleHeader(self, lineno, args)
         op = self._getParser()
 
+        # Forget about a previous section without any or with a wrong end.
+        self._resetScript()
+
         ns = op.parse_args(args=args[1:], lineno=lineno)
 
         self._script["interp"] = ns.interpreter
-- 
2.43.0


From 127a899094f396bffe578033ec6f66aa0c51c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:44 +0000
Subject: [PATCH 15/56] fix: write scripts and packages in the syntax of their
 own handler

Whether %end was written depended on the version of the last parser
created in the process, not on the version of the handler being written.
---
 pykickstart/base.py     | 3 +++
 pykickstart/sections.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index c9fdd3a..adccd6f 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -483,6 +483,7 @@ class BaseHandler(KickstartHandler):
         # everything else I can think of.
         self.scripts = []
         self.packages = Packages()
+        self.packages._ver = self.version
         self.platform = ""
 
         # Any sections that we do not understand but want to prevent causing errors
@@ -505,6 +506,7 @@ class BaseHandler(KickstartHandler):
         retval += KickstartHandler.__str__(self)
 
         for script in self.scripts:
+            script._ver = self.version
             script_str = script.__str__()
             if isinstance(script_str, six.text_type) and not six.PY3:
                 script_str = script_str.encode("utf-8")
@@ -516,6 +518,7 @@ class BaseHandler(KickstartHandler):
             for s in self._null_section_strings:
                 retval += s
 
+        self.packages._ver = self.version
         retval += self.packages.__str__()
 
         return retval
diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index b730d6f..cb5ef20 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -201,6 +201,7 @@ class ScriptSection(Section):
 
         if self.dataObj is not None:
             s = self.dataObj(self._script["body"], **kwargs)
+            s._ver = self.version
             self._resetScript()
             self.handler.scripts.append(s)
 
-- 
2.43.0


From dfd132148da08118f806a6f1ec7d551fc12b067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 16/56] fix: reset a command under all the names it is known by

After resetCommand("part"), the partition command still filled in the old
object, whose data was not written anymore.
---
 pykickstart/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index adccd6f..7969ae0 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -388,11 +388,16 @@ class KickstartHandler(KickstartObject):
         if cmdName not in self.commands:
             raise KeyError
 
-        cmdObj = self.commands[cmdName].__class__()
+        oldObj = self.commands[cmdName]
+        cmdObj = oldObj.__class__()
 
         self._setCommand(cmdObj)
-        self.commands[cmdName] = cmdObj
-        self.commands[cmdName].handler = self
+        cmdObj.handler = self
+
+        # The command may be known by several names.
+        for (name, obj) in list(self.commands.items()):
+            if obj is oldObj:
+                self.commands[name] = cmdObj
 
     def dispatcher(self, args, lineno):
         """Call the appropriate KickstartCommand handler for the current line
-- 
2.43.0


From 4914feb3201dca806a0d3fc7d1dc2dac99c08438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:22 +0000
Subject: [PATCH 17/56] fix: let a group or environment override an earlier
 exclusion of it

'-@group' followed by '@group' kept the group both as selected and as
excluded, and reading the written file back dropped it, unlike packages
where the last line wins.
---
 pykickstart/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 3eb5381..e5bb996 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -453,6 +453,9 @@ class Packages(KickstartObject):
         # now.
         grp = " ".join(extra)
 
+        # Asking for a group cancels out a previous exclusion of it.
+        self.excludedGroupList = [g for g in self.excludedGroupList if g.name != grp]
+
         if grp in [g.name for g in self.groupList]:
             return
 
@@ -479,6 +482,7 @@ class Packages(KickstartObject):
 
             if stripped[0:2] == "@^":
                 self.environment = stripped[2:]
+                self.excludedGroupList = [g for g in self.excludedGroupList if g.name != stripped[1:]]
             elif stripped[0] == "@":
                 self._processGroup(stripped[1:])
             elif stripped[0] == "-":
-- 
2.43.0


From 801decbfd36af60ddb700b6b209a69122dfdd434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:51 +0000
Subject: [PATCH 18/56] fix: do not raise an IndexError on a single dash in
 %packages

---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index e5bb996..cae6956 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -488,7 +488,7 @@ class Packages(KickstartObject):
             elif stripped[0] == "-":
                 if stripped[1:3] == "@^" and self.environment == stripped[3:]:
                     self.environment = None
-                elif stripped[1] == "@":
+                elif stripped[1:2] == "@":
                     excludedGroupList.append(Group(name=stripped[2:]))
                 else:
                     newExcludedSet.add(stripped[1:])
-- 
2.43.0


From b1435f6bb37d1dcbb3f080cbd8f12227766f62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:50 +0000
Subject: [PATCH 19/56] fix: write sections pykickstart does not know so that
 they can be read back

The blank lines multiplied, quotes in the header got lost, and the next
section was written right after %end on the same line.
---
 pykickstart/sections.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index cb5ef20..171a848 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -30,6 +30,7 @@ is necessary is to create a new subclass of Section and call
 parser.registerSection with an instance of your new class.
 """
 import warnings
+from six.moves import shlex_quote
 from pykickstart.constants import KS_SCRIPT_PRE, KS_SCRIPT_POST, KS_SCRIPT_TRACEBACK, \
                                   KS_SCRIPT_PREINSTALL, KS_SCRIPT_ONERROR, \
                                   KS_MISSING_IGNORE, KS_MISSING_PROMPT, \
@@ -135,11 +136,11 @@ class NullSection(Section):
         self._body.append(line)
 
     def finalize(self):
-        body = "\n".join(self._body)
-        if body:
-            s = "%s\n%s\n%%end" % (" ".join(self._args), body)
-        else:
-            s = "%s\n%%end" % " ".join(self._args)
+        body = "".join(self._body)
+        if body and not body.endswith("\n"):
+            body += "\n"
+
+        s = "%s\n%s%%end\n" % (" ".join(shlex_quote(arg) for arg in self._args), body)
 
         self.handler._null_section_strings.append(s)
 
-- 
2.43.0


From 22b0211dbb80efa26bdae1cf8dd9014a69e36f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:20 +0000
Subject: [PATCH 20/56] fix: quote the interpreter and log file of a script
 when writing it

A script header such as %pre --interpreter="/usr/bin/python3 -u" could not
be read back.
---
 pykickstart/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index cae6956..483518a 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -44,6 +44,8 @@ import shlex
 import sys
 import warnings
 
+from six.moves import shlex_quote
+
 from pykickstart import constants, version
 from pykickstart.errors import KickstartError, KickstartParseError, KickstartParseWarning
 from pykickstart.ko import KickstartObject
@@ -243,11 +245,11 @@ class Script(KickstartObject):
             retval += '\n%onerror'
 
         if self.interp != "/bin/sh" and self.interp:
-            retval += " --interpreter=%s" % self.interp
+            retval += " --interpreter=%s" % shlex_quote(self.interp)
         if self.type == constants.KS_SCRIPT_POST and not self.inChroot:
             retval += " --nochroot"
         if self.logfile is not None:
-            retval += " --logfile=%s" % self.logfile
+            retval += " --logfile=%s" % shlex_quote(self.logfile)
         if self.errorOnFail:
             retval += " --erroronfail"
 
-- 
2.43.0


From 34f07aac9b7bce3ce2c5d218f6aac95e92bf2870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:45 +0000
Subject: [PATCH 21/56] fix: do not exit successfully from ksvalidator on a
 multiple of 256 errors

---
 tools/ksvalidator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/ksvalidator.py b/tools/ksvalidator.py
index 8fe1d9f..5192b3c 100755
--- a/tools/ksvalidator.py
+++ b/tools/ksvalidator.py
@@ -121,4 +121,5 @@ if __name__ == "__main__":
     retval, messages = main(sys.argv[1:])
     for msg in messages:
         print(msg)
-    sys.exit(retval)
+    # An exit status is a single byte, so do not let 256 errors look like success.
+    sys.exit(min(retval, 255))
-- 
2.43.0


From d92314186c1ae6ebcce45cc367ed3945c92be9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:19 +0000
Subject: [PATCH 22/56] fix: accept an empty kickstart file in ksvalidator and
 ksshell

ksvalidator reported a general error and ksshell died with a TypeError.
Also remove the temporary file of ksshell when its contents are wrong.
---
 tools/ksshell.py     | 9 +++++++--
 tools/ksvalidator.py | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index 324180e..b40d50a 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -172,8 +172,13 @@ def main(argv=None):
     if opts.input:
         try:
             processedFile = preprocessKickstart(opts.input)
-            ksparser.readKickstart(processedFile)
-            os.remove(processedFile)
+
+            # There is nothing to read in an empty file.
+            if processedFile is not None:
+                try:
+                    ksparser.readKickstart(processedFile)
+                finally:
+                    os.remove(processedFile)
         except KickstartError as e:
             # Errors should just dump you to the prompt anyway.
             print(_("Warning:  The following error occurred when processing the input file:\n%s\n") % e)
diff --git a/tools/ksvalidator.py b/tools/ksvalidator.py
index 5192b3c..21b7112 100755
--- a/tools/ksvalidator.py
+++ b/tools/ksvalidator.py
@@ -103,7 +103,11 @@ def main(argv):
 
     try:
         processedFile = preprocessKickstart(f)
-        ksparser.readKickstart(processedFile)
+
+        # There is nothing to read in an empty file.
+        if processedFile is not None:
+            ksparser.readKickstart(processedFile)
+
         return (cleanup(destdir, processedFile, exitval=ksparser.errorsCount), [])
     except KickstartDeprecationWarning as err:
         return (cleanup(destdir, processedFile),
-- 
2.43.0


From 74ce54a14dc5d007c53067ada963cee4d7a06ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:19 +0000
Subject: [PATCH 23/56] fix: forget about the old sections on .clear in ksshell

Sections read after .clear were stored in the handler that was cleared.
---
 tools/ksshell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index b40d50a..f140643 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -61,6 +61,8 @@ class ClearCommand(InternalCommand):
     def execute(self, parser):
         version = parser.version
         parser.handler = makeVersion(version)
+        # The sections refer to the handler, too.
+        parser.setupSections()
 
 class QuitCommand(InternalCommand):
     def execute(self, parser):
-- 
2.43.0


From 3856d8d6f204c490c78c3101abd4aa9e3f95c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:19 +0000
Subject: [PATCH 24/56] fix: do not lose a ksshell session to a missing closing
 quote

---
 tools/ksshell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index f140643..00d4222 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -181,7 +181,7 @@ def main(argv=None):
                     ksparser.readKickstart(processedFile)
                 finally:
                     os.remove(processedFile)
-        except KickstartError as e:
+        except (KickstartError, ValueError) as e:
             # Errors should just dump you to the prompt anyway.
             print(_("Warning:  The following error occurred when processing the input file:\n%s\n") % e)
 
@@ -236,7 +236,7 @@ def main(argv=None):
         # extremely short one.
         try:
             ksparser.readKickstartFromString(line)
-        except KickstartError as e:
+        except (KickstartError, ValueError) as e:
             print(e)
 
     # And finally, print the output kickstart file.
-- 
2.43.0


From d557b20bda44518f3af012a17f513797ca35644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:19 +0000
Subject: [PATCH 25/56] fix: report a file that is not UTF-8 as a kickstart
 error

---
 pykickstart/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index fb935f2..3aee40c 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -95,7 +95,7 @@ def _load_file(filename):
         else:
             with open(filename, 'r') as fh:
                 contents = fh.read()
-    except IOError as e:
+    except (IOError, UnicodeDecodeError) as e:
         raise KickstartError(_('Error opening file: %s') % str(e))
 
     return contents
-- 
2.43.0


From 215dfe178d9cda1d2ba426bdef2d9220939d790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:37 +0000
Subject: [PATCH 26/56] fix: do not garble indented auth, authselect and realm
 commands

---
 pykickstart/commands/authconfig.py | 2 +-
 pykickstart/commands/authselect.py | 2 +-
 pykickstart/commands/realm.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/authconfig.py b/pykickstart/commands/authconfig.py
index e0895a6..0400f93 100644
--- a/pykickstart/commands/authconfig.py
+++ b/pykickstart/commands/authconfig.py
@@ -43,7 +43,7 @@ class FC3_Authconfig(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self.authconfig = self.currentLine[len(self.currentCmd):].strip()
+        self.authconfig = self.currentLine.strip()[len(self.currentCmd):].strip()
         return self
 
     def _getParser(self):
diff --git a/pykickstart/commands/authselect.py b/pykickstart/commands/authselect.py
index a1caa52..372294b 100644
--- a/pykickstart/commands/authselect.py
+++ b/pykickstart/commands/authselect.py
@@ -39,7 +39,7 @@ class F28_Authselect(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self.authselect = self.currentLine[len(self.currentCmd):].strip()
+        self.authselect = self.currentLine.strip()[len(self.currentCmd):].strip()
         return self
 
     def _getParser(self):
diff --git a/pykickstart/commands/realm.py b/pykickstart/commands/realm.py
index 53b52f6..611989a 100644
--- a/pykickstart/commands/realm.py
+++ b/pykickstart/commands/realm.py
@@ -97,7 +97,7 @@ class F19_Realm(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self._parseArguments(self.currentLine[len(self.currentCmd):].strip())
+        self._parseArguments(self.currentLine.strip()[len(self.currentCmd):].strip())
         return self
 
     def _getParser(self):
-- 
2.43.0


From 98ba4812d776fc8c1ad6c0c0814f4be6bfa7cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:37 +0000
Subject: [PATCH 27/56] fix: accept a comment at the end of the realm command

---
 pykickstart/commands/realm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/realm.py b/pykickstart/commands/realm.py
index 611989a..6960a6f 100644
--- a/pykickstart/commands/realm.py
+++ b/pykickstart/commands/realm.py
@@ -41,7 +41,7 @@ class F19_Realm(KickstartCommand):
     def _parseArguments(self, string):
         if self.join_realm:
             raise KickstartParseError(_("The realm command 'join' should only be specified once"), lineno=self.lineno)
-        args = shlex.split(string)
+        args = shlex.split(string, comments=True)
         if not args:
             raise KickstartParseError(_("Missing realm command arguments"), lineno=self.lineno)
         command = args.pop(0)
-- 
2.43.0


From c566c7d922b3fdfabbe4f756d829be66f327b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:02 +0000
Subject: [PATCH 28/56] fix: report the line number of invalid nvdimm commands

---
 pykickstart/commands/nvdimm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/nvdimm.py b/pykickstart/commands/nvdimm.py
index a01652f..4cd358e 100644
--- a/pykickstart/commands/nvdimm.py
+++ b/pykickstart/commands/nvdimm.py
@@ -139,7 +139,8 @@ class F28_Nvdimm(KickstartCommand):
         nvdimm_data.action = action
 
         if nvdimm_data.namespace and nvdimm_data.blockdevs:
-            raise KickstartParseError(_("Only one of --namespace and --blockdevs device specifications can be used"))
+            raise KickstartParseError(_("Only one of --namespace and --blockdevs device specifications can be used"),
+                                      lineno=self.lineno)
 
         # Check for duplicates in the data list.
         if nvdimm_data in self.dataList():
@@ -153,14 +154,15 @@ class F28_Nvdimm(KickstartCommand):
         if action == NVDIMM_ACTION_RECONFIGURE:
             if not nvdimm_data.namespace:
                 raise KickstartParseError(_("Action %(action)s requires --namespace argument to be set")
-                                          % {"action": action})
+                                          % {"action": action}, lineno=self.lineno)
             if nvdimm_data.mode == NVDIMM_MODE_SECTOR and not nvdimm_data.sectorsize:
                 raise KickstartParseError(_("Action %(action)s with mode %(mode)s requires --sectorsize argument to be set")
-                                          % {"action": action, "mode": nvdimm_data.mode})
+                                          % {"action": action, "mode": nvdimm_data.mode},
+                                          lineno=self.lineno)
         elif action == NVDIMM_ACTION_USE:
             if not nvdimm_data.namespace and not nvdimm_data.blockdevs:
                 raise KickstartParseError(_("Action %(action)s requires --namespace or --blockdevs argument to be set")
-                                          % {"action": action})
+                                          % {"action": action}, lineno=self.lineno)
 
         return nvdimm_data
 
-- 
2.43.0


From 80820a65e6e4819e0bf728c69a2a955987d33b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 29/56] fix: do not join the last line of a %ksappend file with
 the next line

---
 pykickstart/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 483518a..6a9dd4f 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -103,6 +103,10 @@ def _preprocessStateMachine(lineIter):
         # file in one burst.  This allows multiple %ksappend lines to
         # exist.
         if contents is not None:
+            # The next line must not end up as part of the last one of it.
+            if contents and not contents.endswith("\n"):
+                contents += "\n"
+
             retval += contents.encode(sys.getdefaultencoding())
 
     return retval
-- 
2.43.0


From 5074c66671e6fda597fb056a5f005a4a9f214b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 30/56] fix: accept any whitespace between %ksappend and its
 URL

---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 6a9dd4f..84637d4 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -90,7 +90,7 @@ def _preprocessStateMachine(lineIter):
 
         # Try to pull down the remote file.
         try:
-            ksurl = ll.split(' ')[1]
+            ksurl = ll.split()[1]
         except:
             raise KickstartParseError(_("Illegal url for %%ksappend: %s") % ll, lineno=lineno)
 
-- 
2.43.0


From 640a19a6ddf2d2d5132308cf37f8832bbafc62b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:20 +0000
Subject: [PATCH 31/56] fix: report 'method' in a kickstart file as an unknown
 command

It is a proxy for programs using pykickstart, and raised a TypeError.
---
 pykickstart/commands/method.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pykickstart/commands/method.py b/pykickstart/commands/method.py
index a863d6f..9734d3b 100644
--- a/pykickstart/commands/method.py
+++ b/pykickstart/commands/method.py
@@ -19,7 +19,9 @@
 #
 from pykickstart.version import FC3, F34, versionToLongString
 from pykickstart.base import KickstartCommand, DeprecatedCommand
+from pykickstart.errors import KickstartParseError
 from pykickstart.options import KSOptionParser
+from pykickstart.i18n import _
 
 class FC3_Method(KickstartCommand):
     removedKeywords = KickstartCommand.removedKeywords
@@ -99,6 +101,10 @@ class FC3_Method(KickstartCommand):
         # Set the attribute of the kickstart command.
         command.__setattr__(name, value)
 
+    def parse(self, args):
+        """This is only for programs, there is no such command in a kickstart file."""
+        raise KickstartParseError(_("Unknown command: %s") % self.currentCmd, lineno=self.lineno)
+
     def _getParser(self):
         """Return a parser."""
 
-- 
2.43.0


From ad974d066483fefb30f5308056f51739a56ce4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:48 +0000
Subject: [PATCH 32/56] fix: keep the RHEL7 timezone a string when only options
 are given

It was left as an empty list, which broke writing the command.
---
 pykickstart/commands/timezone.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index 893ec36..37cb087 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -292,6 +292,8 @@ class RHEL7_Timezone(F18_Timezone):
         elif len(ns.timezone) > 1:
             error_message = _("One or zero arguments are expected for the %s command") % "timezone"
             raise KickstartParseError(error_message, lineno=self.lineno)
+        else:
+            self.timezone = ""
 
         if self.ntpservers and self.nontp:
             msg = _("Options --nontp and --ntpservers are mutually exclusive")
-- 
2.43.0


From efe7b4239bfb5935d4ed596187aaf3f1a0c7f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:10 +0000
Subject: [PATCH 33/56] fix: add the paths of a multipath device to that device

The second path made another device of the same name or, unless the device
was the first one, was kept like a device of its own that could not be
written.
---
 pykickstart/commands/multipath.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/multipath.py b/pykickstart/commands/multipath.py
index acb58bb..5ffc3e9 100644
--- a/pykickstart/commands/multipath.py
+++ b/pykickstart/commands/multipath.py
@@ -96,17 +96,18 @@ class FC6_MultiPath(KickstartCommand):
                 if path.device == dd.device:
                     mapping = {"device": path.device, "multipathdev": path.mpdev}
                     raise KickstartParseError(_("Device '%(device)s' is already used in multipath '%(multipathdev)s'") % mapping, lineno=self.lineno)
-            if mpath.name == dd.mpdev:
+            if mpath.name.split("/")[-1] == dd.mpdev:
                 parent = x
 
-        if not parent:
+        if parent is None:
             mpath = self.dataClass(name=dd.name)    # pylint: disable=not-callable
             mpath.paths.append(dd)
             return mpath
         else:
             mpath = self.mpaths[parent]
             mpath.paths.append(dd)
-            return dd
+            # It is part of an existing device, so there is nothing new for dataList.
+            return None
 
     def dataList(self):
         return self.mpaths
-- 
2.43.0


From 61c9eaad0834fa9cb36d01f3c293f1a4e8513378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:04 +0000
Subject: [PATCH 34/56] fix: do not leave a rejected timezone behind in a form
 that cannot be written

---
 pykickstart/commands/timezone.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index 37cb087..ff77a1e 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -74,13 +74,13 @@ class FC3_Timezone(KickstartCommand):
     # by a new implementation not calling this method.
     def parse(self, args):
         (ns, extra) = self.op.parse_known_args(args=args, lineno=self.lineno)
-        self.set_to_self(ns)
         assert len(ns.timezone) == 1
 
         if extra:
             mapping = {"command": "timezone", "options": extra}
             raise KickstartParseError(_("Unexpected arguments to %(command)s command: %(options)s") % mapping, lineno=self.lineno)
 
+        self.set_to_self(ns)
         self.timezone = ns.timezone[0]
         return self
 
@@ -272,7 +272,6 @@ class RHEL7_Timezone(F18_Timezone):
 
     def parse(self, args):
         ns = self.op.parse_args(args=args, lineno=self.lineno)
-        self.set_to_self(ns)
 
         # just "timezone" without any arguments and timezone specification doesn't really make sense,
         # so throw an error when we see it (it might even be an indication of an incorrect machine generated kickstart)
@@ -287,11 +286,14 @@ class RHEL7_Timezone(F18_Timezone):
         #    which throws an exception if no timezone specification is provided
         # - we implement the relevant functionality of the ancestor methods here
 
-        if len(ns.timezone) == 1:
-            self.timezone = ns.timezone[0]
-        elif len(ns.timezone) > 1:
+        if len(ns.timezone) > 1:
             error_message = _("One or zero arguments are expected for the %s command") % "timezone"
             raise KickstartParseError(error_message, lineno=self.lineno)
+
+        self.set_to_self(ns)
+
+        if len(ns.timezone) == 1:
+            self.timezone = ns.timezone[0]
         else:
             self.timezone = ""
 
@@ -375,7 +377,6 @@ class F25_Timezone(F23_Timezone):
 
     def parse(self, args):
         ns = self.op.parse_args(args=args, lineno=self.lineno)
-        self.set_to_self(ns)
 
         # just "timezone" without any arguments and timezone specification doesn't really make sense,
         # so throw an error when we see it (it might even be an indication of an incorrect machine generated kickstart)
@@ -390,12 +391,15 @@ class F25_Timezone(F23_Timezone):
         #    which throws an exception if no timezone specification is provided
         # - we implement the relevant functionality of the ancestor methods here
 
-        if len(ns.timezone) == 1:
-            self.timezone = ns.timezone[0]
-        elif len(ns.timezone) > 1:
+        if len(ns.timezone) > 1:
             error_message = _("One or zero arguments are expected for the %s command") % "timezone"
             raise KickstartParseError(error_message, lineno=self.lineno)
 
+        self.set_to_self(ns)
+
+        if len(ns.timezone) == 1:
+            self.timezone = ns.timezone[0]
+
         if self.ntpservers and self.nontp:
             msg = _("Options --nontp and --ntpservers are mutually exclusive")
             raise KickstartParseError(msg, lineno=self.lineno)
-- 
2.43.0


From a48ae7ea632abdf6ccf9a3f60072828a07a06df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:11 +0000
Subject: [PATCH 35/56] fix: do not report removed commands as added or removed
 again in ksverdiff

---
 tools/ksverdiff.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/ksverdiff.py b/tools/ksverdiff.py
index 5f59a71..6b99b0e 100755
--- a/tools/ksverdiff.py
+++ b/tools/ksverdiff.py
@@ -74,7 +74,9 @@ def main(argv=None):
     removed = [cmd for cmd in bothSet if
                isinstance(toHandler.commands[cmd], RemovedCommand) and
                not isinstance(fromHandler.commands[cmd], RemovedCommand)]
-    printList(sorted(removed + list(fromCmdSet - toCmdSet)))
+    removed += [cmd for cmd in fromCmdSet - toCmdSet if
+                not isinstance(fromHandler.commands[cmd], RemovedCommand)]
+    printList(sorted(removed))
 
     print(_("The following commands were deprecated in %s:") % opts.t)
     printList(sorted([cmd for cmd in bothSet if
@@ -82,7 +84,8 @@ def main(argv=None):
                       not isinstance(toHandler.commands[cmd], RemovedCommand)]))
 
     print(_("The following commands were added in %s:") % opts.t)
-    printList(sorted(toCmdSet - fromCmdSet))
+    printList(sorted([cmd for cmd in toCmdSet - fromCmdSet if
+                      not isinstance(toHandler.commands[cmd], RemovedCommand)]))
 
     for cmd in sorted(bothSet):
         newOptList = []
-- 
2.43.0


From 910b4d18f0ae32f68b25a5132220408b33420809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:11 +0000
Subject: [PATCH 36/56] fix: list the options of commands that take none in the
 other version in ksverdiff

---
 tools/ksverdiff.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/ksverdiff.py b/tools/ksverdiff.py
index 6b99b0e..9d684b7 100755
--- a/tools/ksverdiff.py
+++ b/tools/ksverdiff.py
@@ -95,11 +95,14 @@ def main(argv=None):
         fromCmd = fromHandler.commands[cmd]
         toCmd = toHandler.commands[cmd]
 
-        if not hasattr(fromCmd, "op") or not hasattr(toCmd, "op"):
+        # Deprecated and removed commands do not always know their options.
+        if any(not hasattr(cmdObj, "op") and isinstance(cmdObj, (DeprecatedCommand, RemovedCommand))
+               for cmdObj in (fromCmd, toCmd)):
             continue
 
-        fromOpt = fromCmd.op._actions
-        toOpt = toCmd.op._actions
+        # Other commands without an option parser do not take any.
+        fromOpt = fromCmd.op._actions if hasattr(fromCmd, "op") else []
+        toOpt = toCmd.op._actions if hasattr(toCmd, "op") else []
 
         newOptList = getOptSet(toOpt) - getOptSet(fromOpt)
         removedOptList = getOptSet(fromOpt) - getOptSet(toOpt)
-- 
2.43.0


From 2a26f20e534765bd0c7cde0bb48c2506c3bcdec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:11 +0000
Subject: [PATCH 37/56] fix: know DEVEL and the long names of versions in
 makeVersion

---
 pykickstart/version.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/version.py b/pykickstart/version.py
index d966637..15752af 100644
--- a/pykickstart/version.py
+++ b/pykickstart/version.py
@@ -196,8 +196,8 @@ def returnClassForVersion(version=DEVEL):
         version = int(version)
         module = "%s" % versionToString(version, skipDevel=True)
     except ValueError:
-        module = "%s" % version
-        version = stringToVersion(version)
+        # The version may be given in any form stringToVersion knows.
+        module = "%s" % versionToString(stringToVersion(version), skipDevel=True)
 
     module = module.lower()
 
-- 
2.43.0


From 2da28681db205b26985ac3781b4217eaf57845a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:15 +0000
Subject: [PATCH 38/56] fix: do not let a line in error leave anything behind
 on its command

---
 pykickstart/base.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index 7969ae0..dd1aa97 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -45,6 +45,7 @@ This module exports several important base classes:
 """
 from pykickstart.i18n import _
 
+import copy
 import six
 import warnings
 from pykickstart import __version__
@@ -413,6 +414,9 @@ class KickstartHandler(KickstartObject):
         if cmd not in self.commands:
             raise KickstartParseError(_("Unknown command: %s") % cmd, lineno=lineno)
         elif self.commands[cmd] is not None:
+            state = {attr: copy.copy(val) if isinstance(val, (dict, list, set)) else val
+                     for (attr, val) in vars(self.commands[cmd]).items()}
+
             self.commands[cmd].currentCmd = cmd
             self.commands[cmd].currentLine = self.currentLine
             self.commands[cmd].lineno = lineno
@@ -424,7 +428,13 @@ class KickstartHandler(KickstartObject):
             # dataList.  The latter is done via side effects.
             #
             # Regardless, return the object that was given to us by the parser.
-            obj = self.commands[cmd].parse(args[1:])
+            try:
+                obj = self.commands[cmd].parse(args[1:])
+            except Exception:
+                # A line that is in error must not leave anything behind.
+                vars(self.commands[cmd]).clear()
+                vars(self.commands[cmd]).update(state)
+                raise
 
             # Here's the side effect part - don't worry about lst not being returned.
             lst = self.commands[cmd].dataList()
-- 
2.43.0


From 436bc021d9f336348e2a1aa83be82093bd019c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:31 +0000
Subject: [PATCH 39/56] fix: refuse autopart after volgroup in F16 as well as
 volgroup after autopart

---
 pykickstart/commands/autopart.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pykickstart/commands/autopart.py b/pykickstart/commands/autopart.py
index 9e00d43..db29416 100644
--- a/pykickstart/commands/autopart.py
+++ b/pykickstart/commands/autopart.py
@@ -243,6 +243,16 @@ class F16_AutoPart(F12_AutoPart):
                         help="Don't use LVM when partitioning.")
         return op
 
+    def parse(self, args):
+        retval = F12_AutoPart.parse(self, args)
+
+        # The volgroup command can't be used together with autopart,
+        # no matter which of them comes first.
+        if self.handler.volgroup.seen:
+            errorMsg = _("The %s and autopart commands can't be used at the same time") % "volgroup"
+            raise KickstartParseError(errorMsg, lineno=self.lineno)
+        return retval
+
 class F17_AutoPart(F16_AutoPart):
     def __init__(self, writePriority=100, *args, **kwargs):
         self.typeMap = {"lvm": AUTOPART_TYPE_LVM,
-- 
2.43.0


From 21f4c51671a8eb298c7e88dcd9b156ee78a1d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:30 +0000
Subject: [PATCH 40/56] fix: handle a wrong line in a section like any other
 wrong line

---
 pykickstart/parser.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 84637d4..c22d265 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -658,7 +658,7 @@ class KickstartParser(object):
                 possibleSectionStart = line.split()[0]
                 if not self._validState(possibleSectionStart) \
                    and possibleSectionStart not in ("%end", "%include"):
-                    obj.handleLine(line)
+                    self._handleLine(obj, lineno, line)
                     continue
 
                 # Whatever follows %end does not matter, so do not trip over
@@ -699,7 +699,7 @@ class KickstartParser(object):
             else:
                 # This is just a line within a section.  Pass it off to whatever
                 # section handles it.
-                obj.handleLine(line)
+                self._handleLine(obj, lineno, line)
 
         return lineno
 
@@ -721,6 +721,22 @@ class KickstartParser(object):
             else:
                 print(msg, file=sys.stderr)
 
+    def _handleLine(self, obj, lineno, line):
+        """Pass one line of a section to its section object.  A problem with
+           it is handled like one with a command or a section header.
+        """
+        def handle():
+            try:
+                obj.handleLine(line)
+            except KickstartParseError as e:
+                # The section does not know where it is in the file.
+                if e.lineno is None:
+                    e = KickstartParseError(e.message, lineno=lineno)
+
+                raise e
+
+        self._tryFunc(handle)
+
     def _isBlankOrComment(self, line):
         return line.isspace() or line == "" or line.lstrip()[0] == '#'
 
-- 
2.43.0


From db40ec0d4d39f4d92d10b6c679f221fceaa9b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:42 +0000
Subject: [PATCH 41/56] fix: report a missing closing quote in ksflatten
 instead of a traceback

---
 tools/ksflatten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/ksflatten.py b/tools/ksflatten.py
index 331ea2d..b49ede8 100755
--- a/tools/ksflatten.py
+++ b/tools/ksflatten.py
@@ -57,7 +57,7 @@ def main(argv=None):
         ksparser.readKickstart(opts.kscfg)
     except IOError as msg:
         return (1, _("Failed to read kickstart file '%(filename)s' : %(error_msg)s") % {"filename": opts.kscfg, "error_msg": msg})
-    except pykickstart.errors.KickstartError as e:
+    except (pykickstart.errors.KickstartError, ValueError) as e:
         return (1, _("Failed to parse kickstart file '%(filename)s' : %(error_msg)s") % {"filename": opts.kscfg, "error_msg": e})
 
     if opts.output:
-- 
2.43.0


From ffb3c079e70a9ff9a56fe0bf766226b1ecd65e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:33 +0000
Subject: [PATCH 42/56] fix: do not end a line at a form feed or a Unicode
 separator

---
 pykickstart/load.py    | 7 +++++++
 pykickstart/parser.py  | 8 ++++----
 pykickstart/version.py | 4 ++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index 3aee40c..02b89be 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -17,6 +17,7 @@
 # subject to the GNU General Public License and may only be used or replicated
 # with the express permission of Red Hat, Inc.
 #
+import re
 import requests
 import shutil
 import six
@@ -29,6 +30,12 @@ _is_url = lambda location: '://' in location  # RFC 3986
 
 SSL_VERIFY = True
 
+def split_lines(s):
+    '''Split a string into lines which keep their ends.
+    Unlike str.splitlines, this leaves alone the characters which are not the
+    end of a line in a text file, like form feeds or Unicode separators.'''
+    return re.findall(r"[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+", s)
+
 def load_to_str(location):
     '''Load a destination URL or file into a string.
     Type of input is inferred automatically.
diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index c22d265..9204be9 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -49,7 +49,7 @@ from six.moves import shlex_quote
 from pykickstart import constants, version
 from pykickstart.errors import KickstartError, KickstartParseError, KickstartParseWarning
 from pykickstart.ko import KickstartObject
-from pykickstart.load import load_to_str
+from pykickstart.load import load_to_str, split_lines
 from pykickstart.options import KSOptionParser
 from pykickstart.sections import PackageSection, PreScriptSection, PreInstallScriptSection, \
                                  PostScriptSection, TracebackScriptSection, OnErrorScriptSection, \
@@ -117,7 +117,7 @@ def preprocessFromStringToString(s):
        need to be fetched before the real kickstart parser can be run.
        Returns the complete kickstart file as a string.
     """
-    i = iter(s.splitlines(True) + [""])
+    i = iter(split_lines(s) + [""])
     return _preprocessStateMachine(i)
 
 def preprocessKickstartToString(f):
@@ -131,7 +131,7 @@ def preprocessKickstartToString(f):
     except KickstartError as e:
         raise KickstartError(_("Unable to open input kickstart file: %s") % str(e), lineno=0)
 
-    return _preprocessStateMachine(iter(contents.splitlines(True)))
+    return _preprocessStateMachine(iter(split_lines(contents)))
 
 def preprocessFromString(s):
     """Preprocess the kickstart file, provided as the string s.  This
@@ -841,7 +841,7 @@ class KickstartParser(object):
         # Add a "" to the end of the list so the string reader acts like the
         # file reader and we only get StopIteration when we're after the final
         # line of input.
-        i = PutBackIterator(s.splitlines(True) + [""])
+        i = PutBackIterator(split_lines(s) + [""])
         self._stateMachine(i)
 
     def readKickstart(self, f, reset=True):
diff --git a/pykickstart/version.py b/pykickstart/version.py
index 15752af..ca256ef 100644
--- a/pykickstart/version.py
+++ b/pykickstart/version.py
@@ -52,7 +52,7 @@ import importlib
 from pykickstart.i18n import _
 
 from pykickstart.errors import KickstartVersionError
-from pykickstart.load import load_to_str
+from pykickstart.load import load_to_str, split_lines
 
 # Symbolic names for internal version numbers.
 RHEL3 = 900
@@ -177,7 +177,7 @@ def versionFromFile(f):
 
     contents = load_to_str(f)
 
-    for line in contents.splitlines(True):
+    for line in split_lines(contents):
         if line.strip() == "":
             continue
 
-- 
2.43.0


From 4d046f804c67906c90e483d8f20e415c4240e818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:33 +0000
Subject: [PATCH 43/56] fix: read a kickstart file from a URL like one from a
 disk

---
 pykickstart/load.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index 02b89be..ebfbbcb 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -17,6 +17,7 @@
 # subject to the GNU General Public License and may only be used or replicated
 # with the express permission of Red Hat, Inc.
 #
+import io
 import re
 import requests
 import shutil
@@ -67,7 +68,7 @@ def load_to_file(location, destination):
 
         # Write to file
         try:
-            with open(destination, 'w') as fh:
+            with io.open(destination, 'w', encoding="utf-8", newline="") as fh:
                 fh.write(contents)
         except IOError as e:
             raise KickstartError(_('Error writing file "%s":') % location + ': {e}'.format(e=str(e)))
@@ -90,7 +91,15 @@ def _load_url(location):
     if request.status_code != requests.codes.ok:        # pylint: disable=no-member
         raise KickstartError(_('Error accessing URL "%s"') % location + ': {c}'.format(c=str(request.status_code)))
 
-    return request.text
+    # A kickstart file is UTF-8, unless the server says it is something else.
+    encoding = "utf-8"
+    if "charset" in request.headers.get("content-type", "").lower() and request.encoding:
+        encoding = request.encoding
+
+    try:
+        return request.content.decode(encoding)
+    except (UnicodeDecodeError, LookupError) as e:
+        raise KickstartError(_('Error accessing URL "%s"') % location + ': {e}'.format(e=str(e)))
 
 def _load_file(filename):
     '''Load a file's contents and return them as a string'''
-- 
2.43.0


From a2073ef22ec111e1be58e9045b42bf54f68e51d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:41 +0000
Subject: [PATCH 44/56] fix: report a URL with a wrong host name as a
 KickstartError

---
 pykickstart/load.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index ebfbbcb..adafae4 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -85,7 +85,8 @@ def _load_url(location):
         request = requests.get(location, verify=SSL_VERIFY)
     except SSLError as e:
         raise KickstartError(_('Error securely accessing URL "%s"') % location + ': {e}'.format(e=str(e)))
-    except RequestException as e:
+    except (RequestException, ValueError) as e:
+        # some wrong URLs are a ValueError only, as for a too long host name
         raise KickstartError(_('Error accessing URL "%s"') % location + ': {e}'.format(e=str(e)))
 
     if request.status_code != requests.codes.ok:        # pylint: disable=no-member
-- 
2.43.0


From 919e3eecee12d8aa53fe0a49f271bde3485e2d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:19 +0000
Subject: [PATCH 45/56] fix: read auth, authselect and realm with a quoted name
 like without

---
 pykickstart/commands/authconfig.py | 3 ++-
 pykickstart/commands/authselect.py | 3 ++-
 pykickstart/commands/realm.py      | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/authconfig.py b/pykickstart/commands/authconfig.py
index 0400f93..b8a35d3 100644
--- a/pykickstart/commands/authconfig.py
+++ b/pykickstart/commands/authconfig.py
@@ -43,7 +43,8 @@ class FC3_Authconfig(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self.authconfig = self.currentLine.strip()[len(self.currentCmd):].strip()
+        # The name of the command may be quoted, so do not rely on its length.
+        self.authconfig = " ".join(self.currentLine.split(None, 1)[1:]).strip()
         return self
 
     def _getParser(self):
diff --git a/pykickstart/commands/authselect.py b/pykickstart/commands/authselect.py
index 372294b..171f22a 100644
--- a/pykickstart/commands/authselect.py
+++ b/pykickstart/commands/authselect.py
@@ -39,7 +39,8 @@ class F28_Authselect(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self.authselect = self.currentLine.strip()[len(self.currentCmd):].strip()
+        # The name of the command may be quoted, so do not rely on its length.
+        self.authselect = " ".join(self.currentLine.split(None, 1)[1:]).strip()
         return self
 
     def _getParser(self):
diff --git a/pykickstart/commands/realm.py b/pykickstart/commands/realm.py
index 6960a6f..9868884 100644
--- a/pykickstart/commands/realm.py
+++ b/pykickstart/commands/realm.py
@@ -97,7 +97,8 @@ class F19_Realm(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self._parseArguments(self.currentLine.strip()[len(self.currentCmd):].strip())
+        # The name of the command may be quoted, so do not rely on its length.
+        self._parseArguments(" ".join(self.currentLine.split(None, 1)[1:]))
         return self
 
     def _getParser(self):
-- 
2.43.0


From da8220f54b3edbe6f21bac52d1135fdd6b9eed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:19 +0000
Subject: [PATCH 46/56] fix: warn about --instLangs=VALUE like about
 --instLangs VALUE

---
 pykickstart/sections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 171a848..57001ec 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -788,7 +788,7 @@ class PackageSection(Section):
 
         for option, new_option in \
                 {"--instLangs": "--inst-langs", "--excludeWeakdeps": "--exclude-weakdeps"}.items():
-            if option in args:
+            if option in [arg.split("=", 1)[0] for arg in args]:
                 warnings.warn(_("The %(option)s option on line %(lineno)s will be deprecated in "
                                 "future releases. Please modify your kickstart file to replace "
                                 "this option with its preferred alias %(new_option)s.")
-- 
2.43.0


From 5959fb0bf1c3e6025ad7a6250226fb4b97ba2341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:22 +0000
Subject: [PATCH 47/56] fix: keep the ports given before firewall --http

---
 pykickstart/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/options.py b/pykickstart/options.py
index c3981e5..cf30c2b 100644
--- a/pykickstart/options.py
+++ b/pykickstart/options.py
@@ -112,7 +112,7 @@ class ExtendAction(Action):
 class ExtendConstAction(Action):
     def __call__(self, parser, namespace, values, option_string=None):
         if getattr(namespace, self.dest, None) is not None:
-            setattr(namespace, self.dest, self.const + values)
+            setattr(namespace, self.dest, getattr(namespace, self.dest) + self.const)
         else:
             setattr(namespace, self.dest, self.const)
 
-- 
2.43.0


From 34e420db0256532c62aa1199576424d645678697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:08 +0000
Subject: [PATCH 48/56] fix: pass the keyword arguments of the display mode
 command on

F26_DisplayMode handed its arguments to FC3_DisplayMode as two positional
ones, so displayMode given to the constructor was dropped.
---
 pykickstart/commands/displaymode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/displaymode.py b/pykickstart/commands/displaymode.py
index d02aaca..5e8ed4a 100644
--- a/pykickstart/commands/displaymode.py
+++ b/pykickstart/commands/displaymode.py
@@ -79,7 +79,7 @@ class F26_DisplayMode(FC3_DisplayMode):
     removedAttrs = KickstartCommand.removedAttrs
 
     def __init__(self, writePriority=0, *args, **kwargs):
-        FC3_DisplayMode.__init__(self, writePriority, args, kwargs)
+        FC3_DisplayMode.__init__(self, writePriority, *args, **kwargs)
         self.nonInteractive = kwargs.get("nonInteractive", False)
 
     def __str__(self):
-- 
2.43.0


From c7d1fab8e96ccf28c252a4042f0891079b8a19f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:08 +0000
Subject: [PATCH 49/56] fix: let the rescue command be constructed in rescue
 mode

rescue was the only attribute of the command the constructor did not accept,
and without it nothing is written.
---
 pykickstart/commands/rescue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/rescue.py b/pykickstart/commands/rescue.py
index b3ffaa1..493c753 100644
--- a/pykickstart/commands/rescue.py
+++ b/pykickstart/commands/rescue.py
@@ -32,7 +32,7 @@ class F10_Rescue(KickstartCommand):
         KickstartCommand.__init__(self, writePriority, *args, **kwargs)
         self.op = self._getParser()
 
-        self.rescue = False
+        self.rescue = kwargs.get("rescue", False)
         self.nomount = kwargs.get("nomount", False)
         self.romount = kwargs.get("romount", False)
 
-- 
2.43.0


From 47c23dd9f057ac594a97b687a4752d7c521a0839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:38 +0000
Subject: [PATCH 50/56] fix: let the realm command be constructed with its
 attributes

Unlike every other command, the constructor ignored its keyword arguments.
---
 pykickstart/commands/realm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/realm.py b/pykickstart/commands/realm.py
index 9868884..aa1f6a5 100644
--- a/pykickstart/commands/realm.py
+++ b/pykickstart/commands/realm.py
@@ -34,9 +34,9 @@ class F19_Realm(KickstartCommand):
 
     def __init__(self, writePriority=0, *args, **kwargs):
         KickstartCommand.__init__(self, writePriority, *args, **kwargs)
-        self.join_realm = None
-        self.join_args = []
-        self.discover_options = []
+        self.join_realm = kwargs.get("join_realm", None)
+        self.join_args = kwargs.get("join_args", [])
+        self.discover_options = kwargs.get("discover_options", [])
 
     def _parseArguments(self, string):
         if self.join_realm:
-- 
2.43.0


From 3847111e360aa904dc539b643e8621c2ed05aaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:38 +0000
Subject: [PATCH 51/56] fix: accept keyboard in the constructor of the keyboard
 command

The public attribute has been keyboard in all versions of the command; since
F18 the constructor silently ignored it.
---
 pykickstart/commands/keyboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/keyboard.py b/pykickstart/commands/keyboard.py
index 38d1fc2..4d9727b 100644
--- a/pykickstart/commands/keyboard.py
+++ b/pykickstart/commands/keyboard.py
@@ -65,7 +65,7 @@ class F18_Keyboard(FC3_Keyboard):
     def __init__(self, writePriority=0, *args, **kwargs):                # pylint: disable=super-init-not-called
         KickstartCommand.__init__(self, writePriority, *args, **kwargs)  # pylint: disable=non-parent-init-called
         self.op = self._getParser()
-        self._keyboard = kwargs.get("_keyboard", "")
+        self._keyboard = kwargs.get("_keyboard", kwargs.get("keyboard", ""))
         self.vc_keymap = kwargs.get("vc_keymap", "")
         self.x_layouts = kwargs.get("x_layouts", [])
         self.switch_options = kwargs.get("switch_options", [])
-- 
2.43.0


From 2c94c13b54d135a84cfae910ae66ba66fc2b3c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:00 +0000
Subject: [PATCH 52/56] fix: write the logging command when a program has set
 it up

A level or host assigned to the command, instead of parsed, was lost: only
parse() and the constructor said that there is something to write.
---
 pykickstart/commands/logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykickstart/commands/logging.py b/pykickstart/commands/logging.py
index 22e2e75..842f939 100644
--- a/pykickstart/commands/logging.py
+++ b/pykickstart/commands/logging.py
@@ -43,7 +43,8 @@ class FC6_Logging(KickstartCommand):
     def __str__(self):
         retval = KickstartCommand.__str__(self)
 
-        if self.level and self._level_provided:
+        # The attributes may have been set by a program as well as by parse().
+        if self.level and (self._level_provided or self.level != "info" or self.host):
             retval += "# Installation logging level\nlogging --level=%s" % self.level
 
             if self.host:
-- 
2.43.0


From 8adeb3fa03b5d947ebc7133a4479cad95b4e64e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:24 +0000
Subject: [PATCH 53/56] fix: set the line number of multipath data

The data object of a device had line number 0, only its paths had one.
---
 pykickstart/commands/multipath.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykickstart/commands/multipath.py b/pykickstart/commands/multipath.py
index 5ffc3e9..18f0897 100644
--- a/pykickstart/commands/multipath.py
+++ b/pykickstart/commands/multipath.py
@@ -101,6 +101,7 @@ class FC6_MultiPath(KickstartCommand):
 
         if parent is None:
             mpath = self.dataClass(name=dd.name)    # pylint: disable=not-callable
+            mpath.lineno = self.lineno
             mpath.paths.append(dd)
             return mpath
         else:
-- 
2.43.0


From f5f1be7021d286febf800bc595cd7dd605eb213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:24 +0000
Subject: [PATCH 54/56] fix: let hasCommand know all names of a command

Commands that go by another name than their class (part, auth, text, halt, ...)
were said not to exist.
---
 pykickstart/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index dd1aa97..844e20f 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -582,7 +582,7 @@ class BaseHandler(KickstartHandler):
 
     def hasCommand(self, cmd):
         """Return true if there is a handler for the string cmd."""
-        return hasattr(self, cmd)
+        return cmd in self.commands or hasattr(self, cmd)
 
 ###
 ### DATA
-- 
2.43.0


From 068212b472bf63a9dffb661e83ac0ab6908be86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 55/56] fix: do not write a telnet port as an option that is
 not there any more

firewall --port=telnet:tcp was written as --telnet, which since F10 takes
an argument and does nothing, and since F14 does not exist: the written
file was rejected.  Keep it a port there.
---
 pykickstart/commands/firewall.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pykickstart/commands/firewall.py b/pykickstart/commands/firewall.py
index 727ad21..26ff4fb 100644
--- a/pykickstart/commands/firewall.py
+++ b/pykickstart/commands/firewall.py
@@ -25,6 +25,9 @@ class FC3_Firewall(KickstartCommand):
     removedKeywords = KickstartCommand.removedKeywords
     removedAttrs = KickstartCommand.removedAttrs
 
+    # --telnet opens the telnet port
+    _writeTelnet = True
+
     def __init__(self, writePriority=0, *args, **kwargs):
         KickstartCommand.__init__(self, writePriority, *args, **kwargs)
         self.op = self._getParser()
@@ -49,7 +52,7 @@ class FC3_Firewall(KickstartCommand):
             for port in self.ports:
                 if port == "ssh:tcp":
                     extra.append(" --ssh")
-                elif port == "telnet:tcp":
+                elif port == "telnet:tcp" and self._writeTelnet:
                     extra.append(" --telnet")
                 elif port == "smtp:tcp":
                     extra.append(" --smtp")
@@ -159,6 +162,9 @@ class F10_Firewall(F9_Firewall):
     removedKeywords = F9_Firewall.removedKeywords
     removedAttrs = F9_Firewall.removedAttrs
 
+    # --telnet is deprecated and does nothing
+    _writeTelnet = False
+
     def __init__(self, writePriority=0, *args, **kwargs):
         F9_Firewall.__init__(self, writePriority, *args, **kwargs)
         self.services = kwargs.get("services", [])
-- 
2.43.0


From 8715fcae99d4dccdc8ae27d5739e427aa3411181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:35 +0000
Subject: [PATCH 56/56] fix: let remove_argument remove all names of an
 argument

The other names of a removed option were still accepted.
---
 pykickstart/options.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykickstart/options.py b/pykickstart/options.py
index cf30c2b..1518199 100644
--- a/pykickstart/options.py
+++ b/pykickstart/options.py
@@ -255,7 +255,9 @@ class KSOptionParser(ArgumentParser):
                 candidate.help = ""
             candidate.help += "\n\n    .. versionremoved:: %s" % versionToLongString(kwargs.pop("version"))
             self._remove_action(candidate)
-            self._option_string_actions.pop(arg)
+            # all names of the argument are gone
+            for option in candidate.option_strings:
+                self._option_string_actions.pop(option)
 
     def error(self, message):
         # Overridden to turn errors into KickstartParseErrors.
-- 
2.43.0

