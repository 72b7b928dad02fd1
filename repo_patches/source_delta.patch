From 39349e6777b3c518bb21e7f3363cbc2c84b6777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:33 +0000
Subject: [PATCH 01/19] fix: an action that raises is a failed step, the build
 no longer hangs

---
 licant/solver.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/licant/solver.py b/licant/solver.py
index 90debb6..e8dfd49 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -1,6 +1,7 @@
 import asyncio
 from licant.util import invert_depends_dictionary, red
 import contextlib
+import traceback
 
 
 class DependableTarget:
@@ -13,7 +14,11 @@ class DependableTarget:
         self._is_done = False
 
     def doit_impl(self):
-        a = self.what_to_do(*self.args, **self.kwargs)
+        try:
+            a = self.what_to_do(*self.args, **self.kwargs)
+        except Exception:
+            traceback.print_exc()
+            a = False
         return a
 
     async def doit(self):
@@ -123,8 +128,10 @@ class TaskInvoker:
                 if self.trace:
                     print(f"[Trace] thread:{no} do task: {task.name()}")
 
-                result = await task.doit()
-                self.queue.task_done()
+                try:
+                    result = await task.doit()
+                finally:
+                    self.queue.task_done()
 
                 if (self.error_while_execution):
                     break
-- 
2.43.0


From c79d62afcdfa94a23eaadd69ee4c428c609b9afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:01 +0000
Subject: [PATCH 02/19] fix: a file target may depend on a target that is not a
 file

---
 licant/make.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index c312d6d..90bd7b9 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -107,6 +107,8 @@ class MakeFileTarget(UpdatableTarget):
         maxtime = 0
         for d in self.deps:
             dtgt = self.core.get(d)
+            if not dtgt.is_file():
+                continue
             mtime = dtgt.mtime()
             if mtime is not None and mtime > maxtime:
                 maxtime = mtime
@@ -167,9 +169,8 @@ class FileTarget(MakeFileTarget):
 
         maxtime = 0
         for dep in self.get_deplist():
-            depmtime = dep.mtime()
-            if dep.is_file() and depmtime > maxtime:
-                maxtime = depmtime
+            if dep.is_file() and dep.mtime() > maxtime:
+                maxtime = dep.mtime()
 
         if maxtime > self.mtime():
             return True
-- 
2.43.0


From edb5bb375cbb7f0ed8bf09bc83e7242d7b8c1963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:01 +0000
Subject: [PATCH 03/19] fix: a command with much or non-UTF-8 output no longer
 hangs or breaks the build

---
 licant/make.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index 90bd7b9..95d85f0 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -45,13 +45,12 @@ def do_execute(target, rule, msgfield, prefix=None):
 
     proc = subprocess.Popen(
         rule, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
-    stdout = proc.stdout
-    stderr = proc.stderr
-    ret = proc.wait()
+    stdout, stderr = proc.communicate()
+    ret = proc.returncode
 
-    sprint(stdout.read().decode("utf-8"), end="")
+    sprint(stdout.decode("utf-8", "replace"), end="")
     sys.stdout.flush()
-    sprint(stderr.read().decode("utf-8"), end="")
+    sprint(stderr.decode("utf-8", "replace"), end="")
     sys.stderr.flush()
 
     if target.is_file():
-- 
2.43.0


From 9abbebe58075ca90cfc4f5f0bcffe6608925e9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:02 +0000
Subject: [PATCH 04/19] fix: an alias looked up once no longer hides a target
 registered later

---
 licant/core.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/licant/core.py b/licant/core.py
index 79fd5e6..61e3eed 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -89,8 +89,6 @@ class Core:
             return True
 
         if licant.util.canonical_path(tgt) in self._targets:
-            # access optimization by lazy technique
-            self._targets[tgt] = self._targets[licant.util.canonical_path(tgt)]
             return True
 
         return False
-- 
2.43.0


From 283273bca405ca57bd980450fa088721870e0cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:03 +0000
Subject: [PATCH 05/19] fix: command line arguments of an action are passed
 whole, not letter by letter

---
 licant/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/licant/cli.py b/licant/cli.py
index 4501b00..fb95458 100644
--- a/licant/cli.py
+++ b/licant/cli.py
@@ -112,13 +112,13 @@ def __cliexecute(args, default, core):
                 )
             )
 
-        return target.invoke(act, *args[2:], critical=True)
+        return target.invoke(act, args=args[2:], critical=True)
 
     # Try look up fnd in actions of default_target
     if default is not None:
         dtarget = core.get(default)
         if dtarget.hasaction(fnd):
-            return dtarget.invoke(fnd, *args[1:], critical=True)
+            return dtarget.invoke(fnd, args=args[1:], critical=True)
 
     # Can't look fnd.
     licant.util.error(
-- 
2.43.0


From 3cc78879c6f3308c5b0c0acc4e114b806d2fb53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 06/19] fix: a failed build ends the command line with a
 nonzero exit status

---
 licant/cli.py  | 5 ++++-
 licant/core.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/licant/cli.py b/licant/cli.py
index fb95458..da386d5 100644
--- a/licant/cli.py
+++ b/licant/cli.py
@@ -150,9 +150,12 @@ def cliexecute(
         print("PRINT RUNTIME:", core.runtime)
 
     try:
-        __cliexecute(args, default=default, core=core)
+        result = __cliexecute(args, default=default, core=core)
     except KeyboardInterrupt:
         licant.util.error("interrupted by user")
 
+    if result is False:
+        exit(-1)
+
     if colorwrap:
         print(licant.util.yellow("[finish]"))
diff --git a/licant/core.py b/licant/core.py
index 61e3eed..b73f29a 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -418,7 +418,7 @@ class Routine(UpdatableTarget):
 
     def invoke_routine(self, *args, threads=1, **kwargs):
         self.args = list(args)
-        self.recurse_update(threads=threads)
+        return self.recurse_update(threads=threads)
 
 
 def routine(func=None, **kwargs):
-- 
2.43.0


From 2e065caa3debe3e3049fb188220931ddd962930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 07/19] fix: clean reaches the weak dependencies, so that
 uninstall removes the installed files

---
 licant/make.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/licant/make.py b/licant/make.py
index 95d85f0..c28ad2d 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -89,6 +89,7 @@ class MakeFileTarget(UpdatableTarget):
 
     def clean(self):
         stree = self.core.depends_as_set(self.tgt, incroot=True)
+        stree = sorted(set(stree).union(self.weakdeps))
         stree = [self.core.get(s) for s in stree]
 
         for target in stree:
-- 
2.43.0


From 4d37325287888827a29112cc553a9a37b3827e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:07 +0000
Subject: [PATCH 08/19] fix: licant-libs --remove removes the named library

---
 licant/licant_libs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/licant/licant_libs.py b/licant/licant_libs.py
index 4f46556..9e1fd1b 100644
--- a/licant/licant_libs.py
+++ b/licant/licant_libs.py
@@ -55,7 +55,7 @@ def licant_libs_utility():
         exit(0)
 
     if len(args) == 0:
-        parser.help()
+        parser.print_help()
         exit(0)
 
     path = None
@@ -75,6 +75,7 @@ def licant_libs_utility():
             add_record(name, path)
 
     if opts.remove:
+        name = args[0]
         try:
             del paths[name]
         except:
-- 
2.43.0


From b7d3962814f3ca5b62dfb13e29056c2c7732f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:08 +0000
Subject: [PATCH 09/19] fix: a routine lists its actions invoke_routine and
 update

---
 licant/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index b73f29a..d0a0ded 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -395,7 +395,7 @@ class UpdatableTarget(Target):
 
 class Routine(UpdatableTarget):
     __actions__ = {"recurse_update",
-                   "recurse_update_get_args", "invoke_routine" "update", "actlist"}
+                   "recurse_update_get_args", "invoke_routine", "update", "actlist"}
 
     def __init__(self,
                  func,
-- 
2.43.0


From f8ea8e995fee98ebb2e6ffb85ffddcfe8e467e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 10/19] fix: WrongAction can be printed

---
 licant/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index d0a0ded..2003077 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -15,7 +15,7 @@ class WrongAction(Exception):
         self.actname = actname
 
     def __str__(self):
-        return "WrongAction: obj:{} actname:{} class:{} dict:{self.obj.__dict__}".format(self.obj, self.actname, self.obj.__class__, self.obj.__dict__)
+        return "WrongAction: obj:{} actname:{} class:{} dict:{}".format(self.obj, self.actname, self.obj.__class__, self.obj.__dict__)
 
 
 class NoneDictionary(dict):
-- 
2.43.0


From 89a6062400c921c01ce1264b9ff972ba073a2c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 11/19] fix: a directory that appears during the build is not
 an error

---
 licant/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/make.py b/licant/make.py
index c28ad2d..646618e 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -75,7 +75,7 @@ class DirectoryKeeper():
     def __call__(self, target, **kwargs):
         print("MAKEDIRS", target.tgt)
         if not target.exists():
-            os.makedirs(target.tgt)
+            os.makedirs(target.tgt, exist_ok=True)
             target.update_info()
 
 
-- 
2.43.0


From fd2fcc5f1d2abca0354b9fcf3efd4a154673199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 12/19] fix: the objects of nested modules are linked, not the
 pair modmake returns

---
 licant/cxx_modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 0509ed3..fb3aa40 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -524,7 +524,7 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
         submodules_results = []
         # print(locopts["modules"])
         for smod in locopts["modules"]:
-            submodules_results += modmake(smod.name, smod.impl, locopts)
+            submodules_results += modmake(smod.name, smod.impl, locopts)[0]
 
         if locopts["type"] == "application":
             return ([executable(locobjs + submodules_results, locopts)], locopts)
-- 
2.43.0


From cf2f787d647927b981c09d28b8e0235a35de1207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:06 +0000
Subject: [PATCH 13/19] fix: modules that request each other explicitly no
 longer recurse without end

---
 licant/cxx_modules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index fb3aa40..e065bcf 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -348,6 +348,7 @@ def collect_modules(mod):
     mdepends_default = queue.Queue()
     mdepends = dict()
     included_from = dict()
+    visiting = []
 
     class SortKey:
         def __init__(self):
@@ -399,9 +400,11 @@ def collect_modules(mod):
 
                 specify_implementation(name=md[0], mod=nmod, incfrom=mod.name)
 
-                if "mdepends" in nmod.opts:
+                if "mdepends" in nmod.opts and nmod not in visiting:
                     # Сразу же выполняем обход по данному модулю
+                    visiting.append(nmod)
                     collect_modules(nmod)
+                    visiting.pop()
 
             else:
                 licant.error("Very strange mpdepend")
-- 
2.43.0


From 2230b435a142788bbad2dc28bd35e824a066ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:07 +0000
Subject: [PATCH 14/19] fix: the install path is looked up without failing or
 giving up on a found directory

---
 licant/install.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/licant/install.py b/licant/install.py
index 4a1ca26..c86efad 100644
--- a/licant/install.py
+++ b/licant/install.py
@@ -15,8 +15,9 @@ is_windows = sys.platform == 'win32'
 def find_application_path():
     global error_in_install_library
 
-    envout = os.environ["PATH"]
+    envout = os.environ.get("PATH", "")
     path_list = envout.split(":")
+    path = None
 
     if "PREFIX" in os.environ:
         return os.path.join(os.environ["PREFIX"], "bin")
@@ -37,7 +38,7 @@ def find_application_path():
             if "\\usr\\local\\bin" in p:
                 path = p
                 break
-        else:
+        if path is None:
             print("Warning: Install path not found")
             error_in_install_library = True
 
-- 
2.43.0


From 4df40fe2087944c445eb8801a4db77d5714b3d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:08 +0000
Subject: [PATCH 15/19] fix: copy and clean quote file names in the shell
 commands they run

---
 licant/make.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index 646618e..1519bf8 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -9,6 +9,7 @@ from licant.util import purple, quite
 import threading
 import os
 import time
+import shlex
 import subprocess
 import fcntl
 import sys
@@ -138,6 +139,7 @@ class FileTarget(MakeFileTarget):
         self.isfile = True
         self.force = force
         self.clrmsg = "DELETE {tgt}"
+        self.quoted_tgt = shlex.quote(tgt)
 
     def update_info(self):
         fcache.update_info(self.tgt)
@@ -161,7 +163,7 @@ class FileTarget(MakeFileTarget):
 
     def clr(self):
         """Delete this file."""
-        do_execute(self, "rm -f {tgt}", "clrmsg")
+        do_execute(self, "rm -f -- {quoted_tgt}", "clrmsg")
 
     def internal_update_if(self):
         if self.force or not self.is_exist():
@@ -249,8 +251,9 @@ def copy(tgt, src, adddeps=[], message="COPY {src} {tgt}", core=default_core()):
     core.add(
         FileTarget(
             tgt=tgt,
-            build=Executor("cp {src} {tgt}"),
+            build=Executor("cp -- {quoted_src} {quoted_tgt}"),
             src=src,
+            quoted_src=shlex.quote(src),
             deps=[src] + adddeps,
             message=message,
         )
@@ -336,8 +339,9 @@ class MakeCore(Core):
         self.source(src)
         return self.add(FileTarget(
             tgt=dst,
-            build=Executor("cp {src} {tgt}"),
+            build=Executor("cp -- {quoted_src} {quoted_tgt}"),
             src=src,
+            quoted_src=shlex.quote(src),
             deps=[src] + dirdeps + deps,
             use_dirkeep=False,
             message=message,
-- 
2.43.0


From 87285e96f1e6d21abf0d1e5c58ab37cf1553ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 16/19] fix: a file's state is recorded also when its action
 raises

---
 licant/make.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index 1519bf8..53343f0 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -180,9 +180,10 @@ class FileTarget(MakeFileTarget):
         return False
 
     def update(self):
-        sts = self.build(self)
-        self.update_info()
-        return sts
+        try:
+            return self.build(self)
+        finally:
+            self.update_info()
 
     def __lt__(self, other):
         return str(self) < str(other)
-- 
2.43.0


From 330b5a2758de8161711032745feb70a52c867232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:41 +0000
Subject: [PATCH 17/19] fix: the need for an update follows the dependencies as
 they are registered and declared now

---
 licant/core.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/licant/core.py b/licant/core.py
index 2003077..f3c3203 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -199,7 +199,6 @@ class Target:
 
         self.need_by_self = None
         self.need_by_deps = None
-        self.cached_deplist = None
 
     def to_name_if_needed(self, dep):
         if isinstance(dep, Target):
@@ -245,10 +244,7 @@ class Target:
             self.action(self)
 
     def get_deplist(self):
-        if self.cached_deplist is None:
-            self.cached_deplist = [self.core.get(d) for d in self.deps]
-
-        return self.cached_deplist
+        return [self.core.get(d) for d in self.deps]
 
     def actlist(self):
         print(licant.util.get_actions(self))
-- 
2.43.0


From 0fc2156de778d8bbcd4a9f1476941c5616009897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:15 +0000
Subject: [PATCH 18/19] fix: the include path of a module no longer leaks into
 its sibling modules

---
 licant/cxx_modules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index e065bcf..fece5b4 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -465,8 +465,8 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
 
         local_headers_targets = []
         if len(locopts["local_headers"]):
-            locopts["include_paths"].append(
-                locopts["builddir"] + "/__LOCAL_HEADERS__/")
+            locopts.opts["include_paths"] = locopts["include_paths"] + [
+                locopts["builddir"] + "/__LOCAL_HEADERS__/"]
             for pair in locopts["local_headers"]:
                 licant.make.source(pair[1])
                 tgtpath = os.path.join(
@@ -501,7 +501,7 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
             adddeps.extend(locuihxx)
 
             if uidir not in locopts.opts["include_paths"]:
-                locopts.opts["include_paths"].append(uidir)
+                locopts.opts["include_paths"] = locopts.opts["include_paths"] + [uidir]
 
             # Recompile with ui include path
             cxxopts = cxx_options_from_modopts(locopts)
-- 
2.43.0


From 09721dda97a283413fa64566017e23224c9e8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:29 +0000
Subject: [PATCH 19/19] fix: a program installed without a target name is
 copied, not shadowed by a set of itself

---
 licant/install.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/licant/install.py b/licant/install.py
index c86efad..41cea43 100644
--- a/licant/install.py
+++ b/licant/install.py
@@ -82,9 +82,9 @@ def install_application(src, dst, tgt=None):
         return None
 
     apptgt = os.path.join(path, dst)
-    if tgt is None:
-        tgt = apptgt
     licant.make.copy(tgt=apptgt, src=src)
+    if tgt is None:
+        return apptgt
     return licant.fileset(tgt=tgt, targets=[apptgt])
 
 
-- 
2.43.0

