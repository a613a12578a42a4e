From e16b9dba93003b9c223d29bc3d59bc0d00211afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:08 +0000
Subject: [PATCH 01/21] fix: dir2zip accepts files older than 1980

ZipInfo.from_file refuses them before the time stamp is replaced by the
clipped one.
---
 src/auditwheel/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index 639a065..aa31750 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -160,13 +160,13 @@ def dir2zip(
         for dname, _, files in walk(in_dir):
             if dname != in_dir:
                 out_dname = f"{dname.relative_to(in_dir)}/"
-                zinfo = zipfile.ZipInfo.from_file(dname, out_dname)
+                zinfo = zipfile.ZipInfo.from_file(dname, out_dname, strict_timestamps=False)
                 zinfo.date_time = date_time_args
                 z.writestr(zinfo, b"")
             for file in files:
                 fname = dname / file
                 out_fname = fname.relative_to(in_dir)
-                zinfo = zipfile.ZipInfo.from_file(fname, out_fname)
+                zinfo = zipfile.ZipInfo.from_file(fname, out_fname, strict_timestamps=False)
                 zinfo.date_time = date_time_args
                 zinfo.compress_type = compression
                 with fname.open("rb") as fp:
-- 
2.43.0


From 1d33168c81e05a7f756e360f9ec8b75b713ea41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 02/21] fix: expand $ORIGIN in directories with a backslash

The directory was used as a regular expression replacement template.
---
 src/auditwheel/lddtree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index af46a8e..bead398 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -252,7 +252,9 @@ def parse_ld_paths(str_ldpaths: str, path: str = "", root: str = "") -> list[str
             if not path:
                 msg = "can't expand $ORIGIN without a path"
                 raise ValueError(msg)
-            ldpath_ = re.sub(ORIGIN_RE, os.path.dirname(os.path.abspath(path)), ldpath)
+            origin = os.path.dirname(os.path.abspath(path))
+            # a function, as a backslash in a replacement string is an escape
+            ldpath_ = re.sub(ORIGIN_RE, lambda _: origin, ldpath)
         else:
             ldpath_ = root + ldpath
         ldpaths.append(normpath(ldpath_))
-- 
2.43.0


From aa9b28f110c908ef1185b8c350cc70d6de97bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 03/21] fix: read include lines of ld.so.conf as ldconfig does

The patterns follow after any blanks, there may be several, and the files
of a pattern are read in sorted order, not in directory order.
---
 src/auditwheel/lddtree.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index bead398..ad065e2 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -291,15 +291,17 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
                 line = input_line.split("#", 1)[0].strip()
                 if not line:
                     continue
-                if line.startswith("include "):
-                    line = line[8:]
-                    if line[0] == "/":
-                        line = root + line.lstrip("/")
-                    else:
-                        line = os.path.dirname(ldso_conf) + "/" + line
-                    log.debug("%s  glob: %s", dbg_pfx, line)
-                    for path in glob.glob(line):
-                        paths += parse_ld_so_conf(path, root=root, _first=False)
+                keyword, *patterns = line.split()
+                if keyword == "include" and patterns:
+                    for pattern in patterns:
+                        if pattern[0] == "/":
+                            pattern = root + pattern.lstrip("/")
+                        else:
+                            pattern = os.path.dirname(ldso_conf) + "/" + pattern
+                        log.debug("%s  glob: %s", dbg_pfx, pattern)
+                        # like ldconfig, in sorted order
+                        for path in sorted(glob.glob(pattern)):
+                            paths += parse_ld_so_conf(path, root=root, _first=False)
                 else:
                     paths += [normpath(root + line)]
     except OSError as e:
-- 
2.43.0


From 9ac77603c47680347e6a876f233023fc25e9e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 04/21] fix: do not add to the cached result of
 parse_ld_so_conf

---
 src/auditwheel/lddtree.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index ad065e2..5da25a7 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -378,9 +378,14 @@ def load_ld_paths(
                 ldpaths["conf"].append(root + ldpath_stripped)
     else:
         # Load up /etc/ld.so.conf.
-        ldpaths["conf"] = parse_ld_so_conf(root + prefix + "/etc/ld.so.conf", root=root)
-        # the trusted directories are not necessarily in ld.so.conf
-        ldpaths["conf"].extend(["/lib", "/lib64/", "/usr/lib", "/usr/lib64"])
+        ldpaths["conf"] = [
+            *parse_ld_so_conf(root + prefix + "/etc/ld.so.conf", root=root),
+            # the trusted directories are not necessarily in ld.so.conf
+            "/lib",
+            "/lib64/",
+            "/usr/lib",
+            "/usr/lib64",
+        ]
     log.debug("linker ldpaths: %s", ldpaths)
     return ldpaths
 
-- 
2.43.0


From f82fe951aeb49818df23b69481f9b986c69f4a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 05/21] fix: entries of ld-musl-*.path may be separated by
 newlines

---
 src/auditwheel/lddtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 5da25a7..bd988c2 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -371,7 +371,7 @@ def load_ld_paths(
             ]
         else:
             ldpaths["conf"] = []
-            for ldpath in ld_musl[0].read_text().split(":"):
+            for ldpath in re.split("[:\n]", ld_musl[0].read_text()):
                 ldpath_stripped = ldpath.strip()
                 if ldpath_stripped == "":
                     continue
-- 
2.43.0


From 0d7442050f85d78dbabaf2fe12b54f1a1453f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:49 +0000
Subject: [PATCH 06/21] fix: clear_rpath forgets a run path set before it

---
 src/auditwheel/patcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/patcher.py b/src/auditwheel/patcher.py
index e2e9d28..5717869 100644
--- a/src/auditwheel/patcher.py
+++ b/src/auditwheel/patcher.py
@@ -74,7 +74,9 @@ class ElfPatcher:
         return self.get_rpath_direct(file_name)
 
     def clear_rpath(self, file_name: Path) -> None:
-        self._update_for(file_name).clear_rpath = True
+        update_info = self._update_for(file_name)
+        update_info.rpath = None
+        update_info.clear_rpath = True
 
     def update_elf_path(self, old_file_name: Path, new_file_name: Path) -> None:
         old_key = old_file_name.resolve(strict=True)
-- 
2.43.0


From 2d426c98650c4c2a6101e1fe0bc88ea58b3b7cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:11 +0000
Subject: [PATCH 07/21] fix: names of apk packages may have dashes in them

---
 src/auditwheel/_vendor/whichprovides/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index fa3e3fe..5cd1c83 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -18,7 +18,9 @@ __all__ = ["ProvidedBy", "whichprovides"]
 __version__ = "0.4.0"
 
 _OS_RELEASE_LINES_RE = re.compile(r"^([A-Z_]+)=(?:\"([^\"]*)\"|(.*))$", re.MULTILINE)
-_APK_WHO_OWNS_RE = re.compile(r" is owned by ([^\s\-]+)-([^\s]+)$", re.MULTILINE)
+_APK_WHO_OWNS_RE = re.compile(
+    r" is owned by ([^\s]+?)-(\d[^\s\-]*(?:-r\d+)?)$", re.MULTILINE
+)
 _DPKG_SEARCH_RE = re.compile(r"^([^:]+):")
 _DPKG_VERSION_RE = re.compile(r"^Version: ([^\s]+)", re.MULTILINE)
 _APT_FILE_SEARCH_RE = re.compile(r"^([^:]+): (.+)$", re.MULTILINE)
-- 
2.43.0


From 36926b1f4d67789698f02d4f774aa5e99f7d9561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:11 +0000
Subject: [PATCH 08/21] fix: pass over what apt-file finds besides the given
 files

---
 src/auditwheel/_vendor/whichprovides/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index 5cd1c83..ad5d70c 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -275,6 +275,9 @@ class AptFilePackageProvider(PackageProvider):
                 ),
             ).decode()
             for package_name, filepath in _APT_FILE_SEARCH_RE.findall(stdout):
+                # apt-file also lists the paths a given path is only a part of
+                if filepath not in filepaths:
+                    continue
                 stdout = subprocess.check_output(
                     [apt_bin, "show", package_name],
                     stderr=subprocess.DEVNULL,
-- 
2.43.0


From 873f8d3752769398211281ff7e0f70cd27b5295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 09/21] fix: a RUNPATH of missing directories still disables
 the RPATH

---
 src/auditwheel/lddtree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index bd988c2..8c748a5 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -539,6 +539,7 @@ def ldd(
                 break
 
         # Parse the ELF's dynamic tags.
+        has_runpath = False
         for segment in elf.iter_segments():
             if not isinstance(segment, DynamicSegment):
                 continue
@@ -546,11 +547,13 @@ def ldd(
                 if t.entry.d_tag == "DT_RPATH":
                     rpaths = parse_ld_paths(t.rpath, path=str(path), root=root)  # type: ignore[attr-defined]
                 elif t.entry.d_tag == "DT_RUNPATH":
+                    has_runpath = True
                     runpaths = parse_ld_paths(t.runpath, path=str(path), root=root)  # type: ignore[attr-defined]
                 elif t.entry.d_tag == "DT_NEEDED":
                     needed.append(t.needed)  # type: ignore[attr-defined]
-            if runpaths:
-                # If both RPATH and RUNPATH are set, only the latter is used.
+            if has_runpath:
+                # If both RPATH and RUNPATH are set, only the latter is used,
+                # even if it has no existing directory.
                 rpaths = []
 
             # We assume there is only one PT_DYNAMIC.  This is
-- 
2.43.0


From 27889e9328266af958491424ed6287e01886df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 10/21] fix: pass over what is not an ELF file when looking for
 a library

---
 src/auditwheel/lddtree.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 8c748a5..7fef353 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -23,6 +23,7 @@ from dataclasses import dataclass
 from fnmatch import fnmatch
 from pathlib import Path
 
+from elftools.common.exceptions import ELFError
 from elftools.elf.constants import E_FLAGS
 from elftools.elf.dynamic import DynamicSegment
 from elftools.elf.elffile import ELFFile
@@ -432,9 +433,14 @@ def find_lib(
         path = os.path.join(ldpath, lib)
         target = Path(readlink(path, root, prefixed=True))
 
-        if target.exists():
+        if target.is_file():
             with open(target, "rb") as f:
-                libelf = ELFFile(f)
+                try:
+                    libelf = ELFFile(f)
+                except ELFError:
+                    # e.g. a linker script
+                    log.debug("ignoring %s: not an ELF file", path)
+                    continue
                 if platform.is_compatible(_get_platform(libelf)):
                     return target, path
 
-- 
2.43.0


From 3225b6556b7f65f25756d39c29e38c3bb02354dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 11/21] fix: looking for a library does not end at a cycle of
 symbolic links

---
 src/auditwheel/lddtree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 7fef353..e798dc3 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -40,6 +40,9 @@ __all__ = ["LIBPYTHON_RE", "DynamicExecutable", "DynamicLibrary", "ldd"]
 # Regex to match libpython shared library names
 LIBPYTHON_RE = re.compile(r"^libpython\d+\.\d+m?.so(\.\d)*$")
 
+# Like the kernel, give up after that many symbolic links: it must be a cycle.
+_MAX_LINKS = 40
+
 # Regex to match ORIGIN references in rpaths.
 ORIGIN_RE = re.compile(r"\$(ORIGIN|\{ORIGIN\})")
 
@@ -207,7 +210,9 @@ def readlink(path: str, root: str, *, prefixed: bool = False) -> str:
     if prefixed:
         path = path[len(root) :]
 
-    while os.path.islink(root + path):
+    for _ in range(_MAX_LINKS):
+        if not os.path.islink(root + path):
+            break
         path = os.path.join(os.path.dirname(path), os.readlink(root + path))
 
     return normpath((root + path) if prefixed else path)
-- 
2.43.0


From 184e59656b12fd0f992cccea6fef42944c4711a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 12/21] fix: a relative link in a linked directory starts from
 the real directory

---
 src/auditwheel/lddtree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index e798dc3..d82a623 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -213,7 +213,11 @@ def readlink(path: str, root: str, *, prefixed: bool = False) -> str:
     for _ in range(_MAX_LINKS):
         if not os.path.islink(root + path):
             break
-        path = os.path.join(os.path.dirname(path), os.readlink(root + path))
+        dirname, target = os.path.dirname(path), os.readlink(root + path)
+        if not root and ".." in target.split("/"):
+            # the parent directory is that of the real directory
+            dirname = os.path.realpath(dirname)
+        path = os.path.join(dirname, target)
 
     return normpath((root + path) if prefixed else path)
 
-- 
2.43.0


From 48ec27ba14346c2dbc1fa2f881af137b6166d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 13/21] fix: a library whose soname another library has too is
 patched after grafting

Two files of a wheel may find different libraries under one soname.  Both
copies are grafted, but only the last one had its own dependencies renamed
and its run path set.
---
 src/auditwheel/repair.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index b9ca254..8b6b3f7 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -46,6 +46,8 @@ def repair_wheel(
         return None
 
     soname_map: dict[str, tuple[str, Path]] = {}
+    # not all of them are in soname_map: a soname may resolve to different libraries
+    grafted_paths: list[Path] = []
 
     out_dir = out_dir.resolve(strict=True)
     wheel_fname = wheel_path.name
@@ -98,6 +100,8 @@ def repair_wheel(
                 sbom_filepaths.append(src_path)
                 new_soname, new_path = copylib(src_path, dest_dir, patcher)
                 soname_map[soname] = (new_soname, new_path)
+                if new_path not in grafted_paths:
+                    grafted_paths.append(new_path)
                 replacements.append((soname, new_soname))
             if replacements:
                 patcher.replace_needed(fn, *replacements)
@@ -116,7 +120,7 @@ def repair_wheel(
         # we need to update those records so each now knows about the new
         # name of the other.
         # we also clear or set RPATH depending on the presence of internal dependencies
-        for _, path in soname_map.values():
+        for path in grafted_paths:
             needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
             replacements = []
             for n in needed:
@@ -131,9 +135,8 @@ def repair_wheel(
         # strip before applying ELF patches to reduce chances of an invalid ELF being produced
         # as seen in https://github.com/pypa/auditwheel/issues/716
         if strip:
-            libs_to_strip = [path for (_, path) in soname_map.values()]
             extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
-            strip_symbols(itertools.chain(libs_to_strip, extensions))
+            strip_symbols(itertools.chain(grafted_paths, extensions))
 
         patcher.apply_updates()
 
-- 
2.43.0


From 3759a4238107f583a4e3eb2e522027ca5e8d1861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 14/21] fix: a failed repair doesn't write a wheel

Leaving the context of a wheel after an error packed what was there, over a
wheel of that name, and an error while packing left an incomplete wheel and
the temporary directory behind.
---
 src/auditwheel/wheeltools.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 0ac4c3a..f5df884 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -137,14 +137,23 @@ class InWheel(InTemporaryDirectory):
         value: BaseException | None,
         tb: TracebackType | None,
     ) -> None:
-        if self.out_wheel is not None:
-            rewrite_record(self.name)
-            date_time = None
-            timestamp = os.environ.get("SOURCE_DATE_EPOCH")
-            if timestamp:
-                date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
-            dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
-        return super().__exit__(exc, value, tb)
+        try:
+            # there's nothing worth writing when processing the wheel failed
+            if exc is None and self.out_wheel is not None:
+                rewrite_record(self.name)
+                date_time = None
+                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
+                if timestamp:
+                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
+                # don't leave an incomplete wheel behind if packing fails
+                packed = self.out_wheel.with_name(f"{self.out_wheel.name}.tmp")
+                try:
+                    dir2zip(self.name, packed, self.zip_compression_level, date_time)
+                    packed.replace(self.out_wheel)
+                finally:
+                    packed.unlink(missing_ok=True)
+        finally:
+            super().__exit__(exc, value, tb)
 
 
 class InWheelCtx(InWheel):
-- 
2.43.0


From 7996a531427982815197a37f17ffe78085a956d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 15/21] fix: an alias requested as platform has its grafts
 counted as for the policy's name

---
 src/auditwheel/wheel_abi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index b377e3a..3db0e03 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -500,7 +500,10 @@ def analyze_wheel_abi(
             (
                 len(e.libs)
                 for e in external_refs.values()
-                if e.policy.name.startswith(f"{requested_policy_base_name}_")
+                if any(
+                    name.startswith(f"{requested_policy_base_name}_")
+                    for name in (e.policy.name, *e.policy.aliases)
+                )
             ),
             default=0,
         )
-- 
2.43.0


From fd2edab8fffc0e0eded3aef9c1ea800711ac4eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 16/21] fix: the symbols of every library grafted under one
 soname count for the tag

---
 src/auditwheel/wheel_abi.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index 3db0e03..f402e39 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -305,14 +305,17 @@ def get_versioned_symbols(libs: dict[Path, str]) -> dict[str, dict[str, set[str]
     :return: {soname: {depname: set([symbol_version])}} e.g.
     {'external_ref.so.1': {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}}
     """
-    result = {}
+    result: dict[str, dict[str, set[str]]] = {}
     for path, elf in elf_file_filter(libs.keys()):
         # {depname: set(symbol_version)}, e.g. {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}
-        elf_versioned_symbols: dict[str, set[str]] = defaultdict(set)
+        # different files of the wheel may find different libraries of one soname
+        elf_versioned_symbols: dict[str, set[str]] = result.setdefault(
+            libs[path],
+            defaultdict(set),
+        )
         for key, value in elf_find_versioned_symbols(elf):
             log.debug("path %s, key %s, value %s", path, key, value)
             elf_versioned_symbols[key].add(value)
-        result[libs[path]] = elf_versioned_symbols
     return result
 
 
@@ -461,6 +464,8 @@ def analyze_wheel_abi(
     log.debug(json.dumps(external_refs))
 
     external_libs = get_external_libs(external_refs)
+    for fn in elftree_by_fn:
+        external_libs = {**get_external_libs(external_refs_by_fn[fn]), **external_libs}
     external_versioned_symbols = get_versioned_symbols(external_libs)
     symbol_policies = get_symbol_policies(
         policies,
-- 
2.43.0


From 3288599a8f68b73277c26fa463a9e9f0d34ed54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 17/21] fix: a library whose file name has no dot can be
 grafted

---
 src/auditwheel/repair.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index 8b6b3f7..cbb8229 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -177,8 +177,8 @@ def copylib(src_path: Path, dest_dir: Path, patcher: ElfPatcher) -> tuple[str, P
         shorthash = hashfile(f)[:8]
 
     src_name = src_path.name
-    base, ext = src_name.split(".", 1)
-    new_soname = f"{base}-{shorthash}.{ext}" if not base.endswith(f"-{shorthash}") else src_name
+    base, dot, ext = src_name.partition(".")
+    new_soname = f"{base}-{shorthash}{dot}{ext}" if not base.endswith(f"-{shorthash}") else src_name
 
     dest_path = dest_dir / new_soname
     if dest_path.exists():
-- 
2.43.0


From 12c6906ad0999896445ac6676f36c99ceaad7227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 18/21] fix: a platform that is added is not removed from the
 WHEEL tags

repair --plat linux_* of a wheel that qualifies for more adds linux_* and
replaces it: the filename kept it, the metadata lost it.
---
 src/auditwheel/wheeltools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index f5df884..1ef7564 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -227,7 +227,8 @@ def add_platforms(
         msg = "This function should be called from wheel_ctx context manager"
         raise ValueError(msg)
 
-    to_remove = list(remove_platforms)  # we might want to modify this, make a copy
+    # a platform that's added stays, even if it's also to be replaced
+    to_remove = [tag for tag in remove_platforms if tag not in platforms]
 
     definitely_not_purelib = False
 
-- 
2.43.0


From c717d6ff1d4d2b86b0e7617a0be1652f3cbbe9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 19/21] fix: remove libpython from grafted libraries too

A wheel's own files lose their dependency on libpython, but a library that
is grafted into the wheel kept it, so the repaired wheel still needed
libpython and did not qualify for its own tag.
---
 src/auditwheel/repair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index cbb8229..fe06ac7 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -48,6 +48,7 @@ def repair_wheel(
     soname_map: dict[str, tuple[str, Path]] = {}
     # not all of them are in soname_map: a soname may resolve to different libraries
     grafted_paths: list[Path] = []
+    removed_sonames: set[str] = set()
 
     out_dir = out_dir.resolve(strict=True)
     wheel_fname = wheel_path.name
@@ -86,6 +87,7 @@ def repair_wheel(
                         str(fn),
                     )
                     patcher.remove_needed(fn, soname)
+                    removed_sonames.add(soname)
                     continue
 
                 if src_path is None:
@@ -126,6 +128,8 @@ def repair_wheel(
             for n in needed:
                 if n in soname_map:
                     replacements.append((n, soname_map[n][0]))
+                elif n in removed_sonames:
+                    patcher.remove_needed(path, n)
             if replacements:
                 patcher.set_rpath(path, "$ORIGIN")
                 patcher.replace_needed(path, *replacements)
-- 
2.43.0


From e55146c66625a4d4fdf38b2c9e36bc3ec1943965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 20/21] fix: the order of an SBOM's components does not depend
 on the hash seed

---
 src/auditwheel/sboms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/sboms.py b/src/auditwheel/sboms.py
index 5d0c049..18b52a1 100644
--- a/src/auditwheel/sboms.py
+++ b/src/auditwheel/sboms.py
@@ -67,7 +67,8 @@ def create_sbom_for_wheel(
         "dependencies": sbom_dependencies,
     }
 
-    for filepath, provided_by in sbom_packages.items():
+    # the order of sbom_packages isn't reproducible
+    for filepath, provided_by in sorted(sbom_packages.items(), key=lambda item: item[0]):
         bom_ref = (
             provided_by.purl + f"#{hashlib.sha256(filepath.encode(errors='ignore')).hexdigest()}"
         )
-- 
2.43.0


From 0678724d217df0a1e776165273c15fbaca8e824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 21/21] fix: show prints symbol versions in a fixed order

---
 src/auditwheel/main_show.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/main_show.py b/src/auditwheel/main_show.py
index c4ab150..3e5c50e 100644
--- a/src/auditwheel/main_show.py
+++ b/src/auditwheel/main_show.py
@@ -127,7 +127,11 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
 
     policies = winfo.policies
 
-    libs_with_versions = [f"{k} with versions {v}" for k, v in winfo.versioned_symbols.items()]
+    # sets have no order, what's printed should have one
+    libs_with_versions = [
+        f"{k} with versions {{{', '.join(repr(version) for version in sorted(v))}}}"
+        for k, v in sorted(winfo.versioned_symbols.items())
+    ]
 
     printp(
         f'{fn} is consistent with the following platform tag: "{winfo.overall_policy.name}".',
-- 
2.43.0

