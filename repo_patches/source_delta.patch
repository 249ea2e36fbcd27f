From 92e2314185bbb065c4a45db48964d8df6b9f9977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 01/29] fix: order dev releases of pre/post releases as PEP 440
 does

---
 pkm/src/pkm/api/versions/version.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 74b6711..83586fd 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -288,12 +288,11 @@ def _less(v1: Version, v2: Version) -> bool:
             continue
         return s < o
 
-    if v1.dev_release != v2.dev_release:
-        if (v1.dev_release is None) ^ (v2.dev_release is None):
-            return v2.dev_release is None
-
-        if v1.dev_release != v2.dev_release:
-            return v1.dev_release < v2.dev_release
+    # a development release that is neither of a pre- nor of a post-release precedes all of them
+    v1_dev_only = v1.dev_release is not None and v1.pre_release is None and v1.post_release is None
+    v2_dev_only = v2.dev_release is not None and v2.pre_release is None and v2.post_release is None
+    if v1_dev_only != v2_dev_only:
+        return v1_dev_only
 
     if v1.pre_release != v2.pre_release:
         if (v1.pre_release is None) ^ (v2.pre_release is None):
@@ -311,6 +310,13 @@ def _less(v1: Version, v2: Version) -> bool:
         if s != o:
             return s < o
 
+    if v1.dev_release != v2.dev_release:
+        if (v1.dev_release is None) ^ (v2.dev_release is None):
+            return v2.dev_release is None
+
+        if v1.dev_release != v2.dev_release:
+            return v1.dev_release < v2.dev_release
+
     my_local_segments = (v1.local_label or "").split('.')
     other_local_segments = (v2.local_label or "").split('.')
 
-- 
2.43.0


From 156d5813e5cba491f1e4ed8a7426f76597366a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 02/29] fix: compare numeric local version segments by value

---
 pkm/src/pkm/api/versions/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 83586fd..1f87780 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -326,7 +326,7 @@ def _less(v1: Version, v2: Version) -> bool:
 
         m_num, o_num = m.isnumeric(), o.isnumeric()
         if m_num and o_num:
-            return int(m_num) < int(o_num)
+            return int(m) < int(o)
         if m_num or o_num:
             return o_num
 
-- 
2.43.0


From 63308baa66084dff2c3fad966bdeed16e0414ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 03/29] fix: equal versions with implicit and explicit zero
 epoch hash alike

---
 pkm/src/pkm/api/versions/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 1f87780..d0fb0c0 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -134,7 +134,7 @@ class StandardVersion(Version):
 
     def __hash__(self):
         s = self.standartize()
-        return hash((s.release, s.epoch, s.dev_release, s.post_release, s.pre_release, s.local_label))
+        return hash((s.release, s.epoch or 0, s.dev_release, s.post_release, s.pre_release, s.local_label))
 
     def is_pre_or_dev_release(self) -> bool:
         return self.pre_release is not None or self.dev_release is not None
-- 
2.43.0


From 1c9a4901c6940b9d131c81d84c3e17846beb841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 04/29] fix: equal url versions hash alike

---
 pkm/src/pkm/api/versions/version.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index d0fb0c0..fde0f9a 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -64,6 +64,9 @@ class UrlVersion(Version):
     def __eq__(self, other) -> bool:
         return isinstance(other, UrlVersion) and self.protocol == other.protocol and self.url == other.url
 
+    def __hash__(self):
+        return hash((self.protocol, self.url))
+
     def __str__(self):
         if self._protocol:
             return self._protocol + "+" + self.url
-- 
2.43.0


From 2edf9f4cd1acbb7526261c7e518e9300ead3bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 05/29] fix: the union of a range with one it contains keeps
 the larger upper bound

---
 pkm/src/pkm/api/versions/version_specifiers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 18408b6..0a2fd3f 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -562,15 +562,18 @@ class StandardVersionRange(VersionSpecifier):
             return other._union_with(self)
 
         imin, imax = self.includes_min, other.includes_max
+        max_ = other.max
         if not other.min or not self.max or other.min < self.max:
             if self.min == other.min:
                 imin = self.includes_min or other.includes_min
             if self.max == other.max:
                 imax = self.includes_max or other.includes_max
+            elif not self.max or (other.max and other.max < self.max):
+                max_, imax = self.max, self.includes_max
         elif (not self.includes_max and not other.includes_min) or other.min != self.max:
             return VersionsUnion([self, other])
 
-        return VersionSpecifier.create_range(self.min, other.max, imin, imax)
+        return VersionSpecifier.create_range(self.min, max_, imin, imax)
 
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion, HetroVersionIntersection, VersionMatch)):
-- 
2.43.0


From cf72a84a434d8d1acb2f2722d7828e4130d16505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 06/29] fix: uniting two version unions leaves the second one
 unchanged

---
 pkm/src/pkm/api/versions/version_specifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 0a2fd3f..c70ae59 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -207,7 +207,7 @@ class VersionsUnion(VersionSpecifier):
             return other.union_with(self)
 
         new_segments = [*self.segments]
-        other_segments = other.segments if isinstance(other, VersionsUnion) else [other]
+        other_segments = [*other.segments] if isinstance(other, VersionsUnion) else [other]
 
         while other_segments:
             os = other_segments.pop()
-- 
2.43.0


From 95b3509a639c9f467c33a951d28207410eeb5c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 07/29] fix: a union whose segments merge into one no longer
 fails

---
 pkm/src/pkm/api/versions/version_specifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index c70ae59..b53204b 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -224,7 +224,7 @@ class VersionsUnion(VersionSpecifier):
             else:
                 new_segments.append(os)
 
-        return VersionsUnion(new_segments)
+        return VersionsUnion(new_segments) if len(new_segments) > 1 else new_segments[0]
 
     def intersect_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_AllowAll, _RestrictAll)):
-- 
2.43.0


From 45a7bbb205eb951aa706978e82bf6075778f2a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 08/29] fix: the union with an exclusion list allows what
 either operand allows

---
 .../pkm/api/versions/version_specifiers.py    | 34 +++++++------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index b53204b..b9a9355 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -263,27 +263,19 @@ class HetroVersionIntersection(VersionSpecifier):
             return other.union_with(self)
 
         if isinstance(other, HetroVersionIntersection):
-            standard_spec = self.standard_spec.union_with(other.standard_spec)
-            if len(other.blacklist.union(self.blacklist)) != len(self.blacklist):
-                return standard_spec
-
-            return HetroVersionIntersection.create(
-                self.blacklist if len(self.blacklist) < len(other.blacklist) else other.blacklist, standard_spec)
-
-        if isinstance(other, VersionMatch):
-            if isinstance(other.version, StandardVersion) and other.allow:
-                return HetroVersionIntersection.create(self.blacklist, self.standard_spec.union_with(other))
-
-            blacklist = set(self.blacklist)
-            if other.allow:
-                blacklist.remove(other.version)
-            else:
-                blacklist.add(other.version)
-
-            return HetroVersionIntersection.create(blacklist, self.standard_spec)
-
-        if isinstance(other, StandardVersionRange):
-            return HetroVersionIntersection.create(self.blacklist, self.standard_spec.union_with(other))
+            # a version stays excluded only if none of the two allows it
+            blacklist = {it for it in self.blacklist if not other.allows_version(it)}
+            blacklist.update(it for it in other.blacklist if not self.allows_version(it))
+            return HetroVersionIntersection.create(blacklist, self.standard_spec.union_with(other.standard_spec))
+
+        if isinstance(other, VersionMatch) and not other.allow:
+            return AllowAllVersions if self.allows_version(other.version) else other
+
+        if isinstance(other, (VersionMatch, StandardVersionRange)):
+            blacklist = {it for it in self.blacklist if not other.allows_version(it)}
+            if isinstance(other, VersionMatch) and not isinstance(other.version, StandardVersion):
+                return HetroVersionIntersection.create(blacklist, self.standard_spec)
+            return HetroVersionIntersection.create(blacklist, self.standard_spec.union_with(other))
 
         raise UnsupportedOperationException()
 
-- 
2.43.0


From 5b42a4ac60bf7bbbb062ef544be87d3f99c29e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 09/29] fix: parse the pre-release spellings alpha and beta

---
 pkm/src/pkm/api/versions/version_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 235a9f3..d4e2fb1 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -24,7 +24,7 @@ def parse_specifier(specifier_str: str) -> VersionSpecifier:
 
 
 _PRE_RELEASE_TYPE_NORMALIZER = {
-    'a': 'a', 'b': 'b', 'rc': 'rc', 'c': 'rc', 'alpha': 'a', 'beta': 'b', 'preview': 'rc'
+    'alpha': 'a', 'beta': 'b', 'preview': 'rc', 'a': 'a', 'b': 'b', 'rc': 'rc', 'c': 'rc'
 }
 
 
-- 
2.43.0


From a499e58faed820ced91c35e92327b0833362a07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 10/29] fix: parse the post-release spelling rev

---
 pkm/src/pkm/api/versions/version_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index d4e2fb1..6b9c187 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -60,7 +60,7 @@ class VersionParser(SimpleParser):
 
         if (prev := self.peek_prev()).isdigit() or prev in _PRE_RELEASE_TYPE_NORMALIZER:
             self.match_any('.', '-', '_')
-        if self.match_any('post', 'r', 'rev') or (self.peek_prev() == '-' and self.peek().isdigit()):
+        if self.match_any('post', 'rev', 'r') or (self.peek_prev() == '-' and self.peek().isdigit()):
             self.match('-')
             post_release = 0 if not self.peek().isdigit() else int(self.read_digits())
 
-- 
2.43.0


From 3f9f2f53d99b15bb1bb4d846b0710cb11aa52ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 11/29] fix: a sibling whose name extends the root's name is
 not inside the root

---
 pkm/src/pkm/utils/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index cef9a65..24d0742 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -276,7 +276,8 @@ def is_relative_to(path: Path, root: Path) -> bool:
     :param root: the path that may contain `path`
     """
 
-    return str(path.absolute()).startswith(str(root.absolute()))
+    path, root = path.absolute(), root.absolute()
+    return path == root or root in path.parents
 
 
 def dir_size(directory: Path) -> int:
-- 
2.43.0


From 2197e71795a37b68316a8238890064bea9cf7e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 12/29] fix: path_to terminates when the source lies at or
 below the destination

---
 pkm/src/pkm/utils/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index 24d0742..90c6727 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -51,7 +51,7 @@ def path_to(source: Path, destination: Path) -> Path:
     source = source.absolute()
     destination = destination.absolute()
 
-    destination_parents = set(destination.parents)
+    destination_parents = {destination, *destination.parents}
     p = source
     back = 0
     while p not in destination_parents:
-- 
2.43.0


From 3e826b534edcfbbec16dc909d0e03dd8b81ea053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 13/29] fix: copy_tree uses the given file copy at every level
 and keeps what it overwrites

---
 pkm/src/pkm/utils/files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index 90c6727..ceed67a 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -143,6 +143,8 @@ class CopyTransaction:
 
         if file_copy:
             def cp(s, d):
+                if d.exists():
+                    self.rm(d)
                 file_copy(s, d)
                 self.touch(d)
         else:
@@ -154,7 +156,7 @@ class CopyTransaction:
                 continue
 
             if file.is_dir():
-                self.copy_tree(file, target / file.name, accept)
+                self.copy_tree(file, target / file.name, accept, file_copy)
             else:
                 cp(file, target / file.name)
 
-- 
2.43.0


From 5f4699beb87f411b846fb154d50a3638818d2c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 14/29] fix: rolling a copy transaction back undoes its
 operations in reverse order

---
 pkm/src/pkm/utils/files.py | 50 ++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index ceed67a..d0270a2 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -5,7 +5,7 @@ import shutil
 from contextlib import contextmanager
 from pathlib import Path
 from tempfile import mkdtemp
-from typing import Optional, Callable, ContextManager, Iterator, List, Set
+from typing import Optional, Callable, ContextManager, Iterator, List, Set, Tuple
 
 from pkm.utils.commons import UnsupportedOperationException
 
@@ -127,6 +127,7 @@ class CopyTransaction:
     def __init__(self):
         self._copied_files: Set[Path] = set()
         self._overwritten_files: List[Path] = []  # source overwrite, temp location
+        self._undo_log: List[Tuple[Path, Optional[Path]]] = []  # created path, or removed path and its temp location
         self._temp_dir: Optional[Path] = None
 
     def copy_tree(self, source: Path, target: Path,
@@ -145,8 +146,8 @@ class CopyTransaction:
             def cp(s, d):
                 if d.exists():
                     self.rm(d)
-                file_copy(s, d)
                 self.touch(d)
+                file_copy(s, d)
         else:
             cp = self.copy
 
@@ -170,7 +171,7 @@ class CopyTransaction:
             if not target.parent.exists():
                 self.mkdir(target.parent)
             target.mkdir()
-            self._copied_files.add(target)
+            self._created(target)
 
         return target
 
@@ -186,16 +187,13 @@ class CopyTransaction:
         if target.exists():
             self.rm(target)
 
-        try:
-            shutil.copy(source, target)
-        except FileNotFoundError:
-            if not target.exists():
-                self.mkdir(target.parent)
-                shutil.copy(source, target)
-            else:
-                raise
+        self.mkdir(target.parent)
+        self._created(target)
+        shutil.copy(source, target)
 
-        self._copied_files.add(target)
+    def _created(self, *paths: Path):
+        self._copied_files.update(paths)
+        self._undo_log.extend((path, None) for path in paths)
 
     @property
     def copied_files(self) -> Iterator[Path]:
@@ -209,7 +207,7 @@ class CopyTransaction:
         mark the given `paths` as copied in this transaction
         :param paths: list of path to mark
         """
-        self._copied_files.update(paths)
+        self._created(*sorted(paths))
 
     def touch(self, path: Path, fs_touch: bool = False):
         """
@@ -217,7 +215,10 @@ class CopyTransaction:
         :param path: the path to mark
         :param fs_touch: if true will also touch the path in the filesystem
         """
-        self._copied_files.add(path)
+        if fs_touch and path.exists():
+            self._copied_files.add(path)
+        else:
+            self._created(path)
         if fs_touch:
             path.touch(exist_ok=True)
 
@@ -227,7 +228,7 @@ class CopyTransaction:
         :param path: the path to mark
         """
         self.touch(path)
-        self._copied_files.update(path.rglob("*"))
+        self._created(*sorted(path.rglob("*")))
 
     def rm(self, path: Path):
         """
@@ -238,6 +239,7 @@ class CopyTransaction:
         temp = self._temp_dir / str(len(self._overwritten_files))
         shutil.move(path, temp)
         self._overwritten_files.append(path)
+        self._undo_log.append((path, temp))
 
     def __enter__(self) -> CopyTransaction:
         self._temp_dir = Path(mkdtemp())
@@ -256,17 +258,13 @@ class CopyTransaction:
         self._temp_dir = None
 
     def _rollback(self):
-        for file in self._copied_files:
-            if not file.is_dir():
-                file.unlink(missing_ok=True)
-
-        for file in self._copied_files:
-            if file.is_dir() and is_empty_directory(file):
-                file.rmdir()
-
-        for i, path in enumerate(self._overwritten_files):
-            restore_path = self._temp_dir / str(i)
-            shutil.move(restore_path, path)
+        for path, removed in reversed(self._undo_log):
+            if removed is not None:
+                shutil.move(removed, path)
+            elif is_empty_directory(path):
+                path.rmdir()
+            elif path.exists() and not path.is_dir():
+                path.unlink()
 
         self._commit()
 
-- 
2.43.0


From 46edcd12bdbc169d6702aa7adbca0533d9f6f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 15/29] fix: bumping to an earlier pre-release kind yields a
 pre-release of that kind

---
 pkm/src/pkm/api/versions/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index fde0f9a..a479bb6 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -179,7 +179,7 @@ class StandardVersion(Version):
             if pre_release:
                 if pre_release[0] > p:
                     v = bump_release(v, 'patch')
-                    pre_release = None
+                    pre_release = (p, 0)
                 elif pre_release[0] < p:
                     pre_release = (p, 0)
                 else:
-- 
2.43.0


From ed3799efb367326534aaf04e918dbce3f9d0446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 16/29] fix: marker strings may contain the letter J

---
 pkm/src/pkm/api/dependencies/env_markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 8c98a18..3b62355 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -33,7 +33,7 @@ class EnvironmentMarker:
 
 
 _MARKER_STR_CHARS = set(
-    ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIZKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
+    ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
 
 
 class PEP508EnvMarkerParser(SimpleParser):
-- 
2.43.0


From 5a25423ee2d33ecb81dd64407c48f0f74263a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 17/29] fix: the marker operator === parses and compares
 strings

---
 pkm/src/pkm/api/dependencies/env_markers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 3b62355..fea5db1 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -64,7 +64,7 @@ class PEP508EnvMarkerParser(SimpleParser):
             return lambda e, x: e.markers[v_ident]
 
     def _read_marker_op(self) -> _MARKER_OP_T:
-        version_or_string_op = self.match_any("<=", "<", ">=", ">", "!=", "==", "===", "~=")
+        version_or_string_op = self.match_any("<=", "<", ">=", ">", "!=", "===", "==", "~=")
         if version_or_string_op:
             def _op(a: Sequence[str], b: Sequence[str]) -> bool:
 
@@ -74,6 +74,9 @@ class PEP508EnvMarkerParser(SimpleParser):
                     elif isinstance(b, _EXTRAS_COLLECTION_T):
                         return a in b
 
+                if version_or_string_op == '===':
+                    return str(a) == str(b)
+
                 try:
                     a_ver = Version.parse(str(a))
                     spec = VersionSpecifier.parse(f"{version_or_string_op} {b}")
-- 
2.43.0


From d173a66acb3e424ee432065c3275b9deafa76907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 18/29] fix: markers compare a non-version operand as a string

---
 pkm/src/pkm/api/dependencies/env_markers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index fea5db1..037c63d 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -1,6 +1,6 @@
 from typing import Callable, Optional, List, Sequence, TYPE_CHECKING
 
-from pkm.api.versions.version import Version
+from pkm.api.versions.version import StandardVersion
 from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.utils.parsers import SimpleParser
 
@@ -78,7 +78,7 @@ class PEP508EnvMarkerParser(SimpleParser):
                     return str(a) == str(b)
 
                 try:
-                    a_ver = Version.parse(str(a))
+                    a_ver = StandardVersion.parse(str(a))
                     spec = VersionSpecifier.parse(f"{version_or_string_op} {b}")
                     return spec.allows_version(a_ver)
                 except ValueError:
-- 
2.43.0


From 16e85de06a17102e88f578d58657ad912a8d8ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 19/29] fix: names differing in runs of separators identify one
 package

---
 pkm/src/pkm/api/packages/package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 7e4c57f..32dce18 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -69,7 +69,7 @@ class PackageDescriptor:
 
     @staticmethod
     def package_name_key(package_name: str) -> str:
-        return PackageDescriptor.normalize_src_package_name(package_name).lower()
+        return re.sub("[-_.]+", '_', PackageDescriptor.normalize_name(package_name)).lower()
 
     @staticmethod
     def normalize_src_package_name(package_name: str) -> str:
-- 
2.43.0


From 62bc331061fcbc41109e17890fe329a595eba3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 20/29] fix: a normalised name starts and ends with an ASCII
 letter or digit

---
 pkm/src/pkm/api/packages/package.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 32dce18..2532d3f 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -87,12 +87,12 @@ class PackageDescriptor:
 
         this function replace any non valid chars in the name with '-'
         and then consecutive runs of chars in '-_.' are replaced with a single dash
-        finally '-' chars are removed from the start and end of the name
+        finally '-', '_' and '.' chars are removed from the start and end of the name
 
         :param package_name: the package name to normalize
         :return: the normalized name
         """
-        if not (result := re.sub("[^A-Z\\d._]+", '-', package_name, flags=re.IGNORECASE).strip('-')):
+        if not (result := re.sub("[^A-Za-z0-9._]+", '-', package_name).strip('-_.')):
             raise ValueError(f"empty name after normalization (un-normalized name: '{package_name}')")
         return result
 
-- 
2.43.0


From b54be0a5716a00b3b524fef5f8cf4d03dc31ee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 21/29] fix: musllinux wheels are scored on musl systems

---
 pkm/src/pkm/api/environments/environment_introspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 124eb5a..443ca52 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -316,7 +316,7 @@ class EnvironmentIntrospection:
                     return None
 
                 if my_musl_version is not None and plt_no_arch.startswith("musllinux_"):
-                    musl_ver = tuple(int(it) for it in plt_no_arch.split("_"))[1:3]
+                    musl_ver = tuple(int(it) for it in plt_no_arch.split("_")[1:3])
                     if len(musl_ver) != 2 or musl_ver[0] != my_musl_version[0] or musl_ver[1] > my_musl_version[1]:
                         return None
                     return (1, *vdscore(my_musl_version, musl_ver))
-- 
2.43.0


From fb380ae439460b0bfefed5c62a2df5d52a6d3b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 22/29] fix: scoring wheel tags works on systems without glibc

---
 pkm/src/pkm/api/environments/environment_introspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 443ca52..9c687c3 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -294,7 +294,7 @@ class EnvironmentIntrospection:
             my_glibc_version = None
             my_musl_version = None
             if (elf := _ElfData.read(Path(self.interpreter_path))) and elf.have_compatible_abi(my_arch):
-                my_glibc_version = self._glibc_version.release[:2]
+                my_glibc_version = self._glibc_version and self._glibc_version.release[:2]
                 my_musl_version = elf.compute_musl_version()
 
             def linux_score(plt: str) -> Optional[Tuple]:
-- 
2.43.0


From ba8f1a68a09fdd3d1c1286f3a037eae9c873249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 23/29] fix: requested store modes apply to packages however
 their names are spelled

---
 pkm/src/pkm/api/packages/package_installation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 84b9aa3..f3bf42f 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -230,7 +230,7 @@ class InstallationPlan:
             for p in self.packages
             if not isinstance(p, _UserRequestPackage)}
 
-        store_modes = {name: value for name, value in (self.store_modes or {}).items()}
+        store_modes = _by_name_key(self.store_modes or {})
 
         for name_key, package_to_install in toinstall.items():
 
@@ -274,7 +274,7 @@ class InstallationPlan:
 
         target = target or self.default_target
         operations = self.compute_operations_for_target(target)
-        store_modes = self.store_modes or {}
+        store_modes = _by_name_key(self.store_modes or {})
         site = target.site_packages
 
         tasks: List[_PackageOperationTask] = []
@@ -335,6 +335,10 @@ class _PackageOperationTask:
         return PackageOperationMonitoredOp(package.descriptor, operation).with_async(promise)
 
 
+def _by_name_key(by_name: Dict[str, StoreMode]) -> Dict[str, StoreMode]:
+    return {PackageDescriptor.package_name_key(name): value for name, value in by_name.items()}
+
+
 def _po_execute(package: Package, mtd: str, *args, **kwargs):
     getattr(package, mtd)(*args, **kwargs)
 
-- 
2.43.0


From a1a964207fae07df9e6b2699ed34d69bf3b58259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 24/29] fix: uninstall finds the packages to remove however
 their names are spelled

---
 pkm/src/pkm/api/packages/package_installation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index f3bf42f..9cc04e8 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -73,9 +73,9 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         self.reload()
 
         preinstalled_packages = list(self.site_packages.installed_packages())
-        requested_deps = {p.name: p.user_request for p in preinstalled_packages if p.user_request}
+        requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
         for package_name in packages_to_remove:
-            requested_deps.pop(package_name, None)
+            requested_deps.pop(PackageDescriptor.package_name_key(package_name), None)
 
         user_request = _UserRequestPackage(list(requested_deps.values()))
         installation_repo = _RemovalRepository(preinstalled_packages, user_request)
@@ -83,7 +83,8 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         installation = resolve_dependencies(user_request.to_dependency(), self, installation_repo)
         InstallationPlan(self, installation, {}).execute()
 
-        kept = {p.name for p in installation}
+        kept_keys = {p.name_key for p in installation}
+        kept = {p for p in packages_to_remove if PackageDescriptor.package_name_key(p) in kept_keys}
 
         for p in packages_to_remove:
             if p in kept:
-- 
2.43.0


From 27b5968277fde38537ef73a2d6c3d1039ff3d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 25/29] fix: locked versions are found however the package name
 is spelled

---
 pkm/src/pkm/resolution/packages_lock.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index 348b0bd..e330d20 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -38,7 +38,7 @@ class PackagesLock:
     def __init__(self, locked_packages: Optional[List[_LockedVersion]] = None, lock_file: Optional[Path] = None):
         locked_packages = unone(locked_packages, list)
         self._locked_packages: Dict[str, List[_LockedVersion]] = \
-            groupby(locked_packages, lambda it: it.package.name)
+            groupby(locked_packages, lambda it: it.package.name_key)
         self._lock_file = lock_file
 
     def unlock_packages(self, package_names: Iterable[str]) -> PackagesLock:
@@ -49,7 +49,7 @@ class PackagesLock:
         :return self (for chaining support)
         """
         for pn in package_names:
-            self._locked_packages.pop(pn, None)
+            self._locked_packages.pop(PackageDescriptor.package_name_key(pn), None)
 
         return self
 
@@ -71,7 +71,7 @@ class PackagesLock:
         """
 
         relevant_locks = [lp for lst in self._locked_packages.values() for lp in lst] if not package else \
-            [lp for lp in (self._locked_packages.get(package) or ())]
+            [lp for lp in (self._locked_packages.get(PackageDescriptor.package_name_key(package)) or ())]
 
         if not relevant_locks:
             return []
@@ -102,7 +102,7 @@ class PackagesLock:
         for package in env.site_packages.installed_packages():
             new_locks.append(_LockedVersion(env_hash, package.descriptor))
 
-        self._locked_packages = groupby(new_locks, lambda it: it.package.name)
+        self._locked_packages = groupby(new_locks, lambda it: it.package.name_key)
         return self
 
     def save(self, lock_file: Optional[Path] = None):
-- 
2.43.0


From a52613facc3c94cbef4c5515abadb9f4894ff155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 26/29] fix: leaving an activated environment works when the
 block removed its variables

---
 pkm/src/pkm/api/environments/environment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment.py b/pkm/src/pkm/api/environments/environment.py
index 3997669..8bdf817 100644
--- a/pkm/src/pkm/api/environments/environment.py
+++ b/pkm/src/pkm/api/environments/environment.py
@@ -188,12 +188,12 @@ class Environment(HasAttachedRepository, Serializable):
             if old_path is not None:
                 env["PATH"] = old_path
             else:
-                del env["PATH"]
+                env.pop("PATH", None)
 
             if old_venv is not None:
                 env["VIRTUAL_ENV"] = old_venv
             else:
-                del env["VIRTUAL_ENV"]
+                env.pop("VIRTUAL_ENV", None)
 
     def exec_proc(self, cmd: str, args: Optional[List[str]] = None,
                   env: Optional[Dict[str, str]] = None) -> NoReturn:
-- 
2.43.0


From 052b2344fc307ade7f018f5a0138fd3b0b7123b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 27/29] fix: altered files in directories that merely look like
 a dist-info are refused

---
 pkm/src/pkm/api/distributions/wheel_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index b42c0ed..ec64b28 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -209,7 +209,7 @@ def _verify_records(dist_info: DistInfo, content: Path, records_file: RecordsFil
         path = str(path_to(content, file))
         if (record := record_by_path.get(path)) and record.hash_signature:
             if not record.hash_signature.validate_against(file):
-                if any(it.name.endswith('.dist-info') for it in file.parents):
+                if dist_info.path in file.parents:
                     warnings.warn(f"mismatch hash signature for {file}")
                 else:
                     raise InstallationException(f"File signature not matched for: {record.file}")
-- 
2.43.0


From 6ba77def4d64e1bf50ac5b55ad94592865fce2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 28/29] fix: an installed symbolic link is uninstalled itself,
 not the file it points at

---
 pkm/src/pkm/api/distributions/distinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index df9e68a..2ed420a 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -201,8 +201,8 @@ class DistInfo(Serializable):
         """
         root = self.path.parent
         for record in self.load_record_cfg().records:
-            file = Path(root, record.file).resolve()
-            yield file
+            file = Path(root, record.file)
+            yield file.parent.resolve() / file.name  # the file itself may be a link
 
         yield self.record_path()
 
-- 
2.43.0


From d94d23376b14330d05e8bb449a0dd00158575a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 29/29] fix: a fetch served from the cache no longer answers
 later fetches of the same url

---
 pkm/src/pkm/utils/http/http_client.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 4e4140b..890fb70 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -436,11 +436,6 @@ class HttpClient:
                                     raise
                                 else:
                                     raise HttpException(str(e), response) from e
-                            finally:
-                                # print(f"thread: {threading.current_thread().ident} attempting to release task")
-                                with self._fetch_lock:
-                                    del self._fetch_inprogress[url]
-                                # print(f"thread: {threading.current_thread().ident} succss to release task")
 
                         # print(f"[END] GET {url} resulted with cache files: {cache_files}")
                         return cache_files
@@ -456,6 +451,10 @@ class HttpClient:
                 deffered.complete(_fetch())
             except Exception as e:
                 deffered.fail(e)
+            finally:
+                # release the task also when the cached data were used, later fetches must consult their own directive
+                with self._fetch_lock:
+                    del self._fetch_inprogress[url]
 
             return promise.result()
 
-- 
2.43.0

