From e693e3b323f5b2b51279bf5f8738bf312c4bd12e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 01/59] fix: let the first file of an empty profile be synced

add_inflated() took the maximum priority of an empty set (NULL), which the
nodes table refuses, so a sync that found the first file crashed.
---
 zielen/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 53d40f5..f7c0873 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -638,7 +638,7 @@ class ProfileDBFile(SyncDBFile):
             dirs: The paths of directories to add to the database.
         """
         self._cur.execute("""\
-            SELECT MAX(priority) FROM nodes
+            SELECT COALESCE(MAX(priority), 0) FROM nodes
             WHERE directory = 0;
             """)
         max_priority = self._cur.fetchone()[0]
-- 
2.43.0


From 6caa0353f06ef79ba29fe179c5bb013665842b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 02/59] fix: transfer empty directories and symlinks that are
 given by path

transfer_tree(files=...) left out empty directories, so a new empty directory
made every following sync crash; it looked into symlinks to directories and
failed on dangling ones and on missing files, which it should ignore.
---
 zielen/fstools.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 65cee58..a34a6de 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -67,11 +67,13 @@ def transfer_tree(
     else:
         rel_paths = set()
         for path in files:
-            try:
-                for entry in scan_tree(os.path.join(source, path)):
+            full_path = os.path.join(source, path)
+            if not os.path.lexists(full_path):
+                continue
+            rel_paths.add(path)
+            if os.path.isdir(full_path) and not os.path.islink(full_path):
+                for entry in scan_tree(full_path):
                     rel_paths.add(os.path.relpath(entry.path, source))
-            except NotADirectoryError:
-                rel_paths.add(path)
 
     if exclude is not None:
         rel_paths -= set(exclude)
-- 
2.43.0


From 109303167599569d904fdd649072dd800df4eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 03/59] fix: scan the local directory again after resolving
 conflicts

A local file renamed because of a conflict was still in the cached scan, and a
sync that did not keep the file crashed when it tried to remove it.
---
 zielen/filelogic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index ea17f3a..d6eda68 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -574,10 +574,11 @@ class FilesManager:
             all_retained_paths |= self.profile.get_paths(root=path).keys()
 
         # Don't include excluded files or files not in the local database
-        # (e.g. unsafe symlinks).
+        # (e.g. unsafe symlinks). The directory must be scanned again because
+        # files may have been renamed to resolve a conflict.
         all_paths = (self.local_dir.scan_paths(
-            exclude=self.profile.all_exclude_matches(self.local_dir.path)
-            ).keys() & self.profile.get_paths().keys())
+            exclude=self.profile.all_exclude_matches(self.local_dir.path),
+            memoize=False).keys() & self.profile.get_paths().keys())
 
         # Exclude the paths that are parents of paths in the input.
         stale_paths = set()
-- 
2.43.0


From f5610d6fed4ab0bdd1d40980baa70bcb57bf5f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 04/59] fix: copy files to a temporary name and never through a
 symlink

---
 zielen/fstools.py | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index a34a6de..9442455 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -29,14 +29,19 @@ from zielen.exceptions import FileTransferError
 
 PROGRESS_BAR_LENGTH = 0.35
 
+# Files are copied under this name and renamed once they are complete, so that
+# an interrupted copy is never mistaken for a file that the user has modified.
+PARTIAL_NAME = ".zielen-partial"
+
 
 def transfer_tree(
         source: str, dest: str, files=None, exclude=None,
         message="", rm_source=False) -> None:
     """Recursively copy files, preserving file metadata.
 
-    Existing files in the destination are overwritten. A progress bar is
-    printed to the terminal displaying the progress of the transfer.
+    Existing files in the destination are overwritten. Symlinks in the
+    destination are replaced and never followed. A progress bar is printed to
+    the terminal displaying the progress of the transfer.
 
     Args:
         source: The path of the directory to copy the contents of.
@@ -88,20 +93,28 @@ def transfer_tree(
     dest_paths = [os.path.join(dest, path) for path in rel_paths]
 
     if use_bar:
-        source_sizes = {path: os.stat(path).st_size for path in source_paths}
+        source_sizes = {path: os.lstat(path).st_size for path in source_paths}
         total_source_size = sum(source_sizes.values())
         transferred_size = 0
         transfer_bar = ProgressBar(PROGRESS_BAR_LENGTH, message=message)
 
     for source_path, dest_path in zip(source_paths, dest_paths):
-        os.makedirs(os.path.dirname(dest_path), exist_ok=True)
+        dest_parent = os.path.dirname(dest_path)
+        os.makedirs(dest_parent, exist_ok=True)
+        partial_path = os.path.join(dest_parent, PARTIAL_NAME)
         try:
-            shutil.copy2(source_path, dest_path, follow_symlinks=False)
-        except (shutil.SameFileError, FileExistsError):
-            os.remove(dest_path)
-            shutil.copy2(source_path, dest_path, follow_symlinks=False)
-        except IsADirectoryError:
-            os.makedirs(dest_path, exist_ok=True)
+            if (os.path.isdir(source_path)
+                    and not os.path.islink(source_path)):
+                os.makedirs(dest_path, exist_ok=True)
+            else:
+                try:
+                    # This could exist if a transfer was interrupted.
+                    os.remove(partial_path)
+                except FileNotFoundError:
+                    pass
+                shutil.copy2(
+                    source_path, partial_path, follow_symlinks=False)
+                os.replace(partial_path, dest_path)
         except PermissionError:
             raise FileTransferError("permission denied: {0}".format(
                 os.path.relpath(source_path, source)))
@@ -117,6 +130,10 @@ def transfer_tree(
             try:
                 os.remove(source_path)
             except OSError:
+                try:
+                    os.remove(os.path.join(source_path, PARTIAL_NAME))
+                except FileNotFoundError:
+                    pass
                 os.rmdir(source_path)
 
     if use_bar:
@@ -184,6 +201,8 @@ def symlink_tree(
 def scan_tree(path: str):
     """Recursively scan a directory tree and yield an os.DirEntry object.
 
+    The remains of interrupted transfers are skipped.
+
     Args:
         path: The path of the directory to scan.
 
@@ -191,6 +210,8 @@ def scan_tree(path: str):
         An os.DirEntry object for each file in the tree.
     """
     for entry in os.scandir(path):
+        if entry.name == PARTIAL_NAME:
+            continue
         yield entry
         if entry.is_dir(follow_symlinks=False):
             yield from scan_tree(entry.path)
-- 
2.43.0


From c8a4e31341d5398ac101827c72743739dc0b0c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 05/59] fix: keep both versions of a file that was modified on
 both sides at the same time

---
 zielen/filelogic.py |  7 ++++++-
 zielen/fstools.py   | 21 +++++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index d6eda68..9ae8cac 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -28,7 +28,7 @@ from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
 from zielen.utils import timestamp_path
 from zielen.fstools import (
-    is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
+    is_same_file, is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -542,6 +542,11 @@ class FilesManager:
                 local_diff.rename([(path, new_path)])
             elif remote_mtimes[path] < local_mtimes[path]:
                 remote_diff.rename([(path, new_path)])
+            elif not is_same_file(
+                    os.path.join(self.local_dir.path, path),
+                    os.path.join(self.remote_dir.path, path)):
+                # The files were modified at the same time.
+                local_diff.rename([(path, new_path)])
 
         if local_diff.mod_paths:
             self.rename_local_files(local_diff.mod_paths)
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 9442455..2df4194 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -21,6 +21,7 @@ import os
 import sys
 import time
 import shutil
+import filecmp
 import tempfile
 from typing import Iterable, Optional, Set
 
@@ -244,6 +245,26 @@ def is_unsafe_symlink(link_path: str, parent_path: str) -> bool:
     return True
 
 
+def is_same_file(first_path: str, second_path: str) -> bool:
+    """Check if two files have the same type and content.
+
+    Symbolic links are not followed. They are the same if they have the same
+    destination.
+
+    Args:
+        first_path: The path of a regular file or symlink.
+        second_path: The path of a regular file or symlink.
+
+    Returns:
+        True if the files are the same and False if they are not.
+    """
+    if os.path.islink(first_path) or os.path.islink(second_path):
+        return (
+            os.path.islink(first_path) and os.path.islink(second_path)
+            and os.readlink(first_path) == os.readlink(second_path))
+    return filecmp.cmp(first_path, second_path, shallow=False)
+
+
 def update_mtime(path) -> None:
     """Update the mtime of a file or directory.
 
-- 
2.43.0


From f68906d0d727852bc2b7da18f3dc50edf3d3d779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 06/59] fix: never reuse the name of an existing file for a
 conflict copy

---
 zielen/filelogic.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 9ae8cac..811ae91 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -498,6 +498,26 @@ class FilesManager:
 
         self._setup_dir(unsafe_symlinks)
 
+    def _get_conflict_path(self, path: str) -> str:
+        """Get an unused path for a file that is in conflict with another.
+
+        Args:
+            path: The relative path of the file that is in conflict.
+
+        Returns:
+            A relative path that doesn't exist in either directory.
+        """
+        conflict_path = timestamp_path(path, keyword="conflict")
+        name, extension = os.path.splitext(conflict_path)
+        counter = 0
+        while any(
+                os.path.lexists(os.path.join(parent_dir, conflict_path))
+                for parent_dir in (
+                    self.local_dir.path, self.remote_dir.path)):
+            counter += 1
+            conflict_path = "{0}({1}){2}".format(name, counter, extension)
+        return conflict_path
+
     def handle_conflicts(
             self, local_paths: Iterable[str], remote_paths: Iterable[str]
             ) -> UpdatedPaths:
@@ -534,7 +554,7 @@ class FilesManager:
         remote_diff = PathsDiff(remote_paths)
 
         for path in conflict_paths:
-            new_path = timestamp_path(path, keyword="conflict")
+            new_path = self._get_conflict_path(path)
             path_data = self.profile.get_path_info(path)
             if path_data and path_data.directory:
                 continue
-- 
2.43.0


From 7adb4b0de8dd062d82ce4428b97edd621e2c3758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 07/59] fix: replace local files with symlinks in one step

---
 zielen/filelogic.py | 21 ++++++++++-----------
 zielen/fstools.py   | 20 ++++++++++++++++++--
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 811ae91..bac987f 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -28,7 +28,8 @@ from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
 from zielen.utils import timestamp_path
 from zielen.fstools import (
-    is_same_file, is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
+    is_same_file, is_unsafe_symlink, replace_with_symlink, symlink_tree,
+    transfer_tree, update_mtime)
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -378,16 +379,14 @@ class FilesManager:
             if os.path.islink(full_stale_path):
                 # The path will just be replaced with a symlink anyways.
                 continue
-            try:
-                os.remove(full_stale_path)
-            except IsADirectoryError:
-                try:
-                    os.rmdir(full_stale_path)
-                except OSError:
-                    # There are still files in the directory. This could
-                    # happen if there were symbolic links in the directory
-                    # that weren't deleted.
-                    pass
+            if os.path.isdir(full_stale_path):
+                # The directory is still needed to hold symlinks.
+                continue
+            # The file must never be missing from the local directory, as that
+            # would be mistaken for a deletion if the sync were interrupted.
+            replace_with_symlink(
+                os.path.join(self.remote_dir.safe_path, stale_path),
+                full_stale_path)
 
         try:
             nonlocal_paths = symlink_tree(
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 2df4194..a123246 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -190,8 +190,7 @@ def symlink_tree(
                 os.symlink(full_src_path, full_dest_path)
             except FileExistsError:
                 if overwrite:
-                    os.remove(full_dest_path)
-                    os.symlink(full_src_path, full_dest_path)
+                    replace_with_symlink(full_src_path, full_dest_path)
                     new_paths.add(src_path)
             else:
                 new_paths.add(src_path)
@@ -199,6 +198,23 @@ def symlink_tree(
     return new_paths
 
 
+def replace_with_symlink(link_dest: str, path: str) -> None:
+    """Replace a file with a symlink in one step.
+
+    Args:
+        link_dest: The path that the symlink will point to.
+        path: The path of the file to replace.
+    """
+    partial_path = os.path.join(os.path.dirname(path), PARTIAL_NAME)
+    try:
+        # This could exist if a previous transfer was interrupted.
+        os.remove(partial_path)
+    except FileNotFoundError:
+        pass
+    os.symlink(link_dest, partial_path)
+    os.replace(partial_path, path)
+
+
 def scan_tree(path: str):
     """Recursively scan a directory tree and yield an os.DirEntry object.
 
-- 
2.43.0


From 5259861a13f42802c657cc61c1312ea6b59d5110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 08/59] fix: record for every file whether it was kept in the
 local directory

---
 zielen/filelogic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index bac987f..6d4e2e7 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -389,7 +389,7 @@ class FilesManager:
                 full_stale_path)
 
         try:
-            nonlocal_paths = symlink_tree(
+            symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 self.remote_dir.get_paths(directory=False),
                 self.remote_dir.get_paths(directory=True))
@@ -406,10 +406,10 @@ class FilesManager:
 
         # Update the database with information about which paths are being
         # kept in the local directory.
+        self.profile.update_paths(self.profile.get_paths().keys(), local=False)
         for update_path in update_paths:
             self.profile.update_paths(
                 self.profile.get_paths(root=update_path).keys(), local=True)
-        self.profile.update_paths(nonlocal_paths, local=False)
 
     def update_remote(self, update_paths: Iterable[str]) -> None:
         """Update the remote directory with local files.
-- 
2.43.0


From 53c8dc36a46014ff3490dd7c75211eeb85e7f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 09/59] fix: don't upload excluded files along with a new
 directory

---
 zielen/filelogic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 6d4e2e7..8fb9af7 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -420,11 +420,16 @@ class FilesManager:
         Raises:
             RemoteError: The remote directory is unmounted.
         """
-        # Copy modified local files to the remote directory.
+        # Copy modified local files to the remote directory. Other files in
+        # the given directories, like excluded files, are not copied.
+        update_paths = set(update_paths)
+        other_paths = (
+            self.local_dir.scan_paths(memoize=False).keys() - update_paths)
         try:
             transfer_tree(
                 self.local_dir.path, self.remote_dir.safe_path,
-                files=update_paths, message="Updating remote files...")
+                files=update_paths, exclude=other_paths,
+                message="Updating remote files...")
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
                 raise RemoteError("the remote directory could not be found")
-- 
2.43.0


From a7fdae3573a61c2fdbd174085ce538b538bbe36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 10/59] fix: don't let a deletion take modified or unknown
 files with it

---
 zielen/commands/sync.py |  11 +++-
 zielen/filelogic.py     | 108 ++++++++++++++++++++++++++++++++++------
 zielen/fstools.py       |  20 ++++++++
 3 files changed, 124 insertions(+), 15 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 61a0e55..6a2f3eb 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -24,6 +24,7 @@ from typing import Iterable, Set, NamedTuple, Tuple, List
 
 from zielen.commandbase import Command, unlock
 from zielen.filelogic import FilesManager
+from zielen.utils import get_path_ancestry
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -73,6 +74,7 @@ class SyncCommand(Command):
 
         # Get the paths of files that have been added, deleted or modified
         # since the last sync.
+        fm.forget_missing()
         new_paths = fm.compute_added()
         del_paths = fm.compute_deleted()
         mod_paths = fm.compute_modified()
@@ -83,6 +85,13 @@ class SyncCommand(Command):
         new_local_dirs = (new_paths.local - file_paths)
         new_file_paths = (new_paths.all - dir_paths)
         new_dir_paths = (new_paths.all - file_paths)
+
+        # Files that were deleted on one side and modified on the other are
+        # added again, along with the directories that contain new files.
+        new_file_paths |= mod_paths.all
+        new_dir_paths |= {
+            path for path in get_path_ancestry(new_paths.all | mod_paths.all)
+            if path in dir_paths}
         if self.profile.inflate_priority:
             self.profile.add_inflated(new_local_files, new_local_dirs)
         self.remote_dir.add_paths(new_file_paths, new_dir_paths)
@@ -106,7 +115,7 @@ class SyncCommand(Command):
         self.profile.add_paths(updated_paths.all, [])
 
         # Update the remote directory with modified local files.
-        fm.update_remote(updated_paths.local)
+        fm.update_remote(updated_paths.local | fm.compute_retained())
 
         # At this point, the differences between the two directories have been
         # resolved.
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 8fb9af7..e636e78 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -26,10 +26,10 @@ from typing import Iterable, Tuple, Set, NamedTuple
 from zielen.exceptions import RemoteError, AvailableSpaceError
 from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
-from zielen.utils import timestamp_path
+from zielen.utils import get_path_ancestry, timestamp_path
 from zielen.fstools import (
-    is_same_file, is_unsafe_symlink, replace_with_symlink, symlink_tree,
-    transfer_tree, update_mtime)
+    has_symlink_parent, is_same_file, is_unsafe_symlink, replace_with_symlink,
+    symlink_tree, transfer_tree, update_mtime)
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -673,12 +673,23 @@ class FilesManager:
             if mtime > last_sync and self.profile.get_path_info(path)
             and not is_unsafe_symlink(
                 os.path.join(self.local_dir.path, path), self.local_dir.path)}
+
+        # Excluded files that have been removed from the remote directory must
+        # not be uploaded again.
+        local_mod_paths -= (
+            self.profile.all_exclude_matches(self.local_dir.path)
+            - self.remote_dir.scan_paths(dirs=False).keys())
         remote_mod_paths = {
             path for path, mtime in remote_mtimes
             if mtime > last_sync and self.profile.get_path_info(path)}
 
-        remote_mod_paths |= self.remote_dir.get_paths(
-            directory=False, min_lastsync=last_sync).keys()
+        # A file that another client has updated may have been deleted since
+        # or may be new to this client.
+        remote_mod_paths |= (
+            self.remote_dir.get_paths(
+                directory=False, min_lastsync=last_sync).keys()
+            & self.remote_dir.scan_paths(dirs=False).keys()
+            & self.profile.get_paths(directory=False).keys())
 
         return UpdatedPaths(local_mod_paths, remote_mod_paths)
 
@@ -690,6 +701,10 @@ class FilesManager:
         trash if it needs to be deleted from the remote directory but is not
         found in any of the local trash directories.
 
+        A file that was deleted on one side and modified on the other is not
+        deleted, and neither is a directory that contains such a file or a file
+        that isn't known to the other side.
+
         Returns:
             A named tuple containing three sets of relative file paths: local
             files to be deleted, remote files to be deleted and remote files to
@@ -698,17 +713,32 @@ class FilesManager:
         local_paths = self.local_dir.scan_paths().keys()
         remote_paths = self.remote_dir.scan_paths().keys()
         known_paths = self.profile.get_paths().keys()
+        mod_paths = self.compute_modified()
+
+        # Compute files that must not be deleted and the directories that
+        # contain them. Excluded files and unsafe symlinks are never deleted
+        # from the local directory, but they can still be removed from the
+        # databases.
+        excluded_paths = self.profile.all_exclude_matches(self.local_dir.path)
+        untouched_paths = (
+            (local_paths & excluded_paths) | self.get_user_symlinks())
+        local_kept_paths = set(get_path_ancestry(
+            ((local_paths - known_paths) | mod_paths.local) - untouched_paths))
+        local_kept_paths |= (
+            set(get_path_ancestry(untouched_paths)) - untouched_paths)
+        remote_kept_paths = set(get_path_ancestry(
+            (remote_paths - known_paths) | mod_paths.remote))
 
         # Compute files that need to be deleted, not including the files
         # under selected directories.
-        local_del_paths = known_paths - remote_paths
-        remote_del_paths = known_paths - local_paths
+        local_del_paths = known_paths - remote_paths - local_kept_paths
+        remote_del_paths = known_paths - local_paths - remote_kept_paths
         for path in local_del_paths.copy():
             sub_paths = set(self.profile.get_paths(root=path).keys())
             sub_paths.remove(path)
             local_del_paths -= sub_paths
         for path in remote_del_paths.copy():
-            sub_paths = set(self.remote_dir.get_paths(root=path).keys())
+            sub_paths = set(self.profile.get_paths(root=path).keys())
             sub_paths.remove(path)
             remote_del_paths -= sub_paths
 
@@ -722,6 +752,49 @@ class FilesManager:
 
         return DeletedPaths(local_del_paths, remote_del_paths, trash_paths)
 
+    def forget_missing(self) -> None:
+        """Remove files that no longer exist from the remote database.
+
+        These are files that were deleted from the remote directory. They may
+        have been added by another client and be unknown to this one.
+        """
+        self.remote_dir.rm_paths(
+            self.remote_dir.get_paths().keys()
+            - self.remote_dir.scan_paths().keys())
+
+    def compute_retained(self) -> Set[str]:
+        """Compute the paths of directories to restore in the remote directory.
+
+        These are directories that were deleted from the remote directory but
+        still contain files in the local directory. Also add them to the remote
+        database.
+
+        Returns:
+            The relative paths of the directories.
+        """
+        retained_paths = (
+            self.profile.get_paths(directory=True).keys()
+            - self.remote_dir.scan_paths().keys())
+        self.remote_dir.add_paths([], retained_paths)
+        return retained_paths
+
+    def get_user_symlinks(self) -> Set[str]:
+        """Get the paths of local symlinks that can't be synced.
+
+        These are unsafe symlinks that were created by the user. The symlinks
+        that represent files in the remote directory are not included.
+
+        Returns:
+            The relative paths of the symlinks.
+        """
+        return {
+            path for path in self.local_dir.scan_paths(
+                files=False, dirs=False).keys()
+            if is_unsafe_symlink(
+                os.path.join(self.local_dir.path, path), self.local_dir.path)
+            and os.readlink(os.path.join(self.local_dir.path, path))
+            != os.path.join(self.remote_dir.safe_path, path)}
+
     def _rename_files(
             self, path_pairs: Iterable[Tuple[str, str]],
             parent_dir: str) -> None:
@@ -781,14 +854,20 @@ class FilesManager:
             else:
                 raise
 
-    def _rm_files(self, paths: Iterable[str], parent_dir: str) -> None:
+    def _rm_files(
+            self, paths: Iterable[str], parent_dir: str,
+            keep_paths=frozenset()) -> None:
         """Delete files and remove them from both databases.
 
         Args:
             paths: The relative paths of files to remove.
             parent_dir: The directory in which the paths to be deleted reside.
+            keep_paths: The relative paths of files to only remove from the
+                databases.
         """
         for path in paths:
+            if path in keep_paths or has_symlink_parent(parent_dir, path):
+                continue
             full_path = os.path.join(parent_dir, path)
             try:
                 os.remove(full_path)
@@ -804,15 +883,16 @@ class FilesManager:
     def rm_local_files(self, paths: Iterable[str]) -> None:
         """Delete local files and remove them from both databases.
 
-        If the files are excluded, don't delete them, but still remove them
-        from both databases.
+        If the files are excluded or unsafe symlinks, don't delete them, but
+        still remove them from both databases.
 
         Args:
             paths: The relative paths of files to remove.
         """
-        paths = set(paths)
-        paths -= self.profile.all_exclude_matches(self.local_dir.path)
-        self._rm_files(paths, self.local_dir.path)
+        keep_paths = (
+            self.profile.all_exclude_matches(self.local_dir.path)
+            | self.get_user_symlinks())
+        self._rm_files(paths, self.local_dir.path, keep_paths)
 
     def rm_remote_files(self, paths: Iterable[str]) -> None:
         """Delete remote files and remove them from both databases.
diff --git a/zielen/fstools.py b/zielen/fstools.py
index a123246..812f1bf 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -261,6 +261,26 @@ def is_unsafe_symlink(link_path: str, parent_path: str) -> bool:
     return True
 
 
+def has_symlink_parent(parent_dir: str, rel_path: str) -> bool:
+    """Check if a path leads through a symlink.
+
+    Args:
+        parent_dir: The path of the directory that the file is in. This path is
+            not checked.
+        rel_path: The path of the file relative to that directory. The file
+            itself may be a symlink.
+
+    Returns:
+        True if a directory between the two is a symlink and False otherwise.
+    """
+    parent = os.path.dirname(rel_path)
+    while parent:
+        if os.path.islink(os.path.join(parent_dir, parent)):
+            return True
+        parent = os.path.dirname(parent)
+    return False
+
+
 def is_same_file(first_path: str, second_path: str) -> bool:
     """Check if two files have the same type and content.
 
-- 
2.43.0


From e0ab5c1705b923e0563ec57871bcfb32b08c6bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 11/59] fix: never overwrite an excluded local file with an
 unrelated remote file

---
 zielen/commands/sync.py |  6 ++++--
 zielen/filelogic.py     | 22 +++++++++++++++++++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 6a2f3eb..06187f2 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -122,8 +122,10 @@ class SyncCommand(Command):
 
         # Calculate which excluded files are still in the remote directory.
         remote_excluded_files = (
-            self.profile.all_exclude_matches(self.local_dir.path)
-            & self.remote_dir.scan_paths().keys())
+            (self.profile.all_exclude_matches(self.local_dir.path)
+             | self.profile.all_exclude_matches(self.remote_dir.path))
+            & self.remote_dir.scan_paths(memoize=False).keys()
+            & self.profile.get_paths().keys())
 
         # Decide which files and directories to keep in the local directory.
         remaining_space = self.profile.storage_limit - fm.get_excluded_size()
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index e636e78..69f627d 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -388,15 +388,27 @@ class FilesManager:
                 os.path.join(self.remote_dir.safe_path, stale_path),
                 full_stale_path)
 
+        # Don't touch the local files that are unrelated to remote files with
+        # the same name, and don't follow symlinks.
+        user_symlinks = self.get_user_symlinks()
+        update_files = {
+            path for path in self.profile.get_paths(directory=False)
+            if not has_symlink_parent(self.local_dir.path, path)}
+        update_dirs = {
+            path for path in self.profile.get_paths(directory=True)
+            if not has_symlink_parent(self.local_dir.path, path)}
+        other_paths = user_symlinks | (
+            self.remote_dir.scan_paths(memoize=False).keys()
+            - update_files - update_dirs)
+
         try:
             symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
-                self.remote_dir.get_paths(directory=False),
-                self.remote_dir.get_paths(directory=True))
+                update_files, update_dirs)
 
             transfer_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
-                files=update_paths,
+                files=update_paths, exclude=other_paths,
                 message="Updating local files...")
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
@@ -636,9 +648,13 @@ class FilesManager:
                 os.path.join(self.local_dir.path, path), self.local_dir.path)}
         new_local_paths -= self.profile.all_exclude_matches(
             self.local_dir.path)
+        # An excluded local file is unrelated to a remote file with its name.
         new_remote_paths = {
             path for path in self.remote_dir.scan_paths().keys()
             if not self.profile.get_path_info(path)}
+        new_remote_paths -= (
+            self.local_dir.scan_paths().keys()
+            & self.profile.all_exclude_matches(self.local_dir.path))
 
         return UpdatedPaths(new_local_paths, new_remote_paths)
 
-- 
2.43.0


From 2d953d56a43877f15aa3e77a8876a53c0a8b0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 12/59] fix: refuse to copy files into a symlinked directory

---
 zielen/fstools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 812f1bf..1c61614 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -100,6 +100,10 @@ def transfer_tree(
         transfer_bar = ProgressBar(PROGRESS_BAR_LENGTH, message=message)
 
     for source_path, dest_path in zip(source_paths, dest_paths):
+        rel_path = os.path.relpath(dest_path, dest)
+        if has_symlink_parent(dest, rel_path):
+            raise FileTransferError(
+                "not a directory: {0}".format(os.path.dirname(rel_path)))
         dest_parent = os.path.dirname(dest_path)
         os.makedirs(dest_parent, exist_ok=True)
         partial_path = os.path.join(dest_parent, PARTIAL_NAME)
-- 
2.43.0


From a6091dd73b47c567f0bd238160e4270c3c70bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 13/59] fix: replace outdated relative symlinks in the local
 directory

---
 zielen/filelogic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 69f627d..1d856ec 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -376,10 +376,12 @@ class FilesManager:
         # Remove old, unneeded files to make room for new ones.
         for stale_path in stale_paths:
             full_stale_path = os.path.join(self.local_dir.path, stale_path)
-            if os.path.islink(full_stale_path):
-                # The path will just be replaced with a symlink anyways.
+            if is_unsafe_symlink(full_stale_path, self.local_dir.path):
+                # This is either a symlink to the remote directory already or
+                # one that can't be synced.
                 continue
-            if os.path.isdir(full_stale_path):
+            if (os.path.isdir(full_stale_path)
+                    and not os.path.islink(full_stale_path)):
                 # The directory is still needed to hold symlinks.
                 continue
             # The file must never be missing from the local directory, as that
-- 
2.43.0


From 79a04329efed74fdf935e26892fc91c4029721e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 14/59] fix: don't follow symlinks in the trash

---
 zielen/filelogic.py | 6 +++---
 zielen/fstools.py   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 1d856ec..663d89a 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -989,10 +989,10 @@ class FilesManager:
         """Delete old files from the remote trash directory."""
         cutoff_time = time.time() - self.profile.cleanup_period
         for entry in os.scandir(self.remote_dir.trash_dir):
-            if entry.stat().st_mtime <= cutoff_time:
-                try:
+            if entry.stat(follow_symlinks=False).st_mtime <= cutoff_time:
+                if entry.is_dir(follow_symlinks=False):
                     shutil.rmtree(entry.path)
-                except NotADirectoryError:
+                else:
                     os.remove(entry.path)
 
     def get_excluded_size(self) -> int:
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 1c61614..0fda4a1 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -313,9 +313,9 @@ def update_mtime(path) -> None:
     Args:
         path: The path of the file or directory.
     """
-    if os.path.isdir(path):
+    if os.path.isdir(path) and not os.path.islink(path):
         tempfile.NamedTemporaryFile(dir=path).close()
-    elif os.path.exists(path):
+    elif os.path.lexists(path):
         current = time.time()
         os.utime(path, times=(current, current), follow_symlinks=False)
 
-- 
2.43.0


From 521e0a30501706cdffadde07c4316f5caa9f064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 15/59] fix: give files that are trashed at the same time
 different names

---
 zielen/filelogic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 663d89a..fa5a11e 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -969,6 +969,7 @@ class FilesManager:
                 filename_counter += 1
                 new_filename = "{0}({1}){2}".format(
                     name, filename_counter, extension)
+            trash_filenames.add(new_filename)
             new_filenames.append(new_filename)
 
         for old_path, new_filename in zip(old_paths, new_filenames):
-- 
2.43.0


From a929cf5c32ea4d3aa2c677082fbba7c54ada04e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 16/59] fix: don't interpret the path of the sync directory as
 a pattern

---
 zielen/profile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index f7c0873..00f6a10 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -357,10 +357,11 @@ class ProfileExcludeFile:
             if not line:
                 continue
             if line.startswith("/"):
-                glob_str = os.path.join(start_path, line.lstrip("/"))
+                glob_str = os.path.join(
+                    glob.escape(start_path), line.lstrip("/"))
             else:
                 # Glob patterns without a leading slash search the whole tree.
-                glob_str = os.path.join(start_path, "**", line)
+                glob_str = os.path.join(glob.escape(start_path), "**", line)
 
             for match_path in glob.glob(glob_str, recursive=True):
                 rel_match_path = os.path.relpath(match_path, start_path)
-- 
2.43.0


From c9384a9840601df5f0a4fea56ce00afbc87865d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 17/59] fix: don't follow symlinks when matching exclude
 patterns

---
 zielen/profile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 00f6a10..f16e9fc 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -35,7 +35,7 @@ import pkg_resources
 
 from zielen.paths import get_xdg_data_home, get_profiles_dir
 from zielen.containerbase import JSONFile, ConfigFile, SyncDBFile
-from zielen.fstools import scan_tree
+from zielen.fstools import has_symlink_parent, scan_tree
 from zielen.utils import (
     DictProperty, secure_string, set_no_autocomplete, set_path_autocomplete,
     get_path_ancestry)
@@ -365,8 +365,13 @@ class ProfileExcludeFile:
 
             for match_path in glob.glob(glob_str, recursive=True):
                 rel_match_path = os.path.relpath(match_path, start_path)
+                if has_symlink_parent(start_path, rel_match_path):
+                    continue
                 self._matches[start_path].add(rel_match_path)
                 self._all_matches[start_path].add(rel_match_path)
+                if os.path.islink(match_path):
+                    # What a symlink points to is not excluded with it.
+                    continue
                 try:
                     for entry in scan_tree(match_path):
                         self._all_matches[start_path].add(
-- 
2.43.0


From 1e99f423b92b2eba09b19d6d814b12f30ec4a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 18/59] fix: don't delete remote files whose directory is
 hidden by a symlink

---
 zielen/filelogic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index fa5a11e..1615c24 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -746,6 +746,10 @@ class FilesManager:
             set(get_path_ancestry(untouched_paths)) - untouched_paths)
         remote_kept_paths = set(get_path_ancestry(
             (remote_paths - known_paths) | mod_paths.remote))
+        # Files are not deleted if a symlink is in the place of their directory.
+        remote_kept_paths |= {
+            path for path in known_paths - local_paths
+            if has_symlink_parent(self.local_dir.path, path)}
 
         # Compute files that need to be deleted, not including the files
         # under selected directories.
-- 
2.43.0


From 4dee9746380e4bd05818816c33e0c80fa8ed96e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 19/59] fix: keep unrelated files when removing excluded files
 from the remote

---
 zielen/filelogic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 1615c24..5a766e7 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -936,6 +936,10 @@ class FilesManager:
         rm_paths = self.remote_dir.check_excluded(
             excluded_paths, self.local_dir.path)
         rm_paths &= self.remote_dir.get_paths().keys()
+
+        # Keep the directories that contain other files.
+        rm_paths -= set(get_path_ancestry(
+            self.remote_dir.scan_paths().keys() - rm_paths))
         self.rm_remote_files(rm_paths)
 
     def trash_files(self, paths: Iterable[str]) -> None:
-- 
2.43.0


From 75a66a9924e4cbbfcb43cf31e89e28de260eb35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 20/59] fix: don't look for excluded files that were renamed by
 a conflict

---
 zielen/filelogic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 5a766e7..ae7f12f 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -1010,7 +1010,10 @@ class FilesManager:
         Returns:
             The disk usage as a number of bytes.
         """
+        # Excluded files may have been renamed while resolving conflicts.
         total_excluded_size = sum(
             self.local_dir.scan_paths()[path].st_blocks * 512
-            for path in self.profile.all_exclude_matches(self.local_dir.path))
+            for path in (
+                self.profile.all_exclude_matches(self.local_dir.path)
+                & self.local_dir.scan_paths().keys()))
         return total_excluded_size
-- 
2.43.0


From e3d990099254026df28d5c7b4047a9bce7a490a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 21/59] fix: create the database tables in one step

---
 zielen/containerbase.py | 17 +++++++++++++++++
 zielen/profile.py       |  6 +++++-
 zielen/userdata.py      |  6 +++++-
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 2991cdd..0e170d1 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -171,6 +171,23 @@ class SyncDBFile:
         with self._conn:
             yield
 
+    def _is_created(self) -> bool:
+        """Check if the database file exists and has its tables.
+
+        The tables are missing if creating the database was interrupted.
+        """
+        if not os.path.isfile(self.path):
+            return False
+        conn = sqlite3.connect(self.path)
+        try:
+            return bool(conn.execute("""\
+                SELECT name
+                FROM sqlite_master
+                WHERE name = 'nodes';
+                """).fetchone())
+        finally:
+            conn.close()
+
     def _mark_directory(self, paths: Iterable[str]) -> None:
         """Mark paths as directories."""
         # A generator expression can't be used here because recursive use of
diff --git a/zielen/profile.py b/zielen/profile.py
index f16e9fc..0ae6b13 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -458,7 +458,7 @@ class ProfileDBFile(SyncDBFile):
         Raises:
             FileExistsError: The database file already exists.
         """
-        if os.path.isfile(self.path):
+        if self._is_created():
             raise FileExistsError("the database file already exists")
 
         self._conn = sqlite3.connect(
@@ -475,6 +475,8 @@ class ProfileDBFile(SyncDBFile):
                 PRAGMA foreign_keys = ON;
                 PRAGMA journal_mode = WAL;
 
+                BEGIN;
+
                 CREATE TABLE nodes (
                     id          INTEGER NOT NULL,
                     path        TEXT    NOT NULL,
@@ -500,6 +502,8 @@ class ProfileDBFile(SyncDBFile):
                     salt        TEXT    NOT NULL,
                     PRIMARY KEY (path) ON CONFLICT IGNORE
                 );
+
+                COMMIT;
                 """)
 
     def _update_priority(self, paths: Iterable[str]) -> None:
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 5d06371..2451b63 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -266,7 +266,7 @@ class RemoteDBFile(SyncDBFile):
         Raises:
             FileExistsError: The database file already exists.
         """
-        if os.path.isfile(self.path):
+        if self._is_created():
             raise FileExistsError("the database file already exists")
 
         self._conn = sqlite3.connect(
@@ -282,6 +282,8 @@ class RemoteDBFile(SyncDBFile):
             self._cur.executescript("""\
                 PRAGMA foreign_keys = ON;
 
+                BEGIN;
+
                 CREATE TABLE nodes (
                     id          INTEGER NOT NULL,
                     path        TEXT    NOT NULL,
@@ -306,6 +308,8 @@ class RemoteDBFile(SyncDBFile):
                     salt        TEXT    NOT NULL,
                     PRIMARY KEY (path) ON CONFLICT IGNORE
                 );
+
+                COMMIT;
                 """)
 
     def add_paths(self, files: Iterable[str], dirs: Iterable[str]) -> None:
-- 
2.43.0


From e0d1a0b825c67ceffb3df198e34fc6be6b32bedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 22/59] fix: replace the info file in one step

---
 zielen/containerbase.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 0e170d1..daed35b 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -105,9 +105,14 @@ class JSONFile:
             self.vals = json.load(file)
 
     def write(self) -> None:
-        """Write object to a file."""
-        with open(self.path, "w") as file:
+        """Write object to a file.
+
+        The file is replaced in one step so that it is always readable.
+        """
+        partial_path = self.path + ".partial"
+        with open(partial_path, "w") as file:
             json.dump(self.vals, file, indent=4)
+        os.replace(partial_path, self.path)
 
 
 class SyncDBFile:
-- 
2.43.0


From 71b69854aba649b1d503066850b0c65ac6ef8c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 23/59] fix: don't resume an initialization that hasn't checked
 its directories

---
 zielen/commands/init.py | 18 ++++++++++++------
 zielen/profile.py       | 18 +++++++++++++-----
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 3abb4ff..199031a 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -123,11 +123,8 @@ class InitCommand(Command):
             atexit.register(delete_profile)
 
             # Generate all files in the profile directory.
-            init_options = {
-                "add_remote": self.add_remote}
             self.profile.generate(
-                init_options=init_options, exclude_path=self.exclude,
-                template_path=self.template)
+                exclude_path=self.exclude, template_path=self.template)
 
             # Check validity of local and remote directories.
             error_message = check_dir(
@@ -149,6 +146,9 @@ class InitCommand(Command):
             # The profile is now partially initialized. If the
             # initialization is interrupted from this point, it can be
             # resumed.
+            init_options = {
+                "add_remote": self.add_remote}
+            self.profile.generate_info(init_options)
             atexit.register(self.print_interrupt_msg)
             atexit.unregister(delete_profile)
 
@@ -197,10 +197,16 @@ class InitCommand(Command):
 
         overlap_profiles = []
         for name, profile in self.profiles.items():
-            if profile is self.profile or not os.path.isfile(profile.cfg_path):
+            if (name == self.profile.name
+                    or not os.path.isfile(profile.cfg_path)):
                 continue
 
-            profile.read()
+            try:
+                profile.read()
+            except FileNotFoundError:
+                # The initialization of this profile was interrupted before
+                # its directories were checked.
+                continue
 
             common_path = os.path.commonpath([profile.local_path, dir_path])
             if common_path in [profile.local_path, dir_path]:
diff --git a/zielen/profile.py b/zielen/profile.py
index 0ae6b13..722aa92 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -92,14 +92,14 @@ class Profile:
         self._cfg_file.check_all()
         self._exclude_file.reset()
 
-    def generate(
-            self, init_options: Dict[str, Any], exclude_path=None,
-            template_path=None) -> None:
-        """Generate files for storing persistent data."""
+    def generate(self, exclude_path=None, template_path=None) -> None:
+        """Generate files for storing persistent data.
+
+        This does not include the info file.
+        """
         os.makedirs(self.path, exist_ok=True)
 
         self._exclude_file.generate(exclude_path)
-        self._info_file.generate(self.name, init_options)
 
         try:
             self._db_file.create()
@@ -122,6 +122,14 @@ class Profile:
             self._cfg_file.write(os.path.join(
                 sys.prefix, "share/zielen/config-template"))
 
+    def generate_info(self, init_options: Dict[str, Any]) -> None:
+        """Generate the info file.
+
+        This marks the profile as partially initialized, so the other files
+        must be complete.
+        """
+        self._info_file.generate(self.name, init_options)
+
     def write(self) -> None:
         """Write data to persistent storage."""
         self._info_file.write()
-- 
2.43.0


From ad0369709113aaf401451299051ec0f642991cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 24/59] fix: lock the profile before reading it

---
 zielen/commandbase.py   | 7 ++++++-
 zielen/commands/init.py | 8 +++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 97c42a1..627a9f1 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -100,8 +100,13 @@ class Command(abc.ABC):
         Raises:
             InputError: The selected profile is only partially initialized.
         """
-        self.profile.read()
+        # The profile must be locked before it is read because another operation
+        # may be about to change it.
         self.lock()
+        try:
+            self.profile.read()
+        except FileNotFoundError:
+            raise InputError("this profile has not been initialized")
 
         # Warn if profile is only partially initialized.
         if self.profile.status == "partial":
diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 199031a..44aa6ed 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -93,6 +93,11 @@ class InitCommand(Command):
 
         atexit.register(cleanup_profile)
         self.profile = Profile(self.profile_input)
+
+        # Lock profile if not already locked. This must happen before reading
+        # the profile because another operation may be about to change it.
+        self.lock()
+
         try:
             self.profile.read()
         except FileNotFoundError:
@@ -102,9 +107,6 @@ class InitCommand(Command):
         if self.profile.status == "initialized":
             raise InputError("this profile already exists")
 
-        # Lock profile if not already locked.
-        self.lock()
-
         # Check whether an interrupted initialization is being resumed.
         if self.profile.status == "partial":
             # Resume an interrupted initialization.
-- 
2.43.0


From cf6590e0bbde0b73936a2a0ec3ec071a9becf2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 25/59] fix: accept the path of a local directory in place of a
 profile name

---
 zielen/commandbase.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 627a9f1..9c794fd 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -27,8 +27,8 @@ import functools
 
 from zielen.paths import get_profiles_dir
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
-from zielen.profile import Profile
-from zielen.exceptions import InputError, StatusError
+from zielen.profile import Profile, ProfileConfigFile
+from zielen.exceptions import FileParseError, InputError, StatusError
 
 
 def unlock(func):
@@ -86,11 +86,17 @@ class Command(abc.ABC):
         input_path = os.path.abspath(input_str)
         if os.path.exists(input_path):
             for name, profile in self.profiles.items():
-                if not profile.cfg.raw_vals:
-                    profile.cfg.read()
-                if os.path.samefile(
-                        input_path, profile.cfg.vals["LocalDir"]):
-                    return profile
+                # A new ProfileConfigFile object is created so that the syntax
+                # of the config files of other profiles isn't checked.
+                config_file = ProfileConfigFile(profile.cfg_path)
+                try:
+                    config_file.read()
+                    if os.path.samefile(input_path, os.path.expanduser(
+                            config_file.vals["LocalDir"] or "")):
+                        return profile
+                except (FileParseError, FileNotFoundError):
+                    # This profile doesn't have a local directory.
+                    continue
         raise InputError(
             "argument is not a profile name or local directory path")
 
-- 
2.43.0


From 4223cb682061624b2064c1e3de172c358119f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 26/59] fix: expand the home directory before normalizing paths

---
 zielen/profile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 722aa92..ab38134 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -216,14 +216,14 @@ class Profile:
     @property
     def local_path(self) -> str:
         """The absolute path of the local directory."""
-        return os.path.expanduser(
-            os.path.normpath(self._cfg_file.vals["LocalDir"]))
+        return os.path.normpath(
+            os.path.expanduser(self._cfg_file.vals["LocalDir"]))
 
     @property
     def remote_path(self) -> str:
         """The absolute path of the remote directory."""
-        return os.path.expanduser(
-            os.path.normpath(self._cfg_file.vals["RemoteDir"]))
+        return os.path.normpath(
+            os.path.expanduser(self._cfg_file.vals["RemoteDir"]))
 
     @property
     def storage_limit(self) -> int:
-- 
2.43.0


From 3fe6687a221a03a0e870c637b9357346a0974445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 27/59] fix: interpret the config values in upper and lower
 case alike

---
 zielen/profile.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index ab38134..baf92a3 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -232,16 +232,16 @@ class Profile:
             r"^([0-9]+)\s*([KMG])(B|iB)?$",
             self._cfg_file.vals["StorageLimit"], re.IGNORECASE)[0]
 
-        if unit == "iB" or not unit:
+        if unit.lower() == "ib" or not unit:
             base = 1024
-        elif unit == "B":
+        elif unit.lower() == "b":
             base = 1000
 
-        if prefix in ["k", "K"]:
+        if prefix.lower() == "k":
             exponent = 1
-        elif prefix == "M":
+        elif prefix.lower() == "m":
             exponent = 2
-        elif prefix == "G":
+        elif prefix.lower() == "g":
             exponent = 3
 
         return int(num) * base**exponent
@@ -267,9 +267,9 @@ class Profile:
 
     def _convert_bool(self, value: str) -> bool:
         """Convert a string to a bool."""
-        if value in self._cfg_file.TRUE_VALS:
+        if value.lower() in self._cfg_file.TRUE_VALS:
             return True
-        elif value in self._cfg_file.FALSE_VALS:
+        elif value.lower() in self._cfg_file.FALSE_VALS:
             return False
 
     @property
-- 
2.43.0


From 8d05778c2ddc3ff8970f3bbd24a84629e7e320ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 28/59] fix: use the default values of config options that are
 left blank

---
 zielen/profile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index baf92a3..6b18879 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -977,7 +977,8 @@ class ProfileConfigFile(ConfigFile):
 
         # Check values for valid syntax.
         for key, value in self.raw_vals.items():
-            if check_empty or not check_empty and value:
+            # Optional values that are blank have their default value.
+            if value or check_empty and key not in self._optional_keys:
                 err_msg = self.check_value(key, value)
                 if err_msg:
                     parse_errors.append(
@@ -989,7 +990,8 @@ class ProfileConfigFile(ConfigFile):
     @DictProperty
     def vals(self, key: str) -> Any:
         """Get defaults if corresponding raw values are unset."""
-        if key in self.raw_vals:
+        if self.raw_vals.get(key) or (
+                key in self.raw_vals and key not in self._defaults):
             return self.raw_vals[key]
         elif key in self._defaults:
             return self._defaults[key]
-- 
2.43.0


From 984736e5810d8e0aab9960254e881e0c3ebe78fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 29/59] fix: refuse a half-life of zero

---
 zielen/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 6b18879..1cb0ecb 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -946,8 +946,8 @@ class ProfileConfigFile(ConfigFile):
             if not re.search("^[0-9]+$", value):
                 return "must be an integer"
         elif key == "PriorityHalfLife":
-            if not re.search("^[0-9]+$", value):
-                return "must be an integer"
+            if not re.search("^0*[1-9][0-9]*$", value):
+                return "must be a positive integer"
         elif key == "TrashCleanupPeriod":
             if not re.search(r"^-?[0-9]+$", value):
                 return "must be an integer"
-- 
2.43.0


From 3e42f023886734c73db6014c4b891b2141451880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 30/59] fix: clean up the trash if files are kept for zero days

---
 zielen/commands/sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 06187f2..75b5ee6 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -142,7 +142,7 @@ class SyncCommand(Command):
         fm.rm_excluded_files(remote_excluded_files)
 
         # Clean up the remote trash directory.
-        if self.profile.cleanup_period:
+        if self.profile.cleanup_period is not None:
             fm.cleanup_trash()
 
         # The sync is now complete. Update the time of the last sync in the
-- 
2.43.0


From 8731b2cbb9e96b9b3c6fdbcc14f05c3627bd9ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 31/59] fix: forget the values of removed config options when
 reading the file again

---
 zielen/containerbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index daed35b..ae6a17b 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -48,6 +48,7 @@ class ConfigFile:
 
     def read(self) -> None:
         """Parse file for key-value pairs and save in a dictionary."""
+        raw_vals = {}
         try:
             with open(self.path) as file:
                 for line in file:
@@ -55,9 +56,10 @@ class ConfigFile:
                     if (not self.COMMENT_REGEX.search(line)
                             and self.SEPARATOR in line):
                         key, value = line.partition(self.SEPARATOR)[::2]
-                        self.raw_vals[key.strip()] = value.strip()
+                        raw_vals[key.strip()] = value.strip()
         except OSError:
             raise FileParseError("could not open the configuration file")
+        self.raw_vals = raw_vals
 
     def write(self, template_path: str) -> None:
         """Generate a new config file based on the input file."""
-- 
2.43.0


From 516ea74c25572555154cb26bd5822a1e4544bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 32/59] fix: list profiles when the config file of one is
 missing or incomplete

---
 zielen/commands/list.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/zielen/commands/list.py b/zielen/commands/list.py
index c7bf200..300ba82 100644
--- a/zielen/commands/list.py
+++ b/zielen/commands/list.py
@@ -19,6 +19,7 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 """
 from zielen.profile import ProfileConfigFile
 from zielen.utils import BoxTable
+from zielen.exceptions import FileParseError
 from zielen.commandbase import Command
 
 
@@ -37,13 +38,18 @@ class ListCommand(Command):
             # New ProfileConfigFile objects are created so that they syntax
             # of the config files isn't checked.
             config_file = ProfileConfigFile(profile.cfg_path)
-            config_file.read()
+            try:
+                config_file.read()
+            except FileParseError:
+                # The initialization of this profile was interrupted before
+                # its config file was written.
+                continue
             config_files.append((name, config_file))
 
         table_data = [(
-                name, config_file.vals["LocalDir"],
-                config_file.vals["RemoteDir"],
-                config_file.vals["StorageLimit"])
+                name, config_file.vals["LocalDir"] or "",
+                config_file.vals["RemoteDir"] or "",
+                config_file.vals["StorageLimit"] or "")
             for name, config_file in config_files]
         table_data.insert(0, (
             "Profile", "Local Directory", "Remote Directory", "Limit"))
-- 
2.43.0


From 1de1c523992613acf0d90ecab38add6225a0d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 33/59] fix: detect overlapping local directories that are
 given through symlinks

---
 zielen/commands/init.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 44aa6ed..dee0d99 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -193,8 +193,11 @@ class InitCommand(Command):
             An error message if the local directory is invalid and None
             otherwise.
         """
-        common_path = os.path.commonpath([dir_path, get_program_dir()])
-        if common_path in [dir_path, get_program_dir()]:
+        # The same directory may have different paths because of symlinks.
+        dir_path = os.path.realpath(dir_path)
+        program_dir = os.path.realpath(get_program_dir())
+        common_path = os.path.commonpath([dir_path, program_dir])
+        if common_path in [dir_path, program_dir]:
             return "local directory must not contain zielen config files"
 
         overlap_profiles = []
@@ -210,8 +213,9 @@ class InitCommand(Command):
                 # its directories were checked.
                 continue
 
-            common_path = os.path.commonpath([profile.local_path, dir_path])
-            if common_path in [profile.local_path, dir_path]:
+            local_path = os.path.realpath(profile.local_path)
+            common_path = os.path.commonpath([local_path, dir_path])
+            if common_path in [local_path, dir_path]:
                 overlap_profiles.append(name)
 
         if overlap_profiles:
-- 
2.43.0


From 24e50c9d49b24b18688f7086ecd92ab37d398905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 34/59] fix: refuse a remote directory that overlaps the local
 one

---
 zielen/commands/init.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index dee0d99..d416771 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -134,6 +134,9 @@ class InitCommand(Command):
             if error_message:
                 raise InputError("local directory {}".format(error_message))
             error_message = self._verify_local_dir(self.profile.local_path)
+            if error_message:
+                raise InputError(error_message)
+            error_message = self._verify_remote_dir(self.profile.remote_path)
             if error_message:
                 raise InputError(error_message)
             error_message = check_dir(
@@ -180,6 +183,22 @@ class InitCommand(Command):
             'systemctl --user enable zielen@{0}.service'""".format(
                 self.profile.name)))
 
+    def _verify_remote_dir(self, dir_path: str) -> Optional[str]:
+        """Verify that remote directory path doesn't overlap the local one.
+
+        Args:
+            dir_path: The absolute path of the remote directory.
+
+        Returns:
+            An error message if the remote directory is invalid and None
+            otherwise.
+        """
+        dir_path = os.path.realpath(dir_path)
+        local_path = os.path.realpath(self.profile.local_path)
+        common_path = os.path.commonpath([dir_path, local_path])
+        if common_path in [dir_path, local_path]:
+            return "remote directory must not overlap the local directory"
+
     def _verify_local_dir(self, dir_path: str) -> Optional[str]:
         """Verity that local directory path doesn't overlap other profiles.
 
-- 
2.43.0


From 7dbf6b123730aafec667a6d326acc931b7226143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 35/59] fix: record the files that were replaced before an
 initialization was interrupted

---
 zielen/filelogic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index ae7f12f..1670a47 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -484,6 +484,13 @@ class FilesManager:
                 os.path.join(self.local_dir.path, link_path),
                 self.local_dir.path)}
 
+        # If the initialization was interrupted, some of the files have already
+        # been replaced with symlinks to the remote directory.
+        replaced_paths = {
+            link_path for link_path in unsafe_symlinks
+            if os.readlink(os.path.join(self.local_dir.path, link_path))
+            == os.path.join(self.remote_dir.safe_path, link_path)}
+
         # Check that there is enough remote space to accommodate local
         # files.
         if self.local_dir.disk_usage() > self.remote_dir.space_avail():
@@ -503,7 +510,7 @@ class FilesManager:
             else:
                 raise
 
-        self._setup_dir(unsafe_symlinks)
+        self._setup_dir(unsafe_symlinks - replaced_paths)
 
     def setup_from_remote(self) -> None:
         """Symlink initial remote files to the local directory."""
-- 
2.43.0


From a5235e9440be81e853ae7f61cdd44ddb2884bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 36/59] fix: report a missing remote directory in reset

---
 zielen/commands/reset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 0725e17..4a0cce6 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -51,6 +51,9 @@ class ResetCommand(Command):
         self.setup_profile()
 
         if not self.no_retrieve:
+            if not os.path.isdir(self.remote_dir.util_dir):
+                raise RemoteError("the remote directory could not be found")
+
             # Check if there is enough space locally to accommodate remote
             # files.
             if self.remote_dir.disk_usage() > self.local_dir.space_avail():
-- 
2.43.0


From b962b2774d6a9ebdd012c9e7f9b3880a05c51a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 37/59] fix: tell files and symlinks from directories in reset

---
 zielen/commands/reset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 4a0cce6..1edfe4c 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -87,7 +87,7 @@ class ResetCommand(Command):
                 self.remote_dir.close()
                 try:
                     for entry in os.scandir(self.remote_dir.path):
-                        if entry.is_dir:
+                        if entry.is_dir(follow_symlinks=False):
                             shutil.rmtree(entry.path)
                         else:
                             os.remove(entry.path)
@@ -103,6 +103,7 @@ class ResetCommand(Command):
             link_dest = os.readlink(full_path)
             if not os.path.isabs(link_dest):
                 link_dest = os.path.join(os.path.dirname(full_path), link_dest)
+            link_dest = os.path.normpath(link_dest)
             if os.path.commonpath([
                     link_dest,
                     self.remote_dir.safe_path]) == self.remote_dir.safe_path:
-- 
2.43.0


From d9e3a5480874e1510967492405e77ae0d4dd69b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 38/59] fix: report a missing remote directory in empty-trash

---
 zielen/commands/emptytrash.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zielen/commands/emptytrash.py b/zielen/commands/emptytrash.py
index 89cf782..09baed9 100644
--- a/zielen/commands/emptytrash.py
+++ b/zielen/commands/emptytrash.py
@@ -20,6 +20,7 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 import os
 import shutil
 
+from zielen.exceptions import RemoteError
 from zielen.commandbase import Command, unlock
 
 
@@ -38,6 +39,9 @@ class EmptyTrashCommand(Command):
         """Run the command."""
         self.setup_profile()
 
+        if not os.path.isdir(self.remote_dir.util_dir):
+            raise RemoteError("the remote directory could not be found")
+
         files_deleted = 0
         for path in os.scandir(self.remote_dir.trash_dir):
             try:
-- 
2.43.0


From f1aef3d5f084cac3ea60b6b7c95b6a054b63beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 39/59] fix: let interrupted resets be repeated and interrupted
 initializations be cancelled

---
 zielen/commandbase.py    | 13 +++++++---
 zielen/commands/init.py  |  2 +-
 zielen/commands/reset.py | 26 +++++++++++++++++---
 zielen/containerbase.py  |  3 ++-
 zielen/filelogic.py      | 52 ++++++++++++++++++++++++++++++++++++----
 zielen/profile.py        | 13 +++++++++-
 6 files changed, 96 insertions(+), 13 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 9c794fd..5ed6291 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -54,7 +54,10 @@ class Command(abc.ABC):
         local_dir: A LocalSyncDir object representing the local directory.
         remote_dir: A RemoteSyncDir object representing the remote directory.
         lock_socket: A unix domain socket used for locking a profile.
+        valid_statuses: The statuses of profiles that the command accepts.
     """
+    valid_statuses = ["initialized"]
+
     def __init__(self) -> None:
         os.makedirs(get_profiles_dir(), exist_ok=True)
         self.profiles = {
@@ -115,9 +118,13 @@ class Command(abc.ABC):
             raise InputError("this profile has not been initialized")
 
         # Warn if profile is only partially initialized.
-        if self.profile.status == "partial":
-            atexit.register(self.print_interrupt_msg)
-            raise InputError("invalid profile")
+        if self.profile.status not in self.valid_statuses:
+            if self.profile.status == "partial":
+                atexit.register(self.print_interrupt_msg)
+                raise InputError("invalid profile")
+            raise InputError(
+                "resetting this profile was interrupted, run 'zielen reset' "
+                "to complete it")
 
         self.local_dir = LocalSyncDir(self.profile.local_path)
         self.remote_dir = RemoteSyncDir(self.profile.remote_path)
diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index d416771..5cee884 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -104,7 +104,7 @@ class InitCommand(Command):
             pass
 
         # Check if the profile has already been initialized.
-        if self.profile.status == "initialized":
+        if self.profile.status not in [None, "partial"]:
             raise InputError("this profile already exists")
 
         # Check whether an interrupted initialization is being resumed.
diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 1edfe4c..dbec90b 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -23,6 +23,7 @@ import shutil
 from zielen.exceptions import (
     RemoteError, AvailableSpaceError, FileTransferError)
 from zielen.fstools import transfer_tree
+from zielen.filelogic import FilesManager
 from zielen.commandbase import Command, unlock
 
 
@@ -34,6 +35,8 @@ class ResetCommand(Command):
         keep_remote: The "--keep-remote" option was given.
         no_retrieve: The "--no-retrieve" option was given.
     """
+    valid_statuses = ["initialized", "partial", "resetting", "retrieved"]
+
     def __init__(self, profile_input: str, keep_remote=False,
                  no_retrieve=False) -> None:
         super().__init__()
@@ -49,8 +52,14 @@ class ResetCommand(Command):
             RemoteError: The remote directory could not be found.
         """
         self.setup_profile()
+        fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
 
-        if not self.no_retrieve:
+        if self.profile.status == "partial" and not fm.get_placeholders():
+            # The initialization was interrupted before any of the local files
+            # were replaced.
+            self.no_retrieve = True
+
+        if not self.no_retrieve and self.profile.status != "retrieved":
             if not os.path.isdir(self.remote_dir.util_dir):
                 raise RemoteError("the remote directory could not be found")
 
@@ -60,6 +69,13 @@ class ResetCommand(Command):
                 raise AvailableSpaceError(
                     "not enough local space to accommodate remote files")
 
+            # The profile can't be synced until this has been completed because
+            # the retrieved files would be mistaken for deleted ones.
+            fm.prepare_reset()
+            self.remote_dir.write()
+            self.profile.status = "resetting"
+            self.profile.write()
+
             # Retrieve remote files.
             try:
                 transfer_tree(
@@ -74,6 +90,10 @@ class ResetCommand(Command):
                 else:
                     raise
 
+            self.profile.status = "retrieved"
+            self.profile.write()
+
+        if not self.no_retrieve:
             if not self.keep_remote:
                 # Check that the remote directory contains only empty
                 # directories and the util directory.
@@ -97,7 +117,7 @@ class ResetCommand(Command):
         # Remove non-user-created symlinks from the local directory. These
         # are symlinks that point to the remote directory.
         local_symlinks = self.local_dir.scan_paths(
-            files=False, dirs=False).keys()
+            files=False, dirs=False, memoize=False).keys()
         for rel_path in local_symlinks:
             full_path = os.path.join(self.local_dir.path, rel_path)
             link_dest = os.readlink(full_path)
@@ -110,4 +130,4 @@ class ResetCommand(Command):
                 os.remove(full_path)
 
         self.remote_dir.rm_exclude_file(self.profile.id)
-        shutil.rmtree(self.profile.path)
+        self.profile.remove()
diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index ae6a17b..858815d 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -244,4 +244,5 @@ class SyncDBFile:
 
     def close(self) -> None:
         """Close the database connection."""
-        self._conn.close()
+        if self._conn:
+            self._conn.close()
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 1670a47..5029c62 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -486,10 +486,7 @@ class FilesManager:
 
         # If the initialization was interrupted, some of the files have already
         # been replaced with symlinks to the remote directory.
-        replaced_paths = {
-            link_path for link_path in unsafe_symlinks
-            if os.readlink(os.path.join(self.local_dir.path, link_path))
-            == os.path.join(self.remote_dir.safe_path, link_path)}
+        replaced_paths = self.get_placeholders()
 
         # Check that there is enough remote space to accommodate local
         # files.
@@ -807,6 +804,53 @@ class FilesManager:
         self.remote_dir.add_paths([], retained_paths)
         return retained_paths
 
+    def get_placeholders(self) -> Set[str]:
+        """Get the paths of local symlinks that represent remote files.
+
+        Returns:
+            The relative paths of the symlinks.
+        """
+        return {
+            path for path in self.local_dir.scan_paths(
+                files=False, dirs=False).keys()
+            if os.readlink(os.path.join(self.local_dir.path, path))
+            == os.path.join(self.remote_dir.safe_path, path)}
+
+    def prepare_reset(self) -> None:
+        """Prepare the remote directory for having its files retrieved.
+
+        Files that were modified since the last sync are updated in the remote
+        directory so that they are not overwritten, and files that are new in
+        the remote directory are added to the remote database. If the profile
+        is only partially initialized, the initialization is completed.
+        """
+        if self.profile.status == "partial":
+            self.remote_dir.generate()
+            if self.profile.add_remote:
+                self.setup_from_remote()
+            else:
+                self.setup_from_local()
+        else:
+            mod_paths = self.compute_modified()
+            updated_paths = self.handle_conflicts(
+                mod_paths.local, mod_paths.remote)
+            self.remote_dir.add_paths(updated_paths.all, [])
+            self.update_remote(updated_paths.local)
+
+        # Local files that are unrelated to the new remote files are kept.
+        new_paths = (
+            self.remote_dir.scan_paths(dirs=False, memoize=False).keys()
+            - self.remote_dir.get_paths().keys())
+        conflict_paths = (
+            new_paths
+            & self.local_dir.scan_paths(dirs=False, memoize=False).keys()
+            - self.get_placeholders())
+        self.rename_remote_files([
+            (path, self._get_conflict_path(path)) for path in conflict_paths])
+        self.remote_dir.add_paths(
+            self.remote_dir.scan_paths(dirs=False, memoize=False).keys(),
+            self.remote_dir.scan_paths(files=False, symlinks=False).keys())
+
     def get_user_symlinks(self) -> Set[str]:
         """Get the paths of local symlinks that can't be synced.
 
diff --git a/zielen/profile.py b/zielen/profile.py
index 1cb0ecb..cd81788 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -22,9 +22,11 @@ import re
 import sys
 import glob
 import uuid
+import shutil
 import getpass
 import sqlite3
 import datetime
+import tempfile
 import textwrap
 import readline  # This is not unused. Importing it adds features to input().
 import collections
@@ -33,7 +35,8 @@ from typing import (
 
 import pkg_resources
 
-from zielen.paths import get_xdg_data_home, get_profiles_dir
+from zielen.paths import (
+    get_program_dir, get_xdg_data_home, get_profiles_dir)
 from zielen.containerbase import JSONFile, ConfigFile, SyncDBFile
 from zielen.fstools import has_symlink_parent, scan_tree
 from zielen.utils import (
@@ -130,6 +133,12 @@ class Profile:
         """
         self._info_file.generate(self.name, init_options)
 
+    def remove(self) -> None:
+        """Remove all persistent data in one step."""
+        tmp_dir = tempfile.mkdtemp(dir=get_program_dir())
+        os.rename(self.path, os.path.join(tmp_dir, self.name))
+        shutil.rmtree(tmp_dir)
+
     def write(self) -> None:
         """Write data to persistent storage."""
         self._info_file.write()
@@ -141,6 +150,8 @@ class Profile:
 
         "initialized": Fully initialized.
         "partial": Partially initialized.
+        "resetting": Some of the remote files may have been retrieved.
+        "retrieved": All of the remote files have been retrieved.
         """
         return self._info_file.vals["Status"]
 
-- 
2.43.0


From 6d8e151de8ebe567c1e802fa2c6d990071c8e7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 40/59] fix: skip directories that don't exist when matching
 exclude patterns

---
 zielen/profile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zielen/profile.py b/zielen/profile.py
index cd81788..6b48952 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -383,6 +383,10 @@ class ProfileExcludeFile:
                 glob_str = os.path.join(glob.escape(start_path), "**", line)
 
             for match_path in glob.glob(glob_str, recursive=True):
+                if not os.path.lexists(match_path):
+                    # Before python 3.10, "dir/**" matches "dir/" whether or
+                    # not that is an existing directory.
+                    continue
                 rel_match_path = os.path.relpath(match_path, start_path)
                 if has_symlink_parent(start_path, rel_match_path):
                     continue
-- 
2.43.0


From 8932250c12270b2b0f79b725b84a3c270be3ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 41/59] fix: count excluded files that are about to be
 retrieved towards the storage limit

---
 zielen/commands/sync.py |  4 +++-
 zielen/filelogic.py     | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 75b5ee6..4530672 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -128,7 +128,9 @@ class SyncCommand(Command):
             & self.profile.get_paths().keys())
 
         # Decide which files and directories to keep in the local directory.
-        remaining_space = self.profile.storage_limit - fm.get_excluded_size()
+        remaining_space = (
+            self.profile.storage_limit
+            - fm.get_excluded_size(remote_excluded_files))
         remaining_space, selected_dirs = fm.prioritize_dirs(remaining_space)
         remaining_space, selected_files = fm.prioritize_files(
             remaining_space, exclude=selected_dirs)
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 5029c62..6673ad0 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -1055,16 +1055,24 @@ class FilesManager:
                 else:
                     os.remove(entry.path)
 
-    def get_excluded_size(self) -> int:
+    def get_excluded_size(self, retrieve_paths: Iterable[str] = ()) -> int:
         """Get the disk usage of all excluded local files.
 
+        Args:
+            retrieve_paths: The paths of excluded files in the remote directory
+                that will be copied to the local directory.
+
         Returns:
             The disk usage as a number of bytes.
         """
         # Excluded files may have been renamed while resolving conflicts.
+        excluded_paths = (
+            self.profile.all_exclude_matches(self.local_dir.path)
+            & self.local_dir.scan_paths().keys())
         total_excluded_size = sum(
             self.local_dir.scan_paths()[path].st_blocks * 512
-            for path in (
-                self.profile.all_exclude_matches(self.local_dir.path)
-                & self.local_dir.scan_paths().keys()))
+            for path in excluded_paths - set(retrieve_paths))
+        remote_stats = self.remote_dir.scan_paths(memoize=False)
+        total_excluded_size += sum(
+            remote_stats[path].st_blocks * 512 for path in retrieve_paths)
         return total_excluded_size
-- 
2.43.0


From 8a139d0e56ab7cdd90ef8ddf382cf9060734259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 42/59] fix: don't change files when paths below them are
 updated or removed

---
 zielen/profile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 6b48952..a60e3f1 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -555,7 +555,8 @@ class ProfileDBFile(SyncDBFile):
                 ON (n.id = c.descendant)
                 WHERE c.ancestor = :path_id
                 AND c.depth = 1)
-            WHERE id = :path_id;
+            WHERE id = :path_id
+            AND directory = 1;
             """, nodes_values)
 
     def _update_local(self, paths: Iterable[str]) -> None:
@@ -583,7 +584,8 @@ class ProfileDBFile(SyncDBFile):
                 ON (n.id = c.descendant)
                 WHERE c.ancestor = :path_id
                 AND c.depth = 1)
-            WHERE id = :path_id;
+            WHERE id = :path_id
+            AND directory = 1;
             """, nodes_values)
 
     def add_paths(self, files: Iterable[str], dirs: Iterable[str],
-- 
2.43.0


From 1aa5b115824ed47d59dbf465d41089ad0a214cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 43/59] fix: update the directories of paths that are given as
 an iterator

---
 zielen/profile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zielen/profile.py b/zielen/profile.py
index a60e3f1..a5d12d3 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -693,6 +693,7 @@ class ProfileDBFile(SyncDBFile):
             local: The paths are the paths of files that have been kept in the
                 local directory. Use None to leave the value unchanged.
         """
+        paths = list(paths)
         update_vals = []
         for path in paths:
             path_id = self._get_path_id(path)
@@ -738,6 +739,8 @@ class ProfileDBFile(SyncDBFile):
         Args:
             paths: The file paths to remove.
         """
+        paths = list(paths)
+
         # A generator expression can't be used here because recursive use of
         # cursors is not allowed.
         rm_vals = [{
@@ -837,6 +840,8 @@ class ProfileDBFile(SyncDBFile):
             paths: The paths to increment the priority of.
             increment: The value to increment the paths by.
         """
+        paths = list(paths)
+
         # A generator expression can't be used here because recursive use of
         # cursors is not allowed.
         increment_vals = [{
-- 
2.43.0


From 23f2f297fe3115acf2818a69d4c839a95196d1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 44/59] fix: keep paths with colliding hashes apart

---
 zielen/containerbase.py | 53 +++++++++++++++++++++++++++++++++++++++--
 zielen/profile.py       | 30 ++++++++++-------------
 zielen/userdata.py      | 24 +++++++------------
 3 files changed, 72 insertions(+), 35 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 858815d..f49ed66 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -23,7 +23,7 @@ import json
 import sqlite3
 import contextlib
 import hashlib
-from typing import List, Generator, Iterable
+from typing import Any, Dict, List, Generator, Iterable, Optional
 
 from zielen.exceptions import FileParseError, RemoteError
 from zielen.utils import secure_string
@@ -200,7 +200,7 @@ class SyncDBFile:
         # A generator expression can't be used here because recursive use of
         # cursors is not allowed.
         nodes_values = [{
-            "path_id": self._get_path_id(path)}
+            "path_id": self._find_path_id(path)}
             for path in paths]
 
         self._cur.executemany("""\
@@ -238,6 +238,55 @@ class SyncDBFile:
         return int.from_bytes(
             path_hash.digest()[:8], byteorder="big", signed=True)
 
+    def _find_path_id(self, path: str) -> Optional[int]:
+        """Return the ID of a file path that is in the database.
+
+        Args:
+            path: The file path to find the ID of.
+
+        Returns:
+            A signed 64-bit integer or None if the path is not in the database.
+        """
+        path_id = self._get_path_id(path)
+        self._cur.execute("""\
+            SELECT id
+            FROM nodes
+            WHERE id = :path_id
+            AND path = :path;
+            """, {"path_id": path_id, "path": path})
+        return path_id if self._cur.fetchone() else None
+
+    def _salt_collisions(self, nodes_vals: List[Dict[str, Any]]) -> bool:
+        """Generate salt for new paths that have the ID of another path.
+
+        Args:
+            nodes_vals: The paths and IDs of the paths that are to be added.
+
+        Returns:
+            True if there were any hash collisions and False otherwise.
+        """
+        # Find collisions with paths that are already in the database.
+        self._cur.executemany("""\
+            INSERT OR REPLACE INTO collisions (path, salt)
+            SELECT :path, gen_salt()
+            FROM nodes
+            WHERE id = :path_id
+            AND path != :path;
+            """, nodes_vals)
+        if self._cur.rowcount > 0:
+            return True
+
+        # Find collisions among the new paths.
+        paths = {vals["path_id"]: vals["path"] for vals in nodes_vals}
+        collision_vals = [
+            vals for vals in nodes_vals
+            if paths[vals["path_id"]] != vals["path"]]
+        self._cur.executemany("""\
+            INSERT OR REPLACE INTO collisions (path, salt)
+            VALUES (:path, gen_salt());
+            """, collision_vals)
+        return bool(collision_vals)
+
     def commit(self) -> None:
         """Commit the database transaction."""
         self._conn.commit()
diff --git a/zielen/profile.py b/zielen/profile.py
index a5d12d3..23a6e39 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -543,7 +543,7 @@ class ProfileDBFile(SyncDBFile):
         """
         nodes_values = []
         for path in get_path_ancestry(paths):
-            path_id = self._get_path_id(path)
+            path_id = self._find_path_id(path)
             nodes_values.append({"path_id": path_id})
 
         self._cur.executemany("""\
@@ -572,7 +572,7 @@ class ProfileDBFile(SyncDBFile):
         """
         nodes_values = []
         for path in get_path_ancestry(paths):
-            path_id = self._get_path_id(path)
+            path_id = self._find_path_id(path)
             nodes_values.append({"path_id": path_id})
 
         self._cur.executemany("""\
@@ -636,17 +636,9 @@ class ProfileDBFile(SyncDBFile):
                     "path_id": path_id,
                     "parent_id": parent_id})
 
-            # If there are any hash collisions with paths already in the
-            # database, generate salt and continue the loop to regenerate
-            # the path IDs.
-            self._cur.executemany("""\
-                INSERT INTO collisions (path, salt)
-                SELECT :path, gen_salt()
-                FROM nodes
-                WHERE id = :path_id
-                AND path != :path;
-                """, insert_nodes_vals)
-            if self._cur.rowcount <= 0:
+            # If there are any hash collisions, generate salt and continue the
+            # loop to regenerate the path IDs.
+            if not self._salt_collisions(insert_nodes_vals):
                 break
 
         # Insert new values into both tables.
@@ -696,7 +688,7 @@ class ProfileDBFile(SyncDBFile):
         paths = list(paths)
         update_vals = []
         for path in paths:
-            path_id = self._get_path_id(path)
+            path_id = self._find_path_id(path)
 
             update_vals.append({
                 "path_id": path_id,
@@ -744,7 +736,7 @@ class ProfileDBFile(SyncDBFile):
         # A generator expression can't be used here because recursive use of
         # cursors is not allowed.
         rm_vals = [{
-            "path_id": self._get_path_id(path)}
+            "path_id": self._find_path_id(path)}
             for path in paths]
         parents = {
             os.path.dirname(path) for path in paths if os.path.dirname(path)}
@@ -781,7 +773,7 @@ class ProfileDBFile(SyncDBFile):
         # Clear the query result set.
         self._cur.fetchall()
 
-        path_id = self._get_path_id(path)
+        path_id = self._find_path_id(path)
         self._cur.execute("""\
             SELECT directory, priority, local
             FROM nodes
@@ -813,7 +805,9 @@ class ProfileDBFile(SyncDBFile):
             is a directory, the file priority and a bool representing whether
             the file has been kept in the local directory.
         """
-        start_id = self._get_path_id(root) if root else None
+        start_id = self._find_path_id(root) if root else None
+        if root and start_id is None:
+            return {}
         self._cur.execute("""\
             SELECT n.path, n.directory, n.priority, n.local
             FROM nodes AS n
@@ -845,7 +839,7 @@ class ProfileDBFile(SyncDBFile):
         # A generator expression can't be used here because recursive use of
         # cursors is not allowed.
         increment_vals = [{
-            "path_id": self._get_path_id(path),
+            "path_id": self._find_path_id(path),
             "increment": increment}
             for path in paths]
         parents = {
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 2451b63..0ab3057 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -358,17 +358,9 @@ class RemoteDBFile(SyncDBFile):
                     "path_id": path_id,
                     "parent_id": parent_id})
 
-            # If there are any hash collisions with paths already in the
-            # database, generate salt and continue the loop to regenerate
-            # the path IDs.
-            self._cur.executemany("""\
-                INSERT INTO collisions (path, salt)
-                SELECT :path, gen_salt()
-                FROM nodes
-                WHERE id = :path_id
-                AND path != :path;
-                """, insert_nodes_vals)
-            if self._cur.rowcount <= 0:
+            # If there are any hash collisions, generate salt and continue the
+            # loop to regenerate the path IDs.
+            if not self._salt_collisions(insert_nodes_vals):
                 break
 
         # Insert new values into both tables.
@@ -398,7 +390,7 @@ class RemoteDBFile(SyncDBFile):
         """
         update_vals = []
         for path in paths:
-            path_id = self._get_path_id(path)
+            path_id = self._find_path_id(path)
 
             update_vals.append({
                 "path_id": path_id,
@@ -431,7 +423,7 @@ class RemoteDBFile(SyncDBFile):
         # A generator expression can't be used here because recursive use of
         # cursors is not allowed.
         rm_vals = [{
-            "path_id": self._get_path_id(path)}
+            "path_id": self._find_path_id(path)}
             for path in paths]
 
         self._cur.executemany("""\
@@ -461,7 +453,7 @@ class RemoteDBFile(SyncDBFile):
             a directory and the time that the file was last updated by a
             sync as a unix timestamp.
         """
-        path_id = self._get_path_id(path)
+        path_id = self._find_path_id(path)
         self._cur.execute("""\
             SELECT directory, lastsync
             FROM nodes
@@ -491,7 +483,9 @@ class RemoteDBFile(SyncDBFile):
             is a directory and the time that the file was last updated by a
             sync as a unix timestamp.
         """
-        start_id = self._get_path_id(root) if root else None
+        start_id = self._find_path_id(root) if root else None
+        if root and start_id is None:
+            return {}
         self._cur.execute("""\
             SELECT n.path, n.directory, n.lastsync
             FROM nodes AS n
-- 
2.43.0


From 112f65401c03202510763057333b47a2bfeb5121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 45/59] fix: keep symlinks that replaced a file when the
 profile is reset

---
 zielen/filelogic.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 6673ad0..fe531e0 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -845,6 +845,19 @@ class FilesManager:
             new_paths
             & self.local_dir.scan_paths(dirs=False, memoize=False).keys()
             - self.get_placeholders())
+
+        # Symlinks that the user put in the place of a file are kept, too.
+        for path in (
+                self.get_user_symlinks()
+                & self.remote_dir.scan_paths(dirs=False).keys()):
+            local_path = os.path.join(self.local_dir.path, path)
+            if not (os.readlink(local_path).startswith(
+                        os.path.join(self.remote_dir.safe_path, ""))
+                    or is_same_file(
+                        local_path,
+                        os.path.join(self.remote_dir.path, path))):
+                conflict_paths.add(path)
+
         self.rename_remote_files([
             (path, self._get_conflict_path(path)) for path in conflict_paths])
         self.remote_dir.add_paths(
-- 
2.43.0


From c52fae7019de57be0a48bb1fcbd12be84e25a424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 46/59] fix: keep excluded files that other profiles sync when
 the profile is reset

---
 zielen/filelogic.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index fe531e0..b75c31f 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -837,14 +837,20 @@ class FilesManager:
             self.remote_dir.add_paths(updated_paths.all, [])
             self.update_remote(updated_paths.local)
 
-        # Local files that are unrelated to the new remote files are kept.
+        # Local files that are unrelated to the remote files with their names
+        # are kept. Files that were retrieved before an interruption are the
+        # same as the remote ones.
         new_paths = (
             self.remote_dir.scan_paths(dirs=False, memoize=False).keys()
-            - self.remote_dir.get_paths().keys())
-        conflict_paths = (
-            new_paths
-            & self.local_dir.scan_paths(dirs=False, memoize=False).keys()
+            - self.profile.get_paths().keys())
+        local_paths = (
+            self.local_dir.scan_paths(dirs=False, memoize=False).keys()
             - self.get_placeholders())
+        conflict_paths = {
+            path for path in new_paths & local_paths
+            if not is_same_file(
+                os.path.join(self.local_dir.path, path),
+                os.path.join(self.remote_dir.path, path))}
 
         # Symlinks that the user put in the place of a file are kept, too.
         for path in (
-- 
2.43.0


From d67e3482036c3c530795c4e1508a551d7e48a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 47/59] fix: finish moving excluded files out of the remote
 directory after an interruption

---
 zielen/filelogic.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index b75c31f..e787787 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -654,13 +654,23 @@ class FilesManager:
                 os.path.join(self.local_dir.path, path), self.local_dir.path)}
         new_local_paths -= self.profile.all_exclude_matches(
             self.local_dir.path)
-        # An excluded local file is unrelated to a remote file with its name.
+        # An excluded local file is unrelated to a remote file with its name
+        # unless it was copied by a sync that was interrupted.
+        local_stats = self.local_dir.scan_paths()
+        remote_files = self.remote_dir.scan_paths(dirs=False)
         new_remote_paths = {
             path for path in self.remote_dir.scan_paths().keys()
             if not self.profile.get_path_info(path)}
-        new_remote_paths -= (
-            self.local_dir.scan_paths().keys()
-            & self.profile.all_exclude_matches(self.local_dir.path))
+        new_remote_paths -= {
+            path for path in (
+                local_stats.keys()
+                & self.profile.all_exclude_matches(self.local_dir.path)
+                - self.get_placeholders())
+            if path not in remote_files
+            or local_stats[path].st_mtime != remote_files[path].st_mtime
+            or not is_same_file(
+                os.path.join(self.local_dir.path, path),
+                os.path.join(self.remote_dir.path, path))}
 
         return UpdatedPaths(new_local_paths, new_remote_paths)
 
-- 
2.43.0


From ab261960a061866d53af8417a47c226db1f9e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 48/59] fix: don't record a sync as complete before the
 database is written

---
 zielen/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 23a6e39..06722da 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -141,8 +141,9 @@ class Profile:
 
     def write(self) -> None:
         """Write data to persistent storage."""
-        self._info_file.write()
+        # The info file says that an operation is complete, so it comes last.
         self._db_file.commit()
+        self._info_file.write()
 
     @property
     def status(self) -> str:
-- 
2.43.0


From 8ea8c82fab66c1d22c04170f9f4bdb5fac1d1581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 49/59] fix: record restored directories after an interruption

---
 zielen/filelogic.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index e787787..429fec1 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -808,11 +808,12 @@ class FilesManager:
         Returns:
             The relative paths of the directories.
         """
-        retained_paths = (
-            self.profile.get_paths(directory=True).keys()
-            - self.remote_dir.scan_paths().keys())
-        self.remote_dir.add_paths([], retained_paths)
-        return retained_paths
+        dir_paths = self.profile.get_paths(directory=True).keys()
+
+        # A previous sync that was interrupted may already have restored them.
+        self.remote_dir.add_paths(
+            [], dir_paths - self.remote_dir.get_paths().keys())
+        return dir_paths - self.remote_dir.scan_paths().keys()
 
     def get_placeholders(self) -> Set[str]:
         """Get the paths of local symlinks that represent remote files.
-- 
2.43.0


From 7df20a210cf3d7552e76d282f91c958ea4b3149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 50/59] fix: don't sync after an interrupted reset that
 retrieves nothing

---
 zielen/commands/reset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index dbec90b..e3f6b81 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -114,6 +114,12 @@ class ResetCommand(Command):
                 except FileNotFoundError:
                     pass
 
+        if self.profile.status == "initialized":
+            # The profile can't be synced until this has been completed because
+            # the removed symlinks would be mistaken for deleted files.
+            self.profile.status = "resetting"
+            self.profile.write()
+
         # Remove non-user-created symlinks from the local directory. These
         # are symlinks that point to the remote directory.
         local_symlinks = self.local_dir.scan_paths(
-- 
2.43.0


From 41743f9055975a9abc700a53c20d35e9eee730cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 51/59] fix: report config files that are not text files

---
 zielen/containerbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index f49ed66..7347fae 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -59,6 +59,8 @@ class ConfigFile:
                         raw_vals[key.strip()] = value.strip()
         except OSError:
             raise FileParseError("could not open the configuration file")
+        except UnicodeDecodeError:
+            raise FileParseError("the configuration file is not a text file")
         self.raw_vals = raw_vals
 
     def write(self, template_path: str) -> None:
-- 
2.43.0


From 5796b421abce96d3e2e1a789df01c63481ba7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 52/59] fix: report directories of which the path is a broken
 symlink or leads through a file

---
 zielen/fstools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 0fda4a1..690a56c 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -344,5 +344,8 @@ def check_dir(path: str, expect_empty: bool) -> Optional[str]:
                 os.makedirs(path)
             except PermissionError:
                 return "must be in a directory with write access"
+            except (FileExistsError, NotADirectoryError):
+                # The path is a broken symlink or it leads through a file.
+                return "must be a directory"
         else:
             return "must be an existing directory"
-- 
2.43.0


From 7b9b618e5b4d317c467fe6129621b53bbbff005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 53/59] fix: check for overlapping directories before creating
 them

---
 zielen/commands/init.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 5cee884..d6a71a8 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -128,17 +128,19 @@ class InitCommand(Command):
             self.profile.generate(
                 exclude_path=self.exclude, template_path=self.template)
 
-            # Check validity of local and remote directories.
-            error_message = check_dir(
-                self.profile.local_path, self.add_remote)
-            if error_message:
-                raise InputError("local directory {}".format(error_message))
+            # Check validity of local and remote directories. Overlaps are
+            # checked first because directories that don't exist may be created
+            # by the other checks.
             error_message = self._verify_local_dir(self.profile.local_path)
             if error_message:
                 raise InputError(error_message)
             error_message = self._verify_remote_dir(self.profile.remote_path)
             if error_message:
                 raise InputError(error_message)
+            error_message = check_dir(
+                self.profile.local_path, self.add_remote)
+            if error_message:
+                raise InputError("local directory {}".format(error_message))
             error_message = check_dir(
                 self.profile.remote_path, not self.add_remote)
             if error_message:
-- 
2.43.0


From b1f09a83f12a0782c1e5b6c1d6fed605db4c5669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 54/59] fix: don't overwrite what another process recorded
 about a profile

---
 zielen/profile.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/zielen/profile.py b/zielen/profile.py
index 06722da..5b53e09 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -20,8 +20,10 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 import os
 import re
 import sys
+import copy
 import glob
 import uuid
+import fcntl
 import shutil
 import getpass
 import sqlite3
@@ -29,6 +31,7 @@ import datetime
 import tempfile
 import textwrap
 import readline  # This is not unused. Importing it adds features to input().
+import contextlib
 import collections
 from typing import (
     Any, Iterable, Generator, Dict, NamedTuple, Optional, Union, Set, List)
@@ -442,10 +445,43 @@ class ProfileInfoFile(JSONFile):
 
     Attributes:
         vals: A dict of values from the file.
+        _saved_vals: A copy of the values that were last read or written.
     """
     def __init__(self, path) -> None:
         super().__init__(path)
         self.vals = collections.defaultdict(lambda: None)
+        self._saved_vals = {}
+
+    @contextlib.contextmanager
+    def _lock(self) -> Generator[None, None, None]:
+        """Wait until no other process is writing to the file."""
+        dir_fd = os.open(os.path.dirname(self.path), os.O_RDONLY)
+        try:
+            fcntl.flock(dir_fd, fcntl.LOCK_EX)
+            yield
+        finally:
+            os.close(dir_fd)
+
+    def read(self) -> None:
+        """Read file into an object."""
+        super().read()
+        self._saved_vals = copy.deepcopy(self.vals)
+
+    def write(self) -> None:
+        """Write the values that have changed since the file was last read.
+
+        The other values may have been changed by another process (e.g. the
+        daemon) in the meantime.
+        """
+        changed_vals = {
+            key: value for key, value in self.vals.items()
+            if key not in self._saved_vals or self._saved_vals[key] != value}
+        with self._lock():
+            if os.path.isfile(self.path):
+                super().read()
+            self.vals.update(changed_vals)
+            super().write()
+        self._saved_vals = copy.deepcopy(self.vals)
 
     def generate(self, name: str, init_options: Dict[str, Any]) -> None:
         """Generate info for a new profile.
-- 
2.43.0


From 510b3027c3b1286845940e5641d94d35188b8876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:30 +0000
Subject: [PATCH 55/59] fix: don't leave a transaction open in the daemon if
 the database is locked

---
 zielen/containerbase.py | 8 ++++++++
 zielen/daemon.py        | 4 ++++
 zielen/profile.py       | 1 +
 3 files changed, 13 insertions(+)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 7347fae..5d6d863 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -293,6 +293,14 @@ class SyncDBFile:
         """Commit the database transaction."""
         self._conn.commit()
 
+    def rollback(self) -> None:
+        """Undo the changes that have not been committed."""
+        self._conn.rollback()
+        # Some versions of the sqlite3 module can't fetch from a cursor that
+        # was used before the rollback.
+        self._cur = self._conn.cursor()
+        self._cur.arraysize = 20
+
     def close(self) -> None:
         """Close the database connection."""
         if self._conn:
diff --git a/zielen/daemon.py b/zielen/daemon.py
index 766ba73..b2b96e1 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -146,6 +146,10 @@ class Daemon(Command):
                 self.profile.read()
                 self.profile.write()
             except sqlite3.OperationalError:
+                # If the transaction was left open, reading would tie it to the
+                # current state of the database, and it could never write once
+                # another process has changed the database.
+                self.profile.rollback()
                 continue
             else:
                 deduplicated_paths = []
diff --git a/zielen/profile.py b/zielen/profile.py
index 5b53e09..917a19f 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -87,6 +87,7 @@ class Profile:
         self.get_paths = self._db_file.get_paths
         self.increment = self._db_file.increment
         self.adjust_all = self._db_file.adjust_all
+        self.rollback = self._db_file.rollback
 
     def read(self) -> None:
         """Load data from persistent storage."""
-- 
2.43.0


From ca592d9c8c6c4fa9b6e9b6b1a4511dd06af0645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 56/59] fix: don't count the removal or replacement of a
 directory as an access

---
 zielen/daemon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zielen/daemon.py b/zielen/daemon.py
index b2b96e1..bf8da3b 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -107,10 +107,13 @@ class Daemon(Command):
                         rel_path = os.path.relpath(event.pathname, watch_path)
                         break
 
-                if not event.dir and self.profile.get_path_info(rel_path):
+                path_info = self.profile.get_path_info(rel_path)
+                if not event.dir and path_info and not path_info.directory:
                     # The file is in the local database and is not a directory.
                     # New files do not have a priority value until the first
-                    # sync after they are added.
+                    # sync after they are added. The event for the removal of a
+                    # directory or for a symlink that replaces one doesn't say
+                    # that it is about a directory.
                     accessed_paths.append((rel_path, timestamp))
 
             for path, timestamp in accessed_paths:
-- 
2.43.0


From f51b3101dc6220d5bf8084535252a53a818313e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 57/59] fix: keep the daemon running if there are too many
 accesses at once

---
 zielen/daemon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zielen/daemon.py b/zielen/daemon.py
index bf8da3b..a86f041 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -101,6 +101,9 @@ class Daemon(Command):
             accessed_paths = []
             while not self._files_queue.empty():
                 event, timestamp = self._files_queue.get()
+                if event.mask & pyinotify.IN_Q_OVERFLOW:
+                    # Events were lost. There is no path for this event.
+                    continue
                 for watch_path in watch_paths:
                     if os.path.commonpath([
                             event.pathname, watch_path]) == watch_path:
-- 
2.43.0


From 1f0ed0cba8aae2d178885e15deafdd93751fc01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:46 +0000
Subject: [PATCH 58/59] fix: keep track of directories that are renamed while
 the daemon runs

---
 zielen/daemon.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/zielen/daemon.py b/zielen/daemon.py
index a86f041..5f35f2c 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -86,10 +86,16 @@ class Daemon(Command):
         notifier.daemon = True
         notifier.start()
 
-        mask = pyinotify.IN_OPEN | pyinotify.IN_CREATE
+        # The events for moved files are needed for keeping track of the paths
+        # of directories that are renamed.
+        access_mask = pyinotify.IN_OPEN | pyinotify.IN_CREATE
+        move_mask = (
+            pyinotify.IN_MOVED_FROM | pyinotify.IN_MOVED_TO
+            | pyinotify.IN_MOVE_SELF)
         watch_paths = [local_dir, remote_dir]
         for watch_path in watch_paths:
-            wm.add_watch(watch_path, mask, rec=True, auto_add=True)
+            wm.add_watch(
+                watch_path, access_mask | move_mask, rec=True, auto_add=True)
 
         # Every few seconds, get a set of file paths from the queue and
         # increment their priority values in the database. This is done to
@@ -101,8 +107,8 @@ class Daemon(Command):
             accessed_paths = []
             while not self._files_queue.empty():
                 event, timestamp = self._files_queue.get()
-                if event.mask & pyinotify.IN_Q_OVERFLOW:
-                    # Events were lost. There is no path for this event.
+                if not event.mask & access_mask:
+                    # If events were lost, there is an event without a path.
                     continue
                 for watch_path in watch_paths:
                     if os.path.commonpath([
-- 
2.43.0


From b6c50b3dfa3afc4d9faaee46676a03a1309206e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 59/59] fix: wait for the daemon if it uses the database when a
 sync begins to write

---
 zielen/containerbase.py | 5 ++++-
 zielen/profile.py       | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 5d6d863..e14a738 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -142,17 +142,20 @@ class SyncDBFile:
         path: The path of the database file.
 
     Attributes:
+        ISOLATION_LEVEL: The kind of transaction that is used for writing.
         path: The path of the database file.
         _conn: The sqlite connection object for the database.
         _cur: The sqlite cursor object for the connection.
     """
+    ISOLATION_LEVEL = "DEFERRED"
+
     def __init__(self, path: str) -> None:
         self.path = path
         if os.path.isfile(self.path):
             self._conn = sqlite3.connect(
                 self.path,
                 detect_types=sqlite3.PARSE_DECLTYPES,
-                isolation_level="DEFERRED")
+                isolation_level=self.ISOLATION_LEVEL)
             self._conn.create_function("gen_salt", 0, lambda: secure_string(8))
 
             self._cur = self._conn.cursor()
diff --git a/zielen/profile.py b/zielen/profile.py
index 917a19f..d6896d5 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -513,6 +513,10 @@ class ProfileDBFile(SyncDBFile):
         _conn: The sqlite connection object for the database.
         _cur: The sqlite cursor object for the connection.
     """
+    # The daemon uses the database at the same time. A transaction that has
+    # already read from the database doesn't wait for a lock, but fails.
+    ISOLATION_LEVEL = "IMMEDIATE"
+
     def create(self) -> None:
         """Create a new empty database.
 
@@ -525,7 +529,7 @@ class ProfileDBFile(SyncDBFile):
         self._conn = sqlite3.connect(
             self.path,
             detect_types=sqlite3.PARSE_DECLTYPES,
-            isolation_level="DEFERRED")
+            isolation_level=self.ISOLATION_LEVEL)
         self._conn.create_function("gen_salt", 0, lambda: secure_string(8))
 
         self._cur = self._conn.cursor()
-- 
2.43.0

