From 94faae81b1808487ceeae3703ca7e9937b176066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 01/15] fix: match and record the entries of the root directory
 by their name

Searching "/" itself yielded names with a leading slash: expressions did
not match them and the metadata of the backup could not be read anymore.
---
 src/search.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/search.c b/src/search.c
index 0675775..092f65b 100644
--- a/src/search.c
+++ b/src/search.c
@@ -261,6 +261,11 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
 
   /* Create new path for matching. */
   StringView dir_entry_name = strSplitPath(entry).tail;
+  if(dir_entry_name.content[0] == '/')
+  {
+    /* Entries of the root directory start with two slashes. */
+    strSet(&dir_entry_name, str(&dir_entry_name.content[1]));
+  }
   replaceCurrentFilename(iterator, dir_entry_name);
 
   /* Match subnodes against dir_entry. */
-- 
2.43.0


From 35d75dcadf2a117536abf9c07e5146833519a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 02/15] fix: record paths found again under a parent that loses
 its history

When a path which was last seen as something else than a directory leaves
the track policy, its subnodes are discarded. Those which exist again were
silently left out of the backup.
---
 src/backup.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/backup.c b/src/backup.c
index 898f544..b39d084 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -519,6 +519,17 @@ static SearchResultType initiateMetadataRecursively(
 
     metadata->total_path_count = sSizeAdd(metadata->total_path_count, 1);
   }
+  else if(backupHintNoPol(node->hint) == BH_not_part_of_repository)
+  {
+    /* The node was discarded together with its parents history, but its
+       path exists. */
+    node->hint = BH_added;
+    node->policy = result.policy;
+    node->history =
+      buildPathHistoryPoint(allocator_pair->a, metadata, result);
+
+    metadata->total_path_count = sSizeAdd(metadata->total_path_count, 1);
+  }
   else
   {
     handleFoundNode(allocator_pair, metadata, node, result);
-- 
2.43.0


From b8771a0245104b93049f02d3cfe1da23494f9803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 03/15] fix: restore set-id bits cleared by changing the owner
 or the content

Restoring the owner or content of an existing file without also restoring
its permissions left it without its set-user-ID and set-group-ID bits.
---
 src/restore.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index 44f138d..f3ab31a 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -393,7 +393,8 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
         sChown(node->path, state->uid, state->gid);
       }
     }
-    if(node->hint & BH_permissions_changed)
+    /* Changing the owner can clear permission bits. */
+    if(node->hint & (BH_owner_changed | BH_permissions_changed))
     {
       if(state->type == PST_regular_file)
       {
@@ -410,6 +411,8 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
       if(state->type == PST_regular_file)
       {
         restoreFile(node->path, &state->metadata.file_info, repo_path);
+        /* Writing to the file can clear permission bits. */
+        sChmod(node->path, state->metadata.file_info.permission_bits);
         sUtime(node->path, state->metadata.file_info.modification_time);
       }
       else if(state->type == PST_symlink)
-- 
2.43.0


From 4dacab60801c97aa1698a1719a9411c329d36b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 04/15] fix: replace symlinks when restoring files and
 directories

Restoring a regular file over a symlink wrote trough it into the file it
points to, or failed if that does not exist. Only symlinks to directories
are followed, and only if the path was backed up as a directory.
---
 src/restore.c       | 10 ++++++++--
 src/safe-wrappers.c | 13 +++++++++++++
 src/safe-wrappers.h |  1 +
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/restore.c b/src/restore.c
index f3ab31a..3a863ef 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -131,8 +131,14 @@ static void checkAndHandleChanges(AllocatorPair *allocator_pair,
 {
   if(could_exist && sPathExists(node->path))
   {
-    const struct stat stats =
-      state->type == PST_symlink ? sLStat(node->path) : sStat(node->path);
+    struct stat stats = sLStat(node->path);
+
+    if(state->type == PST_directory && S_ISLNK(stats.st_mode) &&
+       sLeadsToDirectory(node->path))
+    {
+      /* Directories can be backed up trough symlinks. */
+      stats = sStat(node->path);
+    }
 
     handleFiletypeChanges(node, state, stats);
     if(backupHintNoPol(node->hint) == BH_none)
diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index f03495a..4eb4b8e 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -396,6 +396,19 @@ bool sPathExists(StringView path)
   return exists;
 }
 
+/** Checks if the given path is a directory or a symlink to one. A symlink
+  that leads nowhere is not an error. */
+bool sLeadsToDirectory(StringView path)
+{
+  const int old_errno = errno;
+  struct stat stats;
+  const bool leads_to_directory =
+    stat(nullTerminate(path), &stats) == 0 && S_ISDIR(stats.st_mode);
+
+  errno = old_errno;
+  return leads_to_directory;
+}
+
 /** Safe wrapper around stat(). */
 struct stat sStat(StringView path)
 {
diff --git a/src/safe-wrappers.h b/src/safe-wrappers.h
index a46e615..2618020 100644
--- a/src/safe-wrappers.h
+++ b/src/safe-wrappers.h
@@ -40,6 +40,7 @@ extern StringView sDirGetNext(DirIterator *dir);
 extern void sDirClose(DirIterator *dir);
 
 extern bool sPathExists(StringView path);
+extern bool sLeadsToDirectory(StringView path);
 extern struct stat sStat(StringView path);
 extern struct stat sLStat(StringView path);
 extern void sMkdir(StringView path);
-- 
2.43.0


From eedae3506ea7e5f41db4e40b8f20c1d5223af420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 05/15] fix: never report metadata changes of directories
 without a policy

Such changes are not part of the backup. They were still reported and asked
for when more than one property had changed, on every backup anew.
---
 src/informations.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/informations.c b/src/informations.c
index eeb7101..872551d 100644
--- a/src/informations.c
+++ b/src/informations.c
@@ -196,7 +196,7 @@ static void addNode(const PathNode *node, ChangeSummary *changes,
   else if(node->hint > BH_unchanged &&
           (node->policy != BPOL_none ||
            (node->hint < BH_owner_changed ||
-            node->hint > BH_timestamp_changed)))
+            node->hint >= BH_content_changed)))
   {
     changes->other_changes_exist = true;
     changes->affects_parent_timestamp |=
@@ -547,7 +547,7 @@ static ChangeSummary recursePrintOverTree(const Metadata *metadata,
             !(node->policy == BPOL_none &&
               (node->hint == BH_added ||
                (node->hint >= BH_owner_changed &&
-                node->hint <= BH_timestamp_changed))))
+                node->hint < BH_content_changed))))
     {
       const bool print_subnodes =
         backupHintNoPol(node->hint) > BH_other_to_directory;
-- 
2.43.0


From e0c890a7f00adfba60e9eae9ca283f74655a36d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 06/15] fix: discard everything below a removed path without a
 policy

Discarding only the path itself left its subnodes counted, so a backup
nobody refers to anymore stayed in the history.
---
 src/backup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index b39d084..7b48cbc 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -308,7 +308,7 @@ static void handleRemovedPath(Metadata *metadata, PathNode *node,
           (node->subnodes == NULL ||
            node->history->state.type != PST_directory))
   {
-    prepareNodeForWiping(metadata, node);
+    prepareNodeForWipingRecursively(metadata, node);
   }
   else
   {
-- 
2.43.0


From bac2b288c2271cbab18d2727622d1676ac46f89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 07/15] fix: record paths without a policy as directories when
 they become ones

A path which was recorded as a file or symlink and is only needed to reach
other paths now kept its old type, so nothing below it could be restored.
---
 src/backup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index 7b48cbc..ed572e0 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -376,7 +376,7 @@ static void handleNodeChanges(AllocatorPair *allocator_pair,
   {
     applyNodeChanges(allocator_pair, node, state, result.stats);
   }
-  else if(result.policy != BPOL_none)
+  else if(result.policy != BPOL_none || result.type == SRT_directory)
   {
     setPathHistoryState(allocator_pair->a, state, result);
   }
-- 
2.43.0


From 715decd120887a964c922815cb46f8c460dc68d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:12 +0000
Subject: [PATCH 08/15] fix: never store a file under the hash of another
 content

The file was hashed and copied separately. Changes in between which kept
its size were stored under a wrong hash, corrupting the repository.
---
 src/backup.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index ed572e0..5179953 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -3,6 +3,7 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include "BLAKE2/blake2.h"
 #include "CRegion/alloc-growable.h"
 
 #include "backup-helpers.h"
@@ -631,6 +632,9 @@ static void copyFileIntoRepo(PathNode *node, StringView repo_path,
 
   io_buffer = CR_EnsureCapacity(io_buffer, blocksize);
 
+  blake2b_state hash_state;
+  blake2b_init(&hash_state, FILE_HASH_SIZE);
+
   while(bytes_left > 0)
   {
     const size_t bytes_to_read =
@@ -638,6 +642,7 @@ static void copyFileIntoRepo(PathNode *node, StringView repo_path,
 
     sFread(io_buffer, bytes_to_read, reader);
     repoWriterWrite(io_buffer, bytes_to_read, writer);
+    blake2b_update(&hash_state, io_buffer, bytes_to_read);
 
     bytes_left -= bytes_to_read;
   }
@@ -645,7 +650,11 @@ static void copyFileIntoRepo(PathNode *node, StringView repo_path,
   const bool stream_not_at_end = sFbytesLeft(reader);
   sFclose(reader);
 
-  if(stream_not_at_end)
+  uint8_t hash[FILE_HASH_SIZE];
+  blake2b_final(&hash_state, hash, FILE_HASH_SIZE);
+
+  if(stream_not_at_end ||
+     memcmp(file_info->hash, hash, FILE_HASH_SIZE) != 0)
   {
     die("file has changed during backup: \"" PRI_STR "\"",
         STR_FMT(node->path));
-- 
2.43.0


From abfdee68ca3b764a006e8fc097d8d4e32aae9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 09/15] fix: never let two processes lock the same repository

The lockfile was unlocked before being removed, and a removed lockfile
could be locked while another process creates and locks a new one.
---
 src/repository.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/repository.c b/src/repository.c
index 693f94b..8389e60 100644
--- a/src/repository.c
+++ b/src/repository.c
@@ -7,6 +7,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include "CRegion/alloc-growable.h"
@@ -403,9 +404,11 @@ static void cleanupLockfile(void *lockfile_info_ptr)
   const int old_errno = errno;
   if(info->is_locked)
   {
+    /* Must be removed before being unlocked. Otherwise it may already belong
+       to another process. */
+    (void)remove(info->file_path);
     (void)lockf(info->file_descriptor, F_ULOCK, 0);
     (void)close(info->file_descriptor);
-    (void)remove(info->file_path);
   }
   else
   {
@@ -414,6 +417,28 @@ static void cleanupLockfile(void *lockfile_info_ptr)
   errno = old_errno;
 }
 
+/** Returns true if the given open lockfile was removed by the process which
+  held its lock before. */
+static bool lockfileWasRemoved(const LockfileInfo *info)
+{
+  struct stat stats, current_stats;
+  if(fstat(info->file_descriptor, &stats) != 0)
+  {
+    dieErrno("failed to access lockfile: \"%s\"", info->file_path);
+  }
+  if(stat(info->file_path, &current_stats) != 0)
+  {
+    if(errno != ENOENT)
+    {
+      dieErrno("failed to access lockfile: \"%s\"", info->file_path);
+    }
+    return true;
+  }
+
+  return stats.st_dev != current_stats.st_dev ||
+    stats.st_ino != current_stats.st_ino;
+}
+
 /** Lock the specified repository until the given region gets released. If
   the repository is already locked by another process, the program will be
   terminated with an error message. Calling this function twice from the
@@ -448,6 +473,12 @@ void repoLock(CR_Region *r, StringView repo_path,
 
   if(lockf(lockfile_info->file_descriptor, F_TLOCK, 0) == 0)
   {
+    if(lockfileWasRemoved(lockfile_info))
+    {
+      errno = old_errno;
+      repoLock(r, repo_path, lock_hint);
+      return;
+    }
     lockfile_info->is_locked = true;
   }
   else if(errno == EACCES || errno == EAGAIN)
-- 
2.43.0


From 5a95d3922ff97b24610a8c3c48856d196ee7aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:58 +0000
Subject: [PATCH 10/15] fix: reject metadata with invalid policies or paths
 without a history

Such metadata crashed every command which loads it.
---
 src/metadata.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/metadata.c b/src/metadata.c
index 6cde6cf..841b4b4 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -440,9 +440,22 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
     strTableMap(metadata->path_table, node->path, node);
 
     node->hint = BH_none;
-    node->policy = read8(content, reader_position, metadata_path);
+    const uint8_t policy =
+      read8(content, reader_position, metadata_path);
+    if(policy != BPOL_none && policy != BPOL_copy &&
+       policy != BPOL_mirror && policy != BPOL_track)
+    {
+      die("invalid backup policy in \"" PRI_STR "\"",
+          STR_FMT(metadata_path));
+    }
+    node->policy = policy;
     node->history = readFullPathHistory(
       region_wrapper, content, reader_position, metadata_path, metadata);
+    if(node->history == NULL)
+    {
+      die("contains path without history: \"" PRI_STR "\"",
+          STR_FMT(metadata_path));
+    }
 
     node->subnodes =
       readPathSubnodes(region_wrapper, content, reader_position,
-- 
2.43.0


From 32493730bfb791282b53bd9e0d5a08912b22fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 11/15] fix: don't replace a symlink which can't be examined
 when restoring

---
 src/safe-wrappers.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index 4eb4b8e..482126c 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -401,9 +401,18 @@ bool sPathExists(StringView path)
 bool sLeadsToDirectory(StringView path)
 {
   const int old_errno = errno;
+  bool leads_to_directory = false;
   struct stat stats;
-  const bool leads_to_directory =
-    stat(nullTerminate(path), &stats) == 0 && S_ISDIR(stats.st_mode);
+
+  if(stat(nullTerminate(path), &stats) == 0)
+  {
+    leads_to_directory = S_ISDIR(stats.st_mode);
+  }
+  else if(errno != ENOENT && errno != ENOTDIR && errno != ELOOP &&
+          errno != ENAMETOOLONG)
+  {
+    dieErrno("failed to access \"" PRI_STR "\"", STR_FMT(path));
+  }
 
   errno = old_errno;
   return leads_to_directory;
-- 
2.43.0


From 35737678bb8d1711952ee4b7776524d4da29ca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 12/15] fix: restore tracked paths below directories which are
 tracked for a shorter time

---
 src/restore.c | 57 ++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/src/restore.c b/src/restore.c
index 3a863ef..21f2b20 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -7,6 +7,44 @@
 #include "safe-wrappers.h"
 #include "str.h"
 
+/** Returns the state of the given node during the given backup id, or NULL
+  if its history does not reach back that far. */
+static const PathState *searchTrackedState(const PathNode *node,
+                                           const size_t id)
+{
+  for(PathHistory *point = node->history; point != NULL;
+      point = point->next)
+  {
+    if(point->backup->id >= id)
+    {
+      return &point->state;
+    }
+  }
+
+  return NULL;
+}
+
+/** Returns true if a tracked path below the given node existed during the
+  given backup id. */
+static bool containsTrackedPath(const PathNode *node, const size_t id)
+{
+  for(PathNode *subnode = node->subnodes; subnode != NULL;
+      subnode = subnode->next)
+  {
+    const PathState *state = subnode->policy == BPOL_track
+      ? searchTrackedState(subnode, id)
+      : NULL;
+
+    if((state != NULL && state->type != PST_non_existing) ||
+       containsTrackedPath(subnode, id))
+    {
+      return true;
+    }
+  }
+
+  return false;
+}
+
 /** Searches the path state which the given node had during the given
   backup id. If not found, it returns NULL. If the nodes policy doesn't
   support a history, it will return its first path state. */
@@ -18,16 +56,25 @@ static const PathState *searchPathState(const PathNode *node,
     return &node->history->state;
   }
 
-  for(PathHistory *point = node->history; point != NULL;
-      point = point->next)
+  const PathState *state = searchTrackedState(node, id);
+  if(state == NULL)
   {
-    if(point->backup->id >= id)
+    /* Directories which are tracked for a shorter time than their content
+       must have existed back then. */
+    const PathHistory *oldest = node->history;
+    while(oldest->next != NULL)
     {
-      return &point->state;
+      oldest = oldest->next;
+    }
+
+    if(oldest->state.type == PST_directory &&
+       containsTrackedPath(node, id))
+    {
+      state = &oldest->state;
     }
   }
 
-  return NULL;
+  return state;
 }
 
 /** Wrapper around searchPathState(), which also returns NULL if the state
-- 
2.43.0


From b425ff03d717707e8081d8ba1ac908c4d86e907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 13/15] fix: don't change other hard links to a file when
 restoring

Restoring a changed file in place wrote content and metadata through to
every other path linked to it, including paths which were not part of the
restore.
---
 src/restore.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/restore.c b/src/restore.c
index 21f2b20..0a00593 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -393,6 +393,18 @@ static void restorePath(const PathNode *node, const PathState *state,
   }
 }
 
+/** Returns true if changing the file at the given nodes path would also
+  change other paths, which are hard links to it. */
+static bool affectsOtherHardLinks(const PathNode *node,
+                                  const PathState *state)
+{
+  return state->type != PST_directory &&
+    (node->hint &
+     (BH_owner_changed | BH_permissions_changed | BH_timestamp_changed |
+      BH_content_changed)) &&
+    sLStat(node->path).st_nlink > 1;
+}
+
 /** Recursive counterpart to finishRestore().
 
   @param node The node to restore.
@@ -433,6 +445,12 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
     restorePath(node, state, repo_path);
     affects_parent_timestamp = true;
   }
+  else if(node->policy != BPOL_none && affectsOtherHardLinks(node, state))
+  {
+    sRemove(node->path);
+    restorePath(node, state, repo_path);
+    affects_parent_timestamp = true;
+  }
   else if(node->policy != BPOL_none)
   {
     if(node->hint & BH_owner_changed)
-- 
2.43.0


From e666300f1ac18a2c5329603ede03ceef3df55bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 14/15] fix: reject metadata containing paths which are too
 long

Such paths cannot exist. Directories nested deeply enough in a damaged
metadata file overflowed the stack.
---
 src/metadata.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metadata.c b/src/metadata.c
index 841b4b4..943b62e 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -434,6 +434,11 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
 
     StringView parent_path =
       parent_node == NULL ? str("") : parent_node->path;
+    if(sSizeAdd(parent_path.length, name.length) >= PATH_MAX - 1)
+    {
+      die("contains path which is too long: \"" PRI_STR "\"",
+          STR_FMT(metadata_path));
+    }
     strSet(&node->path, strAppendPath(parent_path, name, region_wrapper));
 
     /* Read other node variables. */
-- 
2.43.0


From e5d403bcf134c8bda07587edbd900ac6a94c31e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:49 +0000
Subject: [PATCH 15/15] fix: never write to other hard links of a left over
 tmp-file

A repository copied with hard links after an interrupted backup shares its
tmp-file with the copy. A backup in one of them turned it into its metadata or
a stored file, which the next backup in the other one overwrote in place.
---
 src/repository.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/repository.c b/src/repository.c
index 8389e60..b6cb05e 100644
--- a/src/repository.c
+++ b/src/repository.c
@@ -117,11 +117,30 @@ static void fillPathBufferWithInfo(StringView repo_path,
   buildFilePath(hash_buffer, info);
 }
 
+/** Removes a left over temporary file if writing to it would also change
+  other files, which are hard links to it. */
+static void dropLinkedTmpFile(StringView repo_tmp_file_path)
+{
+  path_buffer = CR_EnsureCapacity(
+    path_buffer, sSizeAdd(repo_tmp_file_path.length, 1));
+  memcpy(path_buffer, repo_tmp_file_path.content,
+         repo_tmp_file_path.length);
+  path_buffer[repo_tmp_file_path.length] = '\0';
+
+  struct stat stats;
+  if(lstat(path_buffer, &stats) == 0 && S_ISREG(stats.st_mode) &&
+     stats.st_nlink > 1)
+  {
+    sRemove(repo_tmp_file_path);
+  }
+}
+
 static RepoWriter *createRepoWriter(StringView repo_path,
                                     StringView repo_tmp_file_path,
                                     StringView source_file_path,
                                     const bool raw_mode)
 {
+  dropLinkedTmpFile(repo_tmp_file_path);
   FileStream *stream = sFopenWrite(repo_tmp_file_path);
   RepoWriter *writer = sMalloc(sizeof *writer);
 
-- 
2.43.0

