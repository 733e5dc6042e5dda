#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that it stays readable)."""
import json, os

def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=list(observe), hook_needed=hook))

props = [
P("C01", "Restoring the newest backup reproduces every selected path exactly",
  "After a backup completes, restoring any selected path from backup 0 onto a file system where it (or anything below it) was deleted, altered or replaced by something else recreates it and everything selected below it as it was at that backup: file type, content, symlink target, owner, group, permission bits (including setuid/setgid/sticky) and modification time (in seconds) of files and directories. "
  "This holds for every name, size, owner, mode and timestamp the file system can express, and for parents that have to be recreated on the way. "
  "(A change preserving both size and modification time of a file may go unnoticed; two recorded paths reaching the same place through a symlink are left out.)",
  ["inputs", "histories", "configurations"],
  "For every file tree, every configuration, every sequence of earlier backups and every damage done to the tree before the restore.",
  "The repository has no test of restore at all (only backup/metadata unit tests and a few end-to-end output comparisons); the round trip quantifies over all trees, sizes around the inline/stored boundary, attribute values and damages.",
  ["src/backup.c", "src/backup-helpers.c", "src/restore.c", "src/metadata.c", "src/repository.c"],
  [("recording of a path's state", "src/backup.c:26 setPathHistoryState, src/backup-helpers.c:63 applyNodeChanges"),
   ("storing contents", "src/backup.c:749 addFileToRepo"),
   ("serialisation", "src/metadata.c:317/:192"),
   ("applying a state", "src/restore.c:319 restorePath, :351 finishRestoreRecursively")],
  [("PathState", "recorded type/owner/mode/mtime/content of a path", "src/metadata.h:27")],
  ["file system after `nb REPO 0 PATH`"]),
P("C02", "Every backup of a tracked path stays restorable, unaltered",
  "For a path under the track policy, restoring with id N yields exactly the state (including recorded removal) the path had at the backup that is N-th newest among the retained backups, no matter how many later backups were made. "
  "Later backups never alter, drop or reattribute an earlier recorded state of a path that stays tracked, unless a parent loses its history (becoming a parent tracked later loses nothing), and an already retained backup keeps its completion time and relative order.",
  ["histories", "inputs"],
  "For every sequence of file system changes and backups, every tracked path and every id.",
  "Needs arbitrary histories of create/modify/remove/type-change/recreate with ids shifting at every backup; the tests sample a few fixed histories and inspect metadata of single steps.",
  ["src/backup.c", "src/metadata.c", "src/restore.c"],
  [("history extension", "src/backup.c:391 handleFoundNode, :213 markAsRemovedRecursively"),
   ("id renumbering on write", "src/metadata.c:576 metadataWrite"),
   ("point lookup", "src/restore.c:13 searchPathState")],
  [("PathNode.history", "newest-first list of states with their backup", "src/metadata.h:150"),
   ("Backup.ref_count", "number of states attributed to a backup", "src/metadata.h:58")],
  ["metadata file after each backup", "file system after `nb REPO N PATH`"]),
P("C03", "Removed paths: copy keeps, mirror drops, track records",
  "When a previously backed up path no longer exists, the backup keeps its last state restorable under the copy policy, drops it (and everything below it) under mirror, and under track records the removal as of this backup while keeping all earlier states (if a tracked path vanishes together with an untracked parent, its last state is kept instead). "
  "A path that reappears is backed up again, and paths whose state did not change are left untouched by a backup.",
  ["histories", "configurations"],
  "For every tree, nesting of policies, and sequence of removals, replacements by other file types and re-creations.",
  "The outcome depends on nested policies, on regex-selected nodes and on what the path was in earlier backups; tests fix a handful of combinations.",
  ["src/backup.c", "src/backup-helpers.c"],
  [("missing paths", "src/backup.c:446 handleNotFoundSubnodes, :298 handleRemovedPath"),
   ("marking", "src/backup.c:213 markAsRemovedRecursively, :181 prepareNodeForWiping")],
  [("BackupHint", "what happened to a path in this backup", "src/metadata.h:83")],
  ["metadata file after each backup"]),
P("C04", "Policy and file type changes never lose selected paths or corrupt metadata",
  "However policies and file types change between backups (including paths being ignored, unselected and selected again), after a completed backup every path that exists and is selected by the current configuration is restorable from backup 0 in its current state. "
  "The written metadata is always readable again, contains only retained backups that are referenced, and attributes every state to the backup that recorded it.",
  ["histories", "configurations"],
  "For every sequence of configurations and file systems.",
  "The defects live in three-step histories such as dir->file under track followed by a policy switch and file->dir; tests only cover pairs of (policy, change).",
  ["src/backup.c", "src/metadata.c"],
  [("policy changes", "src/backup.c:254 handlePolicyChanges"),
   ("type changes", "src/backup.c:325 handleFiletypeChanges, :555"),
   ("wiping and reference counts", "src/backup.c:181 prepareNodeForWiping, :90 reassignPointToCurrent"),
   ("reading back", "src/metadata.c:192 readPathHistory")],
  [("Backup.ref_count", "states referring to a backup", "src/metadata.h:66")],
  ["metadata file after each backup", "exit status of the next command"]),
P("C05", "The configuration selects exactly the right paths and policies",
  "A backup visits exactly the existing paths the config file selects: explicitly named or regex-matched paths get their own policy, everything else below a selected directory inherits the nearest ancestor's policy, full-path ignore expressions drop only paths not named explicitly, unselected parents are recorded without a policy, other file types (fifo, socket, device) are skipped, and only explicit parents are followed through symlinks. "
  "Two config entries matching the same path abort the backup.",
  ["configurations", "inputs"],
  "For every config file and every directory tree.",
  "Selection is a product of tree shape, nesting, inheritance order, regexes and ignore rules; tests cover a fixed set of config files over one fixed directory.",
  ["src/search.c", "src/search-tree.c", "src/backup.c"],
  [("matching and fallback policy", "src/search.c:253 finishSearchStep"),
   ("direct access", "src/search.c:320 finishCurrentNode"),
   ("inheritance", "src/search-tree.c:111 inheritPolicyToSubnodes, :49 newNode")],
  [("SearchNode", "config tree node with (inherited) policy", "src/search-tree.h:36")],
  ["paths and policies in the metadata after a backup", "exit status"]),
P("C06", "Killing nb at any point leaves every previous backup intact",
  "If a backup or gc process is killed at any moment, the repository opens again, contains either the previous or the new set of backups in full, and every content any of its retained states refers to is present and unaltered. "
  "The next backup then succeeds, and its result is the same as if the interrupted run had never happened.",
  ["crash_points", "histories"],
  "For every point of execution at which the process can die, and every repository state and change set it was working on.",
  "No test kills nb; the guarantee quantifies over every system call boundary of every run.",
  ["src/repository.c", "src/backup.c", "src/metadata.c", "src/garbage-collector.c", "src/nb.c"],
  [("write to temporary file, then rename", "src/repository.c:340 repoWriterClose"),
   ("order: contents, metadata, gc", "src/nb.c:299"),
   ("leftover temporary files and lockfiles are tolerated", "src/repository.c:424 repoLock, src/safe-wrappers.c:143")],
  [], ["repository directory after SIGKILL at each system call"]),
P("C07", "A power failure at any point leaves an intact repository",
  "If the machine loses power at any moment during a backup that started on a fully persisted repository, so that any not yet synchronised file data and directory changes may be lost, the repository still contains the previous or the new set of backups in full with every referenced content intact. "
  "Once nb has reported success, or has started to discard unreferenced data, the new backup set is durable.",
  ["crash_points", "histories"],
  "For every point of execution and every subset of unsynchronised effects that the storage may lose.",
  "Needs control over which writes, renames and directory entries reached the disk; impossible to express in the unit tests.",
  ["src/repository.c", "src/safe-wrappers.c", "src/nb.c"],
  [("flush and fdatasync before rename, directory sync after mkdir/rename", "src/repository.c:340 repoWriterClose"),
   ("sync primitives", "src/safe-wrappers.c:216 fTodisk, :224 fDatasync")],
  [], ["order of write/fdatasync/rename/mkdir/unlink system calls"]),
P("C08", "A failing system call is never mistaken for success",
  "If any system call fails during a command (disk full, I/O error, permission denied, short read, missing stored file, ...), the command either exits with an error or its outcome is as correct as without the failure: exit status 0 means that the backup, restore, gc or integrity run has completely done its job. "
  "A failure at any point leaves all previous backups intact and the next run without the failure succeeds.",
  ["fault_sequences", "histories"],
  "For every system call of every command and every error it can return.",
  "No test injects I/O errors; unchecked return values are invisible when every call succeeds.",
  ["src/safe-wrappers.c", "src/repository.c", "src/file-hash.c", "src/restore.c", "src/garbage-collector.c", "src/integrity.c"],
  [("checked wrappers", "src/safe-wrappers.c"), ("checked writer", "src/repository.c:317 repoWriterWrite, :340 repoWriterClose")],
  [], ["exit status and repository/file system after an injected errno"]),
P("C09", "Garbage collection removes exactly the unreferenced data",
  "After every backup that changed something and after every gc, the repository contains exactly its config file, its metadata and the stored content of every state of every retained path, plus the directories leading there; anything else in the repository directory is gone. "
  "Nothing that any retained state refers to is ever removed or altered, nothing outside the repository is touched (symlinks are removed, not followed), and the reported amount equals the size of the regular files removed.",
  ["histories", "inputs"],
  "For every repository content (including foreign files, symlinks, nested directories and leftovers) and every backup history.",
  "Depends on which contents are shared between paths, histories and policies; tests cover small fixed repositories.",
  ["src/garbage-collector.c", "src/safe-wrappers.c", "src/nb.c"],
  [("reference table", "src/garbage-collector.c:17 populateTableRecursively"),
   ("conditional removal", "src/garbage-collector.c:65 shouldBeRemoved, src/safe-wrappers.c:546 removeRecursivelyIf")],
  [], ["repository directory after backup and gc", "gc report line"]),
P("C10", "Different contents never share storage; equal contents are stored once",
  "Every recorded state of a file with more than 20 bytes refers to a stored file whose bytes are exactly the content the path had at that backup, even if the hash and size of different contents collide; identical contents added by any backups share one stored file (unless colliding contents are involved). "
  "A stored file is never modified, truncated or replaced after it was created, and smaller files never create stored files.",
  ["inputs", "histories"],
  "For all sets of contents, sizes and hash values (including forged collisions), and all orders in which they are added.",
  "Hash collisions and block-boundary differences cannot be met by sampling; tests contain one prepared collision directory.",
  ["src/backup.c", "src/repository.c", "src/file-hash.c"],
  [("duplicate search with byte comparison and slots", "src/backup.c:717 searchFileDuplicates, :659 equalsToStoredFile"),
   ("storage name", "src/repository.c:76 buildFilePath")],
  [("RegularFileInfo.hash/slot", "address of the stored content", "src/file-hash.h, src/repository.h")],
  ["repository directory", "hash/slot fields in the metadata"]),
P("C11", "At most one process works on a repository at a time",
  "Two nb processes (of any commands) never hold the lock of the same repository at the same time, whatever the interleaving of their start, work, exit or death: from taking the lock until it exits, a process is the only one reading or changing the repository. "
  "A process that finds the repository locked fails without changing anything and without releasing the other's lock, and a lockfile left behind by a killed process does not block later runs.",
  ["schedules", "crash_points"],
  "For every interleaving of the system calls of two or three processes opening, locking, unlocking and removing the lockfile.",
  "The tests lock twice within one process tree in one fixed order; races between unlock, unlink and open are never scheduled.",
  ["src/repository.c", "src/nb.c"],
  [("lock acquisition", "src/repository.c:424 repoLock"), ("lock release", "src/repository.c:399 cleanupLockfile"),
   ("lock before reading config and metadata", "src/nb.c:268, :323")],
  [("lockfile", "file whose POSIX record lock guards the repository", "REPO/lockfile")],
  ["system calls on REPO/lockfile"]),
P("C12", "The integrity check reports exactly the damaged paths",
  "`nb REPO integrity` succeeds and reports a healthy repository if and only if every stored content that any state of any retained path refers to is present as a regular file with the recorded size and hash; otherwise it fails and lists exactly the paths having at least one such damaged state, each once. "
  "It never changes the repository.",
  ["inputs", "histories"],
  "For every repository and every damage: missing, truncated, extended, bit-flipped, replaced by another type, swapped contents, in any slot and any point of history.",
  "Damage positions, shared contents and result caching combine freely; tests check a few damages on one repository.",
  ["src/integrity.c", "src/nb.c"],
  [("check of one stored file", "src/integrity.c:86 storedFileIsHealthy"),
   ("result cache", "src/integrity.c:124 historyPointIsHealthy"),
   ("listing", "src/integrity.c:165 checkIntegrityRecursively, src/nb.c:209")],
  [], ["stdout and exit status of `nb REPO integrity`"]),
P("C13", "The printed changes and totals are exactly the changes made",
  "Before asking for consent, backup and restore print exactly the paths that were added, removed, lost, changed in type, content, owner, permissions, timestamp or policy (apart from the documented suppression below new/removed items, by summarize rules and for unselected parents; paths whose state is kept although they are missing are listed at every backup), with correct markers, details and totals of new, removed and lost items. "
  "If nothing changed, nothing is asked and neither the repository nor the file system is modified.",
  ["histories", "configurations", "inputs"],
  "For every pair of previous and current states, policies and summarize rules.",
  "Totals and suppression depend on the whole tree of hints; tests compare the output of some fixed scenarios.",
  ["src/informations.c", "src/backup.c", "src/restore.c", "src/nb.c"],
  [("printing", "src/informations.c:519 recursePrintOverTree, :314 printNode"),
   ("totals", "src/informations.c:159 addNode"), ("no-change detection", "src/informations.c:635 containsChanges")],
  [("BackupHint", "change of a path in this run", "src/metadata.h:83")],
  ["stdout"]),
P("C14", "Nothing is modified without the user's consent",
  "Apart from creating and releasing the lockfile, backup does not modify anything in the repository and restore does not modify anything in the file system before the user has answered the question with `y` or `yes`. "
  "`n`, `no` or the end of input abort with a failure status and without any effect; any other answer repeats the question.",
  ["inputs", "histories"],
  "For every sequence of input lines (any length, with or without final newline) and every pending change.",
  "The set of inputs is unbounded and the effect-freeness must hold for every repository; the tests always answer yes or no.",
  ["src/nb.c", "src/safe-wrappers.c"],
  [("consent loop", "src/nb.c:18 ensureUserConsent"), ("line reader", "src/safe-wrappers.c:628 sReadLine")],
  [], ["mutating system calls before the answer", "exit status"]),
P("C15", "A file modified while being backed up is never stored wrongly",
  "If a selected file is modified, replaced or removed by someone else while a backup runs, then at whatever point this happens, a backup that reports success has recorded for every path a content the file really had at some moment during the run (what a symlink put in its place leads to counts as its content), stored under the hash of that very content; otherwise the backup fails and leaves the previous backups intact. "
  "Contents already stored for other paths or earlier backups are unaffected.",
  ["schedules", "inputs"],
  "For every point of the backup at which the modification can happen and every kind of modification (same size, growing, shrinking, touched, replaced by another type).",
  "The window between hashing, comparing and copying a file cannot be scheduled by the tests.",
  ["src/backup.c", "src/backup-helpers.c", "src/file-hash.c"],
  [("change detection", "src/backup.c:749 addFileToRepo, :641, src/backup-helpers.c:45"),
   ("hash vs. copy", "src/backup.c:608 copyFileIntoRepo")],
  [], ["repository after a modification at each system call"]),
P("C16", "Damaged metadata is rejected without touching the repository",
  "For every byte sequence found in the metadata file, backup, restore, gc and integrity either accept it as a well-formed metadata file or fail with an error; a truncated file, trailing bytes, an out-of-range backup id, an unknown state type or policy, a path without any state, or a path name that is empty, contains a NUL byte or slash, or is `.` or `..` is always rejected. "
  "A rejected metadata file and all stored data are left unmodified.",
  ["inputs"],
  "For every content of the metadata file.",
  "The space of malformed files is unbounded; tests load a few broken files.",
  ["src/metadata.c", "src/nb.c"],
  [("bounds checks", "src/metadata.c:29 assertBytesLeft"),
   ("semantic checks", "src/metadata.c:192 readPathHistory, :392 readPathSubnodes, :506 metadataLoad")],
  [], ["exit status of each command", "repository directory before/after"]),
P("C17", "Commands touch only what they are supposed to touch",
  "Backup, gc and integrity never modify anything outside the repository directory, and restore and integrity never modify the repository apart from its lockfile. "
  "Restoring a path creates, changes or removes only that path, what lies below it, and those of its parent directories that are recorded in the backup; everything else keeps its content, type, owner, mode and modification time. A symlink to a directory in place of a recorded directory stands for that directory.",
  ["inputs", "histories", "configurations"],
  "For every tree, repository, requested path and command line (including symlinks anywhere in the restored area).",
  "A frame condition over the entire file system; tests only look at the paths they expect to change.",
  ["src/restore.c", "src/backup.c", "src/safe-wrappers.c", "src/garbage-collector.c"],
  [("selection of nodes to restore", "src/restore.c:192 initiateRestoreRecursively, :351 finishRestoreRecursively"),
   ("removal without following symlinks", "src/safe-wrappers.c:546 removeRecursivelyIf")],
  [], ["complete file system diff", "mutating system calls"]),
P("C18", "An interrupted restore can be repeated and a repeated one changes nothing",
  "After a restore was killed or failed at any point, running the same restore again completes and leaves the file system as an uninterrupted restore would have (apart from the attributes of parent directories recorded without a policy). "
  "A restore following a completed one of the same path and id finds nothing to do.",
  ["crash_points", "histories"],
  "For every point at which a restore can die, every tree and every requested path and id.",
  "No test runs restore at all, let alone interrupts it.",
  ["src/restore.c", "src/backup-helpers.c"],
  [("comparison of recorded and actual state", "src/restore.c:128 checkAndHandleChanges, src/backup-helpers.c:63"),
   ("order of content, owner, mode and timestamps", "src/restore.c:319 restorePath")],
  [], ["file system after kill and re-run"]),
P("C19", "Invalid configurations and command lines are rejected before any effect",
  "A config file with an invalid policy name, a pattern before any policy, a relative path, a `.` or `..` element, a NUL byte, an invalid regex or a second definition of the same path makes backup fail before it modifies anything, while comments, blank lines, a byte order mark, a missing final newline and trailing slashes are accepted. "
  "Unknown arguments, too many arguments, missing repositories, repositories without config (backup) or metadata (other commands) and unknown paths fail without any effect.",
  ["configurations", "inputs"],
  "For every config file and every argument list.",
  "The config grammar is unbounded; tests use a fixed list of invalid files.",
  ["src/search-tree.c", "src/nb.c", "src/str.c"],
  [("parser", "src/search-tree.c:126 searchTreeParse"), ("command line", "src/nb.c:360 main")],
  [], ["exit status, stderr", "mutating system calls"]),
P("C20", "Warnings and errors name exactly the config lines and paths at fault",
  "A backup warns about exactly those lines of its config that had no effect: paths and expressions which matched no file, parents of other entries which matched something other than a directory, and ignore and summarize expressions which decided nothing (of several matching the same path, the last one decides). "
  "A rejected config is blamed on the first line at fault (and, for a redefinition, the line of the first definition), an ambiguous path on that path and two of the rules matching it, a rejected restore on the first part of the path which did not exist or was no directory at that backup. "
  "Successful commands other than backup print nothing on stderr, and every failing command other than a declined one says why.",
  ["configurations", "inputs", "histories"],
  "For every config, every file system it is applied to and every history before.",
  "Whether a line had an effect depends on all of config, file system and metadata; no test looks at what is printed for anything but single fixed configs.",
  ["src/informations.c", "src/search.c", "src/search-tree.c", "src/restore.c", "src/nb.c"],
  [("entries without effect", "src/informations.c:57 printSearchNodeInfos, :30 warnUnmatchedExpressions"),
   ("record of matches", "src/search.c:180 finishNodeStep, :250 finishSearchStep"),
   ("line numbers of errors", "src/search-tree.c:126 searchTreeParse")],
  [], ["stderr"]),
P("C21", "The repository format stays fixed and readable",
  "Metadata and stored files are laid out in one fixed format: little-endian counts, ids, times and owners, times of backups newest first, a tree of paths each with its policy and history, contents of up to 20 bytes inside the metadata, larger ones in files named after BLAKE2b-160 hash (split after one and three digits), size and slot, both in hexadecimal. "
  "Every repository laid out so is read as exactly what it records, whichever program wrote it and in whatever order the paths of a directory are listed: commands following a rewrite of the metadata in another order behave as they would have without it.",
  ["inputs", "histories"],
  "For every history of a repository and every order of the paths in its metadata.",
  "Tests read back what the same code wrote, so that a format changed on both sides passes; old repositories would be lost.",
  ["src/metadata.c", "src/repository.c", "src/file-hash.c"],
  [("format of metadata", "src/metadata.c:519 metadataLoad, :589 metadataWrite"),
   ("format of integers", "src/metadata.c:43 convertEndian32, :58 convertEndian64"),
   ("names of stored files", "src/repository.c:77 buildFilePath")],
  [], ["metadata file, repository directory", "file system after restore"]),
P("C22", "Outcomes depend on nothing but configuration, files, history and answer",
  "What a command prints, its exit status and what it makes of the repository and the file system are determined by its arguments, the config, the files to back up or restore, the repository and the answer. "
  "They do not depend on the order in which the operating system lists directory entries, the working directory or spelling of the repository path, the umask, the clock (completion times of backups aside, which may be equal or decrease), environment variables including locale and time zone, or on whether input and output are terminals, files or pipes (colors and progress on terminals and the order of printed changes aside).",
  ["configurations", "inputs", "histories"],
  "For every surrounding, every history of commands and every tree.",
  "Tests run in one environment; dependence on the order of directory entries or on equal times shows up only with other ones.",
  ["src/search.c", "src/nb.c", "src/safe-wrappers.c", "src/restore.c", "src/repository.c"],
  [("listing of directories", "src/safe-wrappers.c:298 sDirGetNext, src/search.c:180 finishNodeStep"),
   ("modes of created files", "src/restore.c:319 restorePath, src/repository.c:345 repoWriterClose"),
   ("times of backups", "src/backup.c:886 finishBackup"), ("terminals", "src/safe-wrappers.c:702, src/colors.c")],
  [], ["outcome of each command in different surroundings"]),
P("C23", "Repositories can be copied, and synchronized as documented",
  "A repository consists of nothing but the names and contents of its files: a copy made with cp (or hard links) is as good as the original, whatever inodes, times and modes its files have. "
  "Copying all files of one repository which are missing in another one, then its config and metadata, then gc in the other one, as the README explains, leaves the other one equal to the first one, every backup restorable and nothing left over, no matter whether the other one was an older copy, has been used on its own since, was new or has nothing in common with the first. Commands in one copy never alter another.",
  ["histories", "inputs"],
  "For every history of two repositories before they are synchronized and every history after.",
  "Tests never have more than one repository; the procedure relies on names of stored files meaning the same in all of them.",
  ["src/garbage-collector.c", "src/repository.c", "src/backup.c", "src/file-hash.c"],
  [("names of stored files", "src/repository.c:77 buildFilePath, src/backup.c:736 searchFileDuplicates"),
   ("what is left over", "src/garbage-collector.c:17 populateTableRecursively"),
   ("replaced by renaming", "src/repository.c:345 repoWriterClose")],
  [], ["repository directory after synchronizing and gc", "later commands"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(props))
