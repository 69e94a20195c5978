"""Writes /verif/properties.jsonl. Edit the properties here, then run this file."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
SYNC = "zielen/commands/sync.py"
INIT = "zielen/commands/init.py"
RESET = "zielen/commands/reset.py"
FL = "zielen/filelogic.py"
FS = "zielen/fstools.py"
UD = "zielen/userdata.py"
PR = "zielen/profile.py"
CB = "zielen/containerbase.py"
CMD = "zielen/commandbase.py"
CLI = "zielen/cli.py"
UT = "zielen/utils.py"
DM = "zielen/daemon.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe,
            "hook_needed": None}})


prop(
    "C01", "A sync makes the local and remote directories agree",
    "After a sync that runs while nothing else touches the directories, the local and the remote directory hold the same set of files, directories and relative symlinks (excluded files and symlinks leading out of the local directory aside): what both held before, plus what either side added, minus what either side deleted. At each file path the local entry is either a regular copy equal to the remote file in content, permission bits and modification time, or a symlink that leads to the remote file. The content at a path is the one written by the side that changed it since the last sync, and the old content if no side did.",
    ["inputs", "histories"],
    "every pair of directory trees (files, empty and nested directories, relative symlinks, unusual names, sizes around block boundaries), every sequence of edits, additions, deletions and renames on either side between syncs, every storage limit",
    "the tests sync one fixed tree of three files after one edit each, and most compare only path names; combinations of edits, of both sides, and across several syncs are never run",
    [SYNC, FL, FS, UD],
    [("diff against the profile database and the last sync time", FL + " compute_added/compute_modified/compute_deleted"),
     ("local changes are copied to the remote, then the local directory is rebuilt from it", FL + " update_remote/update_local"),
     ("copying with metadata, overwriting", FS + " transfer_tree/symlink_tree")],
    ["the two directory trees on disk after `zielen sync` exits"],
    [("profile database", "the paths known at the last sync", "~/.config/zielen/profiles/<name>/local.db"),
     ("last sync time", "changes newer than this count", "info.json")])

prop(
    "C02", "No sync loses content the user did not delete or overwrite",
    "Through any history of edits and syncs, by one client or by several that share a remote directory, every version of a file that the user wrote and then neither overwrote nor deleted is still readable somewhere after each sync: at its path, at a conflict-renamed path, in the remote trash, or as the untouched local file if it is excluded. In particular files that are new on one side survive a sync in which the other side deleted the directory around them, and files with the same name that are deleted together do not replace one another in the trash.",
    ["histories", "inputs"],
    "every history of edits on the clients and in the remote directory interleaved with syncs of any client",
    "conservation quantifies over histories; the tests contain one conflict and a few single deletions and never track content across more than two syncs",
    [SYNC, FL, FS],
    [("conflict renaming", FL + " handle_conflicts"), ("trash with collision-free names", FL + " trash_files"),
     ("only stale, already transferred files are removed", FL + " compute_stale/update_local")],
    ["the content of every file in all local directories, the remote directory and its trash"])

prop(
    "C03", "Deletions reach the other side, stay deleted, and nothing else goes",
    "If an entry that a previous sync recorded is deleted from the local or the remote directory and not changed on the other side, the next sync removes it from the other side too (a whole directory included, except what was changed, added or excluded in it), and no later sync of any client brings it back unless somebody creates it again. A sync removes no entry from the local directory that the remote side or the user did not delete, and none from the remote directory that this client's user did not delete or exclude.",
    ["histories", "inputs"],
    "every set of deletions of files, directories and placeholders on either side or both, mixed with additions, renames and later syncs of all clients",
    "the tests delete one file once on each side; directory deletions mixed with additions, deletions on both sides, recreation, and other clients are not covered",
    [SYNC, FL, UD, PR],
    [("known paths missing on a side are deleted on the other", FL + " compute_deleted"),
     ("database rows of a subtree are removed with it", PR + " rm_paths, " + UD + " rm_paths")],
    ["path sets on disk after syncs", "path sets in both databases"])

prop(
    "C04", "A sync conflict keeps both versions and the newer one wins",
    "When a file was changed on both sides since the last sync, or was newly created on both sides with different content or time, the sync keeps the version with the later modification time at the original path and the other one, unaltered, next to it under a name that contains 'conflict', on both sides; the name of an existing file is never reused for that. A file that was changed on one side only, or that has the same content and time on both, never gives rise to a conflict copy.",
    ["inputs", "histories"],
    "every set of simultaneous edits of the same paths on both sides, with every order of modification times including equal ones, with files, user symlinks and names with and without extensions, repeatedly",
    "one test covers one text file changed on both sides with the remote one newer; ties, local winners, new-new conflicts, symlinks, several conflicts at once and repeated conflicts are not tested",
    [FL, UT, SYNC],
    [("later mtime wins, loser renamed", FL + " handle_conflicts"), ("conflict file name", UT + " timestamp_path")],
    ["paths and contents on both sides after the sync"])

prop(
    "C05", "Syncing again without changes changes nothing",
    "Once a sync has succeeded (and, if it took newly excluded files out of the remote directory, another one), running sync again with no edits, accesses or configuration changes in between leaves both directories as they are: the same entries with the same content, permission bits and modification times, the same choice of regular copies and symlinks in the local directory, the same trash, and the same recorded priorities and paths.",
    ["histories", "inputs", "configurations"],
    "every state reachable by edits and syncs, under every configuration",
    "no test runs a second sync and compares; stability depends on tie breaking, on size accounting and on what the first sync recorded",
    [SYNC, FL],
    [("deterministic prioritisation", FL + " prioritize_dirs/prioritize_files"),
     ("last sync time recorded after all writes", SYNC)],
    ["both trees, trash and databases before and after the second sync"])

prop(
    "C06", "The local directory never exceeds the storage limit",
    "After a sync, the disk usage of the regular files that the sync kept in the local directory, with one block counted for each file that it replaced by a symlink, is at most the configured storage limit, unless no file with content is kept at all; local excluded files use up part of the limit. This holds for every mix of file sizes, limits, priorities and options and also when files grow on either side before the sync.",
    ["inputs", "configurations", "histories"],
    "every tree with file sizes from zero to many blocks, every storage limit and unit, both values of every option, files growing and shrinking between syncs",
    "three fixed trees with one limit are tested, by looking at which of three files stay",
    [FL, PR, UD],
    [("space accounting while selecting", FL + " prioritize_dirs/prioritize_files/get_excluded_size"),
     ("limit parsing", PR + " storage_limit")],
    ["st_blocks of the local regular files after the sync"])

prop(
    "C07", "The files kept locally are those of highest priority",
    "A sync chooses the files to keep in the documented order: whole directories first and then single files, each by descending priority (divided by disk usage if size is to be accounted for) and by path among equals, keeping each one that still fits; a kept directory is kept with everything under it. The outcome depends only on priorities, sizes, limit and options, not on where the files were before, and new local files count with the highest priority in use unless that is switched off.",
    ["inputs", "configurations"],
    "every tree, every assignment of priorities, every limit, both values of the size and inflation options",
    "two tests check one ranking of three or four files each",
    [FL, PR, SYNC],
    [("greedy selection", FL + " prioritize_dirs/prioritize_files"), ("directory priority is the sum of its files", PR + " _update_priority"),
     ("priority of new files", PR + " add_inflated")],
    ["which local entries are regular files after the sync"])

prop(
    "C08", "Clients that share a remote directory converge",
    "When several clients share a remote directory, and after any history of edits and syncs each of them syncs twice in turn without further edits, all local directories present the same tree with the same content as the remote directory (excluded files aside). A change made through one client reaches every other client, no client's sync undoes a change another client has already synced, and each client keeps its own priorities, limit and choice of local files.",
    ["histories", "schedules"],
    "every history of edits and of the order in which two or three clients sync",
    "two tests add a second client, for exclusion only; the order of syncs and edits on different clients is never varied",
    [SYNC, FL, UD],
    [("remote record of the time a file was last updated by a sync", UD + " lastsync"),
     ("changes by other clients found through it", FL + " compute_modified")],
    ["all directory trees after a round of syncs"])

prop(
    "C09", "Excluded files stay in the local directory and are never uploaded",
    "A local file that matches the client's exclude patterns, or lies in a directory that does, is never copied to the remote directory by init or sync, and no command ever alters or removes it, whatever happens to its name in the remote directory and whether or not the directory around it is deleted there. A file that becomes excluded while it was kept only remotely is a regular local file with its content after the next sync.",
    ["inputs", "histories", "configurations"],
    "every set of exclude patterns, changed at any time, and every tree and history of edits on both sides",
    "the tests exclude one literal path and check the remote path set after one sync",
    [SYNC, FL, PR, INIT],
    [("excluded paths left out when collecting new files", FL + " compute_added/setup_from_local"),
     ("excluded paths kept when deleting and replacing", FL + " rm_local_files/compute_stale")],
    ["excluded local files before and after each command", "remote path set"])

prop(
    "C10", "A file leaves the remote only once every client excludes it",
    "A synced file that some clients exclude stays in the remote directory, and stays in sync on all clients, as long as one client that shares the remote directory does not exclude it. Once all of them do and one of them syncs, it is gone from the remote directory and from the records, while the clients keep their local copies with the current content. With one client this happens at that client's sync.",
    ["histories", "configurations"],
    "every number of clients and every order of pattern changes, edits and syncs",
    "one test has one client exclude a file and one has one of two do so; removal with several clients, re-inclusion and edits in between are untested",
    [SYNC, FL, UD],
    [("copy of each client's patterns in the remote directory", UD + " add_exclude_file/check_excluded"),
     ("removal of fully excluded files", FL + " rm_excluded_files")],
    ["remote tree and local trees after syncs"])

prop(
    "C11", "Exclude patterns match as documented",
    "A line of the exclude file matches exactly the paths the manual says: '*' and '?' and brackets do not cross slashes, '**' crosses them, a leading slash anchors the pattern at the sync directory and otherwise it matches the end of a path anywhere, a trailing slash matches only directories, hidden names only match patterns with an explicit dot, comment and blank lines match nothing, and a bracketed meta-character is literal. Everything under a matching directory is excluded with it, and the result does not depend on the path of the sync directory itself.",
    ["inputs"],
    "every pattern over the documented syntax, every tree, every sync directory path including ones that contain meta-characters",
    "the tests use one literal pattern",
    [PR],
    [("pattern lines turned into recursive globs", PR + " ProfileExcludeFile")],
    ["the set of paths left out of the remote directory", "matching paths reported for a directory"])

prop(
    "C12", "Deleting a placeholder moves the remote file to the trash",
    "With the trash enabled, when the user removes a symlink that stands for a remote file (or a directory that holds such symlinks), the sync moves the remote file or directory, unaltered, into the trash, where every entry trashed before or at the same time stays intact under its own name; when the user removes a regular local copy, the remote file is removed without going to the trash. With the trash disabled nothing is put there.",
    ["inputs", "histories", "configurations", "crash_points"],
    "every set of deletions of placeholders, copies and mixed directories, including equal base names, in one or several syncs, with interrupted syncs in between",
    "the tests trash one file or one directory at a time into an empty trash",
    [FL, SYNC, PR],
    [("record of which files are local copies", PR + " local column, " + FL + " update_local"),
     ("move with a free name", FL + " trash_files")],
    ["trash directory content after the sync"])

prop(
    "C13", "The trash keeps files for the configured time and no longer",
    "A sync deletes from the trash exactly the entries that were put there at least the configured number of days ago, counted from the moment of trashing whatever the age of the file (with zero days all of them at a later sync at the latest), and none if the number is negative; empty-trash deletes all of them. Neither touches anything else in the remote directory, nor what symlinks in the trash point to.",
    ["inputs", "configurations"],
    "every set of trash entries (files, directories, symlinks, any age) and every retention period",
    "two tests put one file in the trash and move the clock by 30 days once; empty-trash has no tests",
    [FL, FS, PR, "zielen/commands/emptytrash.py"],
    [("trashing updates the modification time", FS + " update_mtime"), ("cutoff", FL + " cleanup_trash"), ("empty-trash", "zielen/commands/emptytrash.py")],
    ["trash directory content after sync and empty-trash"])

prop(
    "C14", "A sync killed at any point loses nothing and can be repeated",
    "If a sync is killed or interrupted by a signal at any moment, no file content is lost that a completed sync would have kept, and a following sync succeeds and leaves the same tree and contents on both sides as a sync without the interruption would have, except that an interrupted copy may show up as a conflict, excluded directories may stay in the remote directory and, if another client syncs in between, its deletions may be undone. No leftover of the interruption stops later commands, and the profile stays readable.",
    ["crash_points", "histories"],
    "every point between two system calls that change the filesystem, in every sync of generated histories, repeated interruptions included",
    "no test interrupts anything",
    [SYNC, FL, FS, PR, CB],
    [("databases are committed and the sync time recorded only at the end", SYNC),
     ("repeatable deletions", FL + " _rm_files/trash_files")],
    ["trees after kill and after the next sync", "exit status of the next sync"])

prop(
    "C15", "Init moves everything to the remote and keeps it reachable",
    "After init, every local file, directory and relative symlink that is not excluded is in the remote directory with the same content, permission bits and modification time, every such file can be read at its old local path through a symlink, and excluded files and symlinks leading out of the local directory are untouched and not in the remote directory. With an existing remote directory, init leaves the remote content as it is and makes all of it readable through the empty local directory.",
    ["inputs", "configurations"],
    "every local or remote tree, every exclude file, both modes",
    "one tree of three one-byte files is tested, by path names only",
    [INIT, FL, FS, UD],
    [("copy to the remote, then overwrite with symlinks", FL + " setup_from_local/setup_from_remote/_setup_dir")],
    ["both trees after init"])

prop(
    "C16", "An interrupted init can be resumed or cancelled without loss",
    "If init is killed at any moment, no file content is lost, and running init again with the same name completes it with the same result as an uninterrupted init, or, if it had not got past checking its input, starts afresh. Until then sync refuses to run on that profile and changes nothing.",
    ["crash_points", "inputs"],
    "every point between two filesystem changes of init, both modes, generated trees, repeated kills",
    "no test interrupts init or resumes one",
    [INIT, PR, CMD],
    [("status 'partial' recorded before files are moved", INIT + ", " + PR), ("repeatable set-up", FL + " setup_from_local")],
    ["trees after the kill and after the second init"])

prop(
    "C17", "An init that is refused leaves no trace",
    "Init refuses an existing profile name, an invalid name, an invalid or incomplete template, a local directory that overlaps another profile or the program directory, and directories that are missing, not directories, or non-empty where they must be empty, or that overlap each other; each time it exits with an error message and status 1. A refused init leaves the contents of the local directory, the remote directory and all existing profiles as they were, leaves no new profile behind, and does not stop a corrected init from succeeding.",
    ["inputs", "configurations"],
    "every combination of names, paths (overlapping by prefix, nesting, relative or home-relative spelling) and template contents",
    "single refusals are tested for the exception only, never for what they leave behind; overlap is tested with equal paths only",
    [INIT, FS, PR, CLI],
    [("input checks", INIT), ("cleanup at exit", INIT + " delete_profile")],
    ["exit status, directory trees and profile directory"])

prop(
    "C18", "Reset gives the user all files back",
    "After reset, the local directory holds every file, directory and relative symlink that was in the sync, as regular files with the content, permission bits and modification time they last had, next to the excluded files and the user's own symlinks (which keep their names), and no symlink into the remote directory is left; the remote directory is empty, its trash included, and the profile is gone. With keep-remote the remote files also stay, other clients can go on, and with no-retrieve the remote directory is left alone and only the placeholders disappear from the local one.",
    ["inputs", "histories", "configurations"],
    "every tree and every history of syncs before the reset, all option combinations, one or more clients",
    "the tests reset one freshly initialised tree and compare path names",
    [RESET, FS, UD],
    [("move back", RESET + ", " + FS + " transfer_tree(rm_source)"), ("placeholder removal", RESET)],
    ["both trees and the program directory after reset"])

prop(
    "C19", "An interrupted reset loses nothing and can be repeated",
    "If reset, or the reset that cancels an interrupted init, is killed at any moment, every file's content is still there, complete, in the local or the remote directory, and as long as the profile exists running reset again completes it with the same result as an uninterrupted reset (a conflict copy that was already made of a local edit stays in the local directory and may not be added to a remote directory that is kept).",
    ["crash_points", "inputs"],
    "every point between two filesystem changes of reset, generated trees, all options",
    "no test interrupts reset",
    [RESET, FS],
    [("the source is removed only after its copy is complete", FS + " transfer_tree"), ("the profile is removed last", RESET)],
    ["trees after the kill and after the second reset"])

prop(
    "C20", "A missing remote directory is reported and never taken for deletions",
    "If the remote directory is unavailable when a command starts (gone, or an empty mount point), sync and a retrieving reset fail with an error that says the remote directory could not be found and status 1, and nothing in the local directory, the profile or the mount point changes. Once it is back, the next sync behaves as if the failed one had not been tried.",
    ["fault_sequences", "histories"],
    "every state reachable by edits and syncs, remote directory missing, replaced by an empty directory or lacking its program directory",
    "the tests never take the remote directory away",
    [SYNC, RESET, UD, FL],
    [("a file is written to the program directory in the remote first", UD + " add_exclude_file"), ("RemoteError", FL)],
    ["trees, exit status and message"])

prop(
    "C21", "One operation at a time per profile",
    "While a command that changes a profile's files runs, any other such command on that profile fails with an error and status 1 and changes nothing, however the two are timed. The lock goes away when its holder ends in any way, success, error or kill, and never blocks another profile or another user's profile of the same name.",
    ["schedules", "fault_sequences"],
    "every pair of commands, every point at which the second one starts, every way the first one ends",
    "no test runs two commands at once",
    [CMD, INIT],
    [("abstract unix socket named after user and profile", CMD + " lock"), ("release on exit", CMD + " unlock")],
    ["exit status of the second command, trees"])

prop(
    "C22", "The file records answer like a plain tree of paths",
    "For any sequence of additions, updates, removals and queries, the local and the remote record of files return what a plain dictionary of paths would: additions never overwrite an existing entry, adding something below a path makes that path a directory, removing a path removes all of its subtree and nothing else, and each filter (subtree, files or directories, kept locally, synced after a time) selects exactly the matching entries. Committed changes survive reopening, and uncommitted ones do not.",
    ["histories", "inputs"],
    "every sequence of operations over every set of paths, including paths that are prefixes of one another, pattern or quote characters, and reopening at any point",
    "the tests run each operation once on one five-path tree",
    [CB, PR, UD],
    [("transitive closure table", PR + " and " + UD + " add_paths/rm_paths/get_paths")],
    ["results of get_paths and get_path_info"])

prop(
    "C23", "Directory priorities and local flags follow the files in them",
    "After any sequence of additions, removals, increments and updates of files, the recorded priority of each directory with content is the sum of the priorities of its direct entries, at every depth, and such a directory counts as kept locally exactly if all its direct entries do. Decay multiplies every priority by the same factor.",
    ["histories", "inputs"],
    "every sequence of operations on every tree shape",
    "one two-level tree is tested, one operation at a time",
    [PR],
    [("recomputed from leaf to trunk after every change", PR + " _update_priority/_update_local, " + UT + " get_path_ancestry")],
    ["priority and local flag of every path"])

prop(
    "C24", "Colliding path hashes are never confused",
    "If the identifiers derived from two paths coincide, both are still recorded, found, updated and removed as different paths, with the right place in the directory tree, and sync, reset and prioritisation give the same results as without the collision.",
    ["inputs", "histories"],
    "every set of coinciding identifiers between files, directories, parents and children, and every sequence of operations on them",
    "64-bit hash collisions never occur in tests, so that code never runs",
    [CB, PR, UD],
    [("salt per colliding path", CB + " _get_path_id, " + PR + " and " + UD + " add_paths")],
    ["results of get_paths and get_path_info under a truncated hash"])

prop(
    "C25", "Configuration values mean what the manual says or are refused",
    "Every value of a config option is either refused with an error that names the option, or has its documented meaning: a limit is its number times the unit (KB, MB, GB powers of 1000; KiB, MiB, GiB and bare K, M, G powers of 1024; in any case), intervals are minutes, half-lives hours, retention days with negative meaning never, yes and true and no and false are booleans in any case, and an omitted, blank or commented option has its default. A missing required or an unknown option is always refused; no accepted configuration makes a command crash.",
    ["inputs", "configurations"],
    "every config file text: every spelling, case, spacing and order of options, comments and values",
    "about twenty literal values are checked for acceptance and none for its meaning",
    [PR, CB],
    [("syntax check", PR + " check_value/check_all"), ("conversion", PR + " Profile properties"), ("key-value parser", CB + " ConfigFile")],
    ["settings in effect, error messages, behaviour of sync"])

prop(
    "C26", "Settings given in a template reach the profile unchanged",
    "The configuration that init writes has, for every option, the value of the template or, where that is blank, the one entered at the prompt, and reading it back gives exactly those values; comments and layout of the template are kept. Invalid input at the prompt is asked for again and never stored, and the patterns of a given exclude file are stored line for line.",
    ["inputs", "configurations"],
    "every template (any values, spacing, comments, order, '=' in values), every sequence of answers, every exclude file",
    "one template with three options is used throughout; prompting is never tested",
    [PR, CB, INIT],
    [("template based writer", CB + " ConfigFile.write"), ("prompt loop", PR + " prompt")],
    ["the profile's config and exclude files after init"])

prop(
    "C27", "File accesses raise priorities and time lowers them as documented",
    "The daemon raises the priority of a tracked file by one for each time it is opened through the local or the remote directory, counting openings within the cool-down after a counted one only once, and does not count directories or untracked files; nothing is lost when the database is busy for a while, directories are renamed or the system drops events, and neither ends the daemon. At each adjustment interval every priority is multiplied so that it halves once per configured half-life, never more often than that, and the daemon never resets what a sync recorded, nor makes one fail.",
    ["schedules", "histories", "configurations"],
    "every sequence and timing of open events, busy databases, clock steps and half-lives",
    "the daemon has no tests",
    [DM, PR],
    [("event queue with cool-down", DM + " main"), ("decay", DM + " _adjust, " + PR + " adjust_all"), ("retry when the database is locked", DM + " main")],
    ["priorities in the profile database", "info.json"])

prop(
    "C28", "Sync times are recorded exactly, in every time zone",
    "The recorded times of the last sync and the last adjustment read back as the moment that was recorded, to the microsecond, for every moment and in every time zone and across changes of time zone and daylight saving, so that a sync classifies the same files as changed wherever it runs.",
    ["inputs", "configurations"],
    "every timestamp (whole seconds included) and every pair of time zones for writing and reading",
    "tests run in one time zone and never compare the recorded time",
    [PR, SYNC],
    [("UTC time stamps with microseconds", PR + " _convert_epoch/_convert_timestamp")],
    ["last sync time read back, files treated as modified by sync"])

prop(
    "C29", "Symlinks of the user are synced as symlinks or left alone",
    "A symlink that is absolute or leads out of the local directory is never copied to the remote directory, and no command alters or removes it (reset removes those that lead into the remote directory). A relative symlink that stays inside is synced as a symlink with the same target text, whether it points to a file, a directory, another symlink or nothing, and syncing never copies or changes what it points to.",
    ["inputs", "histories"],
    "every symlink target text (with '..', '.', trailing slashes, chains, dangling, directories) at every depth, added, retargeted and removed over several syncs",
    "the tests use one symlink to one existing file",
    [FS, FL],
    [("classification by normalised target", FS + " is_unsafe_symlink"), ("copy without following", FS + " transfer_tree/scan_tree")],
    ["symlinks and their targets on both sides"])

prop(
    "C30", "No command touches anything outside its directories",
    "No command creates, changes or deletes anything outside the profile's local directory, its remote directory and the program's own directory, whatever symlinks, names and tree shapes are in the directories. Within the remote directory's own program folder only the program's own files change, and other profiles are never modified.",
    ["inputs", "histories"],
    "every tree with symlinks to outside files and directories in any place, all commands",
    "the tests never look outside of the two directories",
    [FS, FL, RESET, INIT],
    [("symlinks are not followed when scanning, copying and deleting", FS + ", " + FL + " _rm_files")],
    ["a sentinel tree around the directories"])

prop(
    "C31", "A failing file operation makes a sync fail cleanly",
    "If an operation on the filesystem fails during a sync (disk full, permission denied, I/O error), the sync exits with a nonzero status and does not record itself as done, unless its result is the same as without the failure; no file content is lost that a successful sync would have kept, and once the cause is gone the next sync succeeds and brings both sides into agreement.",
    ["fault_sequences", "histories"],
    "every filesystem operation of every sync in generated histories, every such error, repeatedly",
    "the tests inject no errors",
    [SYNC, FL, FS],
    [("errors propagate before the sync time is recorded", SYNC), ("databases roll back", CB)],
    ["exit status, trees after failure and after the next sync"])

prop(
    "C32", "Profiles can be named by name or by path, and list shows them all",
    "Every command that takes a profile accepts its name or any path that leads to its local directory (absolute, relative, through a symlink) and then does the same, and refuses anything else with an error and status 1 without changing anything, whatever other profiles exist. List prints, for each profile, one row with its name, directories and limit as configured, in aligned columns.",
    ["inputs", "configurations"],
    "every set of profiles, including ones whose directories are missing or start with '~', every spelling of the argument",
    "no test selects a profile by path or runs list",
    [CMD, CLI, "zielen/commands/list.py", UT],
    [("selection by name, then by path", CMD + " select_profile"), ("table", UT + " BoxTable, zielen/commands/list.py")],
    ["exit status, output, effect"])
prop(
    "C33", "The daemon syncs at the configured interval, whatever happens to the syncs",
    "While the daemon runs it starts a sync of its profile as soon as the configured interval has passed since the last recorded sync or since the end of its last attempt, never earlier and never two at once, and uses an interval that was changed in the config file within a few seconds. Failed and long syncs, restarts, edits, a database that is busy and commands that other processes run do not end the daemon or the regular syncs, and the command that it starts syncs the profile.",
    ["schedules", "histories", "configurations"],
    "every interval, duration and result of syncs, restart, change of the configuration and schedule of other commands",
    "the daemon has no tests",
    [DM, PR],
    [("starting of syncs", DM + " _sync"), ("last attempt and interval", DM + " _sync, " + PR + " sync_interval")],
    ["commands started by the daemon", "info.json"])

prop(
    "C34", "Init and reset without room for the files refuse and change no file",
    "If the filesystem of the remote directory has less room than the local files that init is to move there need, or the filesystem of the local directory less than the files that a reset has to retrieve, the command ends with status 1 and an error that says so, before any file of either directory has been changed: after a refused reset the profile syncs as if it had not been tried, and after a refused init a sync is refused, and an init that has enough room completes as if it had been the first. With enough room they go through, and so do init --add-remote and reset --no-retrieve, which copy no files, with none.",
    ["inputs", "histories", "fault_sequences"],
    "every pair of directories, every amount of free space on either filesystem",
    "the tests run on filesystems with room",
    [INIT, RESET, FL, UD],
    [("room for local files in the remote directory", FL + " setup_from_local"), ("room for retrieved files", RESET + " main"),
     ("disk usage and free space", UD + " disk_usage/space_avail")],
    ["exit status and messages", "both directories, trash and records"])

if __name__ == "__main__":
    with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
