"""Writes known-findings.txt: findings from checks/known.json, repairs from the fix commits in /repo."""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Which property each repair belongs to and what failed, by the subject of the commit.
PROPS = {
 "let the first file of an empty profile be synced": ("C01", "the first file added to a profile without files made the sync crash"),
 "transfer empty directories and symlinks that are given by path": ("C01", "new empty directories and symlinks were not copied to the other side"),
 "scan the local directory again after resolving conflicts": ("C04", "the renamed losing version was not synced in the sync that made it"),
 "copy files to a temporary name and never through a symlink": ("C14", "a sync killed while copying left a truncated file that then counted as the newer version; copying wrote through symlinks"),
 "keep both versions of a file that was modified on both sides at the same time": ("C04", "with equal modification times one version was overwritten"),
 "never reuse the name of an existing file for a conflict copy": ("C04", "two conflicts within a second, or a file of that name, lost a version"),
 "replace local files with symlinks in one step": ("C14", "killed between removing a file and linking it, the next sync took it for deleted"),
 "record for every file whether it was kept in the local directory": ("C12", "deleting a placeholder whose flag was stale removed the remote file for good"),
 "don't upload excluded files along with a new directory": ("C09", "excluded files in a new directory were uploaded"),
 "don't let a deletion take modified or unknown files with it": ("C02", "deleting a directory on one side deleted new and changed files of the other"),
 "never overwrite an excluded local file with an unrelated remote file": ("C09", "an excluded local file was replaced by a remote file of the same name"),
 "refuse to copy files into a symlinked directory": ("C30", "files were written through a symlinked directory to outside of the sync directory"),
 "replace outdated relative symlinks in the local directory": ("C29", "a changed relative symlink was not updated locally"),
 "don't follow symlinks in the trash": ("C13", "cleaning up the trash followed symlinks"),
 "give files that are trashed at the same time different names": ("C12", "files of the same name that were deleted together replaced one another in the trash"),
 "don't interpret the path of the sync directory as a pattern": ("C11", "brackets and the like in the path of the local directory disabled the patterns"),
 "don't follow symlinks when matching exclude patterns": ("C11", "patterns matched through symlinks to directories"),
 "don't delete remote files whose directory is hidden by a symlink": ("C03", "replacing a directory by an absolute symlink deleted the remote files under it"),
 "keep unrelated files when removing excluded files from the remote": ("C10", "unrelated remote files in an excluded directory were deleted"),
 "don't look for excluded files that were renamed by a conflict": ("C09", "a conflict on an excluded file made the sync crash"),
 "create the database tables in one step": ("C16", "killed while creating the tables, init could not be repeated"),
 "replace the info file in one step": ("C14", "killed while writing the info file, the profile became unreadable"),
 "don't resume an initialization that hasn't checked its directories": ("C17", "a refused init left a partial profile that a corrected init resumed with the old directories"),
 "lock the profile before reading it": ("C21", "a command read the profile before taking the lock, so it worked with outdated state"),
 "accept the path of a local directory in place of a profile name": ("C32", "selecting a profile by path crashed or was refused"),
 "expand the home directory before normalizing paths": ("C25", "paths that start with ~ were not expanded"),
 "interpret the config values in upper and lower case alike": ("C25", "units and booleans were only accepted in some cases"),
 "use the default values of config options that are left blank": ("C25", "a blank optional value made commands crash"),
 "refuse a half-life of zero": ("C25", "a half-life of zero was accepted and then crashed"),
 "clean up the trash if files are kept for zero days": ("C13", "zero days meant never"),
 "forget the values of removed config options when reading the file again": ("C25", "a removed option kept its old value"),
 "list profiles when the config file of one is missing or incomplete": ("C32", "list crashed on one incomplete profile"),
 "detect overlapping local directories that are given through symlinks": ("C17", "overlapping directories were accepted if one was given through a symlink"),
 "refuse a remote directory that overlaps the local one": ("C17", "a remote directory inside the local one was accepted and moved into itself"),
 "record the files that were replaced before an initialization was interrupted": ("C16", "resuming init after a kill forgot the files that were already replaced"),
 "report a missing remote directory in reset": ("C20", "reset crashed if the remote directory was missing"),
 "tell files and symlinks from directories in reset": ("C18", "reset treated files in the remote directory as directories"),
 "report a missing remote directory in empty-trash": ("C20", "empty-trash crashed if the remote directory was missing"),
 "let interrupted resets be repeated and interrupted initializations be cancelled": ("C19", "after a killed reset the retrieved files were taken for deleted ones, and a killed init could not be cancelled"),
 "skip directories that don't exist when matching exclude patterns": ("C11", "on Python before 3.10 the pattern 'dir/**' made commands crash if there was no such directory"),
 "count excluded files that are about to be retrieved towards the storage limit": ("C05", "after an excluded file was retrieved, the next sync kept other files than the one before"),
 "don't change files when paths below them are updated or removed": ("C22", "updating or removing an unrecorded path below a recorded file reset the priority and local flag of that file"),
 "update the directories of paths that are given as an iterator": ("C23", "updating, incrementing or removing paths given as an iterator left the directory priorities as they were"),
 "finish moving excluded files out of the remote directory after an interruption": ("C14", "an excluded new remote file stayed in the remote directory for good if the sync that retrieved it was killed"),
 "don't record a sync as complete before the database is written": ("C31", "a sync that could not write its database had already recorded itself as done"),
 "record restored directories after an interruption": ("C14", "a directory restored by a sync that was then killed was never recorded in the remote directory"),
 "don't sync after an interrupted reset that retrieves nothing": ("C19", "a sync after a killed 'reset --no-retrieve' took the removed placeholders for deleted files and deleted them from the remote directory"),
 "keep symlinks that replaced a file when the profile is reset": ("C18", "reset overwrote an absolute or outward symlink that the user had put in the place of a synced file"),
 "keep excluded files that other profiles sync when the profile is reset": ("C18", "reset overwrote an excluded local file if another profile synced a different file of that name"),
 "keep paths with colliding hashes apart": ("C24", "two new paths with the same ID added together lost one of them, and looking up, updating or removing an unrecorded path acted on the recorded one with the same ID"),
 "report config files that are not text files": ("C17", "a template that is not valid UTF-8 ended init with a traceback"),
 "report directories of which the path is a broken symlink or leads through a file": ("C17", "a directory path that is a broken symlink or leads through a file ended init with a traceback"),
 "check for overlapping directories before creating them": ("C17", "a refused init created directories inside of another profile's local directory or of the program directory"),
 "don't overwrite what another process recorded about a profile": ("C27", "daemon and sync overwrote each other's recorded times in the info file, and could both write the same temporary file"),
 "don't leave a transaction open in the daemon if the database is locked": ("C27", "after a locked database the daemon kept a stale transaction open and could never write again"),
 "don't count the removal or replacement of a directory as an access": ("C27", "removing or replacing a directory raised the priority of it, which is the sum of those of its files"),
 "keep the daemon running if there are too many accesses at once": ("C27", "the daemon ended when the event queue of the system overflowed"),
 "keep track of directories that are renamed while the daemon runs": ("C27", "accesses of files in a directory that was renamed were counted for its old path, or not at all"),
 "wait for the daemon if it uses the database when a sync begins to write": ("C27", "a sync failed at once with 'database is locked' if the daemon used the database just when it began to write"),
}
lines = []
known = VERIF + "/checks/known.json"
if os.path.exists(known):
    for k in json.load(open(known)):
        lines.append("finding: property=%s %s" % (k["property"], k["what"]))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "127a041..HEAD"],
                     capture_output=True, text=True).stdout
for line in log.splitlines():
    h, subj = line.split(" ", 1)
    if not subj.startswith("fix: "):
        continue
    p, what = PROPS[subj[5:]]
    lines.append("fixed: property=%s %s %s" % (p, h, what))
open(VERIF + "/known-findings.txt", "w").write("\n".join(lines) + "\n")
print(len(lines), "lines")
