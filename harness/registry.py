"""Finds the check of a property."""
import importlib

MODULES = {}
for _mod, _ids in {"c_history": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C12 C15 C18 C29 C30",
                   "c_db": "C22 C23 C24",
                   "c_crash": "C14 C16 C19 C31",
                   "c_trash": "C13",
                   "c_pattern": "C11",
                   "c_cli": "C17 C20 C21 C32",
                   "c_config": "C25 C26 C28", "c_daemon": "C27 C33", "c_space": "C34"}.items():
    for _i in _ids.split():
        MODULES[_i] = _mod


def get(check_id):
    mod = importlib.import_module(MODULES[check_id])
    return mod.CHECKS[check_id]

NOT_APPLICABLE = {}
NOTE = ("Exploration by generated cases against an explicit oracle, with the real command line on real directories (tmpfs); "
        "no guarantee beyond the cases generated.")
ASSUME = ["edits give files a later modification time than the last sync",
          "nothing edits the directories while a command runs",
          "a path is not switched between file and directory between two syncs",
          "file names are valid UTF-8"]
