"""Checks whose cases are histories of edits, init and sync, compared with the reference model."""
import gen
import hist
from check import Check, Result
from hypothesis import strategies as st

TREE = {"rc", "remote-extra", "remote-missing", "remote-entry", "remote-lost-unchanged", "local-extra",
        "local-missing", "local-entry", "local-dangling", "deleted-stays", "conflict-winner", "conflict-spurious",
        "conflict-copy", "init-local", "init-remote"}


class HistoryCheck(Check):
    gen = {}
    need = ("edits",)          # statistics that must be positive for a case to count as non-trivial
    min_syncs = 2

    def strategy(self, tier, shard):
        return gen.history(**self.gen)

    def valid(self, plan):
        steps = plan["steps"]
        n = len(plan["cfg"])
        return all([s[0] for s in steps[max(0, k - 2 * n):k]] == ["sync"] * (2 * n)
                   for k, op in enumerate(steps) if op[0] == "converge")

    def run(self, ctx, plan):
        h = hist.History(ctx, plan)
        try:
            for op in plan["steps"]:
                if h.problems:
                    # Something that another property is about went wrong. It may have consequences for this one.
                    try:
                        h.step(op)
                    except Exception:
                        break
                else:
                    h.step(op)
                if self.mine(h.problems) or len(h.problems) > 30:
                    break
            nt = h.stats["syncs"] >= self.min_syncs and all(h.stats[k] > 0 for k in self.need)
            return Result(h.problems, nt, h.stats, h.w.log)
        finally:
            h.close()


class C01(HistoryCheck):
    id = "C01"
    technique = "model-based property testing of random edit/sync histories"
    rule = ("A case is a random history of edits on the local and the remote side with 1-5 rounds, each ended by a "
            "sync that is compared entry by entry with a reference merge; it is non-trivial if it has at least two "
            "syncs and a change made after the first one was propagated.")
    gen = dict(rounds=(1, 5), unsafe=True, exclude=False, bias=[None, None, "cross", "rm", "link", "conflict"])
    need = ("edits", "changed")
    tags = TREE | {"unsafe-altered", "unsafe-uploaded"}
    quick = 75


class C02(HistoryCheck):
    id = "C02"
    technique = "property testing of random histories with a conservation oracle over content digests"
    rule = ("A case is a random history by one to three clients in which every written content is unique; after each "
            "sync every digest that was readable before must still be readable unless that client's recorded version "
            "was overwritten or deleted. Non-trivial: at least one conflict or deletion was processed.")
    gen = dict(nclients=(1, 3), rounds=(2, 6), unsafe=True, exclude=True, last=1,
               bias=[None, "cross", "cross", "names", "conflict", "rm"])
    need = ("edits", "deletions")
    tags = {"rc", "content-lost", "conflict-copy", "trash-old", "trash-missing", "excluded-altered", "init-excluded"}
    quick = 50


class C03(HistoryCheck):
    id = "C03"
    technique = "model-based property testing of random histories rich in deletions"
    rule = ("A case is a random history by one or two clients, half of its edits deletions of files, placeholders and "
            "directories, compared with a reference merge after each sync. Non-trivial: at least one recorded entry "
            "was deleted and the deletion processed.")
    need = ("deletions",)
    tags = {"rc", "deleted-stays", "remote-lost-unchanged", "remote-missing", "local-missing", "remote-extra",
            "local-extra"}
    quick = 60

    def strategy(self, tier, shard):
        return gen.history(nclients=(1, 2), rounds=(2, 5), unsafe=True, exclude=shard % 2 == 1, last=2,
                           bias=["rm", "rm", "cross"])


class C04(HistoryCheck):
    id = "C04"
    technique = "model-based property testing of random histories rich in conflicts"
    rule = ("A case is a random history by one or two clients over a small set of paths so that both sides often change "
            "the same file, with older, newer and equal times. Non-trivial: at least one conflict copy was expected.")
    need = ("conflicts",)
    tags = {"rc", "conflict-copy", "conflict-spurious", "conflict-winner", "content-lost"}
    quick = 60

    def strategy(self, tier, shard):
        return gen.history(nclients=(1, 2), rounds=(2, 5), bias="conflict", last=1, ties=True)


class C05(HistoryCheck):
    id = "C05"
    technique = "property testing of random histories with the idempotence of sync as the oracle"
    rule = ("A case is a random history by one or two clients in which each sync is followed by a second one that must "
            "change nothing: no entry, content, mode, time, placeholder, trash entry, recorded path or priority. "
            "Non-trivial: at least two such pairs of syncs, and a change was propagated.")
    need = ("changed", "again")
    tags = {"again", "rc"}
    quick = 45

    def strategy(self, tier, shard):
        return gen.history(nclients=(1, 2), rounds=(1, 4), unsafe=True, exclude=shard % 2 == 1, last=1, again=True,
                           bias=[None, "rm", "conflict", "cross", "link"] + ["exclude"] * (shard % 2))


class C06(HistoryCheck):
    id = "C06"
    technique = "property testing of random histories with the storage limit as an invariant"
    rule = ("A case is a random history with files of 0 to 40000 bytes, limits from 0 to 120 KiB that change, priorities "
            "and exclude patterns; after each sync the disk usage of the local directory is measured. Non-trivial: at "
            "least one file was kept and one placeholder was there.")
    need = ("kept", "placeholders")
    tags = {"limit", "rc"}
    quick = 55

    def strategy(self, tier, shard):
        return gen.size_history(exclude=shard % 2 == 1, unsafe=shard % 4 == 2)


class C07(HistoryCheck):
    id = "C07"
    technique = "model-based property testing of the selection against a reference implementation"
    rule = ("A case is a random history with files of 0 to 40000 bytes, changing limits, options and priorities; after each "
            "sync the set of regular copies is compared with a reference selection from the recorded priorities, and "
            "these with the ones recorded before. Non-trivial: at least one sync kept some files but not all.")
    need = ("choices",)
    tags = {"choice", "priority", "rc"}
    quick = 55

    def strategy(self, tier, shard):
        return gen.size_history(exclude=False, unsafe=shard % 4 == 2)


class C08(HistoryCheck):
    id = "C08"
    technique = "model-based property testing of multi-client histories with a convergence check"
    rule = ("A case is a random history by two or three clients sharing a remote directory, ended by each client syncing "
            "twice in turn; every sync is compared with the reference merge and the final local trees with each other. "
            "Non-trivial: at least two clients and a change propagated.")
    gen = dict(nclients=(2, 3), rounds=(2, 6), last=2, unsafe=True, resets=True,
               bias=[None, None, "cross", "rm", "conflict"])
    need = ("changed",)
    min_syncs = 6
    tags = TREE | {"unsafe-altered", "unsafe-uploaded", "converge"}
    quick = 45


class C09(HistoryCheck):
    id = "C09"
    technique = "model-based property testing of histories with changing exclude patterns"
    rule = ("A case is a random history by one or two clients with exclude patterns that change in between. Non-trivial: "
            "at least one path was excluded at a sync.")
    gen = dict(nclients=(1, 2), rounds=(1, 5), exclude=True, unsafe=True, last=1,
               bias=[None, "exclude", "cross", "rm"])
    need = ("excluded",)
    tags = {"rc", "excluded-altered", "excluded-uploaded", "excluded-not-regular", "init-excluded", "init-remote",
            "excluded-content"}
    quick = 60


class C10(HistoryCheck):
    id = "C10"
    technique = "model-based property testing of multi-client histories with changing exclude patterns"
    rule = ("A case is a random history by one to three clients that change their exclude patterns independently. "
            "Non-trivial: at least one path was excluded at a sync.")
    need = ("excluded",)
    tags = {"rc", "excluded-stays-in-remote", "excluded-not-regular", "remote-missing", "remote-lost-unchanged",
            "excluded-altered", "local-missing", "local-entry"}
    quick = 50

    def strategy(self, tier, shard):
        return gen.history(nclients=(1, 3), rounds=(2, 5), exclude=True, last=1, resets=True,
                           bias=["exclude", "exclude", "cross"])


class C12(HistoryCheck):
    id = "C12"
    technique = "model-based property testing of deletion histories against a model of the trash"
    rule = ("A case is a random history by one or two clients, rich in deletions of placeholders, copies and directories, "
            "with the trash on, off or by default; the trash is compared with the model after each sync. Non-trivial: "
            "at least one entry had to go to the trash.")
    need = ("trashed",)
    tags = {"trash-old", "trash-missing", "trash-name", "trash-extra", "rc"}
    quick = 60

    def strategy(self, tier, shard):
        return gen.trash_history()


class C15(HistoryCheck):
    id = "C15"
    technique = "property testing of init on random trees against the tree found before"
    rule = ("A case is a random local tree (files, directories, symlinks of all kinds, exclude patterns) that is "
            "initialised, or a random remote tree to which a further client is added. Non-trivial: the tree has at "
            "least three entries.")
    tags = {"rc", "init-local", "init-remote", "init-excluded", "init-unsafe", "content-lost", "outside"}
    quick = 90

    def strategy(self, tier, shard):
        return gen.init_only(exclude=True)

    def run(self, ctx, plan):
        h = hist.History(ctx, plan)
        try:
            for op in plan["steps"]:
                h.step(op)
                if h.problems:
                    break
            nt = h.stats["inits"] >= 1 and h.stats["edits"] >= 3
            return Result(h.problems, nt, h.stats, h.w.log)
        finally:
            h.close()


class C18(HistoryCheck):
    id = "C18"
    technique = "model-based property testing of histories that end with resets"
    rule = ("A case is a random history by one or two clients, after which each resets its profile with or without "
            "--keep-remote and --no-retrieve, with unsynced edits before it and syncs of the other client after it. "
            "Non-trivial: at least one reset with files to retrieve succeeded.")
    need = ("resets", "placeholders")
    tags = {"rc", "reset-local", "reset-remote", "reset-placeholder", "reset-profile", "content-lost", "outside",
            "unsafe-altered", "local-missing", "remote-lost-unchanged", "remote-missing"}
    quick = 60

    def strategy(self, tier, shard):
        return gen.reset_history(exclude=shard % 2 == 1)


class C29(HistoryCheck):
    id = "C29"
    technique = "model-based property testing of histories rich in symlinks"
    rule = ("A case is a random history by one or two clients, rich in relative, dangling, looping, absolute and outward "
            "symlinks. Non-trivial: at least two symlinks were made and a sync followed.")
    need = ("links",)
    tags = TREE | {"unsafe-altered", "unsafe-uploaded", "init-unsafe", "outside", "content-lost"}
    quick = 60

    def strategy(self, tier, shard):
        return gen.history(nclients=(1, 2), rounds=(1, 5), unsafe=True, last=1, bias="link")


class C30(HistoryCheck):
    id = "C30"
    technique = "property testing of random histories with a snapshot of the surroundings as the oracle"
    rule = ("A case is a random history with symlinks leading out of either directory, to files and directories around "
            "them; after each command everything outside the client's directories must be as before. Non-trivial: at "
            "least two symlinks were made and a sync followed.")
    need = ("links",)
    tags = {"outside"}
    quick = 55

    def strategy(self, tier, shard):
        return gen.history(nclients=(1, 2), rounds=(1, 5), unsafe=True, exclude=True, last=1, bias="out",
                           remote_unsafe=True)


CHECKS = {c.id: c() for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C12, C15, C18, C29, C30)}
