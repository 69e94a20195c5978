"""What a check is: a generator of plans, a way to run one against the real program with an oracle,
and a rule that says which runs were non-trivial. Plans are plain JSON."""
import copy
import json
import os

ALL = bool(os.environ.get("ALLTAGS"))     # for exploration: every divergence counts


class Result:
    def __init__(self, problems=(), nontrivial=False, stats=None, log=None):
        self.problems = [tuple(p) for p in problems]    # (tag, message)
        self.nontrivial = nontrivial
        self.stats = stats or {}
        self.log = log or []


class Check:
    id = None
    level = "exploration"
    technique = ""
    rule = ""
    level_note = ""
    assumptions = []
    lists = ["steps"]           # parts of the plan that the shrinker takes elements from
    quick = 60                  # cases per shard
    thorough = 1500
    more = 3                    # factor for the number of cases of the quick tier
    cap_quick = 100             # seconds per shard after which no new case is started
    cap_thorough = 700
    kinds = ["cpython"] * 7 + ["pypy"]
    pypy_share = 0.2            # PyPy is slower in short runs, so it gets fewer cases
    tags = None                 # problems with other tags end a case without a verdict; None: all count
    extra_runs = 0              # executions that one plan stands for, beyond the first (from stats)

    def strategy(self, tier, shard):
        raise NotImplementedError

    def fixed(self):
        """Plans that are always run first (spread over the shards)."""
        return []

    def run(self, ctx, plan):
        raise NotImplementedError

    def valid(self, plan):
        """Is a plan that the shrinker made still one that the generator could make?"""
        return True

    def mine(self, problems):
        return [p for p in problems if self.tags is None or p[0] in self.tags or ALL]


def ddmin(plan, lists, fails, out_of_time):
    """Removes as much as possible from the lists of the plan while it still fails."""
    cur = copy.deepcopy(plan)
    changed = True
    while changed and not out_of_time():
        changed = False
        for name in lists:
            if not isinstance(cur.get(name), list):
                continue
            k = max(1, len(cur[name]) // 2)
            while k >= 1 and not out_of_time():
                i = 0
                while i < len(cur[name]) and not out_of_time():
                    cand = dict(cur)
                    cand[name] = cur[name][:i] + cur[name][i + k:]
                    if fails(cand):
                        cur = cand
                        changed = True
                    else:
                        i += k
                k //= 2
    return cur


def canon(plan):
    return json.dumps(plan, sort_keys=True, ensure_ascii=True)
