"""Configuration: what the values mean, and how they get into a profile."""
import os
import re

from hypothesis import strategies as st

import gen
import hist
from c_cli import refused, unchanged
from check import Check, Result
from gen import many
from world import World, rmtree

REQUIRED = ["LocalDir", "RemoteDir", "StorageLimit"]
OPTIONAL = {"SyncInterval": "20", "PriorityHalfLife": "120", "UseTrash": "yes", "TrashCleanupPeriod": "30",
            "InflatePriority": "yes", "AccountForSize": "yes"}
BOOLS = ["UseTrash", "InflatePriority", "AccountForSize"]
BYTES = {"kb": 10 ** 3, "mb": 10 ** 6, "gb": 10 ** 9, "kib": 2 ** 10, "mib": 2 ** 20, "gib": 2 ** 30,
         "k": 2 ** 10, "m": 2 ** 20, "g": 2 ** 30}
MUST, MAY = "must", "may"       # a value that has to be accepted, or that may be, with the meaning given


def meaning(key, v, home):
    """(MUST or MAY, meaning) of a value that is not blank, or None if it has to be refused."""
    if key in ("LocalDir", "RemoteDir"):
        if v[:1] == "/":
            return MUST, v
        if v[:2] == "~/":
            return MUST, home + v[1:]
        return None
    if key == "StorageLimit":
        m = re.fullmatch(r"([0-9]+)([ \t]*)([A-Za-z]+)", v)
        if m and m.group(3).lower() in BYTES:
            return MAY if m.group(2).strip(" ") else MUST, int(m.group(1)) * BYTES[m.group(3).lower()]
        return None
    if key in BOOLS:
        return (MUST, v.lower() in ("yes", "true")) if v.lower() in ("yes", "true", "no", "false") else None
    sign = "[+-]?" if key == "TrashCleanupPeriod" else "[+]?"
    if not re.fullmatch(sign + "[0-9]+", v):
        return None
    n = int(v)
    how = MAY if v[0] == "+" else MUST
    if key == "SyncInterval":
        return how, n * 60
    if key == "PriorityHalfLife":
        return (how, n * 3600) if n > 0 else None
    return how, (n * 86400 if n >= 0 else None)


def parse(text):
    """The options of a config file: lines with '=' that are no comments; the last one counts."""
    out = {}
    for line in re.split("\r\n|\r|\n", text):
        if "=" in line and not line.lstrip().startswith("#"):
            k, _, v = line.partition("=")
            out[k.strip()] = v.strip()
    return out


def judge(text, home):
    """What a config file means: (names of which one has to be in the error, values), and the keys whose values
    may be refused."""
    opts = parse(text)
    wrong, vals, may = [], {}, []
    for k in opts:
        if k not in REQUIRED and k not in OPTIONAL:
            wrong.append(k)
    for k in REQUIRED:
        if not opts.get(k):
            wrong.append(k)
    for k in REQUIRED + list(OPTIONAL):
        v = opts.get(k) or OPTIONAL.get(k)
        if v:
            m = meaning(k, v, home)
            if m is None:
                wrong.append(k)
            else:
                vals[k] = m[1]
                if m[0] == MAY:
                    may.append(k)
    return wrong, vals, may


def same_path(a, b):
    return re.sub("/+", "/", os.path.normpath(a)) == re.sub("/+", "/", os.path.normpath(b))


NUM = st.one_of(st.integers(0, 100).map(str), st.sampled_from(["007", "0", "00", "1000000", "99999999999"]))
UNIT = st.sampled_from(["KB", "MB", "GB", "KiB", "MiB", "GiB", "K", "M", "G"])
CASES = st.sampled_from([str, str.lower, str.upper, str.swapcase, str.title])
WORD = st.sampled_from(["yes", "no", "true", "false"])
JUNK = ["x", "-", "1 2", "1.5", "1e3", "0x10", "1,000", "½", "on", "off", "y", "n", "1", "0", "none", "yes no", "yes;",
        "20 # minutes", "\"20\"", "=", "=20", "--5", "+-5", "5-", "1_000", "tru", "truee", "\x0b5 5", "10%", "-1GB", "10 TB",
        "10B", "GB", "10G B", "10GBB", "10iB", "10KBiB", "1.5GB", "10 ", "#", "$HOME/x", "~x/y", "./x", "../x", "x/y", "~",
        "'/x'", "10GB 5", "10GB\t# all"]


@st.composite
def value(draw, key):
    how = draw(st.integers(0, 9))
    if how == 0:
        return draw(st.sampled_from(JUNK))
    if how == 1:
        return draw(st.sampled_from(["", " ", "\t"]))
    if key in ("LocalDir", "RemoteDir"):
        tail = draw(st.sampled_from(["x", "x y/é", "a=b", "x#y", "x/", "./x", "a/../x", "a//b", "$HOME", "~", "x\\y",
                                     "%s", "x'\"", "[x]*"]))
        return draw(st.sampled_from(["/", "~/", "//", "~//", "/%s/" % key])) + tail
    if key == "StorageLimit":
        f = draw(CASES)
        return draw(NUM) + draw(st.sampled_from(["", "", "", " ", "  ", "\t"])) + f(draw(UNIT))
    if key in BOOLS:
        return draw(CASES)(draw(WORD))
    n = draw(NUM)
    if key == "TrashCleanupPeriod":
        # Whether -0 is negative is left open.
        return (draw(st.sampled_from(["", "", "-"])) if int(n) else "") + n
    return draw(st.sampled_from(["", "", "", "", "+", "-"])) + n


@st.composite
def line(draw, key, val):
    a, b, c = (draw(st.sampled_from(["", "", "", " ", "\t", "  "])) for _ in range(3))
    end = draw(st.sampled_from(["", "", "", " ", "\t"]))
    return a + key + b + "=" + c + val + end


FILLER = ["", "# comment", "#LocalDir=/nowhere", "   # indented = comment", "no option", "LocalDir", "#", "\t",
          "## UseTrash=no", "StorageLimit: 5GB", "# é ü"]


@st.composite
def config_text(draw, fixed=None, errors=True):
    """The text of a config file. fixed: values that are given."""
    lines = []
    for k in draw(st.permutations(REQUIRED + list(OPTIONAL))):
        if fixed and k in fixed:
            lines.append(draw(line(k, fixed[k])))
            continue
        how = draw(st.integers(0, 9))
        if k in REQUIRED:
            if how == 0 and errors:
                lines.append("#" + k + "=5GB" if draw(st.booleans()) else "")
                continue
            v = draw(value(k)) if errors and how < 4 else {"LocalDir": "/x/L", "RemoteDir": "/x/R",
                                                          "StorageLimit": "10GB"}[k]
            if not errors and how < 7 and k == "StorageLimit":
                v = draw(NUM) + draw(UNIT)
        else:
            if how < 5:
                if how == 0:
                    lines.append("#" + k + "=0")
                continue
            v = draw(value(k))
            if not errors and (meaning(k, v.strip(), "/") or [MAY])[0] == MAY:
                v = OPTIONAL[k]
        lines.append(draw(line(k, v)))
        if how == 9:
            lines.append(draw(st.sampled_from(FILLER)))
    if errors and draw(st.integers(0, 7)) == 0:
        lines.insert(draw(st.integers(0, len(lines))), draw(st.sampled_from(
            ["Frobnicate=1", "localdir=/x", "LOCALDIR=/x", "Use Trash=yes", "=5", "UseTrash =no", "Sync-Interval=3"])))
    if draw(st.integers(0, 5)) == 0:
        k = draw(st.sampled_from(list(OPTIONAL)))
        v = draw(value(k))
        if errors or (meaning(k, v.strip(), "/") or [MAY])[0] == MUST:
            lines.append(draw(line(k, v)))
    for _ in range(draw(st.integers(0, 3))):
        lines.insert(draw(st.integers(0, len(lines))), draw(st.sampled_from(FILLER)))
    return "\n".join(lines) + draw(st.sampled_from(["\n", "\n", ""]))


class C25(Check):
    id = "C25"
    technique = "property-based testing of config files against a reference reading of the manual"
    rule = ("A case is a sequence of config files of a profile with generated values, spellings, layout, unknown, missing, "
            "blank and repeated options, that are read one after another by the same process, and by the commands; each must "
            "be refused with an error that names a wrong option, or every setting must have the meaning that the manual "
            "gives it, and no command may crash. Non-trivial: at least one file was accepted and one refused.")
    tags = {"meaning", "accepted", "refusal", "changed", "refused", "crash", "stale"}
    lists = ["texts"]
    quick = 80

    def strategy(self, tier, shard):
        @st.composite
        def plans(draw):
            texts = []
            for _ in range(draw(st.integers(3, 10))):
                texts.append([draw(st.sampled_from(["read", "read", "read", "sync", "list", "empty-trash", "init"])),
                              draw(st.integers(0, 2)) == 0, draw(config_text(
                                  errors=draw(st.integers(0, 2)) > 0, fixed={
                                      "LocalDir": "@L@", "RemoteDir": "@R@"} if draw(st.booleans()) else None))])
            return {"texts": texts}
        return plans()

    def valid(self, plan):
        return bool(plan["texts"])

    def run(self, ctx, plan):
        h = hist.History(ctx, {"cfg": [{"limit": "1GB"}]})
        w = h.w
        c = w.clients[0]
        h.stats.update(accepted=0, refused=0, values=0, commands=0)
        try:
            w.put(c.L + "/f", b"f", 0o644, w.now())
            h.init(0)
            self.trial = 0
            batch = []
            for how, crlf, text in plan["texts"]:
                text = text.replace("@L@", c.L).replace("@R@", w.R)
                if crlf:
                    text = text.replace("\n", "\r\n")
                if how == "read":
                    batch.append(text)
                    continue
                self.read(h, batch)
                batch = []
                if not h.problems:
                    self.command(h, how, text)
                if h.problems:
                    break
            else:
                self.read(h, batch)
            s = h.stats
            return Result(h.problems, s["accepted"] > 0 and s["refused"] > 0, s, w.log)
        finally:
            h.close()

    def read(self, h, texts):
        """One process reads each of them in turn."""
        if not texts:
            return
        w = h.w
        c = w.clients[0]
        for text, got in zip(texts, w.api(c, "read_configs", c.name, c.pdir + "/config", texts)):
            self.check(h, text, got)

    def check(self, h, text, got):
        w = h.w
        wrong, vals, may = judge(text, w.home)
        if "crash" in got:
            h.bad("crash", "reading %r: %s" % (text, got["crash"]))
            return
        if "refused" in got:
            h.stats["refused"] += 1
            msg = " ".join(got["refused"])
            if not wrong and not may:
                h.bad("refused", "%r was refused: %s" % (text, msg))
            elif not any(k in msg for k in wrong + may):
                h.bad("refusal", "%r: the error names none of %s: %s" % (text, wrong + may, msg))
            return
        h.stats["accepted"] += 1
        if wrong:
            h.bad("accepted", "%r was accepted in spite of %s; values %s" % (text, wrong, got))
            return
        for k, v in vals.items():
            h.stats["values"] += 1
            ok = same_path(got[k], v) if k.endswith("Dir") else got[k] == v
            if not ok:
                h.bad("meaning", "%r: %s is %r, expected %r" % (text, k, got[k], v))

    def command(self, h, how, text):
        """A command that reads this config file, or this template."""
        w = h.w
        c = w.clients[0]
        wrong, vals, may = judge(text, w.home)
        mine = not wrong and same_path(vals["LocalDir"], c.L) and same_path(vals["RemoteDir"], w.R)
        h.stats["commands"] += 1
        if how == "init":
            name = c.name + "n"
            with open(c.pdir + "/config", "w") as f:        # the other profile has to be in order
                f.write("LocalDir=%s\nRemoteDir=%s\nStorageLimit=1GB\n" % (c.L, w.R))
            tpl = w.root + "/tpl/c"
            w.put(tpl, text.encode(), 0o644, w.now())
            opts = parse(text)
            if any(k in opts and not opts[k] for k in REQUIRED) or not wrong and not mine:
                return          # prompts for it, or would use other directories
            text2 = text
            if not wrong:
                # in directories of its own
                self.trial += 1
                d = w.root + "/n%d" % self.trial
                os.makedirs(d + "/L/d")
                os.makedirs(d + "/R")
                text2 = text.replace(c.L, d + "/L").replace(w.R, d + "/R")
                w.put(tpl, text2.encode(), 0o644, w.now())
            before = w.freeze()
            res = w.run(c, ["init", "-t", tpl, name])
            who = "init with the template %r: " % text2
            if wrong or may and res.get("rc") != 0:
                if res.get("rc") == 0:
                    h.bad("accepted", who + "was accepted in spite of %s" % wrong)
                elif refused(h, who, res):
                    h.stats["refused"] += 1
                    if not any(k in res["err"] for k in wrong + may):
                        h.bad("refusal", who + "the error names none of %s: %s" % (wrong + may, res["err"]))
                unchanged(h, who, before, w.freeze())
                return
            if res.get("rc") != 0:
                h.bad("refused", who + "failed: " + (res.get("err") or str(res))[-700:])
                return
            h.stats["accepted"] += 1
            self.check(h, text2, w.api(c, "read_configs", name, None, [None])[0])
            res = w.run(c, ["sync", name])
            if res.get("rc") != 0:
                h.bad("crash", who + "the next sync failed: " + (res.get("err") or str(res))[-700:])
            res = w.run(c, ["reset", name])
            if res.get("rc") != 0:
                h.bad("crash", who + "the next reset failed: " + (res.get("err") or str(res))[-700:])
            return
        if how in ("sync", "empty-trash") and not wrong and not mine:
            return              # other directories, that may be impossible to use
        with open(c.pdir + "/config", "w", newline="") as f:
            f.write(text)
        before = w.freeze()
        res = w.run(c, ["list"] if how == "list" else [how, c.name])
        who = "%s with the config file %r: " % (how, text)
        if res.get("exc") or res.get("exit_exc") or res.get("rc") not in (0, 1) or "Traceback" in res.get("err", ""):
            h.bad("crash", who + (res.get("err") or str(res))[-900:])
        elif how == "list":
            if res["rc"] != 0:
                h.bad("crash", who + "failed: " + res["err"])
        elif res["rc"] == 0:
            h.stats["accepted"] += 1
            if wrong:
                h.bad("accepted", who + "was accepted in spite of %s" % wrong)
        elif wrong or may:
            h.stats["refused"] += 1
            if refused(h, who, res) and not any(k in res["err"] for k in wrong + may) :
                h.bad("refusal", who + "the error names none of %s: %s" % (wrong + may, res["err"]))
            unchanged(h, who, before, w.freeze())
        elif mine:
            h.bad("refused", who + "failed: " + res["err"])


# --------------------------------------------------------------------------------------------------
BAD_INPUT = {"LocalDir": ["", " ", "x/y", "./x", "$HOME", "\"/x\""], "RemoteDir": ["", "x/y", "~x", "remote"],
             "StorageLimit": ["", "10", "10 XB", "lots", "-5GB", "1.5 GB", "GB", "5 G B"]}
LEAF = ["x", "x y", "é=ü", "a=b=c", "x#y", "=x", "#x", "x'\"y", "[x]*", "%s%(x)s", "$HOME", "x\\n", "~", "x=", "-x", "{0}", 'x"', '"x"', "'x'", "x'", 'x;y', 'x,', 'x:y']
PATTERN_LINES = ["a", "*.txt", "# comment", "", "  d/  ", "/d", "d/**", "[ab]*", "é", "#", "\ta", "a  ", "**/c", "x=y",
                 "%s", "\\*", "!a", "  # indented comment", "*", "d 2/", "-e"]


class C26(Check):
    id = "C26"
    technique = "round-trip property-based testing of templates, prompts and exclude files through init"
    rule = ("A case is an init with a generated template (layout, comments, order, blank values) or the default one, answers "
            "at the prompts with invalid ones among them, and a generated exclude file; the stored config must have exactly "
            "these values and the other lines of the template, and the stored exclude file must end with the lines of the "
            "given one. Non-trivial: two or more options differ from their defaults, or a prompt was answered wrongly first.")
    tags = {"rc", "value", "layout", "pattern", "prompt", "stored", "again"}
    lists = ["before", "patterns"]
    quick = 160

    def strategy(self, tier, shard):
        @st.composite
        def plans(draw):
            leaf = st.sampled_from(LEAF)
            real = {"LocalDir": draw(st.sampled_from(["@ROOT@/l/", "~/l/", "@ROOT@//l/./"])) + draw(leaf),
                    "RemoteDir": draw(st.sampled_from(["@ROOT@/r/", "~/r/"])) + draw(leaf),
                    "StorageLimit": draw(NUM) + draw(st.sampled_from(["", " "])) + draw(CASES)(draw(UNIT))}
            plan = {"real": real, "default": draw(st.integers(0, 4)) == 0, "answers": [], "crlf": draw(
                st.sampled_from([False, False, False, True])),
                "add": draw(st.booleans()), "patterns": draw(st.one_of(st.none(), st.lists(
                    st.sampled_from(PATTERN_LINES), max_size=6))), "end": draw(st.booleans()), "before": []}
            given = dict(real)
            for k in REQUIRED:
                if plan["default"] or draw(st.integers(0, 2)) == 0:
                    given[k] = draw(st.sampled_from(["", "", " "]))
                    plan["before"].append([k, many(draw, st.sampled_from(BAD_INPUT[k]), (0, 2)),
                                           draw(st.sampled_from(["", "", " ", "\t"]))])
            plan["text"] = draw(config_text(fixed=given, errors=False))
            return plan
        return plans()

    def run(self, ctx, plan):
        w = World(ctx, [{"limit": "1GB"}])
        problems = []

        def bad(tag, msg):
            problems.append((tag, msg))
        try:
            c = w.clients[0]
            rmtree(c.L)
            rmtree(w.R)
            real = {k: v.replace("@ROOT@", w.root) for k, v in plan["real"].items()}
            for k in ("LocalDir", "RemoteDir"):
                p = w.home + real[k][1:] if real[k][0] == "~" else real[k]
                if (k == "RemoteDir") != plan["add"]:
                    continue        # missing, and made by init
                os.makedirs(p)
            L = w.home + real["LocalDir"][1:] if real["LocalDir"][0] == "~" else real["LocalDir"]
            if not plan["add"]:
                w.put(L + "/d/f", b"content", 0o644, w.now())
            else:
                R = w.home + real["RemoteDir"][1:] if real["RemoteDir"][0] == "~" else real["RemoteDir"]
                os.makedirs(R, exist_ok=True)
                w.put(R + "/d/f", b"content", 0o644, w.now())
            text = plan["text"].replace("@ROOT@", w.root)
            patch = {}
            argv = ["init"]
            if plan["default"]:
                with open("/repo/docs/templates/config-template" if ctx.repo == "/repo" else
                          ctx.repo + "/docs/templates/config-template") as f:
                    text = f.read()
                patch = {"sys_prefix": w.root + "/prefix"}
                w.put(w.root + "/prefix/share/zielen/config-template", text.encode(), 0o644, w.now())
            else:
                if plan["crlf"]:
                    text = text.replace("\n", "\r\n")
                w.put(w.root + "/tpl/t", text.encode(), 0o644, w.now())
                argv += ["-t", w.root + "/tpl/t"]
            opts = parse(text)
            blank = [k for k in REQUIRED if not opts.get(k)]
            stdin, wrongly = "", 0
            answers = {k: (wrong, pad) for k, wrong, pad in plan["before"]}
            for k in REQUIRED:
                if k in blank:
                    wrong, pad = answers.get(k, ([], ""))
                    wrongly += len(wrong)
                    stdin += "".join(x + "\n" for x in wrong + [pad + real[k] + pad])
            if plan["patterns"] is not None:
                patterns = "\n".join(plan["patterns"]) + ("\n" if plan["end"] else "")
                w.put(w.root + "/tpl/e", patterns.encode(), 0o644, w.now())
                argv += ["-e", w.root + "/tpl/e"]
            if plan["add"]:
                argv.append("-a")
            res = w.run(c, argv + [c.name], stdin=stdin, patch=patch)
            stats = {"prompts": len(blank), "wrong_answers": wrongly, "patterns": len(plan["patterns"] or []), "default":
                     int(plan["default"])}
            if res.get("rc") != 0 or res.get("exc"):
                bad("rc", "init failed with %r, answers %r: %s" % (text, stdin, (res.get("err") or str(res))[-700:]))
                return Result(problems, False, stats, w.log)
            if res["err"].count("Error: ") < wrongly:
                bad("prompt", "%d wrong answers in %r, but only this was said: %s" % (wrongly, stdin, res["err"]))
            with open(c.pdir + "/config", encoding="utf-8", newline="") as f:
                stored = f.read()
            want = dict(opts, **{k: real[k].strip() for k in blank})
            got = parse(stored)
            for k in sorted(set(want) | set(got)):
                if got.get(k) != want.get(k):
                    bad("value", "%s is stored as %r, not as %r; template %r, answers %r" % (
                        k, got.get(k), want.get(k), text, stdin))

            def rest(t):
                return [("option", x.partition("=")[0].strip()) if "=" in x and not x.lstrip().startswith("#") else x
                        for x in t.replace("\r\n", "\n").split("\n")]
            a, b = rest(text), rest(stored)
            if a[-1:] != [""]:
                a = a + [""] if b[-1:] == [""] else a
            if a != b:
                bad("layout", "the template %r was stored as %r" % (text, stored))
            with open(c.pdir + "/exclude", encoding="utf-8", newline="") as f:
                ex = f.read()
            if plan["patterns"] is not None:
                lines, tail = ex.split("\n"), patterns.split("\n")
                if lines[-len(tail):] != tail and lines[-len(tail) - 1:-1] != tail:
                    bad("pattern", "the exclude file %r was stored as %r" % (patterns, ex))
                head = lines[:len(lines) - len(tail)]
            else:
                head = ex.split("\n")
            if [x for x in head if x.strip() and not x.strip().startswith("#")]:
                bad("pattern", "the exclude file has patterns that nobody gave: %r" % ex)
            # What the program reads from it
            v = w.api(c, "read_configs", c.name, None, [None])[0]
            wrong, vals, _ = judge(stored, w.home)
            if wrong or "refused" in v or "crash" in v:
                bad("stored", "the stored config can't be read: %s; %r" % (v, stored))
            else:
                for k, x in vals.items():
                    if not (same_path(v[k], x) if k.endswith("Dir") else v[k] == x):
                        bad("value", "%s is read as %r, expected %r" % (k, v[k], x))
            for x in ([] if problems else ["sync", "reset"]):
                res = w.run(c, [x, c.name])
                if res.get("rc") != 0:
                    bad("again", "%s after init failed: %s" % (x, (res.get("err") or str(res))[-500:]))
            other = sum(1 for k, d in OPTIONAL.items() if opts.get(k, d) != d)
            return Result(problems, wrongly > 0 or other > 1, stats, w.log)
        finally:
            w.close()


# --------------------------------------------------------------------------------------------------
ZONES = ["UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "IST-5:30",
         "<-0330>3:30<-0230>,M3.2.0,M11.1.0", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "<-12>12", "<+14>-14",
         "XXX-0:00:01", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "", None]
# around the changes of daylight saving time of these zones, and other special moments
MOMENTS = [1792890000, 1774746000, 1806199200, 1793512800, 1772953200, 1788012000, 1775318400, 2 ** 31 - 3, 2 ** 31,
           2 ** 32, 1798761600, 1830297600, 951782400, 1e9, 1]


class C28(Check):
    id = "C28"
    technique = "round-trip and model-based property testing with changing time zones and a clock around time changes"
    rule = ("A case records generated moments in one time zone and reads them back in another, and then runs a random "
            "history in which the time zone changes between the commands and the clock is put around the changes of "
            "daylight saving time, compared with the model. Non-trivial: the zone changed between two syncs that had to tell "
            "changed files from unchanged ones.")
    tags = {"time", "rc", "remote-missing", "remote-extra", "remote-entry", "local-missing", "local-extra", "local-entry",
            "conflict-copy", "conflict-spurious", "conflict-winner", "deleted-stays", "content-lost", "remote-lost-unchanged",
            "trash-missing", "trash-extra"}
    quick = 50

    def strategy(self, tier, shard):
        @st.composite
        def plans(draw):
            plan = draw(gen.history(nclients=(1, 2), rounds=(2, 4), links=False, last=1))
            zone = st.sampled_from(ZONES)
            steps = [["zone", draw(zone)], ["at", draw(st.sampled_from(MOMENTS[:7])), draw(st.integers(-4000, 4000))]]
            for op in plan["steps"]:
                if op[0] == "sync" and draw(st.booleans()):
                    steps.append(["zone", draw(zone)])
                if draw(st.integers(0, 7)) == 0:
                    steps.append(["on", draw(st.sampled_from([1, 600, 1800, 3599, 3600, 3601, 5000, 7200, 86400]))])
                steps.append(op)
            plan["steps"] = steps
            for c in plan["cfg"]:
                c["cleanup"] = -1
            t = st.one_of(
                st.tuples(st.sampled_from(MOMENTS), st.integers(-7200, 7200), st.integers(0, 10 ** 6)).map(
                    lambda x: max(0, x[0] + x[1]) + x[2] / 1e6),
                st.floats(0, 4e9, allow_nan=False), st.integers(0, 4 * 10 ** 9).map(float),
                st.tuples(st.integers(0, 3 * 10 ** 9), st.sampled_from(
                    [0.5, 1e-6, 0.999999, 0.9999995, 0.9999999, 5e-7, 1.5e-6, 0.1, 0.000001 * 3])).map(sum))
            plan["times"] = [[draw(zone), draw(zone), draw(t), draw(t)] for _ in range(draw(st.integers(5, 15)))]
            return plan
        return plans()

    lists = ["steps", "times"]

    def run(self, ctx, plan):
        h = hist.History(ctx, plan)
        w = h.w
        h.stats.update(times=0, zones=0)
        try:
            self.stored(h, plan["times"])
            moved, synced = False, False
            for op in plan["steps"]:
                if h.problems:
                    break
                if op[0] == "zone":
                    moved = moved or op[1] != w.tz
                    w.tz = op[1]
                elif op[0] == "at":
                    t = int((op[1] + op[2]) * 1e9)
                    if t > max(w.last_ns, w.time_ns() - 10 ** 9):
                        w.clock = t - (w.time_ns() - (w.clock or 0))
                elif op[0] == "on":
                    w.clock = (w.clock or 0) + op[1] * 10 ** 9
                elif op[0] in ("sync", "init"):
                    t0 = w.time_ns() / 1e9
                    h.step(op)
                    t1 = w.time_ns() / 1e9
                    c = w.clients[op[1]]
                    if not h.problems and c.up:
                        t = w.records(c)["last_sync"]
                        if not t0 - 1e-5 <= t <= t1 + 1e-5:
                            h.bad("time", "a %s between %.6f and %.6f was recorded at %.6f in zone %s" % (
                                op[0], t0, t1, t, w.tz))
                        if moved and synced:
                            h.stats["zones"] += 1
                        moved, synced = False, True
                else:
                    h.step(op)
            s = h.stats
            return Result(h.problems, s["zones"] > 0 and s["changed"] > 0, s, w.log)
        finally:
            h.close()

    def stored(self, h, times):
        w = h.w
        c = w.clients[0]
        if not times:
            return
        tpl = w.root + "/tpl/t"
        os.makedirs(w.root + "/tl")
        os.makedirs(w.root + "/tr")
        w.put(tpl, ("LocalDir=%s/tl\nRemoteDir=%s/tr\nStorageLimit=1GB\n" % (w.root, w.root)).encode(), 0o644, w.now())
        name = c.name + "t"
        res = w.run(c, ["init", "-t", tpl, name])
        if res.get("rc") != 0:
            h.bad("rc", "init failed: %s" % (res.get("err") or res))
            return
        for (za, zb, t, u), got in zip(times, w.api(c, "store_times", name, times)):
            h.stats["times"] += 1
            for what, x, y in (("last sync", t, got[0]), ("last adjustment", u, got[1])):
                if y is None or abs(x - y) > 6e-7 * (1 if x < 2 ** 32 else 2):
                    h.bad("time", "the %s at %.7f, recorded in zone %s, is read as %s in zone %s" % (what, x, za, y, zb))
                    return


CHECKS = {c.id: c() for c in (C25, C26, C28)}
