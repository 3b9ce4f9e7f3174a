"""Logging: set-up and statistics."""

import itertools

from .coverage import data
from .world import *

LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
F1 = "%(levelname)s|%(message)s"
F2 = "%(name)s:%(message)s:%(lineno)d"
F3 = "[%(log_id)s] %(message)s"

PRE = """
import logging
from toffee import logger as L

def journal(tag):
    hook(tag, list(logging.journal.entries))
    logging.journal.entries.clear()

"""


def logging_world(R):
    if R.world_ is None:
        R.world_ = Loader(R.A.root, sched=True, stubs=("logging",))


def said(levels, texts):
    """Statements that log a text at each level."""
    return "".join("    L.%s(%r)\n" % (l.lower(), t) for l, t in zip(levels, texts))


def setup(level, fmt, console, file):
    a = []
    if level is not None:
        a.append("log_level=L.%s" % level)
    if fmt is not None:
        a.append("format=%r" % fmt)
    if console is not None:
        a.append("console_display=%s" % console)
    if file is not None:
        a.append("log_file=%r" % file)
    return "    L.setup_logging(%s)\n" % ", ".join(a)


def shown(fmt, level, text, log_id=""):
    return (fmt or "").replace("%(levelname)s", level).replace("%(message)s", text).replace("%(name)s", "TOFFEE").replace("%(lineno)d", "7")


def written(l):
    """{target: [(level, text without colours)]} of a journal"""
    d = {}
    for target, level, text in l:
        if target in ("open", "close"):
            continue
        for c in range(30, 40):
            text = text.replace("\x1b[%dm" % c, "")
        d.setdefault(target, []).append((level, text.replace("\x1b[0m", "")))
    return d


def entries(r, tag):
    return [tuple(x) for x in data(r.find(tag)[0].args[0])]


@rule("L01")
def configured(A, R):
    logging_world(R)
    texts = ["text %d" % i for i in range(5)]
    cases = []
    for lv in [None] + LEVELS:
        for fmt in (F1, F2):
            for con in (None, True, False):
                for file in (None, "x.log"):
                    cases.append([(lv, fmt, con, file)])
    few = [("DEBUG", F1, True, None), ("ERROR", F2, True, "x.log"), ("INFO", F1, False, "y.log"), ("WARNING", F2, None, None), ("CRITICAL", F1, False, None)]
    cases += [list(x) for x in itertools.product(few, repeat=2)]
    cases += [list(x) for x in itertools.product(few[:4], repeat=3)]
    for case in cases:
        code = PRE + "async def test():\n    logging.journal.entries.clear()\n" + "".join(setup(*c) for c in case) + "    journal('setup')\n" + said(LEVELS, texts) + "    journal('said')\n"
        lv, fmt, con, file = case[-1]

        def judge(r):
            k = LEVELS.index(lv or "WARNING")
            want = [(l, shown(fmt, l, t)) for l, t in list(zip(LEVELS, texts))[k:]]
            d = {}
            if con is not False:
                d["console"] = want
            if file:
                d[file] = want
            got = written(entries(r, "said"))
            for t in sorted(set(d) | set(got)):
                if got.get(t, []) != d.get(t, []):
                    return "%s gets %s, expected %s" % (t, got.get(t, [])[:6], d.get(t, [])[:6])
            files = [(a, b) for a, b, c in entries(r, "setup") if a in ("open", "close")]
            still = []
            for a, b in files:
                if a == "open":
                    still.append(b)
                elif b in still:
                    still.remove(b)
            if still != ([file] if file else []):
                return "open files after the set-up: %s" % still
            return None

        scenario(R, "set-up %s" % " then ".join("(%s)" % ", ".join(str(x) for x in c if x is not None) for c in case), code, "", judge)
    # without any set-up, and the package's logger
    code = PRE + "async def test():\n    logging.journal.entries.clear()\n" + said(LEVELS, texts) + """
    journal('said')
    L.get_logger().error('own')
    logging.getLogger('TOFFEE').error('named')
    L.log(L.ERROR, 'by number')
    journal('named')
    L.setup_logging(L.INFO)
    L.error('later')
    journal('default')
"""

    def judge(r):
        got = written(entries(r, "said"))
        if sorted(got) != ["console"] or [x for x, _ in got["console"]] != LEVELS[2:]:
            return "without a set-up, the targets get %s" % got
        for (l, t), text in zip(got["console"], texts[2:]):
            if text not in t or l not in t:
                return "the default format shows %r for %r" % (t, text)
        got = written(entries(r, "named"))
        if sorted(got) != ["console"] or [[w for w in ("own", "named", "by number") if w in t] for _, t in got["console"]] != [["own"], ["named"], ["by number"]]:
            return "the logger of the package shows %s" % got
        got = written(entries(r, "default"))
        if sorted(got) != ["console"] or len(got["console"]) != 1 or "later" not in got["console"][0][1]:
            return "after a set-up of the level, the targets get %s" % got
        return None

    scenario(R, "no set-up", code, "", judge)
    # ids are shown, the same in all targets
    for fmt in (F3, None):
        code = PRE + "async def test():\n" + setup("DEBUG", fmt, True, "x.log") + """
    logging.journal.entries.clear()
    L.warning('with', extra={'log_id': 'ID7'})
    L.warning('without')
    L.warning('empty', extra={'log_id': ''})
    journal('said')
"""

        def judge(r):
            got = written(entries(r, "said"))
            if sorted(got) != ["console", "x.log"] or got["console"] != got["x.log"] or len(got["console"]) != 3:
                return "the targets get %s" % got
            texts = [t for _, t in got["console"]]
            if texts[0].count("ID7") != 1 or "with" not in texts[0]:
                return "the id is shown as %r" % texts[0]
            if "None" in texts[1] or texts[1].replace("without", "") != texts[2].replace("empty", ""):
                return "messages without an id are shown as %r and %r" % (texts[1], texts[2])
            return None

        scenario(R, "ids of messages, format %s" % fmt, code, "", judge)


@rule("L02")
def counted(A, R):
    logging_world(R)
    setups = {
        "as loaded": "", "console": "    L.setup_logging(L.DEBUG)\n", "twice": "    L.setup_logging(L.ERROR)\n    L.setup_logging(L.INFO, console_display=False)\n",
        "three times, with a file": "    L.setup_logging(L.DEBUG)\n" * 2 + "    L.setup_logging(L.WARNING, log_file='f')\n", "no target": "    L.setup_logging(L.DEBUG, console_display=False)\n",
    }
    level = {"as loaded": "WARNING", "console": "DEBUG", "twice": "INFO", "three times, with a file": "WARNING", "no target": "DEBUG"}
    for name, text in setups.items():
        for seq in ([0, 1, 2, 3, 4], [2, 2, 2], [4, 0, 3, 3, 1, 2, 4], [], [1, 1], [3, 2, 3, 2, 2]):
            for ids in (False, True):
                code = PRE + "async def test():\n" + text
                want, idw = {}, {}
                for i, k in enumerate(seq):
                    x = "ID%d" % (i % 2) if ids and i % 3 else None
                    code += "    L.%s('m%d'%s)\n" % (LEVELS[k].lower(), i, ", extra={'log_id': %r}" % x if x else "")
                    if k >= LEVELS.index(level[name]):
                        want[LEVELS[k]] = want.get(LEVELS[k], 0) + 1
                        if x:
                            idw[x] = idw.get(x, 0) + 1
                code += "    hook('stats', L.stats_handler.get_stats())\n    L.setup_logging(L.INFO)\n    hook('stats', L.stats_handler.get_stats())\n    logging.journal.entries.clear()\n    L.summary()\n    journal('summary')\n"

                def judge(r):
                    for e in r.find("stats"):
                        d = data(e.args[0])
                        if {k: v for k, v in d["severity"].items() if v} != want:
                            return "the messages are counted as %s, expected %s" % (d["severity"], want)
                        if {k: v for k, v in d["id"].items() if k.startswith("ID")} != idw or sum(d["id"].values()) != sum(want.values()):
                            return "the ids are counted as %s, expected %s of %d messages" % (d["id"], idw, sum(want.values()))
                    got = written(entries(r, "summary"))
                    if sorted(got) != ["console"] or len(got["console"]) != 1:
                        return "the summary is %s" % got
                    lines = got["console"][0][1].split("\n")
                    for l in LEVELS:
                        n = [x for x in lines if x.startswith(l + ":")]
                        if [x.split(":")[1].strip() for x in n] != ([str(want[l])] if l in want else []):
                            return "the summary says %s of %s, expected %s" % (n, l, want.get(l))
                    return None

                scenario(R, "messages %s, %s%s" % (",".join(LEVELS[k] for k in seq), name, ", with ids" if ids else ""), code, "", judge)
