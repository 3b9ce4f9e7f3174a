"""The scenarios of a rule are independent of each other: several processes share them.

Every process goes through the whole rule; a scenario is analysed by the process that claims it first, everything
else is reported by the first process only. The report is put together in the order of the rule.
"""

import os
import pickle
import shutil
import sys
import tempfile
import traceback


def workers():
    try:
        n = len(os.sched_getaffinity(0))
    except (AttributeError, OSError):
        n = os.cpu_count() or 1
    return int(os.environ.get("VERIF_JOBS", "0") or 0) or max(1, min(8, n))


class Share(object):
    """The part of one process."""

    def __init__(self, k, where, every=1):
        self.k, self.where, self.every = k, where, every
        self.at, self.inside = 0, False
        self.log = []

    def claim(self):
        self.at += 1
        if self.at % self.every and self.every > 1:
            return False
        try:
            os.close(os.open(os.path.join(self.where, str(self.at)), os.O_CREAT | os.O_EXCL))
        except FileExistsError:
            return False
        self.inside = True
        return True

    def done(self):
        self.inside = False

    def wanted(self):
        return self.inside or self.k == 0


def run(work, n, every=1):
    """work(share) -> picklable, in n processes; the list of the results (None: the process failed).

    every: only every n-th scenario.
    """
    where = tempfile.mkdtemp(prefix="verif-share-")
    try:
        pids = []
        sys.stdout.flush()
        sys.stderr.flush()
        for k in range(n):
            out = os.path.join(where, "out%d" % k)
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    r = work(Share(k, where, every))
                    with open(out + ".part", "wb") as f:
                        pickle.dump(r, f)
                    os.rename(out + ".part", out)
                except BaseException:
                    traceback.print_exc()
                    rc = 1
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
            pids.append((pid, out))
        res = []
        for pid, out in pids:
            os.waitpid(pid, 0)
            if os.path.exists(out):
                with open(out, "rb") as f:
                    res.append(pickle.load(f))
            else:
                res.append(None)
        return res
    finally:
        shutil.rmtree(where, ignore_errors=True)
