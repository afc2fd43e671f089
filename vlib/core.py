"""Run-time monitoring core: scratch directories, job recorder, verdicts, evidence.

A check is a module ``checks/<id>.py`` with

* ``jobs(tier, seed)``   -> list of ``Job``: workloads, each run in a process of its own;
* ``RULE``               -> how cases are made and what counts as a distinct, non-trivial one;
* ``REQUIRED``           -> {counter: minimum}: monitors that have to have observed something;
* ``ASSUMPTIONS``        -> list of strings.

Verdicts are three-valued: held on what was observed (exit 0), violated (exit 1 and a VIOLATION
line with a replay file), inconclusive or harness error (exit 2).
"""

import collections
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
HOME = os.environ.get("VERIF_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")


def enter_scratch(name, fresh=True):
    """Make and enter a directory that looks like the repository root, with a copy of data/."""
    path = os.path.join(SCRATCH, name)
    if not os.path.isdir(path):
        os.makedirs(path)
        for entry in os.listdir(REPO):
            if entry not in ("data", ".git"):
                os.symlink(os.path.join(REPO, entry), os.path.join(path, entry))
        shutil.copytree(os.path.join(REPO, "data"), os.path.join(path, "data"), symlinks=True)
    os.chdir(path)
    return path


class HarnessError(Exception):
    """The check itself could not do its work (never a verdict about the code)."""


class Job:
    def __init__(self, name, fn, timeout=600, **kw):
        self.name, self.fn, self.kw, self.timeout = name, fn, kw, timeout


def jsonable(obj):
    if isinstance(obj, (bytes, bytearray)):
        return bytes(obj).hex()
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(x) for x in obj]
    if obj is None or isinstance(obj, (bool, int, float, str)):
        return obj
    return str(obj)[:2000]


class Rec:
    """What one job observed."""

    MAX_VIOLATIONS = 20

    def __init__(self, job, seed, tier):
        self.job, self.seed, self.tier = job, seed, tier
        self.rng = random.Random(f"{seed}/{job}")
        self.evals = 0
        self.distinct = set()
        self.counters = collections.Counter()
        self.samples = []
        self.violations = []
        self.t0 = time.monotonic()

    # -- observations -------------------------------------------------------------------------
    def ev(self, *key, counter=None, nontrivial=True):
        """One evaluated case; key identifies it for the distinct count."""
        self.evals += 1
        if nontrivial:
            h = hashlib.sha256(repr(jsonable(key)).encode()).hexdigest()[:16]
            self.distinct.add(h)
        if counter:
            self.counters[counter] += 1

    def count(self, name, n=1):
        self.counters[name] += n

    def sample(self, limit=3, **case):
        if len(self.samples) < limit:
            s = json.dumps(jsonable(case))
            self.samples.append(json.loads(s) if len(s) < 3000 else {"case": s[:3000]})

    def violation(self, key, msg, /, **artifacts):
        """A refutation of the property; key names the mechanism (for known findings)."""
        if len(self.violations) < self.MAX_VIOLATIONS:
            self.violations.append(
                {"key": key, "what": msg, "job": self.job, "artifacts": jsonable(artifacts)}
            )

    def check(self, cond, key, msg, /, **artifacts):
        self.count("assertions")
        if not cond:
            self.violation(key, msg, **artifacts)
        return bool(cond)

    def elapsed(self):
        return time.monotonic() - self.t0

    # -- guarded calls --------------------------------------------------------------------------
    def must(self, key, fn, /, *a, **k):
        """Call the code under test where the property says it succeeds.

        Returns (True, value); an exception is a violation and returns (False, None).
        """
        try:
            return True, fn(*a, **k)
        except HarnessError:
            raise
        except Exception as e:  # noqa
            self.violation(key, f"unexpected {type(e).__name__}: {str(e)[:300]}", tb=tb_text(e))
            return False, None

    def result(self):
        return {
            "job": self.job,
            "evals": self.evals,
            "distinct": sorted(self.distinct),
            "counters": dict(self.counters),
            "samples": self.samples,
            "violations": self.violations,
            "wall": round(self.elapsed(), 2),
        }


def tb_text(e):
    frames = "".join(traceback.format_tb(e.__traceback__))[-2500:]
    return frames + f"{type(e).__name__}: {str(e)[:500]}"


def raised_in_repo(e):
    """True when the innermost Python frame outside the standard library/site-packages is in the repo."""
    tb = e.__traceback__
    where = None
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(os.path.realpath(REPO) + os.sep):
            where = "repo"
        elif fn.startswith(os.path.realpath(HOME) + os.sep):
            where = "harness"
        tb = tb.tb_next
    return where == "repo"


def _child(job, seed, tier, slot, out):
    os.setpgid(0, 0)
    res = None
    try:
        enter_scratch(f"slot{slot}")
        os.environ["TMPDIR"] = os.path.join(SCRATCH, "tmp")
        rec = Rec(job.name, seed, tier)
        random.seed(f"{seed}/{job.name}/global")
        err = None
        try:
            job.fn(rec, **job.kw)
        except Exception as e:  # noqa
            if not isinstance(e, HarnessError) and raised_in_repo(e):
                rec.violation(
                    "exception-in-repo",
                    f"unexpected {type(e).__name__} from the code under test: {str(e)[:300]}",
                    tb=tb_text(e),
                )
            else:
                err = tb_text(e)
        res = rec.result()
        res["error"] = err
    except BaseException as e:  # noqa
        res = {"job": job.name, "error": tb_text(e), "evals": 0, "distinct": [], "counters": {},
               "samples": [], "violations": [], "wall": 0}
    with open(out, "w") as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


def run_jobs(jobs, seed, tier, nproc=None):
    nproc = nproc or int(os.environ.get("VERIF_JOBS", "8"))
    pending = list(jobs)
    running = {}  # pid -> (job, slot, out, start)
    free = list(range(nproc))
    results = []
    verbose = os.environ.get("VERIF_VERBOSE")
    logdir = os.path.join(SCRATCH, "log")
    os.makedirs(logdir, exist_ok=True)
    n = 0
    while pending or running:
        while pending and free:
            job = pending.pop(0)
            slot = free.pop(0)
            n += 1
            out = os.path.join(logdir, f"{n}.json")
            pid = os.fork()
            if pid == 0:
                if not verbose:
                    fd = os.open(os.path.join(logdir, f"{n}.log"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(fd, 1)
                    os.dup2(fd, 2)
                _child(job, seed, tier, slot, out)
            running[pid] = (job, slot, out, time.monotonic(), os.path.join(logdir, f"{n}.log"))
        time.sleep(0.02)
        for pid in list(running):
            job, slot, out, start, log = running[pid]
            done, status = os.waitpid(pid, os.WNOHANG)
            if not done:
                if time.monotonic() - start > job.timeout:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    del running[pid]
                    free.append(slot)
                    results.append({"job": job.name, "error": f"watchdog after {job.timeout} s", "evals": 0,
                                    "distinct": [], "counters": {}, "samples": [], "violations": [], "wall": job.timeout})
                continue
            del running[pid]
            free.append(slot)
            try:
                with open(out) as f:
                    res = json.load(f)
            except (OSError, ValueError):
                tail = ""
                try:
                    tail = open(log, errors="replace").read()[-1500:]
                except OSError:
                    pass
                res = {"job": job.name, "error": f"worker ended with status {status}: {tail}", "evals": 0,
                       "distinct": [], "counters": {}, "samples": [], "violations": [], "wall": 0}
            results.append(res)
    return results
