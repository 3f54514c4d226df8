"""Stateless exhaustive exploration: every choice of the environment is a call of ctx.choose(), every execution is run
from scratch, and all choice sequences (or all with at most `bound` departures from the default 0) are enumerated."""
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import shutil
import signal
import sys
import tempfile
import traceback

from . import env

CHUNK = 40      # executions per work item before the rest of its subtree is handed back


class Violation(Exception):
    """The property does not hold for this execution"""


class Divergence(Exception):
    """Replaying a prefix met another choice point than when it was recorded"""


class Hang(BaseException):
    """The code under test does not come back"""


class Ctx:
    """The choices of one execution"""
    def __init__(self, prefix=(), expect=None):
        self.prefix = list(prefix)
        self.expect = expect        # [(n, label)] of the prefix
        self.choices, self.ns, self.labels, self.devs = [], [], [], []
        self.obs = []               # canonical states observed (hashable)
        self.steps = 0              # transitions (evaluations of the user's function, moves, ...)

    def choose(self, n, label="", free=False):
        """A choice between 0..n-1. A departure from 0 counts as a deviation unless it is free."""
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if self.expect is not None and i < len(self.expect):
            if tuple(self.expect[i]) != (n, label):
                raise Divergence("choice {0}: recorded {1}, met {2}".format(i, self.expect[i], (n, label)))
        if not 0 <= c < n:
            raise Divergence("choice {0} = {1} out of range {2}".format(i, c, n))
        self.choices.append(c)
        self.ns.append(n)
        self.labels.append(label)
        self.devs.append(0 if free else 1)
        return c

    def pick(self, seq, label="", free=False):
        return seq[self.choose(len(seq), label, free)]

    def state(self, *key):
        self.obs.append(hash64(key))

    def children(self, bound):
        """All prefixes that depart from this execution after its own prefix"""
        res = []
        cost = sum(1 for c, d in zip(self.choices[:len(self.prefix)], self.devs) if c and d)
        for i in range(len(self.prefix), len(self.choices)):
            if bound is None or not self.devs[i] or cost + 1 <= bound:
                exp = [[n, l] for n, l in zip(self.ns[:i + 1], self.labels[:i + 1])]
                for alt in range(1, self.ns[i]):
                    res.append((self.choices[:i] + [alt], exp))
        return res


def hash64(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "little")


def _watch(sig, frame):
    raise Hang("no end after the time limit of one execution")


def scratch_root():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return base


def run_execution(module, cfg, prefix, expect, state):
    """One execution. Returns (ctx, outcome, violation message or None)"""
    ctx = Ctx(prefix, expect)
    message, outcome = None, None
    signal.signal(signal.SIGPROF, _watch)
    signal.signal(signal.SIGALRM, _watch)
    signal.setitimer(signal.ITIMER_PROF, state.get("cpu_limit", 60))
    signal.setitimer(signal.ITIMER_REAL, state.get("real_limit", 400))
    try:
        try:
            outcome = module.run(cfg, ctx, state)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as ex:
        message = str(ex)
    except Divergence as ex:
        message = "DIVERGENCE " + str(ex)
    except Hang as ex:
        message = "the execution does not end: " + "".join(traceback.format_exc().splitlines(True)[-8:])
    except KeyboardInterrupt:
        message = "KeyboardInterrupt escaped"
    except (Exception, BaseException) as ex:        # a crash of the code under test is a violation
        message = "exception escaped: {0}\n{1}".format(repr(ex), "".join(traceback.format_exc().splitlines(True)[-14:]))
    return ctx, outcome, message


def worker_main(conn, modname, workdir, tier, seed):
    import importlib
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.makedirs(workdir, exist_ok=True)
    os.chdir(workdir)
    env.install()
    module = importlib.import_module(modname)
    state = {"workdir": workdir, "tier": tier, "seed": seed}
    if hasattr(module, "setup_worker"):
        module.setup_worker(state)
    while True:
        try:
            item = conn.recv()
        except EOFError:
            break
        if item is None:
            break
        ident, cfg, stack, bound, chunk = item
        res = {"id": ident, "executions": 0, "steps": 0, "choices": 0, "violations": [], "outcomes": set(),
               "states": set(), "samples": [], "maxdepth": 0}
        while stack and res["executions"] < chunk:
            prefix, expect = stack.pop()
            ctx, outcome, message = run_execution(module, cfg, prefix, expect, state)
            res["executions"] += 1
            res["steps"] += ctx.steps
            res["choices"] += len(ctx.choices)
            res["maxdepth"] = max(res["maxdepth"], len(ctx.choices))
            res["states"].update(ctx.obs)
            if outcome is not None:
                res["outcomes"].add(hash64(outcome))
            if message is not None:
                res["violations"].append({"cfg": cfg, "choices": ctx.choices, "labels": ctx.labels,
                                          "prefix": list(prefix), "message": message})
                if len(res["violations"]) >= 3:
                    stack = []
                    break
            if len(res["samples"]) < 1:
                res["samples"].append({"cfg": cfg, "choices": ctx.choices[:40], "outcome": repr(outcome)[:300]})
            kids = ctx.children(bound)
            stack.extend(reversed(kids))
        res["rest"] = stack
        conn.send(res)
    conn.close()


class Result:
    def __init__(self):
        self.executions = self.steps = self.choices = 0
        self.outcomes, self.states = set(), set()
        self.samples, self.violations = [], []
        self.maxdepth = 0
        self.configs = 0
        self.complete = True
        self.note = ""


def explore(modname, jobs, tier, seed, nproc=None, time_cap=None, keep_going=False):
    """Explore all jobs [{cfg, bound, chunk}] of the module in worker processes"""
    nproc = nproc or min(8, os.cpu_count() or 8)
    root = tempfile.mkdtemp(prefix="quocs-mc-", dir=scratch_root())
    result = Result()
    result.configs = len(jobs)
    t0 = env.real_time()
    procs, conns = [], []
    mpctx = mp.get_context("fork")
    queue = []
    for i, job in enumerate(jobs):
        queue.append((i, job["cfg"], [([], None)], job.get("bound"), job.get("chunk", CHUNK)))
    queue.reverse()
    try:
        for w in range(nproc):
            a, b = mpctx.Pipe()
            p = mpctx.Process(target=_worker_entry, args=(b, a, modname, os.path.join(root, "w%d" % w), tier, seed))
            p.daemon = True
            p.start()
            b.close()
            procs.append(p)
            conns.append(a)
        busy = {}
        idle = list(conns)
        stop = False
        while True:
            while idle and queue and not stop:
                c = idle.pop()
                item = queue.pop()
                c.send(item)
                busy[c] = item
            if not busy:
                break
            for c in mpc.wait(list(busy), timeout=600):
                item = busy.pop(c)
                try:
                    res = c.recv()
                except EOFError:
                    result.violations.append({"cfg": item[1], "choices": [], "labels": [], "prefix": [],
                                              "message": "the process of the code under test died"})
                    conns.remove(c)
                    continue
                idle.append(c)
                result.executions += res["executions"]
                result.steps += res["steps"]
                result.choices += res["choices"]
                result.maxdepth = max(result.maxdepth, res["maxdepth"])
                result.outcomes |= res["outcomes"]
                if len(result.states) < 5000000:
                    result.states |= res["states"]
                if len(result.samples) < 6 and res["samples"] and item[0] not in [s.get("id") for s in result.samples]:
                    result.samples.append(dict(res["samples"][0], id=item[0]))
                result.violations.extend(res["violations"])
                rest = res["rest"]
                if rest:
                    # split what is left so that all workers have something to do
                    k = max(1, min(len(rest), nproc if len(queue) < nproc else 1))
                    for j in range(k):
                        part = rest[j::k]
                        if part:
                            queue.append((item[0], item[1], part, item[3], item[4]))
            if result.violations and not keep_going:
                stop = True
            if time_cap is not None and env.real_time() - t0 > time_cap and queue:
                stop = True
                result.complete = False
                result.note = "time cap of {0} s reached with {1} work items left".format(time_cap, len(queue))
        for c in conns:
            try:
                c.send(None)
            except (OSError, BrokenPipeError):
                pass
        for p in procs:
            p.join(5)
    finally:
        for p in procs:
            if p.is_alive():
                p.kill()
        shutil.rmtree(root, ignore_errors=True)
    return result


def _worker_entry(conn, other, *args):
    other.close()
    try:
        worker_main(conn, *args)
    finally:
        os._exit(0)


def confirm(modname, violation, tier, seed):
    """Run the execution of a violation again in a fresh process. Returns the message or None"""
    mpctx = mp.get_context("fork")
    a, b = mpctx.Pipe()
    root = tempfile.mkdtemp(prefix="quocs-mc-", dir=scratch_root())
    p = mpctx.Process(target=_confirm_entry, args=(b, modname, root, violation, tier, seed))
    p.start()
    b.close()
    try:
        msg = a.recv()
    except EOFError:
        msg = "the process of the code under test died"
    p.join(10)
    if p.is_alive():
        p.kill()
    shutil.rmtree(root, ignore_errors=True)
    return msg


def _confirm_entry(conn, modname, root, violation, tier, seed):
    import importlib
    try:
        os.chdir(root)
        env.install()
        module = importlib.import_module(modname)
        state = {"workdir": root, "tier": tier, "seed": seed}
        if hasattr(module, "setup_worker"):
            module.setup_worker(state)
        ctx, outcome, message = run_execution(module, violation["cfg"], violation["choices"], None, state)
        conn.send(message)
        conn.close()
    finally:
        os._exit(0)
