"""C19: every optimization gets its own results folder

Several starts run in threads under a cooperative scheduler that switches at every operation on the results folder (also in
the middle of the evaluations of one that is already running), with a clock that may tick in between."""
import builtins
import datetime
import io
import os
import shutil

import numpy as np

from .. import campaign as K, env, harness as H, oracles as O, sched
from ..explore import Violation


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []

    def add(bound, **cfg):
        cfg["id"] = len(jobs)
        jobs.append({"cfg": cfg, "bound": bound, "chunk": 60})
    b = 4 if thorough else 2
    for parent in (False, True):
        add(3 if not thorough else b, names=["a", "a"], parent=parent, log=False, micro=False, ticks=[])
        for log in (False, True):
            for micro in (False, True):
                if log or micro:
                    add(b, names=["a", "a"], parent=parent, log=log, micro=micro, ticks=[])
                add(b - 1, names=["a", "b"], parent=parent, log=log, micro=micro, ticks=[])
        # the clock moves on during the starts
        for micro in (False, True):
            add(b, names=["a", "a"], parent=parent, log=False, micro=micro, ticks=[1e-6, 1e-6])
            add(b, names=["a", "a"], parent=parent, log=False, micro=micro, ticks=[0.7, 0.7])
        add(b - 1, names=["a", "a", "a"], parent=parent, log=False, micro=False, ticks=[])
        add(b - 1, names=["a", "b", "a"], parent=parent, log=False, micro=True, ticks=[1e-6])
        # whole optimizations
        add(2 if thorough else 1, names=["a", "a"], parent=parent, log=True, micro=False, ticks=[], runs=True)
        add(2 if thorough else 1, names=["a", "b"], parent=parent, log=False, micro=False, ticks=[], runs=True)
        add(2 if thorough else 1, names=["x", "x"], parent=parent, log=False, micro=True, ticks=[1e-6, 0.5], runs=True)
    for kind in ("folder", "empty", "file"):
        for log in (False, True):
            for micro in (False, True):
                add(None, existing=kind, names=["a"], log=log, micro=micro, parent=True, ticks=[])
    for name in ("a", "a_b", "20231114", "", "x y", "..a"):
        add(None, names=[name], parent=False, log=False, micro=False, ticks=[], runs=True)
    for mult in ([0, 0], [0, 1], [0, 1, 2], [0, 0, 1]):
        add(None, sequential=mult, names=["a"] * len(mult), parent=False, log=False, micro=False, ticks=[])
        add(None, sequential=mult, names=["a"] * len(mult), parent=False, log=False, micro=True, ticks=[])
    return jobs


class Hooks:
    """Scheduling points at the operations on the results folder"""
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.saved = {}
        s = self.s

        def hook(owner, name):
            real = getattr(owner, name)
            self.saved[(owner, name)] = real

            def wrapped(*a, **kw):
                if a and isinstance(a[0], (str, bytes, os.PathLike)) and "QuOCS_Results" in os.fspath(a[0] if not
                                                                                                  isinstance(a[0], bytes) else a[0].decode()):
                    s.point(name + " " + str(a[0])[-40:])
                return real(*a, **kw)
            setattr(owner, name, wrapped)
        for name in ("mkdir", "stat", "lstat", "rename", "replace", "listdir", "scandir", "remove", "unlink", "rmdir", "open",
                     "access"):
            hook(os, name)
        hook(builtins, "open")
        hook(io, "open")
        return self

    def __exit__(self, *a):
        for (owner, name), real in self.saved.items():
            setattr(owner, name, real)


def start_config(i, cfg):
    return dict(alg="dCRAB" if i % 2 == 0 else "DirectSearch", dsm="NM", controls="F1p" if i % 2 == 0 else "P2", si=1,
                crit={"max_eval": 3 + i}, dir=("min", "max")[i % 2], name=cfg["names"][i], log=cfg["log"], seed=3 + i,
                fmt=("npz", "json")[i % 2], top={"use_microsecond_name": cfg["micro"]})


def landscape_answer(shift):
    def answer(run, call):
        return {"FoM": run.sign * (H.landscape(call.triple()) + shift - 0.1 * call.k)}
    return answer


class Starter:
    def __init__(self, i, cfg, s):
        self.i, self.cfg, self.s = i, cfg, s
        self.run = H.Run(start_config(i, cfg), landscape_answer(i), keep=True, read_saved=False, step_time=0.0,
                         exit_obj=K.handle_exit(), before_call=(lambda r, c: s.point("call")) if s is not None else None)
        self.refused = None
        self.window = None

    def create(self):
        from quocslib.Optimizer import Optimizer
        t0 = env.CLOCK.t
        try:
            self.run.opt = Optimizer(self.run.dict, self.run.fom_object(), None, handle_exit_obj=self.run.exit_obj)
            self.run.folder = self.run.opt.results_path
            self.run.alg = self.run.opt.get_optimization_algorithm()
        except Exception as ex:
            self.refused = ex
        self.window = (t0, env.CLOCK.t)

    def body(self):
        self.create()
        if self.cfg.get("runs") and self.refused is None:
            self.run.execute_only()


def clock_names(window, name, micro, ticks):
    """All names that a start in this window can have"""
    res, t = set(), 0.0
    times = {window[0], window[1]}
    base = datetime.datetime(2023, 11, 14, 22, 13, 20)
    for dt in ticks:
        t = round(t + dt, 6)
        if window[0] <= t <= window[1]:
            times.add(t)
    for t in times:
        d = env._RealDateTime(2023, 11, 14, 22, 13, 20) + datetime.timedelta(seconds=t)
        res.add(d.strftime("%Y%m%d_%H%M%S_%f" if micro else "%Y%m%d_%H%M%S") + "_" + name)
    return res


def judge(cfg, starters, existing=None):
    root = os.path.join(os.getcwd(), "QuOCS_Results")
    good = [s for s in starters if s.refused is None]
    folders = [os.path.normpath(s.run.folder) for s in good]
    if len(set(folders)) != len(folders):
        raise Violation("two optimizations use the same folder: {0}".format(folders))
    for s in starters:
        names = clock_names(s.window, s.cfg["names"][s.i], cfg["micro"], cfg["ticks"])
        if s.refused is None:
            if os.path.dirname(os.path.normpath(s.run.folder)) != root or os.path.basename(s.run.folder) not in names:
                raise Violation("start {0} uses the folder {1}, expected one of {2} in {3}".format(s.i, s.run.folder, names, root))
            if not os.path.isdir(s.run.folder):
                raise Violation("start {0}: its folder {1} does not exist".format(s.i, s.run.folder))
        else:
            taken = {os.path.basename(f) for f in folders} | ({existing} if existing else set())
            if not names & taken:
                raise Violation("start {0} (name {1}) is refused although its folder is free: {2!r}\n{3}".format(
                    s.i, s.cfg["names"][s.i], s.refused, taken))
    # the results of those that started are complete and their own
    for s in good:
        r = s.run
        if not r.finished:
            r.execute_only()
        r.read_saved = True
        r.collect()
        files = sorted(os.listdir(r.folder))
        stamp = os.path.basename(r.folder)[:-len("_" + s.cfg["names"][s.i])]
        strange = [f for f in files if f != "quocs_version.txt" and not f.startswith(stamp)]
        if strange:
            raise Violation("strange files in {0}: {1}".format(r.folder, strange))
        ends = ["best_controls." + r.dict["dump_format"], "optimization_dictionary.json", "optimized_parameters.json"]
        missing = [e for e in ends if not os.path.exists(os.path.join(r.folder, stamp + "_" + e))]
        if missing or "quocs_version.txt" not in files:
            raise Violation("files missing in {0}: {1}".format(r.folder, missing))
        best = r.best_call()
        if len(r.calls) != r.cfg["crit"]["max_eval"] and s.cfg.get("runs") and len(r.calls) < 3:
            raise Violation("start {0} made {1} evaluations".format(s.i, len(r.calls)))
        O.saved_equal(r, r.saved_end, best, "at the end")
        O.best_reported(r)


def run(cfg, ctx, state):
    env.CLOCK.t = 0.0
    env.CLOCK.sleep_hook = None
    env.seed_globals(12345)
    H.reset_results()
    root = os.path.join(os.getcwd(), "QuOCS_Results")
    if cfg["parent"]:
        os.makedirs(root)
    if cfg.get("existing"):
        return existing(cfg, ctx, root)
    if cfg.get("sequential"):
        return sequential(cfg, ctx)
    s = sched.Scheduler(ctx)
    starters = [Starter(i, cfg, s) for i in range(len(cfg["names"]))]
    for st in starters:
        s.add(st.body)
    if cfg["ticks"]:
        def clock():
            for dt in cfg["ticks"]:
                env.CLOCK.advance(dt)
                s.point("tick")
        s.add(clock)
    with Hooks(s):
        s.run()
    for e in s.errors:
        if e is not None:
            raise e
    for st in starters:
        if st.refused is not None and not isinstance(st.refused, OSError):
            raise Violation("start {0} ends with {1!r}".format(st.i, st.refused))
    for i in range(len(s.trace)):
        ctx.state(cfg["id"], s.trace[:i + 1])
    judge(cfg, starters)
    out = (cfg["id"], tuple(st.refused is None for st in starters), tuple(os.path.basename(st.run.folder or "-") for st in starters))
    H.reset_results()
    return out


def existing(cfg, ctx, root):
    """The folder is already there"""
    name = sorted(clock_names((0.0, 0.0), "a", cfg["micro"], []))[0]
    path = os.path.join(root, name)
    if cfg["existing"] == "file":
        with open(path, "w") as f:
            f.write("mine")
    else:
        os.makedirs(path)
        if cfg["existing"] == "folder":
            for n in ("quocs_version.txt", name[:-2] + "_best_controls.npz", name[:-2] + "_logging.log"):
                with open(os.path.join(path, n), "w") as f:
                    f.write("mine")
    before = tree(root)
    s = Starter(0, cfg, None)
    s.create()
    ctx.steps += 1
    ctx.state(cfg["id"])
    if s.refused is None:
        raise Violation("a start is not refused although its folder {0} exists ({1})".format(name, cfg["existing"]))
    if tree(root) != before:
        raise Violation("a refused start changes the existing results: {0} -> {1}".format(before, tree(root)))
    return (cfg["id"], type(s.refused).__name__)


def tree(root):
    res = {}
    for d, _, files in os.walk(root):
        res[d] = None
        for f in files:
            with open(os.path.join(d, f), "rb") as fh:
                res[os.path.join(d, f)] = fh.read()
    return res


def sequential(cfg, ctx):
    """One after the other: the first ones have finished when the next one starts"""
    unit = 1e-6 if cfg["micro"] else 1.0
    starters = []
    for i, m in enumerate(cfg["sequential"]):
        env.CLOCK.t = round(m * unit, 6)
        s = Starter(i, dict(cfg, runs=True), None)
        before = [tree(p.run.folder) for p in starters if p.refused is None]
        s.create()
        if [tree(p.run.folder) for p in starters if p.refused is None] != before:
            raise Violation("start {0} changes the results of an earlier one".format(i))
        s.window = (env.CLOCK.t, env.CLOCK.t)
        if s.refused is None:
            s.run.execute_only()
        starters.append(s)
        ctx.steps += 1
        ctx.state(cfg["id"], i)
    judge(cfg, starters)
    return (cfg["id"], tuple(s.refused is None for s in starters))
