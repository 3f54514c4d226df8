"""C06: a user stop at any point halts the run and keeps the results

Every line of the package that is executed between the start message and the return of execute() is a point where the
stop arrives: as a real SIGINT of the process, or as the flag of the exit handler."""
import os
import signal
import sys

import numpy as np

from .. import campaign as K, oracles as O, harness as H
from .c03 import initial, rebuild

TOOL = 3
STOPPED = "User stopped the optimization"


class Points:
    """Counts the executed lines of the package and acts at one of them"""
    def __init__(self, root, target=None, action=None):
        self.root, self.target, self.action = root, target, action
        self.n = 0
        self.on = False

    def line(self, code, lineno):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        if not self.on:
            return
        self.n += 1
        if self.n == self.target:
            self.on = False
            self.action()
            self.on = True

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "mc")
        mon.register_callback(TOOL, mon.events.LINE, self.line)
        mon.set_events(TOOL, mon.events.LINE)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        self.on = False
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)


def jobs(tier, seed):
    thorough = tier == "thorough"
    cfgs = [
        dict(alg="dCRAB", dsm="NM", controls="F1", si=2, crit={"max_eval": 4}),
        dict(alg="dCRAB", dsm="CMA4", controls="F1p", si=2, crit={"max_eval": 4}),
        dict(alg="dCRAB", dsm="NM", controls="PW", si=1, crit={"max_eval": 8}),
        dict(alg="dCRAB", dsm="NM", controls="F1", si=2, crit={"max_eval": 4}, reeval=[0.4, 0.6], alphabet=["L", "low"]),
        dict(alg="dCRAB", dsm="NM", controls="F1", si=2, crit={"max_eval": 4},
             drift={"compensate_after_minutes": 0.01, "num_average": 2}),
        dict(alg="DirectSearch", dsm="NM", controls="P2", crit={"max_eval": 7}),
        dict(alg="DirectSearch", dsm="CMA4", controls="P1", crit={"max_eval": 8}),
        dict(alg="DirectSearch", dsm="NM", controls="P1", crit={"max_eval": 4}, reeval="default"),
        dict(alg="DirectSearch", dsm="NM", controls="P1", crit={"max_eval": 5},
             drift={"compensate_after_minutes": 0.01, "num_average": 2}),
        dict(alg="GRAPE", controls="G", crit={"ftol": 0.02}),
        dict(alg="AD", controls="A", crit={"ftol": 0.05}),
    ]
    if thorough:
        cfgs += [
            dict(alg="dCRAB", dsm="NMa", controls="FC2p", si=3, crit={"max_eval": 9}),
            dict(alg="dCRAB", dsm="NM", controls="FSP", si=2, crit={"max_eval": 12}),
            dict(alg="dCRAB", dsm="CMA4", controls="F1g", si=2, crit={"max_eval": 8}, reeval="default"),
            dict(alg="dCRAB", dsm="CMA4", controls="F1g", si=3, crit={"max_eval": 4},
                 drift={"compensate_after_SI": True, "num_average": 3}),
            dict(alg="AD", controls="A2", si=2, crit={"ftol": 0.2}),
        ]
    jobs, i = [], 0
    for n, base in enumerate(cfgs):
        for kind in ("sigint", "flag", "sigint2", "again"):
            if kind == "sigint2" and base["alg"] == "AD":
                continue
            if kind == "again" and n not in ((0, 3, 5, 9) if thorough else (5, 9)):
                continue
            if not thorough and (kind == "flag" and n % 2 == 0 or kind == "sigint2" and n % 4 != 1):
                continue
            for d in (("min", "max") if thorough else (("min", "max")[(n + (kind == "flag")) % 2],)):
                cfg = dict(base, dir=d, kind=kind, id=i, fmt=("npz", "json")[i % 2], log=bool(i % 3 == 0))
                i += 1
                jobs.append({"cfg": cfg, "bound": None})
    return sorted(jobs, key=lambda j: j["cfg"]["alg"] != "AD")


def answer(run, call):
    # every second answer is a new best
    return {"FoM": run.sign * (H.landscape(call.triple()) if call.k % 2 else -0.01 * call.k), "std": 0.1}


def answer_gradient(run, call):
    return {"FoM": run.sign * H.landscape(call.triple())}


GAPS = (1, 5, 25, 100, 400)       # lines between the first stop and the second one


def one(cfg, target, gap=None):
    import quocslib
    root = os.path.dirname(os.path.abspath(quocslib.__file__)) + os.sep
    K.env.CLOCK.t = 0.0
    K.env.seed_globals(12345)
    H.reset_results()
    ex = K.handle_exit()
    info = {}

    def stop():
        if "calls" not in info:
            info["calls"] = len(r.calls)
            info["open"] = bool(r.events) and r.events[-1][0] == "call"
            info["grads"] = r.grad_calls
            info["done"] = r.finished
        if cfg["kind"] == "flag":
            ex.set_is_user_running(False)
        else:
            os.kill(os.getpid(), signal.SIGINT)
        if gap is not None and "again" not in info:
            # the user is impatient
            info["again"] = True
            pts.target = pts.n + gap
            return
    pts = Points(root, target, stop)

    def on_event(run, kind):
        if kind == "msg":
            pts.on = True
    r = H.Run(cfg, answer_gradient if cfg["alg"] in ("GRAPE", "AD") else answer, horizon=200, exit_obj=ex,
              on_event=on_event, keep=True)
    r.create()
    others = []
    if cfg["kind"] == "sigint2":
        # somebody else's optimizer, created but never executed
        o = H.Run(dict(cfg, name="other"), answer, exit_obj=K.handle_exit(), read_saved=False)
        o.create()
        others.append(o)
    old = signal.getsignal(signal.SIGINT)
    try:
        with pts:
            r.execute_only()
            pts.on = False
    finally:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
    del old
    r.collect()
    r.cleanup()
    for o in others:
        o.cleanup()
        if not o.exit_obj.is_user_running:
            O.fail(r, "the stop reached an optimization that is not being executed")
    return r, pts.n, info


def run(cfg, ctx, state):
    K.prepare(cfg)
    key = ("c06", cfg["id"])
    if key not in state:
        r, n, _ = one(cfg, None)
        r2, n2, _ = one(cfg, None)
        if n != n2:
            O.fail(r, "two identical runs differ: {0} and {1} steps", n, n2)
        state[key] = (r, n)
    ref, n = state[key]
    target = ctx.choose(n, "stop at", free=True) + 1
    gap = ctx.pick(GAPS, "again after", free=True) if cfg["kind"] == "again" else None
    r, _, info = one(cfg, target, gap)
    ctx.steps += len(r.calls)
    if not r.finished:
        O.fail(r, "execute() did not return")
    if r.error is not None:
        O.fail(r, "execute() raised {0!r}", r.error)
    ctx.state(cfg["id"], target, gap, len(r.calls))
    where = "stop at step {0} of {1}, during evaluation {2} (open: {3})".format(target, n, info["calls"], info["open"])
    more = len(r.calls) - info["calls"]
    if more > 1 or (info["open"] and more):
        O.fail(r, "{0}: {1} more evaluations", where, more)
    if r.grad_calls - info["grads"] > 1:
        O.fail(r, "{0}: {1} more gradients", where, r.grad_calls - info["grads"])
    for a, b in zip(r.calls, ref.calls):
        if not a.same_controls(b):
            O.fail(r, "{0}: evaluation {1} differs from the one of the run without stop", where, a.k)
    if len(r.calls) > len(ref.calls):
        O.fail(r, "{0}: more evaluations than without stop", where)
    if cfg["kind"] != "flag":
        if r.higher_reason != STOPPED:
            O.fail(r, "{0}: reason {1!r} / {2!r}", where, r.higher_reason, r.reason)
    elif (0 < len(r.calls) < len(ref.calls) and cfg["alg"] in ("dCRAB", "DirectSearch") and "drift" not in cfg
          and ref.calls[len(r.calls)].si == r.calls[-1].si):       # a search was left early
        if STOPPED not in r.reason + r.higher_reason:
            O.fail(r, "{0}: reason {1!r} / {2!r}", where, r.higher_reason, r.reason)
    if "reeval" in cfg or "drift" in cfg:
        # the averages of what is only partly measured do not count: file, report and controls agree with each other
        sv = r.saved_end
        got = r.report["Figure of merit"]
        if sv is None:
            if np.isfinite(got):
                O.fail(r, "{0}: reported {1}, nothing is saved", where, got)
        else:
            if not O.num_eq(np.real(np.asarray(sv["FoM"])).item(), got):
                O.fail(r, "{0}: saved {1}, reported {2}", where, sv["FoM"], got)
            k = int(np.asarray(sv["iteration_number"]))
            if not H.same_controls(r.calls[k - 1].triple(), r.best_controls):
                O.fail(r, "{0}: best controls returned {1}, saved is evaluation {2}", where, r.best_controls, k)
            for i, name in enumerate(r.names[0]):
                if not H.close(np.real(np.asarray(sv[name])), r.best_controls[0][i]):
                    O.fail(r, "{0}: saved pulse {1}, best pulse {2}", where, sv[name], r.best_controls[0][i])
        O.count_reported(r)
    else:
        O.consistent_end(r)
        O.history_exact(r)
        if cfg["alg"] == "dCRAB":       # what is reported rebuilds the best pulses also after a stop
            best = r.best_call()
            rebuild(cfg, r, best.triple() if best is not None else initial(cfg))
    return (cfg["id"], len(r.calls), r.reason, r.higher_reason, repr(r.report.get("Figure of merit")))
