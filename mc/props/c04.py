"""C04: maximizing F behaves exactly as minimizing -F"""
import math

import numpy as np

from .. import campaign as K, oracles as O, harness as H
from ..explore import Violation

EXTRAS = [
    {},
    {"reeval": "default", "stds": [0.1, 1.0]},
    {"reeval": [0.3, 0.6], "stds": [0.0, 0.4]},
    {"drift": {"compensate_after_SI": True, "num_average": 2}},
    {"drift": {"compensate_after_minutes": 0.1, "num_average": 1}},
    {"goal": 0.55},
    {"goal": -0.75},
    {"goal": 0.0},
    {"cbs": {"cbs_funct_evals": 3, "cbs_change": 0.6}},
    {"crit_extra": {"fatol": 0.4}},
    {"crit_extra": {"xatol": 0.2}},
]


def jobs(tier, seed):
    jobs, n = [], 0
    thorough = tier == "thorough"
    for bi, base in enumerate(K.gradient_free_bases()):
        for ei, extra in enumerate(EXTRAS):
            if not thorough and (bi + ei) % 3 and ei:
                continue
            cfg = dict(base, mode="dev", alphabet=["L", "tie", "low", "nan", "high"], fails=[["low", 1], [None, 2]],
                       stops=["low"], **{k: v for k, v in extra.items() if k in ("reeval", "stds", "drift")})
            cfg["crit"] = dict(cfg["crit"], max_eval=cfg["crit"]["max_eval"] + 4, **extra.get("crit_extra", {}))
            if "cbs" in extra:
                cfg["crit"]["change_based_stop"] = dict(extra["cbs"])
            if "goal" in extra:
                cfg["goal"] = extra["goal"]
            jobs.append({"cfg": cfg, "bound": 2 if thorough else 1})
        # all answer sequences up to a horizon
        jobs.append({"cfg": dict(base, mode="full", alphabet=[0.5, 0.25, -0.75, K.NAN, -K.INF] if thorough else
                                 [0.5, 0.25, -0.75, K.NAN], total={"max_eval_total": 5 if thorough else 4}), "bound": None})
    for goal in (None, 0.55, 0.0, -0.75):
        g = {} if goal is None else {"goal": goal}
        jobs.append({"cfg": dict(alg="GRAPE", controls="G", mode="full", alphabet=[0.5, 0.25, -0.75, K.NAN],
                                 total={"max_eval_total": 5}, **g), "bound": None})
        jobs.append({"cfg": dict(alg="GRAPE", controls="G", mode="dev", alphabet=["L", "tie", "low", "nan", "inf"],
                                 fails=[["low", 1], [None, 1]], stops=["low"], total={"max_eval_total": 10}, **g),
                     "bound": 2})
        if not thorough and goal not in (None, 0.0):
            continue
        for controls, si in (("A", 1), ("A2", 2)):
            jobs.append({"cfg": dict(alg="AD", controls=controls, si=si, mode="dev", alphabet=["L", "tie", "low"],
                                     fails=[["low", 1]], stops=["low"], total={"max_eval_total": 4}, **g), "bound": 1,
                         "chunk": 3})
    for i, j in enumerate(jobs):
        j["cfg"]["id"] = i
        j["cfg"]["fmt"] = ("npz", "json")[i % 2]
        j["cfg"]["dir"] = "min"
    return sorted(jobs, key=lambda j: j["cfg"]["alg"] != "AD")


def with_goal(cfg, sign):
    if "goal" not in cfg:
        return cfg
    cfg = dict(cfg)
    cfg["total"] = dict(cfg.get("total", {}), FoM_goal=sign * cfg["goal"])
    return cfg


def untouched(r):
    for c in r.calls:
        ret = c.returned
        ok = set(ret) == set(c.answer) and all(
            ret[k] is c.answer[k] or ret[k] == c.answer[k] or (ret[k] != ret[k] and c.answer[k] != c.answer[k])
            for k in ret)
        if not ok:
            O.fail(r, "what the user's function returned in evaluation {0} was changed: {1} -> {2}", c.k, c.answer, ret)


def neg(v):
    return -v


def same(a, b, path=""):
    """Reports agree except for the sign of the figure of merit"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return path + ": keys"
        for k in a:
            r = (None if O.num_eq(a[k], -b[k]) else path + k) if k in ("Figure of merit", "FoM") else same(a[k], b[k], path + k)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return path + ": length"
        for x, y in zip(a, b):
            r = same(x, y, path)
            if r:
                return r
        return None
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return None if a == b else path
    return None if H.close(np.asarray(a, dtype=float), np.asarray(b, dtype=float)) else path


def run(cfg, ctx, state):
    K.prepare(cfg)
    a = K.play(with_goal(cfg, 1), ctx, state)
    out = K.observe(a, ctx)
    untouched(a)
    script = [(c.answer, a.stopped_at == c.k) for c in a.calls]

    def answer(run, call):
        if call.k > len(script):
            O.fail(run, "the maximization makes evaluation {0}, the minimization stopped after {1}", call.k, len(script))
        ans, stop = script[call.k - 1]
        if stop:
            run.exit_obj.set_is_user_running(False)
        ans = dict(ans)
        if ans.get("FoM") is not None:
            ans["FoM"] = -ans["FoM"]
        return ans
    b = K.play(dict(with_goal(cfg, -1), dir="max"), K.Ctx0(), state, answer=answer)
    untouched(b)
    if len(a.calls) != len(b.calls):
        O.fail(b, "minimization: {0} evaluations, maximization: {1}", len(a.calls), len(b.calls))
    for x, y in zip(a.calls, b.calls):
        if not x.same_controls(y):
            O.fail(b, "evaluation {0}: controls in the minimization {1}, in the maximization {2}", x.k, x.triple(), y.triple())
        compare_saved(a, b, x.saved_before, y.saved_before, "before evaluation {0}".format(x.k))
    compare_saved(a, b, a.saved_end, b.saved_end, "at the end")
    if (a.reason, a.higher_reason) != (b.reason, b.higher_reason):
        O.fail(b, "reasons: minimization {0}, maximization {1}", (a.reason, a.higher_reason), (b.reason, b.higher_reason))
    if len(a.history) != len(b.history) or not all(x[0] == y[0] and O.num_eq(x[1], -y[1]) for x, y in
                                                   zip(a.history, b.history)):
        O.fail(b, "history: minimization {0}, maximization {1}", a.history, b.history)
    pa = [e for e in a.events if e[0] == "plot"]
    pb = [e for e in b.events if e[0] == "plot"]
    if len(pa) != len(pb) or not all(x[1] == y[1] and O.num_eq(float(x[2]), -float(y[2])) for x, y in zip(pa, pb)):
        O.fail(b, "plot signals: minimization {0}, maximization {1}", pa, pb)
    diff = same(a.report, b.report)
    if diff:
        O.fail(b, "the reports differ in {0}:\n{1}\n{2}", diff, a.report, b.report)
    if not H.same_controls(a.best_controls, b.best_controls):
        O.fail(b, "best controls: minimization {0}, maximization {1}", a.best_controls, b.best_controls)
    if "reeval" not in cfg and "drift" not in cfg:
        # the sign is the user's one
        O.best_reported(a)
        O.best_reported(b)
        O.history_exact(a)
        O.history_exact(b)
        O.saved_equal(b, b.saved_end, b.best_call(), "at the end")
    goal = cfg.get("goal")
    if goal is not None and "reeval" not in cfg and "drift" not in cfg:
        reached = next((c.k for c in b.successes() if float(c.value) >= -goal), None)
        if reached is not None and len(b.calls) > reached:
            O.fail(b, "the goal {0} of the maximization was reached in evaluation {1}, {2} were made", -goal, reached,
                   len(b.calls))
    return out


def compare_saved(a, b, x, y, where):
    if (x is None) != (y is None):
        O.fail(b, "{0}: best-controls file in the minimization: {1}, in the maximization: {2}", where, x is not None,
               y is not None)
    if x is None:
        return
    d = {k: (np.asarray(v) if not isinstance(v, str) else v) for k, v in x.items()}
    e = {k: (np.asarray(v) if not isinstance(v, str) else v) for k, v in y.items()}
    if set(d) != set(e):
        O.fail(b, "{0}: content of the best-controls files: {1} / {2}", where, sorted(d), sorted(e))
    for k in d:
        if k == "FoM":
            if not O.num_eq(np.real(d[k]).item(), -np.real(e[k]).item()):
                O.fail(b, "{0}: saved figures of merit {1} / {2}", where, d[k], e[k])
        elif getattr(d[k], "dtype", None) is not None and d[k].dtype.kind in "fciub":
            if not H.close(np.real(d[k]).astype(float), np.real(e[k]).astype(float)):
                O.fail(b, "{0}: {1} in the best-controls files: {2} / {3}", where, k, d[k], e[k])
        elif np.asarray(d[k]).tolist() != np.asarray(e[k]).tolist():
            O.fail(b, "{0}: {1} in the best-controls files: {2} / {3}", where, k, d[k], e[k])
