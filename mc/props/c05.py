"""C05: total budgets are never exceeded and the true reason is recorded"""
import copy
import math

import numpy as np

from .. import campaign as K, oracles as O, harness as H

EVALS = "Maximum number of total function evaluations reached"
GOAL = "Goal FoM reached"
TIME = "Maximum optimization runtime reached"


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []
    bases = K.gradient_free_bases() + [dict(alg="GRAPE", controls="G")]
    for bi, base in enumerate(bases):
        for di, d in enumerate(("min", "max")):
            base = copy.deepcopy(base)
            base["dir"] = d
            # all answer sequences, goal met exactly, exceeded or never, small evaluation budgets
            for gi, goal in enumerate((0.25, 0.0, None)):
                if not thorough and (bi + di + gi) % 3:
                    continue
                jobs.append({"cfg": dict(base, mode="full", alphabet=[0.5, 0.25, -0.75, K.NAN],
                                         total=dict({"max_eval_total": 5 if thorough else 4}), goal=goal), "bound": None})
            # every evaluation budget
            crit = dict(base.get("crit", {}))
            if crit:
                crit["max_eval"] += 6
            for m in range(1, 26 if thorough else 16):
                if not thorough and (m + di) % 2 and m > 3:
                    continue
                jobs.append({"cfg": dict(base, crit=crit, mode="dev", alphabet=["L", "low", "nan"], goal=-0.4,
                                         total={"max_eval_total": m}), "bound": 1 if thorough or m < 6 else 0})
            # time and goal at every position
            jobs.append({"cfg": dict(base, crit=crit, mode="dev", alphabet=["L", "tie", "low", "nan", "inf"], goal=0.1,
                                     durations=[1.0, 30.0, 60.0], total={"total_time_lim": 1.0, "max_eval_total": 30}),
                         "bound": 2 if thorough else 1})
            if not thorough and (bi + di) % 2:
                continue
            jobs.append({"cfg": dict(base, crit=crit, mode="dev", alphabet=["L", "low"], goal=None,
                                     durations=[2.6, 10.0, 90000.4], total={"total_time_lim": 0.505, "max_eval_total": 40}),
                         "bound": 1})
            if base["alg"] in ("dCRAB", "DirectSearch"):
                for ex in (dict(reeval="default", stds=[0.1, 1.0]), dict(reeval=[0.4, 0.6], stds=[0.0]),
                           dict(drift={"compensate_after_SI": True, "num_average": 2}),
                           dict(drift={"compensate_after_minutes": 0.1, "num_average": 2})):
                    jobs.append({"cfg": dict(base, crit=crit, mode="dev", alphabet=["L", "low", "tie"], goal=-0.2,
                                             durations=[2.0, 15.2, 40.0],
                                             total={"total_time_lim": 1.0, "max_eval_total": 9}, **ex), "bound": 1})
                    if thorough:
                        for m in range(1, 16):
                            jobs.append({"cfg": dict(base, crit=crit, mode="dev", alphabet=["L", "low", "tie"],
                                                     goal=-0.2, total={"max_eval_total": m}, **ex), "bound": 1})
            # the time before execute() does not count, and limits of many days are kept
            if thorough or bi % 3 == di:
                for idle, lim, dur in ((3600.0, 1.0, [1.0, 30.0, 60.0]), (5e6, 20000.0, [1.0, 5e5, 1.2e6]),
                                       (90000.0, 2000000.0, [1.0, 1.3e8])):
                    jobs.append({"cfg": dict(base, crit=crit, mode="dev", alphabet=["L", "low"], goal=None, idle=idle,
                                             durations=dur, total={"total_time_lim": lim, "max_eval_total": 30}),
                                 "bound": 2 if thorough else 1})
    for controls, si in (("A", 1), ("A2", 2)):
        for d in ("min", "max"):
            for ex in (dict(goal=0.1, total={"max_eval_total": 3}),
                       dict(goal=None, durations=[1.0, 70.0], total={"max_eval_total": 4, "total_time_lim": 1.0})):
                jobs.append({"cfg": dict(alg="AD", controls=controls, si=si, dir=d, mode="dev", alphabet=["L", "low"],
                                         **ex), "bound": 1, "chunk": 2})
    for i, j in enumerate(jobs):
        j["cfg"].update(id=i, fmt=("npz", "json")[i % 2])
    return sorted(jobs, key=lambda j: j["cfg"]["alg"] != "AD")


def run(cfg, ctx, state):
    K.prepare(cfg)
    c = copy.deepcopy(cfg)
    sign = -1 if cfg["dir"] == "max" else 1
    goal = cfg.get("goal")
    if goal is not None:
        c["total"]["FoM_goal"] = sign * goal
    r = K.play(c, ctx, state)
    out = K.observe(r, ctx)
    n = len(r.calls)
    t0 = next((x.t for x in r.calls), 0.0)       # nothing takes time before the first evaluation
    limit_t = c["total"].get("total_time_lim")
    limit_n = c["total"].get("max_eval_total")
    noisy = "reeval" in cfg or "drift" in cfg

    def reached(call, saved):
        """The limits that hold right before `call` (None: at the end)"""
        res = set()
        k = n if call is None else call.k - 1
        t = (H.CLOCK.t if call is None else call.t) - t0
        if limit_n is not None and k >= limit_n:
            res.add(EVALS)
        if limit_t is not None and t / 60.0 >= limit_t and k:
            res.add(TIME)
        if goal is not None and saved is not None and sign * float(np.real(saved["FoM"])) <= goal:
            res.add(GOAL)
        return res

    for call in r.calls:
        bad = reached(call, call.saved_before)
        if bad:
            O.fail(r, "evaluation {0} was started although: {1}", call.k, sorted(bad))
        if goal is not None and not noisy:
            b = r.best_call(call.k - 1)
            if b is not None and sign * b.value <= goal:
                O.fail(r, "evaluation {0} was started, the goal was reached in evaluation {1}", call.k, b.k)
    end = reached(None, r.saved_end)
    # the same run without limits
    script = [x.answer for x in r.calls]
    times = [(r.calls[i + 1].t if i + 1 < n else H.CLOCK.t) - x.t for i, x in enumerate(r.calls)]

    def answer(run, call):
        if call.k > len(script):
            if call.k > len(script) + 3:
                raise H.Horizon()
            run.step_time = 0.0
            return {"FoM": run.sign * H.landscape(call.triple())}
        run.step_time = times[call.k - 1]
        return dict(script[call.k - 1])
    if not end and r.higher_reason:
        O.fail(r, "reason {0!r}, no limit is reached", r.higher_reason)
    if r.higher_reason and r.higher_reason not in end:
        O.fail(r, "reason {0!r}, limits reached: {1}", r.higher_reason, sorted(end))
    free = copy.deepcopy(cfg)
    free["total"] = {}
    K.env.CLOCK.t = 0.0
    q = H.Run(free, answer, horizon=300, ctx=None, read_saved=False)
    K.env.seed_globals(12345)
    H.reset_results()
    q.go()
    if len(q.calls) < n or not all(a.same_controls(b) for a, b in zip(q.calls, r.calls)):
        O.fail(r, "the run without limits makes other evaluations ({0} and {1})", len(q.calls), n)
    if len(q.calls) > n:
        if not end:
            O.fail(r, "the run stops after {0} evaluations (reason {1!r}, {2!r}), without limits it continues and no "
                      "limit is reached", n, r.higher_reason, r.reason)
        if not r.higher_reason:
            O.fail(r, "no reason is given, limits reached: {0}", sorted(end))
    if not noisy:
        O.consistent_end(r)
    else:
        O.count_reported(r)
        if r.saved_end is not None and not O.num_eq(float(np.real(r.saved_end["FoM"])), r.report["Figure of merit"]):
            O.fail(r, "saved figure of merit {0}, reported {1}", r.saved_end["FoM"], r.report["Figure of merit"])
    return out
