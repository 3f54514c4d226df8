"""C14: Nelder-Mead makes the textbook moves and returns its best point

The answers are all weak orderings: every answer ties with an earlier one or lies in one of the gaps between them. The
moves depend on nothing else."""
import math

import numpy as np

from .. import oracles as O, harness as H, nm, env
from ..explore import Violation

NAN, INF = float("nan"), float("inf")


class Stop(BaseException):
    pass


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []

    def add(bound=None, **cfg):
        cfg["id"] = len(jobs)
        jobs.append({"cfg": cfg, "bound": bound, "chunk": 400})
    for adaptive in (False, True):
        for dim, depth in ((1, 7 if thorough else 6), (2, 7 if thorough else 6), (3, 7 if thorough else 6),
                           (4, 7 if thorough else 6)):
            for tail in ("worse", "better"):
                add(dim=dim, adaptive=adaptive, depth=depth, tail=tail, start="simplex", special=False)
            add(dim=dim, adaptive=adaptive, depth=depth - 1, tail="smooth", start="x0", special=False)
            add(dim=dim, adaptive=adaptive, depth=min(depth, 5), tail="smooth", start="simplex", special=True)
        for dim in ((1, 2, 3, 4, 5, 8) if thorough else (2, 3, 5)):
            # longer searches: departures from a smooth landscape
            for start in ("simplex", "x0", "int"):
                add(bound=3 if thorough else 2, dim=dim, adaptive=adaptive, depth=26 if thorough else 18, tail="smooth",
                    start=start, devs=True)
        # strict orderings against scipy itself
        for dim in (1, 2, 3):
            add(dim=dim, adaptive=adaptive, depth=7 if thorough else 6, tail="smooth", start="simplex", strict=True,
                scipy=True)
    return jobs


def start(cfg):
    dim = cfg["dim"]
    if cfg["start"] == "x0":
        x0 = np.array([0.5, 0.0, -1.25, 2.0, 0.0, 3.0, 1.0, -0.5][:dim])
        sim = [x0]
        for k in range(dim):
            y = x0.copy()
            y[k] = 1.05 * y[k] if y[k] != 0 else 0.00025
            sim.append(y)
        return x0, None, sim
    x0 = np.array([0.3 * (i + 1) * (-1) ** i for i in range(dim)])
    sim = [x0] + [x0 + np.array([(0.7 + 0.2 * i if i == j else 0.1 * (i - j)) for i in range(dim)]) for j in range(dim)]
    if cfg["start"] == "int":       # a start simplex of whole numbers
        sim = [np.round(4 * s) + 5 * np.arange(dim) * k for k, s in enumerate(sim)]
        sim = [sim[0]] + [sim[0] + 3 * np.eye(dim)[k] for k in range(dim)]
    return x0, np.array(sim, dtype=float), sim


def smooth(x, k):
    return float(np.sum((np.asarray(x, dtype=float) - 0.35) ** 2 * np.arange(1, len(x) + 1)) + 1.0)


class Answers:
    """Values picked by the choices"""
    def __init__(self, cfg, ctx):
        self.cfg, self.ctx = cfg, ctx
        self.values = []

    def __call__(self, x):
        k = len(self.values)
        v = self.value(x, k)
        self.values.append(v)
        return v

    def value(self, x, k):
        cfg, ctx = self.cfg, self.ctx
        fin = sorted({v for v in self.values if not math.isnan(v) and not math.isinf(v)})
        if k >= cfg["depth"]:
            if cfg["tail"] == "worse":
                return (fin[-1] if fin else 0.0) + 1.0
            if cfg["tail"] == "better":
                return (fin[0] if fin else 0.0) - 1.0
            return smooth(x, k)
        if cfg.get("devs"):
            c = ctx.pick(["L", "tie", "low", "high", "last", "nan"], "v")
            if c == "L" or not fin:
                return smooth(x, k)
            return {"tie": fin[0], "low": fin[0] - 0.5, "high": fin[-1] + 1.0, "last": self.values[-1], "nan": NAN}[c]
        cand = []
        if not fin:
            cand = [0.0]
        else:
            gaps = [fin[0] - 1.0] + [(a + b) / 2 for a, b in zip(fin, fin[1:])] + [fin[-1] + 1.0]
            cand = gaps if cfg.get("strict") else [w for p in zip(gaps, fin) for w in p] + [gaps[-1]]
        if cfg.get("special"):
            cand = cand + [NAN, INF]
        return ctx.pick(cand, "v", free=True)


def run(cfg, ctx, state):
    from quocslib.gradientfreemethods.NelderMead import NelderMead
    env.CLOCK.t = 0.0
    x0, sim0, sim = start(cfg)
    given = None if sim0 is None else sim0.copy()
    x_given = x0.copy()
    ans = Answers(cfg, ctx)
    points = []
    limit = cfg["depth"] + cfg["dim"] + 5

    def func(x, iterations, *rest):
        if len(points) > limit + 3 * cfg["dim"] + 8:
            raise Violation("the search does not stop at its limit of evaluations {0}".format(limit))
        points.append(np.array(x, dtype=float))
        ctx.steps += 1
        return ans(x)
    solver = NelderMead({"is_adaptive": cfg["adaptive"]}, {"max_eval": limit, "xatol": -1.0, "fatol": -1.0},
                        callback=lambda: True)
    res = solver.run_dsm(func, x0, initial_simplex=given)
    ctx.state(cfg["id"], tuple(repr(v) for v in ans.values))

    def bad(text, *a):
        raise Violation(text.format(*a) + "\nanswers {0}\npoints {1}".format(ans.values, [np.round(p, 5).tolist() for p in points]))
    if not np.array_equal(x0, x_given) or given is not None and not np.array_equal(given, sim0):
        bad("the start point or the start simplex is changed by the search")
    if res["NfunevalsUsed"] != len(points):
        bad("{0} evaluations are reported, {1} were made", res["NfunevalsUsed"], len(points))
    best = [v for v in ans.values if not math.isnan(v)]
    if len(best) == len(ans.values) and not O.num_eq(res["F_min_val"], min(best)):
        bad("the returned value is {0}, the best one {1}", res["F_min_val"], min(best))

    def attempt(choose):
        gen = nm.search(sim, cfg["adaptive"], choose)
        k, sent, first = 0, None, True
        while True:
            what = gen.send(sent)
            sent = None
            if what[0] == "eval":
                if k >= len(points):
                    raise nm.Mismatch("the search stops after {0} evaluations within an iteration".format(k))
                if not H.close(what[1], points[k], 1e-9):
                    raise nm.Mismatch("evaluation {0} is made at {1}, Nelder-Mead prescribes {2}".format(
                        k + 1, points[k], what[1]))
                sent = ans.values[k]
                k += 1
            else:
                if not first and k >= limit:
                    break
                first = False
        if k != len(points):
            raise nm.Mismatch("{0} evaluations, the limit of {1} was reached after {2}".format(len(points), limit, k))
        if not O.num_eq(what[2][0], res["F_min_val"]):
            raise nm.Mismatch("the returned value is {0}, the best accepted one {1}".format(res["F_min_val"], what[2][0]))
        if not H.close(what[1][0], res["X_opti_vec"], 1e-9):
            raise nm.Mismatch("the returned point is {0}, the best accepted one {1}".format(res["X_opti_vec"], what[1][0]))
    try:
        nm.any_order(attempt)
    except nm.Mismatch as ex:
        bad("{0}", ex)
    if cfg.get("scipy"):
        from scipy.optimize import minimize
        theirs = []

        def replay(x):
            if len(theirs) >= len(points):
                raise Stop()
            theirs.append(np.array(x))
            return ans.values[len(theirs) - 1]
        try:
            minimize(replay, x0, method="Nelder-Mead", options={"initial_simplex": sim0, "adaptive": cfg["adaptive"],
                                                                "xatol": 0, "fatol": 0, "maxiter": 10**6, "maxfev": 10**6})
        except Stop:
            pass
        # scipy sorts the simplex and the values in between do not depend on it
        for k, (a, b) in enumerate(zip(points, theirs)):
            if not H.close(a, b, 1e-9):
                bad("evaluation {0} is made at {1}, scipy makes it at {2}", k + 1, a, b)
        if len(theirs) < len(points):
            bad("scipy makes {0} evaluations", len(theirs))
    return (cfg["id"], len(points), repr(res["F_min_val"]))
