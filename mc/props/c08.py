"""C08: each search stops exactly when one of its own criteria is met"""
import copy
import math

import numpy as np

from .. import campaign as K, oracles as O, harness as H, nm

MAXEV = "Exceeded number of allowed function evaluations per direct search."
SIMPLEX = "Convergence of the simplex."
FATOL = "Convergence of the FoM (fatol)."
TIME = "Optimization time for direct search exceeded limit."
CBS = "Change-based stopping criterion reached."
CAP = 16


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []
    bases = [dict(alg="DirectSearch", dsm="NM", controls="P1"), dict(alg="DirectSearch", dsm="NM", controls="P2"),
             dict(alg="DirectSearch", dsm="NMa", controls="P3"), dict(alg="DirectSearch", dsm="CMA4", controls="P2"),
             dict(alg="DirectSearch", dsm="CMA", controls="P1"),
             dict(alg="dCRAB", dsm="NM", controls="PW1", si=2), dict(alg="dCRAB", dsm="NM", controls="PW", si=3),
             dict(alg="dCRAB", dsm="NMa", controls="PW1", si=3), dict(alg="dCRAB", dsm="CMA4", controls="PW1", si=3),
             dict(alg="dCRAB", dsm="CMA", controls="PW", si=2)]

    def add(base, bound, **kw):
        cfg = dict(copy.deepcopy(base), id=len(jobs), dir=("min", "max")[len(jobs) % 2], fmt=("npz", "json")[len(jobs) % 2],
                   read=False, **kw)
        jobs.append({"cfg": cfg, "bound": bound})
    for bi, base in enumerate(bases):
        # the number of evaluations: every limit, all answers of two values
        for m in range(1, CAP + 1):
            add(base, 1, mode="dev", alphabet=["L", "low", "tie"], crit={"max_eval": m})
        h = 8 if thorough else 6
        add(base, None, mode="full", depth=h, alphabet=[0.5, 1.0, 0.25], crit={"max_eval": h + 1})
        # simplex size and spread of the values, met exactly and in between
        for crit in ({"fatol": 0.25}, {"fatol": 0.0}, {"fatol": 1.0}, {"xatol": 0.3}, {"xatol": 0.15}, {"xatol": 0.05},
                     {"xatol": 0.2, "fatol": 0.05}):
            add(base, 2 if thorough else 1, mode="dev", alphabet=["L", "tie", "low", "high"], crit=dict(crit, max_eval=CAP + 8))
            if "fatol" in crit:
                add(base, None, mode="full", depth=h, alphabet=[0.5, 1.0], crit=dict(crit, max_eval=CAP))
        # time of the search
        for lim, durations in ((0.1, [1.0, 3.0, 17.0]), (0.3, [1.0, 3.0, 17.0]), (0.0712, [0.7, 2.25, 86401.0])):
            add(base, 2 if thorough else 1, mode="dev", alphabet=["L", "low"], durations=durations,
                crit={"time_lim": lim, "max_eval": CAP + 4})
        # trend
        for n, change in ((2, 0.5), (3, 0.3), (5, 0.8), (4, 1e-6), (8, 0.25), (1, 5.0)):
            add(base, 2 if thorough else 1, mode="dev", alphabet=["L", "tie", "low", "last"],
                crit={"change_based_stop": {"cbs_funct_evals": n, "cbs_change": change}, "max_eval": CAP + 4})
        add(base, None, mode="full", depth=h, alphabet=[0.5, 1.0, 0.25],
            crit={"change_based_stop": {"cbs_funct_evals": 3, "cbs_change": 0.3}, "max_eval": CAP})
        # several at the same time
        add(base, 2 if thorough else 1, mode="dev", alphabet=["L", "tie", "low", "high"], durations=[1.0, 9.0],
            crit={"time_lim": 0.25, "fatol": 0.02, "xatol": 0.05, "max_eval": 12,
                  "change_based_stop": {"cbs_funct_evals": 4, "cbs_change": 0.02}})
    return jobs


def point(c):
    return np.concatenate([np.ravel(p) for p in c.pulses] + [c.parameters])


def population(cfg, dim):
    return 4 if cfg["dsm"] == "CMA4" else int(4 + math.floor(3 * math.log(dim)))


class Ambiguous(Exception):
    """A value is at its limit up to rounding"""


def at_most(a, b):
    if a != b and abs(a - b) < 1e-11 * max(1.0, abs(b)) and b != 0:
        raise Ambiguous()
    return a <= b


def trend(values, n, change):
    if n <= 1 or len(values) < n:
        return False
    y = np.asarray(values[-n:], dtype=float)
    x = np.arange(n) - (n - 1) / 2.0
    slope = float(np.dot(x, y - y.mean()) / np.dot(x, x))
    d = abs(slope * n)
    if abs(d - change) < 1e-9 * max(1.0, np.max(np.abs(y))):
        raise Ambiguous()
    return d < change


def expected(cfg, r, calls, t0, t_end, choose):
    """(number of evaluations of this search or None (more than made), reasons) from its own criteria"""
    crit = cfg["crit"]
    dim = len(point(calls[0]))
    values = [float(c.value) * r.sign for c in calls]
    cbs = crit.get("change_based_stop", {"cbs_funct_evals": 1, "cbs_change": 0})

    def clock(k):           # after evaluation k
        return (calls[k].t if k < len(calls) else t_end) - t0

    def criteria(k, sim, f):
        res = set()
        if k >= crit.get("max_eval", 10**10):
            res.add(MAXEV)
        if sim is not None and at_most(max(float(np.max(np.abs(x - sim[0]))) for x in sim[1:]), crit.get("xatol", 1e-14)):
            res.add(SIMPLEX)
        if at_most(float(np.std(f)), crit.get("fatol", 1e-100)):
            res.add(FATOL)
        if "time_lim" in crit and clock(k) / 60.0 >= crit["time_lim"]:
            res.add(TIME)
        return res

    if cfg["dsm"].startswith("CMA"):
        pop = population(cfg, dim)
        stopped = False
        for k in range(1, len(values) + 1):
            stopped = stopped or trend(values[:k], cbs["cbs_funct_evals"], cbs["cbs_change"])
            if k % pop == 0:
                res = criteria(k, None, values[k - pop:k]) | ({CBS} if stopped else set())
                if res:
                    return k, ({CBS} if stopped else res)
        return None, None
    gen = nm.search([point(c) for c in calls[:dim + 1]], cfg["dsm"] == "NMa", choose)
    if len(calls) < dim + 1:
        return None, None
    k, sent, first, stopped = 0, None, True, False
    while True:
        what = gen.send(sent)
        sent = None
        if what[0] == "eval":
            if stopped and k >= dim + 1:
                return k, {CBS}
            if k >= len(calls):
                return None, None
            if not H.close(what[1], point(calls[k]), 1e-7):
                raise nm.Mismatch("evaluation {0} is made at {1}, Nelder-Mead prescribes {2}".format(
                    calls[k].k, point(calls[k]), what[1]))
            sent = values[k]
            k += 1
            stopped = stopped or trend(values[:k], cbs["cbs_funct_evals"], cbs["cbs_change"])
        else:
            if stopped:
                return k, {CBS}
            if not first:
                res = criteria(k, what[1], what[2])
                if res:
                    return k, res
            first = False


def run(cfg, ctx, state):
    r = K.play(cfg, ctx, state, read_saved=False)
    for c in r.calls:
        ctx.state(cfg["id"], c.k, round(c.value, 9))
    out = (cfg["id"], len(r.calls), r.reason)
    if r.higher_reason:
        O.fail(r, "reason {0}, there is no limit of the whole run", r.higher_reason)
    searches = [[]]
    for c in r.calls:
        if searches[-1] and searches[-1][-1].si != c.si:
            searches.append([])
        searches[-1].append(c)
    if cfg["alg"] == "dCRAB" and len(searches) != cfg["si"]:
        O.fail(r, "{0} super-iterations are made, configured are {1}", len(searches), cfg["si"])
    reasons = None
    for i, calls in enumerate(searches):
        t_end = searches[i + 1][0].t if i + 1 < len(searches) else H.CLOCK.t

        def attempt(choose):
            n, reasons = expected(cfg, r, calls, calls[0].t, t_end, choose)
            if n is None:
                raise nm.Mismatch("search {0} stops after {1} evaluations (reason {2}), none of its criteria holds".format(
                    i + 1, len(calls), r.reason if i + 1 == len(searches) else "?"))
            if n != len(calls):
                raise nm.Mismatch("search {0} makes {1} evaluations, after {2} it has to stop: {3}".format(
                    i + 1, len(calls), n, sorted(reasons)))
            return reasons
        try:
            reasons = nm.any_order(attempt)
        except Ambiguous:
            return out
        except nm.Mismatch as ex:
            O.fail(r, "{0}", ex)
    if r.reason not in reasons:
        O.fail(r, "reason {0!r}, the criteria that hold: {1}", r.reason, sorted(reasons))
    if r.report.get("terminate_reason") not in reasons:
        O.fail(r, "reported reason {0!r}, the criteria that hold: {1}", r.report.get("terminate_reason"), sorted(reasons))
    return out
