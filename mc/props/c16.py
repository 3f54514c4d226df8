"""C16: re-evaluation follows the probability ladder and averages correctly"""
import copy
import math

import numpy as np

from .. import campaign as K, oracles as O, harness as H, nm

STEPS = ["default", [0.4, 0.6], [0.5], [0.2, 0.3, 0.9], [0.9, 0.1], [0.3, 0.3, 0.3, 0.3], [0.5, 0.5]]
DEFAULT = [0.3, 0.5, 0.501]
NAN, INF = float("nan"), float("inf")


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []
    bases = [dict(alg="DirectSearch", dsm="NM", controls="P1", crit={"max_eval": 5}),
             dict(alg="DirectSearch", dsm="NMa", controls="P2", crit={"max_eval": 6}),
             dict(alg="dCRAB", dsm="NM", controls="PW1", si=2, crit={"max_eval": 5}),
             dict(alg="DirectSearch", dsm="CMA4", controls="P2", crit={"max_eval": 8}),
             dict(alg="dCRAB", dsm="CMA4", controls="F1p", si=2, crit={"max_eval": 4}),
             dict(alg="dCRAB", dsm="NM", controls="F1", si=2, crit={"max_eval": 6})]

    def add(base, bound, **kw):
        cfg = dict(copy.deepcopy(base), id=len(jobs), dir=("min", "max")[len(jobs) % 2], fmt=("npz", "json")[len(jobs) % 2],
                   **kw)
        jobs.append({"cfg": cfg, "bound": bound})
    for bi, base in enumerate(bases):
        for si, steps in enumerate(STEPS):
            depth = 6 if thorough else 4
            if thorough or (bi + si) % 2 == 0:
                # all values and deviations of the first measurements
                add(base, None, mode="full", depth=depth, alphabet=[0.5, 0.25, 0.75], stds=[0.1, 1.0], reeval=steps)
                add(base, None, mode="full", depth=depth + 3, alphabet=[0.5, 0.25], reeval=steps)      # no deviation
            # any two (three) measurements of a longer run differ from the landscape
            for stds in ([0.25, 0.0, 2.0], [0.0, 0.3]):
                if thorough or (bi + si + len(stds)) % 2 == 0:
                    add(base, 2 if thorough else 1, mode="dev", alphabet=["L", "tie", "low", "high"], stds=stds, reeval=steps)
            # measurements without a meaning: they do not touch the measurements of other controls
            if thorough or (bi + si) % 3 == 0:
                add(base, None, mode="full", depth=depth, alphabet=[0.5, 0.25, NAN, INF], reeval=steps, stds=[0.1])
            if thorough or (bi + si) % 3 == 1:
                add(base, 2 if thorough else 1, mode="dev", alphabet=["L", "nan", "inf", "low", "-inf", "huge"], stds=[0.1], reeval=steps)
            add(base, 2 if thorough else 1, mode="dev", alphabet=["saw", "tie", "L", "last"], stds=[0.2, 1.0], reeval=steps)
    return jobs


class Ambiguous(Exception):
    pass


def exact(vs):
    """The average of these values is free of rounding, however it is computed"""
    return all(math.isfinite(v) and v * 1024 == int(v * 1024) for v in vs) and (len(vs) <= 2 or len(set(vs)) == 1)


def better(mu, sd, best, best_sd, sure):
    """Probability that the averaged value beats the best one"""
    if math.isnan(mu) or mu == INF:
        return 0.0
    if best == INF:
        return 1.0
    if best == -INF and mu == best:
        raise Ambiguous()
    if math.isinf(best) or math.isinf(mu):
        return float(mu < best)
    s = math.sqrt(sd ** 2 + best_sd ** 2)
    if s < 1e-14:
        s = 1.0
    z = (best - mu) / s
    if abs(z) < 1e-12 and not (sure and z == 0.0):
        return 0.5 + 1e-13      # a tie or not, that is up to the rounding
    return 0.5 * math.erfc(-z / math.sqrt(2))


def reaches(p, level):
    if p != level and abs(p - level) < 1e-10:
        raise Ambiguous()
    return p >= level


def exceeds(p, level):
    if p != level and abs(p - level) < 1e-10:
        raise Ambiguous()
    return p > level


def run(cfg, ctx, state):
    r = K.play(cfg, ctx, state)
    steps = DEFAULT if cfg["reeval"] == "default" else cfg["reeval"]
    best, best_sd, best_k, best_vs = float("inf"), 0.0, None, []
    k = 0
    groups = []         # (first call, average given to the search)
    try:
        while k < len(r.calls):
            first = k
            vs, sds = [], []

            def measure():
                nonlocal k
                if k >= len(r.calls):
                    O.fail(r, "evaluation {0} has to be repeated ({1} measurements so far), the run ends", first + 1, len(vs))
                c = r.calls[k]
                if not c.same_controls(r.calls[first]):
                    O.fail(r, "evaluation {0} has to repeat evaluation {1}, it has other controls", k + 1, first + 1)
                sv = c.saved_before
                if best_k is None:
                    if sv is not None:
                        O.fail(r, "before evaluation {0} a best value {1} is saved", k + 1, sv["FoM"])
                elif (sv is None or not O.num_eq(float(np.real(sv["FoM"])) * r.sign, best)
                      or int(sv["iteration_number"]) != best_k):
                    O.fail(r, "before evaluation {0} the best value is {1} (evaluation {2}), saved is {3}", k + 1,
                           best * r.sign, best_k, None if sv is None else (sv["FoM"], sv["iteration_number"]))
                vs.append(float(c.value) * r.sign)
                sds.append(float(c.std) if c.std is not None else 1.0)
                k += 1

            def sure():
                return len(vs) == len(best_vs) == 1 or exact(vs) and exact(best_vs)
            measure()
            ladder = [0.5] if first == 0 else steps
            passed = True
            for level in ladder:
                if not reaches(better(np.mean(vs), np.mean(sds), best, best_sd, sure()), level):
                    passed = False
                    break
                measure()
            mu, sd = float(np.mean(vs)), float(np.mean(sds))
            if passed and exceeds(better(mu, sd, best, best_sd, sure()), ladder[-1]):
                best, best_sd, best_k, best_vs = mu, sd, k, vs
            groups.append((first, mu))
            ctx.state(cfg["id"], first, len(vs), round(mu, 9), round(best, 9))
    except Ambiguous:
        return (cfg["id"], "ambiguous")
    if not O.num_eq(r.report["Figure of merit"] * r.sign, best):
        O.fail(r, "reported {0}, the best averaged value is {1}", r.report["Figure of merit"], best * r.sign)
    for key in ("Std",):
        if key in r.report and best_k is not None and not O.num_eq(r.report[key], best_sd):
            O.fail(r, "reported deviation {0}, that of the best value is {1}", r.report[key], best_sd)
    sv = r.saved_end
    if best_k is not None:
        if sv is None or not O.num_eq(float(np.real(sv["FoM"])) * r.sign, best) or int(sv["iteration_number"]) != best_k:
            O.fail(r, "saved at the end: {0}, best value {1} (evaluation {2})", None if sv is None else
                   (sv["FoM"], sv["iteration_number"]), best * r.sign, best_k)
        if "sigma" in sv and not O.num_eq(float(np.real(sv["sigma"])), best_sd):
            O.fail(r, "saved deviation {0}, best one {1}", sv["sigma"], best_sd)
        if not H.same_controls(r.best_controls, r.calls[best_k - 1].triple()):
            O.fail(r, "best controls returned {0}, best evaluation {1}", r.best_controls, best_k)
        for i, n in enumerate(r.names[0]):
            if not H.close(np.real(np.asarray(sv[n])), r.calls[best_k - 1].pulses[i]):
                O.fail(r, "saved pulse {0}, best evaluation {1}", sv[n], best_k)
    O.count_reported(r)
    if cfg["controls"] in ("P1", "P2", "PW1") and cfg["dsm"].startswith("NM"):
        moves(cfg, r, groups)
    return (cfg["id"], len(groups), len(r.calls), best_k, round(best, 9))


def moves(cfg, r, groups):
    """The search continues with the averages"""
    def pt(i):
        c = r.calls[i]
        return np.concatenate([np.ravel(p) for p in c.pulses] + [c.parameters])
    si = [r.calls[i].si for i, _ in groups]
    for s in sorted(set(si), key=str):
        g = [x for x, t in zip(groups, si) if t == s]
        dim = len(pt(0))

        def attempt(choose):
            gen = nm.search([pt(i) for i, _ in g[:dim + 1]], cfg["dsm"] == "NMa", choose)
            sent, n = None, 0
            while n < len(g):
                what = gen.send(sent)
                sent = None
                if what[0] == "eval":
                    if not H.close(what[1], pt(g[n][0]), 1e-8):
                        raise nm.Mismatch("with the averages {0} the search has to evaluate {1}, it evaluates {2}".format(
                            [v for _, v in g[:n]], what[1], pt(g[n][0])))
                    sent = g[n][1]
                    n += 1
        try:
            nm.any_order(attempt)
        except nm.Mismatch as ex:
            O.fail(r, "{0}", ex)
