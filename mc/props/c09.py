"""C09: every control sent respects the configured limits"""
import itertools
import os

import numpy as np

from .. import campaign as K, env, harness as H, oracles as O, reference as R, shapes as S
from ..explore import Violation
from . import c10

LIMITS = [(-0.4, 0.6), (0.6, -0.4), (0.2, 0.9), (-1.5, -0.3), (-0.3, -1.5), (0.25, 0.25), (0.0, 2.0), (-5.0, 0.0)]
BASES = ["Fourier", "PiecewiseBasis", "Sigmoid", "Chebyshev", "Sinc", "SigmoidSigmas", "SigmoidTimeDep", "SigmoidAllParas"]


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []
    for bi, basis in enumerate(BASES):
        for li, lim in enumerate(LIMITS):
            for shrink in (False, True):
                for gi in range(7):
                    if not thorough and bi > 1 and (gi + bi + li) % 3:
                        continue
                    jobs.append({"cfg": dict(id=len(jobs), basis=basis, lim=list(lim), shrink=shrink, guess=gi,
                                             bins=(5, 4, 6)[bi % 3]), "bound": None, "chunk": 100})
    # piecewise pulses: every pulse over a set of levels below, at, between and above the limits
    for li, lim in enumerate(LIMITS):
        for shrink in (False, True):
            for bins in (1, 2, 3, 4):
                jobs.append({"cfg": dict(id=len(jobs), levels=True, lim=list(lim), shrink=shrink, bins=bins), "bound": None})
    for lim in ((-0.4, 0.6), (0.2, 0.9), (0.25, 0.25), (-7.0, -3.0)):
        jobs.append({"cfg": dict(id=len(jobs), par=True, lim=list(lim)), "bound": None})
    # whole runs
    n = 0
    for alg, dsm, controls in [("dCRAB", "NM", "pulses"), ("dCRAB", "NMa", "pulses"), ("dCRAB", "CMA4", "pulses"),
                               ("dCRAB", "CMA", "mixed"), ("dCRAB", "NM", "mixed"), ("DirectSearch", "NM", "P2lim"),
                               ("DirectSearch", "CMA4", "P2lim"), ("GRAPE", None, "grad"), ("AD", None, "grad")]:
        for shrink in (False, True):
            if alg in ("AD", "DirectSearch") and shrink:
                continue
            for guess in (0, 2, 3):
                if alg in ("GRAPE", "AD", "DirectSearch") and guess:
                    continue
                n += 1
                cfg = dict(id=len(jobs), run=True, alg=alg, dsm=dsm, set=controls, shrink=shrink, guess=guess, si=2, mode="dev",
                           alphabet=["L", "low", "high", "saw"], dir=("min", "max")[n % 2], fmt=("npz", "json")[n // 2 % 2])
                if alg in ("GRAPE", "AD"):
                    cfg["total"] = {"max_eval_total": 8 if alg == "GRAPE" else 3}
                    cfg["si"] = 1
                else:
                    cfg["crit"] = {"max_eval": 12}
                jobs.append({"cfg": cfg, "bound": (2 if thorough else 1), "chunk": 4 if alg == "AD" else 40})
    jobs.sort(key=lambda j: j["cfg"].get("alg") != "AD")
    return jobs


def setup_worker(state):
    S.write_functions(state["workdir"])


def inside(u, lo, hi):
    lo, hi = min(lo, hi), max(lo, hi)
    eps = 1e-9 * max(1.0, abs(lo), abs(hi))
    return bool(np.all(np.isfinite(u)) and np.all(u >= lo - eps) and np.all(u <= hi + eps))


def judge(u, raw, lim, shrink, what):
    """u: the pulse sent, raw: the pulse before limiting"""
    lo, hi = min(lim), max(lim)
    if not inside(u, lo, hi):
        raise Violation("{0}: the pulse {1} leaves its limits {2}".format(what, u.tolist(), lim))
    if inside(raw, lo, hi):
        if not H.close(u, raw):
            raise Violation("{0}: the pulse {1} lies within {2}, it is changed to {3}".format(what, raw.tolist(), lim, u.tolist()))
    elif not shrink:
        ok = (raw >= lo) & (raw <= hi)
        if not H.close(u[ok], raw[ok]) or not H.close(u[raw > hi], np.full(np.sum(raw > hi), hi)) \
                or not H.close(u[raw < lo], np.full(np.sum(raw < lo), lo)):
            raise Violation("{0}: the pulse {1} is cut at {2} to {3}".format(what, raw.tolist(), lim, u.tolist()))
    elif raw.min() < hi and raw.max() > lo:
        # an affine image of the pulse that keeps what does not have to move
        if raw.max() - raw.min() > 1e-9:
            a = (u.max() - u.min()) / (raw.max() - raw.min())
            b = u.min() - a * raw.min()
            if a > 1 + 1e-9 or not H.close(u, a * raw + b, 1e-8):
                raise Violation("{0}: the pulse {1} is shrunk into {2} to {3}: its shape is lost".format(
                    what, raw.tolist(), lim, u.tolist()))
            want = (max(raw.min(), lo), min(raw.max(), hi))
            if not H.close([u.min(), u.max()], want, 1e-8):
                raise Violation("{0}: the pulse {1} is shrunk into {2} to {3}, it has to span {4}".format(
                    what, raw.tolist(), lim, u.tolist(), want))


def raw_of(ref, update, base, T):
    return R.build(dict(ref, shaping_options=R.STEPS[:-1]), update, base, T)


def run(cfg, ctx, state):
    os.chdir(state["workdir"])
    if cfg.get("run"):
        return whole_run(cfg, ctx, state)
    if cfg.get("par"):
        return par(cfg, ctx)
    if cfg.get("levels"):
        return levels(cfg, ctx)
    si = ctx.choose(7, "scaling", free=True)
    amp = ctx.pick([0.0, 0.5, 3.0, 40.0], "amplitude", free=True)
    sign = ctx.pick([1, -1], "sign", free=True)
    code, ref = c10.settings(dict(cfg, scale=si), state, lo=cfg["lim"][0], hi=cfg["lim"][1],
                             **({"basis_kw": {"sigma": 0.05, "offset": 0.1}} if cfg["basis"].startswith("Sigmoid") else {}))
    times = [H.time_("T", 1.5)]
    ctl = S.make([code], times, [])
    model = S.Model([ref], times, [])
    n = model.n
    what = "{0}, limits {1}, {2}".format(cfg["basis"], cfg["lim"], "shrink" if cfg["shrink"] else "cut")
    for k in range(2):
        ws = S.super_parameters(ctl, [ref])
        for i in range(n + 2):
            x = np.array([amp * sign * (1.0 if j == i else 0.3 * (-1) ** j if i > n else 0.6) for j in range(n)])
            if i == n:
                x = np.full(n, amp * sign)
            u = S.controls(ctl, x)[0][0]
            raw = raw_of(ref, model.updates(x, ws)[0], model.base[0], 1.5)
            judge(u, raw, cfg["lim"], cfg["shrink"], what)
            ctx.steps += 1
        ctx.state(cfg["id"], si, amp, sign, k)
        ctl.update_base_controls(x)
        model.commit(x, ws)
        ctl.select_basis()
    return (cfg["id"], si, amp, sign)


def levels(cfg, ctx):
    lo, hi = min(cfg["lim"]), max(cfg["lim"])
    vals = [(lo + hi) / 2, lo, hi, lo - 0.3, hi + 0.5, hi + 30.0, lo - 20.0, lo + 0.25 * (hi - lo)]
    x = np.array([ctx.pick(vals, "level", free=True) for _ in range(cfg["bins"])])
    p = S.pulse("PiecewiseBasis", bins=cfg["bins"], lo=cfg["lim"][0], hi=cfg["lim"][1], shrink_ampl_lim=cfg["shrink"])
    ctl = S.make([p], [H.time_("T", 2.0)], [])
    guess = R.guess(p, R.time_grid(2.0, cfg["bins"]))       # zero, moved into the limits
    u = S.controls(ctl, x - guess)[0][0]
    judge(u, x, cfg["lim"], cfg["shrink"], "limits {0}".format(cfg["lim"]))
    ctx.steps += 1
    ctx.state(cfg["id"], x.tolist())
    return (cfg["id"], tuple(u.tolist()))


def par(cfg, ctx):
    lo, hi = cfg["lim"]
    vals = [(lo + hi) / 2, lo, hi, lo - 0.3, hi + 0.5, hi + 30.0, lo - 20.0, float("inf"), -float("inf")]
    x = [ctx.pick(vals, "value", free=True) for _ in range(3)]
    pars = [H.param("a", lo=-100, hi=100), H.param("b", lo=lo, hi=hi, value=(lo + hi) / 2), H.param("c", lo=lo, hi=hi,
                                                                                               value=(lo + hi) / 2)]
    ctl = S.make([], [], pars)
    for _ in range(2):
        got = S.controls(ctl, x)[2]
        want = [R.clip_parameter(p, v) for p, v in zip(pars, x)]
        if not H.close(got, want):
            raise Violation("parameters {0} with limits {1} become {2}".format(x, cfg["lim"], got.tolist()))
        ctl.update_base_controls(np.array(x))
        if not H.close(ctl.get_mean_value(), want):
            raise Violation("parameters {0} with limits {1} start the next super-iteration at {2}".format(
                x, cfg["lim"], ctl.get_mean_value().tolist()))
    ctx.steps += 1
    ctx.state("par", cfg["lim"], x)
    return (cfg["id"], tuple(want))


def whole_run(cfg, ctx, state):
    K.prepare(cfg)
    times = [H.time_("T", 1.5)]
    pars = [H.param("gain", 0.4, lo=0.35, hi=0.5), H.param("shift", -0.7, lo=-0.8, hi=-0.6, var=0.2)]
    pulses = []
    if cfg["set"] == "pulses":
        code, ref = c10.settings(dict(cfg, basis="PiecewiseBasis", bins=3, scale=1), state, lo=0.5, hi=-0.2)
        pulses, pars = [code], pars[:1]
    elif cfg["set"] == "mixed":
        code, ref = c10.settings(dict(cfg, basis="Fourier", bins=5, scale=2), state, lo=-0.3, hi=0.4)
        code2, ref2 = c10.settings(dict(cfg, basis="PiecewiseBasis", bins=2, scale=0, guess=0), state, lo=0.1, hi=0.3)
        pulses = [code, dict(code2, pulse_name="amp2")]
    elif cfg["set"] == "grad":
        pulses, pars = [H.piecewise("amp", "T", bins=3, lo=-0.2, hi=0.3, shrink_ampl_lim=cfg["shrink"])], []
    cfg = dict(cfg, controls=[pulses, pars, times])
    r = K.play(cfg, ctx, state)

    def ok(where, ps, qs):
        for p, u in zip(pulses, ps):
            u = np.asarray(u)[:p["bins_number"]]
            eps = 1e-6 if cfg["alg"] == "AD" else 0
            if not inside(u, min(p["lower_limit"], p["upper_limit"]) - eps, max(p["lower_limit"], p["upper_limit"]) + eps):
                O.fail(r, "{0}: the pulse {1} leaves its limits {2}..{3}", where, u, p["lower_limit"], p["upper_limit"])
        for p, v in zip(pars, qs):
            if not inside(np.array([v]), p["lower_limit"], p["upper_limit"]):
                O.fail(r, "{0}: parameter {1} = {2} leaves its limits {3}..{4}", where, p["parameter_name"], v,
                       p["lower_limit"], p["upper_limit"])
    for c in r.calls:
        ok("evaluation {0}".format(c.k), c.pulses, c.parameters)
        if c.saved_before is not None:
            ok("file before evaluation {0}".format(c.k), [H.arr(c.saved_before[n]) for n in r.names[0]],
               [float(np.real(c.saved_before[n])) for n in r.names[1]])
    ok("best controls", r.best_controls[0], r.best_controls[2])
    if r.saved_end is not None:
        ok("file at the end", [H.arr(r.saved_end[n]) for n in r.names[0]], [float(np.real(r.saved_end[n])) for n in r.names[1]])
    for kind, *e in r.events:
        if kind == "ctrl":
            ok("controls shown to the client", e[0][0], e[0][2])
    return K.observe(r, ctx)
