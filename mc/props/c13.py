"""C13: every super-iteration starts from the best controls found so far"""
import copy
import math

import numpy as np

from .. import campaign as K, harness as H, oracles as O, reference as R, shapes as S
from . import c03

WIDE = dict(lo=-1e4, hi=1e4)
SETS = {
    "F": lambda: ([H.fourier("amp", "T", **WIDE)], [], [H.time_("T", 1.5)]),
    "F3g": lambda: ([H.fourier("amp", "T", bins=12, vec=3, initial_guess=dict(H.GUESS), **WIDE)], [H.param("gain")],
                    [H.time_("T", 1.5)]),
    "FC": lambda: ([H.fourier("amp_x", "T_x", bins=9, vec=2, **WIDE), H.chebyshev("amp_y", "T_y", bins=8,
                                                                             initial_guess=dict(H.GUESS), **WIDE)],
                   [H.param("gain"), H.param("shift", -0.7, var=0.2)], [H.time_("T_x", 1.5), H.time_("T_y", 2.5)]),
    "SN": lambda: ([H.sigmoid("ramp", "T", bins=9, vec=2, T=2.5, **WIDE),
                    S.pulse("Sinc", name="sinc", bins=10, vec=3, T=2.5, initial_guess=dict(H.GUESS))], [],
                   [H.time_("T", 2.5)]),
    "PF": lambda: ([H.piecewise("steps", "T", bins=3, **WIDE), H.fourier("amp", "T", bins=6, **WIDE)], [H.param("gain")],
                   [H.time_("T", 1.5)]),
    # limited, scaled, shrunk: only the start of the super-iterations is compared
    "lim": lambda: ([H.fourier("amp", "T", bins=6, lo=-0.3, hi=0.4, initial_guess=dict(H.GUESS), scaling_function=dict(H.SCALE),
                               shrink_ampl_lim=True), H.piecewise("steps", "T", bins=2, lo=-0.1, hi=0.2)],
                    [H.param("gain", 0.4, lo=0.3, hi=0.5)], [H.time_("T", 1.5)]),
}


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []
    n = 0
    for name in SETS:
        for dsm in ("NM", "CMA4", "NMa") if name in ("F", "PF") or thorough else ("NM", "CMA4"):
            for si in (1, 2, 3, 4):
                if si == 1 and name != "F":
                    continue
                if not thorough and si not in ((1, 2, 4) if name in ("F", "PF") else (3,) if name != "lim" else (2,)):
                    continue
                n += 1
                dim = {"F": 2, "F3g": 7, "FC": 8, "SN": 6, "PF": 6, "lim": 5}[name]
                base = dict(alg="dCRAB", dsm=dsm, set=name, si=si, dir=("min", "max")[n % 2], fmt=("npz", "json")[n // 2 % 2])
                # every sequence of few answers, in super-iterations of one to three evaluations
                for per in ((1, 2, 3) if thorough else (1 + n % 3,)):
                    if si > 1:
                        jobs.append({"cfg": dict(base, mode="full", depth=6 if thorough else 4, crit={"max_eval": per},
                                                 alphabet=[0.5, 0.25, -0.75, K.NAN]), "bound": None})
                jobs.append({"cfg": dict(base, mode="dev", crit={"max_eval": dim + 5}, alphabet=["L", "tie", "low", "high", "nan",
                                                                                             "saw", "last"],
                                         fails=[["low", 1]], stops=["low"]), "bound": 2 if thorough else 1})
    for i, j in enumerate(jobs):
        j["cfg"]["id"] = i
    return jobs


def functions(p, w, T):
    """Basis functions of one pulse in one super-iteration"""
    t = R.time_grid(T, p["bins_number"])
    name = p["basis"]["basis_name"]
    n = R.n_coefficients(p)
    if name == "Chebyshev":
        arg = np.clip(-1 + 1e-10 + 2 * (1 - 1e-10) * t / T, -1, 1)
        return np.array([f(w[i] * np.arccos(arg)) for i in range(len(w)) for f in (np.cos, np.sin)])
    return np.array([R.expansion(p, np.eye(n)[i], w, T) for i in range(n)])


def run(cfg, ctx, state):
    if "set" in cfg:
        cfg = dict(cfg, controls=[list(x) for x in SETS[cfg["set"]]()])
    r = K.play(cfg, ctx, state)
    init = c03.initial(cfg)
    order = []
    for c in r.calls:
        if not order or order[-1][0] != c.si:
            order.append((c.si, c.k - 1))
    if [s for s, _ in order] != list(range(1, len(order) + 1)):
        O.fail(r, "super-iterations {0}", [s for s, _ in order])
    if len(order) > cfg["si"]:
        O.fail(r, "{0} super-iterations are made, {1} are configured", len(order), cfg["si"])
    cut = r.stopped_at is not None or any(c.status for c in r.calls) or r.higher_reason
    if not cut and len(order) < cfg["si"]:
        O.fail(r, "{0} super-iterations are made, {1} are configured and nothing stopped the run", len(order), cfg["si"])
    starts = []
    for s, k in order:
        best = r.best_call(k)
        want = best.triple() if best is not None else init
        if not H.same_controls(r.calls[k].triple(), want):
            O.fail(r, "super-iteration {0} starts (evaluation {1}) with {2}, best so far (evaluation {3}) is {4}", s, k + 1,
                   r.calls[k].triple(), None if best is None else best.k, want)
        starts.append(want)
        ctx.state(cfg["id"], s, k, None if best is None else best.k)
    basis(cfg, r, order, starts)
    return K.observe(r, ctx)


def basis(cfg, r, order, starts):
    freqs = r.report["dcrab_freq_list"]
    d = H.build(cfg)
    for j, (s, k) in enumerate(order):
        if j >= len(freqs):
            break
        end = order[j + 1][1] if j + 1 < len(order) else len(r.calls)
        ci = 0
        for i, p in enumerate(d["pulses"]):
            T = R.time_of(p, d["times"])
            if p["basis"]["basis_name"] == "PiecewiseBasis":
                continue
            w = [float(v) for v in freqs[j][ci]]
            ci += 1
            dist = p["basis"]["random_super_parameter_distribution"]
            lo, step = dist["lower_limit"], (dist["upper_limit"] - dist["lower_limit"]) / p["basis"]["basis_vector_number"]
            if len(w) != p["basis"]["basis_vector_number"] or any(
                    not lo + q * step - 1e-9 <= v <= lo + (q + 1) * step + 1e-9 for q, v in enumerate(w)):
                O.fail(r, "super-parameters {0} of {1}: not one per equal part of {2}", w, p["pulse_name"], dist)
            if j and any(abs(a - b) < 1e-12 for a, b in zip(w, freqs[j - 1][ci - 1])):
                O.fail(r, "super-parameters {0} of {1} are not redrawn for super-iteration {2}", w, p["pulse_name"], s)
            if cfg["set"] == "lim":
                continue
            F = functions(p, w, T)
            U = np.array([c.pulses[i] - starts[j][0][i] for c in r.calls[k:end]])
            if not np.all(np.abs(U) < 100):
                continue
            X = np.linalg.lstsq(F.T, U.T, rcond=None)[0]
            res = np.abs(F.T @ X - U.T)
            if res.size and res.max() > 1e-6 * (1 + np.abs(U).max()):
                O.fail(r, "super-iteration {0}: the updates of {1} are not in the basis with super-parameters {2} on top of the "
                       "best pulse (residual {3})", s, p["pulse_name"], w, res.max())
