"""C11: each basis realizes its documented expansion"""
import itertools

import numpy as np

from .. import harness as H, reference as R, shapes as S
from ..explore import Violation

FRACTIONS = [0.31, 0.0, 0.999]
VARIANTS = {
    "Fourier": [{}], "Chebyshev": [{}], "Walsh": [{}], "PiecewiseBasis": [{}],
    "Sinc": [{}, {"basis_max": 2.5}],
    "Sigmoid": [{}, {"sigma": 0.05, "offset": 0.2}, {"sigma": 0.3, "offset": 0.0}],
    "SigmoidSigmas": [{"sigma": 0.05, "offset": 0.2}, {"sigma": 0.05, "offset": 0.2, "sigma_variation": 0.4},
                      {"sigma": 0.1, "offset": 0.1}],
    "SigmoidTimeDep": [{"sigma": 0.05, "offset": 0.2}, {"sigma": 0.1, "offset": 0.1, "tau_variation": 0.5}],
    "SigmoidAllParas": [{"sigma": 0.05, "offset": 0.2}, {"sigma": 0.05, "offset": 0.2, "tau_variation": 0.3},
                        {"sigma": 0.05, "offset": 0.2, "sigma_variation": 0.5},
                        {"sigma": 0.1, "offset": 0.1, "tau_variation": 0.3, "sigma_variation": 0.5},
                        {"sigma": 0.1, "offset": 0.0}],
}


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []
    for basis in S.BASES + ["Walsh"]:
        for vi, kw in enumerate(VARIANTS[basis]):
            for vec in ((1, 2, 3, 4) if thorough else (1, 2, 3)):
                if basis == "PiecewiseBasis" and vec > 1:
                    continue
                for bins in ((1, 2, 3, 5, 8, 21) if thorough else (1, 2, 5, 8)):
                    for T in ((0.8, 2.0, 10.0) if thorough else (0.8, 10.0) if vec == 3 else (0.8, 2.0)):
                        jobs.append({"cfg": dict(id=len(jobs), basis=basis, kw=kw, vec=vec, bins=bins, T=T,
                                                 var=(0.5, 1.0, 2.0)[(vec + bins) % 3]), "bound": None, "chunk": 30})
    for vec in (1, 2, 3):
        for T in (1.0, 4.0):
            jobs.append({"cfg": dict(id=len(jobs), agree=True, vec=vec, T=T, bins=9, var=0.5), "bound": None})
    return jobs


def run(cfg, ctx, state):
    if cfg.get("agree"):
        return agree(cfg, ctx, state)
    basis, n = cfg["basis"], cfg["vec"]
    numbers = [ctx.pick(FRACTIONS, "r", free=True) for _ in range(1 if basis == "PiecewiseBasis" else min(n, 3))]
    p = S.pulse(basis, bins=cfg["bins"], vec=n, T=cfg["T"], var=cfg["var"], basis_kw=cfg["kw"])
    times = [H.time_("T", cfg["T"])]
    ctl = S.make([p], times, [], numbers)
    model = S.Model([p], times, [])
    ws = S.super_parameters(ctl, [p])
    if ctl.get_control_parameters_number() != model.n:
        raise Violation("{0} with {1} basis vectors has {2} coefficients, it has to have {3}".format(
            basis, n, ctl.get_control_parameters_number(), model.n))
    limit = 729 if state["tier"] == "thorough" else 100
    for x in S.vectors(model.n, (0.0, 1.0, -0.7, 2.4)[:4 if basis in ("Chebyshev", "SigmoidSigmas", "SigmoidAllParas") else 3], limit):
        got = S.compare(ctl, model, x, ws, "expansion")
        if not np.all(np.isfinite(got[0][0])):
            raise Violation("{0}: not finite for {1}: {2}".format(p, x, got[0][0]))
        if x != (0.0,) * model.n:
            bare = ctl.get_bare_controls_lists(np.array(x, dtype=float))
            bare = bare[0] if isinstance(bare, tuple) else bare
            if not H.close(H.arr(bare[0]), got[0][0]):
                raise Violation("{0}: the bare pulse of {1} is {2}, the update is {3}".format(p, x, bare[0], got[0][0]))
        ctx.steps += 1
        ctx.state(cfg["id"], numbers, x)
    return (cfg["id"], tuple(np.round(got[0][0], 6).tolist()))


def agree(cfg, ctx, state):
    """Variants of the sigmoid basis with their extra coefficients switched off"""
    numbers = [ctx.pick(FRACTIONS, "r", free=True) for _ in range(cfg["vec"])]
    times = [H.time_("T", cfg["T"])]
    kw = {"sigma": 0.05, "offset": 0.1}
    ctls = {}
    for basis in ("Sigmoid", "SigmoidSigmas", "SigmoidTimeDep", "SigmoidAllParas"):
        p = S.pulse(basis, bins=cfg["bins"], vec=cfg["vec"], T=cfg["T"], rng=(0.2, cfg["T"] - 0.2), basis_kw=kw)
        ctls[basis] = S.make([p], times, [], numbers)
    for x in itertools.product((0.0, 1.0, -0.7), repeat=cfg["vec"] + 1):
        ref = None
        for basis, ctl in ctls.items():
            n = ctl.get_control_parameters_number()
            u = S.controls(ctl, list(x) + [0.0] * (n - len(x)))[0][0]
            if ref is None:
                ref = u
            elif not H.close(u, ref):
                raise Violation("{0} without its extra coefficients gives {1}, Sigmoid gives {2} (coefficients {3}, {4})".format(
                    basis, u.tolist(), ref.tolist(), x, cfg))
        ctx.steps += 4
        ctx.state("agree", numbers, x, cfg["T"])
    return (cfg["id"],)
