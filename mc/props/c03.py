"""C03: the best controls and the final report reproduce the best evaluation"""
import numpy as np

from .. import campaign as K, oracles as O, reference as R
from ..harness import arr, close, build


def jobs(tier, seed):
    return K.histories(tier, alphabet_full=[0.5, 0.25, -0.75, K.NAN], fails=[("low", 3)], stops=["low"],
                       devs=K.DEVS, dev_bound=1)


def initial(cfg):
    d = build(cfg)
    pulses, grids = [], []
    for p in d["pulses"]:
        T = R.time_of(p, d["times"])
        pulses.append(R.build(p, 0.0, 0.0, T))
        grids.append(R.time_grid(T, p["bins_number"]))
    pars = np.array([R.clip_parameter(q, q["initial_value"]) for q in d["parameters"]])
    if cfg["alg"] == "AD":      # one rectangular array, filled up with zeros
        n = max(len(p) for p in pulses)
        pulses = [np.concatenate([p, np.zeros(n - len(p))]) for p in pulses]
        grids = [np.concatenate([p, np.zeros(n - len(p))]) for p in grids]
    return pulses, grids, pars


def run(cfg, ctx, state):
    K.prepare(cfg)
    r = K.play(cfg, ctx, state)
    out = K.observe(r, ctx)
    O.best_reported(r)
    O.count_reported(r)
    O.best_controls_equal(r, initial(cfg))
    best = r.best_call()
    if cfg["alg"] == "DirectSearch":
        ref = best.parameters if best is not None else initial(cfg)[2]
        if not close(np.asarray(r.report["parameters"], dtype=float).ravel(), ref):
            O.fail(r, "reported parameters {0}, best are {1}", r.report["parameters"], ref)
    if cfg["alg"] == "dCRAB":
        rebuild(cfg, r, best.triple() if best is not None else initial(cfg))
    return out


def rebuild(cfg, r, ref):
    d = build(cfg)
    freqs, coefs = r.report["dcrab_freq_list"], r.report["dcrab_para_list"]
    if len(freqs) != len(coefs):
        O.fail(r, "{0} sets of frequencies and {1} of coefficients are reported", len(freqs), len(coefs))
    bare = [arr(b) for b in r.alg.get_best_bare_controls()["bare_pulses"]]
    for i, p in enumerate(d["pulses"]):
        T = R.time_of(p, d["times"])
        base = np.zeros(p["bins_number"])
        off = sum(R.n_coefficients(q) for q in d["pulses"][:i])
        ci = sum(1 for q in d["pulses"][:i] if q["basis"]["basis_name"] != "PiecewiseBasis")
        for w, x in zip(freqs, coefs):
            part = np.asarray(x[off:off + R.n_coefficients(p)], dtype=float)
            base = base + R.expansion(p, part, w[ci] if p["basis"]["basis_name"] != "PiecewiseBasis" else None, T)
        if not close(bare[i], base, 1e-8):
            O.fail(r, "bare pulse {0} is {1}, the reported coefficients give {2}", p["pulse_name"], bare[i], base)
        full = R.build(p, 0.0, base, T)
        if not close(full, ref[0][i], 1e-8):
            O.fail(r, "pulse {0} rebuilt from the report: {1}, best pulse: {2}", p["pulse_name"], full, ref[0][i])
