"""C28: the start simplex is centred, scaled and never degenerate"""
import itertools

import numpy as np

from .. import campaign as K, harness as H, shapes as S
from ..explore import Violation

DRAWS = [0.5, 0.0, 0.999999, 0.13, 0.77, 0.2114]   # the last one makes the raw directions almost dependent
TOL = 1e-9


def jobs(tier, seed):
    thorough = tier == "thorough"
    out = []
    for n in (1, 2, 3, 4, 5, 6):
        for si in range(6):
            for mode in ("rng", "global", "generator"):
                out.append({"cfg": dict(id=len(out), n=n, si=si, mode=mode), "bound": None, "chunk": 400})
    for alg, n in (("DirectSearch", 1), ("DirectSearch", 2), ("DirectSearch", 3), ("dCRAB", 0)):
        for seed_ in (range(12) if thorough else range(4)):
            for which in range(3):
                out.append({"cfg": dict(id=len(out), alg=alg, n=n, seed=seed_, which=which, run=True), "bound": None})
    return out


def sigmas(n, si):
    return np.array({0: [1.0] * n, 1: [0.5, 2.0, 0.01, 10.0, 1.0, 0.3][:n], 2: [1e-3] * n, 3: [50.0, 1e-4, 3.0, 1.0, 7.0, 0.2][:n],
                     4: [-0.5, 1.0, -2.0, 0.3, 1.0, 4.0][:n], 5: [3.0] * (n - 1) + [0.1]}[si])


def check(simplex, mean, sigma, what):
    simplex = np.asarray(simplex, dtype=float)
    n = len(mean)
    if simplex.shape != (n + 1, n):
        raise Violation("{0}: the simplex has the shape {1}".format(what, simplex.shape))
    if not np.all(np.isfinite(simplex)):
        raise Violation("{0}: the simplex is not finite: {1}".format(what, simplex.tolist()))
    scale = max(1.0, np.abs(mean).max())
    if np.abs(simplex[0] - mean).max() > TOL * scale:
        raise Violation("{0}: the first vertex is {1}".format(what, simplex[0].tolist()))
    dirs = (simplex[1:] - mean) / sigma
    # cancellation of the large mean is the only error that is accepted
    tol = 1e-7 + 1e-14 * scale / np.abs(sigma).min()
    if np.abs(dirs @ dirs.T - np.eye(n)).max() > tol:
        raise Violation("{0}: the displacements {1} divided by the variations are not orthonormal: {2}".format(
            what, (simplex[1:] - mean).tolist(), (dirs @ dirs.T).tolist()))
    if abs(abs(np.linalg.det(dirs)) - 1.0) > 10 * tol:
        raise Violation("{0}: the simplex is degenerate".format(what))


class Script:
    """numpy's global random functions replaced by scripted numbers"""
    def __init__(self, numbers):
        self.rng = S.Rng(numbers)

    def __enter__(self):
        self.old = np.random.rand
        np.random.rand = lambda *d: self.rng.get_random_numbers(int(np.prod(d))).reshape(d) if d else float(self.rng.get_random_numbers(1)[0])

    def __exit__(self, *a):
        np.random.rand = self.old


def run(cfg, ctx, state):
    if cfg.get("run"):
        return whole(cfg, ctx, state)
    from quocslib.tools.linearalgebra import simplex_creation
    from quocslib.tools.randomgenerator import RandomNumberGenerator
    n, sigma = cfg["n"], sigmas(cfg["n"], cfg["si"])
    alphabet = DRAWS if n <= 3 or (n == 4 and state["tier"] == "thorough") else DRAWS[:3] if n <= 5 else DRAWS[1:3]
    numbers = [ctx.pick(alphabet, "r", free=True) for _ in range(n)] if cfg["mode"] != "generator" else [ctx.choose(60, "seed", free=True)]
    for mean in (np.zeros(n), np.array([1.0, -2.5, 0.0, 100.0, -0.3, 7.0][:n]), 1e4 * np.ones(n)):
        m, s = mean.copy(), sigma.copy()
        if cfg["mode"] == "rng":
            got = simplex_creation(m, s, rng=S.Rng(numbers))
        elif cfg["mode"] == "generator":
            got = simplex_creation(m, s, rng=RandomNumberGenerator(numbers[0]))
            if not np.array_equal(got, simplex_creation(m, s, rng=RandomNumberGenerator(numbers[0]))):
                raise Violation("the same seed {0} gives different simplices".format(numbers[0]))
        else:
            with Script(numbers):
                got = simplex_creation(m, s)
        what = "start {0}, variation {1}, random numbers {2}".format(mean.tolist(), sigma.tolist(), numbers)
        check(got, mean, sigma, what)
        if not (np.array_equal(m, mean) and np.array_equal(s, sigma)):
            raise Violation("{0}: the inputs are changed to {1}, {2}".format(what, m, s))
        got[0, 0] += 1.0        # the result is not tied to the inputs
        if not (np.array_equal(m, mean) and np.array_equal(s, sigma)):
            raise Violation("{0}: the simplex shares memory with the inputs".format(what))
        ctx.steps += 1
        ctx.state(cfg["id"], mean.tolist(), numbers)
    return cfg["id"]


def whole(cfg, ctx, state):
    """The first evaluations of a Nelder-Mead run are the vertices of such a simplex"""
    n, which = cfg["n"], cfg["which"]
    if cfg["alg"] == "DirectSearch":
        pars = [H.param("p%d" % i, value=(0.5, -1.0, 3.0)[i] * (1 + which), lo=-1e4, hi=1e4, var=(0.4, 2.0, 0.05)[(i + which) % 3])
                for i in range(n)]
        c = dict(alg="DirectSearch", dsm="NM", controls=[[], pars, []], seed=cfg["seed"] + 1)
        mean = np.array([p["initial_value"] for p in pars])
        sigma = np.array([p["amplitude_variation"] for p in pars])
    else:
        pars = [H.param("p0", value=1.5, lo=-1e4, hi=1e4, var=0.2), H.param("p1", value=-4.0, lo=-1e4, hi=1e4, var=3.0)]
        pulse = S.pulse("PiecewiseBasis", name="amp", time="T", bins=2 + which, T=2.0, var=(0.5, 1.0, 0.02)[which])
        c = dict(alg="dCRAB", dsm="NM", controls=[[pulse], pars, [H.time_("T", 2.0)]], seed=cfg["seed"] + 1)
        ref = S.Model([pulse], [H.time_("T", 2.0)], pars)
        mean, sigma = ref.mean(), ref.sigma()
        n = len(mean)
    c["crit"] = {}
    order = [ctx.choose(2, "answer", free=True) for _ in range(min(n + 1, 3))]
    vals = iter(order + [0] * 1000)
    run = H.Run(dict(c, dir="min"), lambda r, call: {"FoM": 0.5 + 0.1 * next(vals) + 1e-3 * len(r.calls)}, horizon=n + 1, ctx=ctx)
    run.go()
    pts = [np.concatenate([np.concatenate([np.ravel(p) for p in call.triple()[0]]) if call.triple()[0] else np.zeros(0),
                           np.ravel(call.triple()[2])]) for call in run.calls[:n + 1]]
    if cfg["alg"] == "dCRAB":
        # the piecewise pulse shows its coefficients directly
        k = n - 2
        if any(len(p) != n for p in pts):
            raise Violation("controls of the first evaluations: {0}".format([p.tolist() for p in pts]))
        mean = np.concatenate([np.zeros(k), mean[k:]])
    if len(pts) < n + 1:
        raise Violation("only {0} evaluations for {1} parameters".format(len(pts), n))
    check(np.array(pts), mean, sigma, "start of {0} with {1}, seed {2}".format(cfg["alg"], c["controls"], c["seed"]))
    return cfg["id"]
