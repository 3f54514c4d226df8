"""C25: gradients used by GRAPE and AD match the figure of merit"""
import itertools

import numpy as np

from .. import env, harness as H, shapes as S
from ..explore import Violation
from .c24 import X, Y, Z, expm, matrices

HOOK = [None]
GUESS = "lambda t: 0.3 + 0.5*t"


# ---------------------------------------------------------------------------------------------------------------------
# systems: drift, control, initial state, target
# ---------------------------------------------------------------------------------------------------------------------
def dm(v):
    v = np.array(v, dtype=complex)
    v = v / np.linalg.norm(v)
    return np.outer(v, v.conj())


SYSTEMS = {
    "qubit": lambda: (0.5 * Z, X.copy(), dm([1, 0]), dm([0, 1])),
    "complex": lambda: (0.5 * Z + 0.2 * Y, X + 0.5 * Y, dm([1, 0.3]), dm([1, 1j])),
    "mixed": lambda: (0.7 * X, Z + 0.3 * Y, 0.8 * dm([1, 0]) + 0.2 * dm([1, 1j]), 0.6 * dm([0, 1]) + 0.4 * dm([1, -1j])),
    "qutrit": lambda: (matrices(3)[0], matrices(3)[1] + 0.3 * matrices(3)[2], dm([1, 0, 0]), dm([0, 1j, 1])),
    "two": lambda: (matrices(4)[0], matrices(4)[1] + matrices(4)[2], dm([1, 0, 0, 0]), dm([0, 1, 1j, 0])),
}


def overlap(system, pulse, dt):
    A, B, rho, target = system
    for u in pulse:
        p = expm(-1j * dt * (A + u * B))
        rho = p @ rho @ p.conj().T
    return float(np.real(np.trace(target.conj().T @ rho)))


class GrapeSystem:
    """A user's problem for GRAPE"""
    def __init__(self, system, sign, n):
        self.s, self.sign, self.n, self.calls = system, sign, n, []

    def get_drift_Hamiltonian(self):
        return self.s[0]

    def get_control_Hamiltonians(self):
        return self.s[1]

    def get_initial_state(self):
        return self.s[2]

    def get_target_state(self):
        return self.s[3]

    def get_propagator(self, pulses_list=[], time_grids_list=[], parameters_list=[]):
        tg = np.asarray(time_grids_list[0])
        dt = tg[-1] / len(tg)
        return [expm(-1j * dt * (self.s[0] + u * self.s[1])) for u in np.asarray(pulses_list[0])]

    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        tg = np.asarray(timegrids[0])
        self.calls.append([H.arr(p) for p in pulses])
        return {"FoM": -self.sign * overlap(self.s, np.asarray(pulses[0]), tg[-1] / len(tg))}


# ---------------------------------------------------------------------------------------------------------------------
def jobs(tier, seed):
    thorough = tier == "thorough"
    ad, grape = [], []
    # AD is built for piecewise-constant controls
    for shape in ("one", "guess", "guess+scale", "two", "par", "many"):
        for d in ("min", "max"):
            for si in (1, 2, 3) if thorough else (1, 3) if d == "min" else (2,):
                for bins in ((2, 4) if thorough else (4,)):
                    ad.append(dict(alg="AD", shape=shape, dir=d, si=si, bins=bins, jit=0))
            ad.append(dict(alg="AD", shape=shape, dir=d, si=1, bins=4, jit=1))
    for bins in (2, 4):
        for q in (2, 3):
            ad.append(dict(alg="AD", ising=q, dir="max", shape="one", si=1, bins=bins, jit=1))
    for name in SYSTEMS:
        for n in (2, 3, 4, 6, 48):
            for d in ("min", "max"):
                for guess in (0, 1):
                    for T in ((0.05, 0.3, 1.2, 4.0) if thorough else (0.05, 0.3) if n < 48 else (1.2, 4.0)):
                        if not thorough and n in (4, 6) and (guess == (d == "min") or (n == 6 and T < 0.1)):
                            continue
                        grape.append(dict(alg="GRAPE", system=name, n=n, dir=d, guess=guess, T=T))
    for q in (2, 3):
        for d in ("min", "max"):
            grape.append(dict(alg="GRAPE", ising=q, n=3, dir=d, guess=0, T=0.06))
            grape.append(dict(alg="GRAPE", ising=q, n=40, dir=d, guess=0, T=0.4))
    out = [{"cfg": dict(c, id=i), "bound": None, "chunk": 1 if c["alg"] == "AD" else 40} for i, c in enumerate(ad + grape)]
    return out


def setup_worker(state):
    import scipy.optimize as so
    if getattr(so.minimize, "mc", False):
        return
    real = so.minimize

    def minimize(fun, x0, *args, **kw):
        if HOOK[0] is None:
            return real(fun, x0, *args, **kw)
        jac = kw.get("jac")
        extra = kw.get("args", ())

        def value_grad(x):
            x = np.array(x, dtype=float)
            if jac is True:
                f, g = fun(x, *extra)
            else:
                f, g = fun(x, *extra), jac(x, *extra)
            return float(np.real(f)), H.arr(g).ravel()

        def value(x):
            f = fun(np.array(x, dtype=float), *extra)
            return float(np.real(f[0] if jac is True else f))
        HOOK[0](np.array(x0, dtype=float), value_grad, value)
        return so.OptimizeResult(x=np.array(x0), fun=0.0, success=True, status=0, message="", nit=1, nfev=1, jac=np.zeros(len(x0)))
    minimize.mc = True
    so.minimize = minimize


def run(cfg, ctx, state):
    sign = 1.0 if cfg["dir"] == "min" else -1.0
    env.CLOCK.t = 0.0
    env.seed_globals(99)
    H.reset_results()
    return (grape if cfg["alg"] == "GRAPE" else autodiff)(cfg, ctx, state, sign)


def execute(d, fom):
    from quocslib.Optimizer import Optimizer
    env.CLOCK.advance(2.0)
    opt = Optimizer(d, fom)
    opt.execute()
    return opt


def grape(cfg, ctx, state, sign):
    n, T = cfg["n"], cfg["T"]
    dt = None
    if cfg.get("ising"):
        from quocslib.optimalcontrolproblems.IsingModelProblem import IsingModel
        fom = IsingModel({"n_qubits": cfg["ising"], "J": 1, "g": 2, "n_slices": n, "is_maximization": cfg["dir"] == "max"})
        system = (fom.get_drift_Hamiltonian().copy(), fom.get_control_Hamiltonians().copy(), fom.get_initial_state().copy(),
                  fom.get_target_state().copy())
        vtol = 1e-5     # the library's fidelity takes two matrix square roots of singular matrices
    else:
        system = SYSTEMS[cfg["system"]]()
        fom = GrapeSystem(system, sign, n)
        vtol = 1e-9
    kw = {"initial_guess": {"function_type": "lambda_function", "lambda_function": GUESS}} if cfg["guess"] else {}
    p = H.piecewise("drive", "T", bins=n, lo=-500, hi=500, **kw)
    d = H.build(dict(alg="GRAPE", controls=[[p], [], [H.time_("T", T)]], dir=cfg["dir"], crit={}, seed=3))
    tgrid = T * np.arange(n) / (n - 1) if n > 1 else np.array([T])
    vec = None
    if n <= 6:
        alphabet = (0.0, 2.0, -0.7) if n <= 3 else (2.0, -0.7)
        vec = [ctx.pick(alphabet, "u", free=True) for _ in range(n)]
    else:
        f, a = ctx.pick([(0.2, 1.5), (0.9, 3.0), (0.05, 0.4), (3.1, 1.0)], "u", free=True)
        vec = (a * np.cos(f * np.arange(n)) + 0.3).tolist()
    seen = []

    def hook(x0, value_grad, value):
        if len(x0) != n:
            raise Violation("{0}: {1} control parameters for {2} slices".format(cfg, len(x0), n))
        first = value_grad(np.array(vec))
        for k, x in enumerate((np.array(vec), -0.5 * np.array(vec)[::-1] + 0.2, x0, np.array(vec))):
            v, g = value_grad(x)
            check_grape(cfg, ctx, system, x, v, g, n, T, vtol)
        if not (H.close(first[0], v, 1e-6) and H.close(first[1], g, 1e-9)):
            raise Violation("{0}: the gradient of {1} depends on the vectors seen before: {2}, later {3}".format(
                cfg, vec, first, (v, g)))
        seen.append(1)
    HOOK[0] = hook
    try:
        execute(d, fom)
    finally:
        HOOK[0] = None
    if not seen:
        raise Violation("{0}: no gradient is used".format(cfg))
    return cfg["id"]


def guess_of(cfg, grid):
    return 0.3 + 0.5 * grid if cfg["guess"] else 0.0 * grid


def check_grape(cfg, ctx, system, x, v, g, n, T, vtol):
    dt = T / n
    # the grid of the pulse: the last point is the end of the pulse
    grid = np.linspace(0, T, n)
    pulse = x + guess_of(cfg, grid)
    A, B = system[:2]
    want = -overlap(system, pulse, dt)
    if abs(v - want) > vtol:
        raise Violation("{0}: the value that is minimized at {1} is {2}, the figure of merit is {3}".format(cfg, x.tolist(), v, want))
    if g.shape != (n,):
        raise Violation("{0}: gradient of shape {1}".format(cfg, g.shape))
    for i in (range(n) if n < 10 else range(0, n, 5)):
        h = 1e-3
        up, dn = pulse.copy(), pulse.copy()
        up[i] += h
        dn[i] -= h
        fd = (overlap(system, dn, dt) - overlap(system, up, dt)) / (2 * h)
        Ht = A + pulse[i] * B
        # error of the first-order formula: dt^2 ||[H, B]|| for trace-one states
        bound = 1.05 * dt ** 2 * np.linalg.norm(Ht @ B - B @ Ht, 2) + 1e-6 * dt * (1 + np.linalg.norm(B, 2) ** 3) + 1e-9
        if not abs(g[i] - fd) <= bound:
            raise Violation("{0}: gradient of slice {1} at {2} is {3}, the derivative is {4} (first-order error at most {5})".format(
                cfg, i, x.tolist(), g[i], fd, bound))
    ctx.steps += 1
    ctx.state(cfg["id"], np.round(x, 6).tolist())


# ---------------------------------------------------------------------------------------------------------------------
def autodiff(cfg, ctx, state, sign):
    import os
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    H.setup_jax()
    import jax.numpy as jnp
    import jax
    jax.config.update("jax_disable_jit", not cfg["jit"])
    shape, bins = cfg["shape"], cfg["bins"]
    T = 2.0
    kw = {}
    if shape.startswith("guess"):
        kw["initial_guess"] = {"function_type": "list_function", "list_function": [0.5, -0.2, 0.3, 0.1][:bins]}
    if shape == "guess+scale":
        kw["scaling_function"] = {"function_type": "list_function", "list_function": [0.6, 1.5, -0.4, 1.0][:bins]}
    pulses = [S.pulse("PiecewiseBasis", name="amp", bins=bins, T=T, lo=-400, hi=400, **kw)]
    pars, times = [], [H.time_("T", T)]
    if shape in ("two", "many"):
        pulses.append(S.pulse("PiecewiseBasis", name="second", time="T2", bins=3, T=1.0, lo=-400, hi=400))
        times.append(H.time_("T2", 1.0))
    if shape == "many":
        pulses.append(S.pulse("PiecewiseBasis", name="third", time="T", bins=2, T=T, lo=-400, hi=400))
    if shape in ("many", "par"):
        pars = [H.param("gain", value=0.4), H.param("shift", value=-0.7, var=0.2)]
    d = H.build(dict(alg="AD", controls=[pulses, pars, times], dir=cfg["dir"], crit={}, si=cfg["si"], seed=3))
    if cfg.get("ising"):
        from quocslib.optimalcontrolproblems.IsingModelADProblem import IsingModel
        fom = IsingModel({"n_qubits": cfg["ising"], "J": 1, "g": 2, "n_slices": bins})
        sysm = (np.asarray(fom.get_drift_Hamiltonian()), np.asarray(fom.get_control_Hamiltonians()),
                np.asarray(fom.get_initial_state()), np.asarray(fom.get_target_state()))
    else:
        class Fom:
            """A polynomial of the second degree in all controls, with products of different slices and pulses"""
            def __init__(self):
                self.seen = []

            def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
                s = 0.7
                for i in range(len(pulses)):
                    p, t = jnp.real(pulses[i]), jnp.real(timegrids[i])
                    w = jnp.arange(1, p.shape[0] + 1) * (0.3 + 0.2 * i)
                    s = s + jnp.sum(w * (p - 0.4 * t - 0.1) ** 2) + 0.5 * jnp.sum(p[1:] * p[:-1]) + 0.3 * p[0] * jnp.sum(w * p)
                for j in range(len(parameters)):
                    x = jnp.real(parameters[j])
                    s = s + (1.0 + j) * (x - 0.2) ** 2 + 0.7 * x * jnp.real(pulses[0][0])
                return {"FoM": sign * s}
        fom = Fom()
    which = ctx.choose(3, "vector", free=True)
    seen = []

    def hook(x0, value_grad, value):
        n = len(x0)
        k = len(seen)
        base = np.array([0.3 + 0.21 * ((7 * i) % 5) * (-1) ** i for i in range(n)])
        x = {0: base, 1: x0, 2: 0.4 * base[::-1] - 0.3}[which]
        if shape in ("many", "par"):
            x[-2:] = [0.45, -0.6]
        v, g = value_grad(x)
        if len(g) != n:
            raise Violation("{0}: gradient of {1} components for {2} control parameters".format(cfg, len(g), n))
        h = 0.02
        eye = np.eye(n)
        for i in range(n):
            d1 = (value(x + h * eye[i]) - value(x - h * eye[i])) / (2 * h)
            fd, tol = d1, 2e-3
            if cfg.get("ising"):
                d2 = (value(x + 2 * h * eye[i]) - value(x - 2 * h * eye[i])) / (4 * h)
                fd = (4 * d1 - d2) / 3
                tol = 5e-3
            if not abs(g[i] - fd) <= tol * max(1.0, abs(fd)):
                raise Violation("{0}: super-iteration {1}: derivative {2} at {3} is {4}, finite differences give {5}".format(
                    cfg, k + 1, i, x.tolist(), g[i], fd))
            ctx.steps += 2
        if cfg.get("ising"):
            want = -overlap(sysm, x, T / bins)
            if abs(v - want) > 1e-4:
                raise Violation("{0}: the figure of merit at {1} is {2}, it has to be {3}".format(cfg, x.tolist(), v, want))
        v2, g2 = value_grad(x)
        if not (H.close(v, v2, 1e-5) and H.close(g, g2, 1e-5)):
            raise Violation("{0}: the gradient of {1} changes from {2} to {3}".format(cfg, x.tolist(), g.tolist(), g2.tolist()))
        seen.append(1)
        ctx.state(cfg["id"], which, k)
    HOOK[0] = hook
    try:
        execute(d, fom)
    finally:
        HOOK[0] = None
    if len(seen) != cfg["si"]:
        raise Violation("{0}: gradients are used in {1} super-iterations".format(cfg, len(seen)))
    return cfg["id"]
