"""C31: the bundled problems give their textbook figure of merit, whatever was evaluated before"""
import itertools
import os

import numpy as np

from .. import campaign as K, env, harness as H
from ..explore import Violation

I2 = np.eye(2, dtype=complex)
SX = np.array([[0, 1], [1, 0]], dtype=complex)
SY = np.array([[0, -1j], [1j, 0]], dtype=complex)
SZ = np.array([[1, 0], [0, -1]], dtype=complex)


def slice_(H_, dt):
    """exp(-i H dt) of a hermitian matrix"""
    w, v = np.linalg.eigh(H_)
    return (v * np.exp(-1j * dt * w)) @ v.conj().T


def site(n, ops):
    """Product operator with ops {site: matrix} on n qubits"""
    out = np.ones((1, 1), dtype=complex)
    for k in range(n):
        out = np.kron(out, ops.get(k, I2))
    return out


def ising_hamiltonians(n, J, g):
    drift = sum(-J * site(n, {k: SZ}) @ site(n, {(k + 1) % n: SZ}) - g * site(n, {k: SZ}) @ site(n, {(k + 2) % n: SZ}) for k in range(n))
    return drift, sum(site(n, {k: SX}) for k in range(n))


# ---------------------------------------------------------------------------------------------------------------------
def jobs(tier, seed):
    thorough = tier == "thorough"
    out = []

    def add(chunk=60, **c):
        out.append({"cfg": dict(c, id=len(out)), "bound": None, "chunk": chunk})
    L = 4 if thorough else 3
    states = [None, ("[1.0, 0.0]", "[0.0, 1.0]"), ("[1.0/np.sqrt(2), 1.0/np.sqrt(2)]", "[1.0, 0.0]"),
              ("[0.6, 0.8j]", "[1.0/np.sqrt(2), -1j/np.sqrt(2)]")]
    for st in states:
        for det in (None, (0.0, 0.0), (0.7, -0.4)):
            for factor in (None, -1.0, 1.0):
                for drift in (None, 0.01):
                    for params in (0, 1):
                        if not thorough and det is None and factor is None and drift is None and st is not None:
                            continue
                        add(problem="qubit", states=st, det=det, factor=factor, drift=drift, params=params, length=L)
            add(problem="fields", states=st, det=det, length=L)
    for n, J, g in ((3, 1, 2), (3, 0.5, -0.3), (4, 1, 2), (5, 1, 2), (4, 0.2, 0.0)) + (((2, 1, 0.5), (5, -0.4, 0.7)) if thorough else ()):
        for slices in (2, 5):
            for maxi in (None, True, False):
                add(problem="ising", n=n, J=J, g=g, slices=slices, maxi=maxi, length=L if n < 5 else 2, chunk=200)
    add(problem="ising", n=5, J=None, g=None, slices=None, maxi=None, length=2)
    for n, J, g in ((3, 1, 2), (4, 0.5, -0.3)):
        for slices in (2, 4):
            add(problem="isingAD", n=n, J=J, g=g, slices=slices, length=2, chunk=4)
    for n in (2, 3, 4):
        add(problem="rosen", n=n, length=2 if n > 2 else 3)
    for maxi in (False, True):
        for limit in (1, 2, 3, 4, 5, 7, 10):
            add(problem="grape", maxi=maxi, limit=limit, n=3, slices=4, chunk=4)
    for alg in ("NM", "CMA4"):
        for maxi in (False, True):
            add(problem="search", dsm=alg, maxi=maxi, n=3, slices=5, limit=14 if thorough else 9)
            for drift in (None, 0.003):
                add(problem="qsearch", dsm=alg, maxi=maxi, drift=drift, limit=14 if thorough else 9)
    return out


def run(cfg, ctx, state):
    env.CLOCK.t = 0.0
    env.seed_globals(5)
    out = globals()[cfg["problem"]](cfg, ctx, state)
    ctx.state(cfg["id"], out)
    return (cfg["id"], out)


def near(got, want, tol, fmt, *args):
    if not H.num_eq(got, want, tol):
        raise Violation(fmt.format(*args) + ": the figure of merit is {0}, it has to be {1}".format(got, want))


POOL = [(np.array([0.3, -1.2, 2.0]), 1.5), (np.array([0.3, -1.2, 2.0]), 3.0), (np.array([2.0, -1.2, 0.3]), 1.5), (np.array([0.0, 0.0]), 0.8),
        (np.array([5.0]) * np.linspace(-1, 1, 6), 6.0)]


def grid(n, T):
    """The time grid the optimizer sends"""
    return np.linspace(0, T, n)


def sequences(ctx, cfg, ops):
    """The history chosen for this execution"""
    ctx.steps += cfg["length"]
    return [ctx.pick(ops, "op", free=True) for _ in range(cfg["length"])]


# ---------------------------------------------------------------------------------------------------------------------
def settings(cfg):
    a = {}
    if cfg["states"]:
        a.update(initial_state=cfg["states"][0], target_state=cfg["states"][1])
    if cfg["det"]:
        a.update(delta1=cfg["det"][0], delta2=cfg["det"][1])
    return a


def vectors(cfg):
    i, t = cfg["states"] or ("[1.0, 0.0]", "[1.0/np.sqrt(2), -1j/np.sqrt(2)]")
    return [np.array(eval(s), dtype=complex) for s in (i, t)]


def qubit(cfg, ctx, state):
    from quocslib.optimalcontrolproblems.OneQubitProblem import OneQubit
    a = settings(cfg)
    if cfg["factor"] is not None:
        a["optimization_factor"] = cfg["factor"]
    if cfg["drift"] is not None:
        a.update(include_drift=True, linear_drift_val_over_iteration=cfg["drift"])
    obj = OneQubit(a) if a or cfg["id"] % 2 else OneQubit()
    psi0, target = vectors(cfg)
    d1, d2 = cfg["det"] or (0.1, 0.1)
    hist, values = sequences(ctx, cfg, list(range(len(POOL)))), []
    for k, i in enumerate(hist):
        u, T = POOL[i]
        tg = grid(len(u), T) if len(u) > 1 else np.array([0.0, T])
        params = [(0.0, 0.9, -0.3)[(k + i) % 3]] if cfg["params"] else []
        res = obj.get_FoM(pulses=[u.copy()], parameters=params, timegrids=[tg])
        psi = psi0
        for x in u:
            psi = slice_((params[0] if params else d1) * SZ / 2 + (x + d2) * SX / 2, tg[1] - tg[0]) @ psi
        inf = 1 - abs(np.vdot(target, psi)) ** 2 + (cfg["drift"] or 0.0) * k
        want = -(cfg["factor"] if cfg["factor"] is not None else -1.0) * inf
        near(res["FoM"], want, 1e-9, "one qubit {0}, evaluation {1} of the history {2}", a, k + 1, hist[:k + 1])
        if not H.num_eq(res["std"], 1e-4):
            raise Violation("one qubit: the deviation is {0}".format(res["std"]))
        values.append(want)
    if len(obj.FoM_list) != len(values) or not H.close(obj.FoM_list, values):
        raise Violation("one qubit: the recorded values are {0}, they are {1}".format(obj.FoM_list, values))
    folder = os.path.join(os.getcwd(), "c31")
    os.makedirs(folder, exist_ok=True)
    obj.set_save_path(folder)
    obj.save_FoM()
    if not H.close(np.loadtxt(os.path.join(folder, "FoM.txt"), ndmin=1), values):
        raise Violation("one qubit: the saved values are not the measured ones")
    return tuple(hist)


def fields(cfg, ctx, state):
    from quocslib.optimalcontrolproblems.OneQubitProblem_2fields import OneQubit2Fields
    a = settings(cfg)
    obj = OneQubit2Fields(a) if a or cfg["id"] % 2 else OneQubit2Fields()
    psi0, target = vectors(cfg)
    d1, d2 = cfg["det"] or (0.1, 0.1)
    ops = [(i, f) for i in range(len(POOL)) for f in (0.0, 1.3)]
    hist = sequences(ctx, dict(length=2), ops)
    for k, (i, f) in enumerate(hist):
        amp, T = POOL[i]
        phase = f * np.arange(len(amp)) - 0.4 * f
        tg = grid(len(amp), T)
        res = obj.get_FoM(pulses=[amp.copy(), phase], parameters=[], timegrids=[tg, tg])
        psi = psi0
        for x, p in zip(amp, phase):
            psi = slice_(d1 * SZ / 2 + x * (1 + d2) * (np.cos(p) * SX + np.sin(p) * SY), tg[1] - tg[0]) @ psi
        near(res["FoM"], abs(1 - abs(np.vdot(target, psi)) ** 2), 1e-9, "one qubit with two fields {0}, evaluation {1} of {2}", a, k + 1, hist)
        if not H.num_eq(res["std"], 0.0):
            raise Violation("one qubit with two fields: the deviation is {0}".format(res["std"]))
    return tuple(hist)


# ---------------------------------------------------------------------------------------------------------------------
def ising_reference(n, J, g, u, T):
    """(slice propagators, fidelity)"""
    drift, control = ising_hamiltonians(n, J, g)
    dt = T / len(u)
    props = [slice_(drift + x * control, dt) for x in u]
    psi = np.zeros(2 ** n, dtype=complex)
    psi[0] = 1
    for U in props:
        psi = U @ psi
    return props, float(abs(psi[-1]) ** 2)


def drives(slices):
    return [np.linspace(0.4, 1.5, slices), np.linspace(1.5, 0.4, slices), -np.linspace(0.4, 1.5, slices) * np.where(np.arange(slices) % 2, 0.3, 1)]


FID_TOL = 2e-6          # the square root of a singular matrix has half of the digits only


def ising(cfg, ctx, state):
    from quocslib.optimalcontrolproblems.IsingModelProblem import IsingModel
    a = {}
    if cfg["slices"] is not None:
        a = dict(n_qubits=cfg["n"], J=cfg["J"], g=cfg["g"], n_slices=cfg["slices"])
    if cfg["maxi"] is not None:
        a["is_maximization"] = cfg["maxi"]
    n, J, g, slices = cfg["n"], cfg["J"] if cfg["J"] is not None else 1, cfg["g"] if cfg["g"] is not None else 2, cfg["slices"] or 100
    obj = IsingModel(a) if a else IsingModel()
    drift, control = ising_hamiltonians(n, J, g)
    for what, got, want in (("drift", obj.get_drift_Hamiltonian(), drift), ("control", obj.get_control_Hamiltonians(), control)):
        if not np.allclose(got, want, atol=1e-12):
            raise Violation("Ising model {0}: wrong {1} Hamiltonian".format(a, what))
    for what, got, k in (("initial", obj.get_initial_state(), 0), ("target", obj.get_target_state(), 2 ** n - 1)):
        want = np.zeros((2 ** n, 2 ** n))
        want[k, k] = 1
        if not np.allclose(got, want, atol=1e-12):
            raise Violation("Ising model {0}: wrong {1} state".format(a, what))
    pool = [(drives(slices)[0], 1.0), (drives(slices)[1], 1.0), (drives(slices)[0], 0.6), (drives(slices)[2], 1.0)]
    if n >= 5:
        pool = pool[:3]
    cache = state.setdefault("ising", {})
    ops = [(f, i) for f in ("value", "propagator") for i in range(len(pool))]
    hist, values = sequences(ctx, cfg, ops), []
    for k, (f, i) in enumerate(hist):
        u, T = pool[i]
        tg = grid(slices, T)
        key = (n, J, g, slices, i)
        if key not in cache:
            cache[key] = ising_reference(n, J, g, u, T)
        props, fid = cache[key]
        what = "Ising model {0}, step {1} of the history {2}".format(a, k + 1, hist[:k + 1])
        if f == "value":
            v = obj.get_FoM(pulses=[u.copy()], parameters=[], timegrids=[tg])["FoM"]
            want = fid if cfg["maxi"] else -fid
            near(v, want, FID_TOL, "{0}", what)
            values.append(want)
        else:
            got = obj.get_propagator(pulses_list=[u.copy()], time_grids_list=[tg], parameters_list=[])
            if len(got) != slices or not all(np.allclose(x, y, atol=1e-9) for x, y in zip(got, props)):
                raise Violation("{0}: wrong propagators".format(what))
    if len(obj.FoM_list) != len(values) or not H.close(obj.FoM_list, values, FID_TOL):
        raise Violation("Ising model: the recorded values are {0}, they are {1}".format(obj.FoM_list, values))
    return tuple(hist)



def isingAD(cfg, ctx, state):
    H.setup_jax()
    import jax
    jax.config.update("jax_enable_x64", True)
    import jax.numpy as jnp
    from quocslib.optimalcontrolproblems.IsingModelADProblem import IsingModel
    n, J, g, slices = (cfg[x] for x in ("n", "J", "g", "slices"))
    obj = IsingModel(dict(n_qubits=n, J=J, g=g, n_slices=slices))
    pool = [(d, T) for d in drives(slices) for T in (1.0, 0.6)]
    hist = sequences(ctx, cfg, list(range(len(pool))))
    for k, i in enumerate(hist):
        u, T = pool[i]
        fid = ising_reference(n, J, g, u, T)[1]
        v = obj.get_FoM(pulses=jnp.array([u]), parameters=jnp.array([]), timegrids=jnp.array([grid(slices, T)]))["FoM"]
        near(float(v), fid, 1e-6, "differentiable Ising model n={0}, J={1}, g={2}, slices={3}, evaluation {4} of {5}", n, J, g, slices, k + 1, hist)
    return tuple(hist)


def rosen(cfg, ctx, state):
    from quocslib.optimalcontrolproblems.RosenbrockProblem import Rosenbrock
    obj = (Rosenbrock(), Rosenbrock({}), Rosenbrock({"is_noisy": False}))[ctx.choose(3, "args", free=True)]
    pool = list(itertools.product((-1.2, 0.0, 1.0, 2.5), repeat=min(cfg["n"], 3)))
    pool = [p + (0.7,) * (cfg["n"] - len(p)) for p in pool][::1 if cfg["n"] == 2 else 5]
    hist = sequences(ctx, cfg, pool)
    for k, x in enumerate(hist):
        want = sum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (1 - x[i]) ** 2 for i in range(len(x) - 1))
        for p in (list(x), np.array(x)):
            res = obj.get_FoM(pulses=[], parameters=p, timegrids=[])
            near(res["FoM"], want, 1e-10, "Rosenbrock of {0} after {1}", x, hist[:k])
            if not H.num_eq(res["std"], 0.0):
                raise Violation("Rosenbrock: the deviation is {0}".format(res["std"]))
    return tuple(hist)


# ---------------------------------------------------------------------------------------------------------------------
class Listening:
    """A bundled problem, and the values it gives"""
    def __init__(self, obj):
        self._obj, self.calls = obj, []

    def __getattr__(self, name):
        return getattr(self._obj, name)

    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        res = self._obj.get_FoM(pulses=pulses, parameters=parameters, timegrids=timegrids)
        self.calls.append(([np.array(p, dtype=float) for p in pulses], [float(p) for p in parameters], [np.array(t) for t in timegrids], res["FoM"]))
        return res


def optimize(settings_, problem, ctx):
    from quocslib.Optimizer import Optimizer
    H.reset_results()
    env.CLOCK.advance(2.0)
    opt = Optimizer(settings_, problem)
    opt.execute()
    ctx.steps += len(problem.calls)
    return opt


def best_of(problem, maxi):
    return (max if maxi else min)(c[3] for c in problem.calls)


def grape(cfg, ctx, state):
    """GRAPE on the Ising model that stops by a limit; then the user evaluates controls of the run in any order"""
    from quocslib.optimalcontrolproblems.IsingModelProblem import IsingModel
    n, slices = cfg["n"], cfg["slices"]
    p = Listening(IsingModel(dict(n_qubits=n, J=1, g=2, n_slices=slices, is_maximization=cfg["maxi"])))
    st = H.build(dict(alg="GRAPE", controls=([H.piecewise("drive", "T", bins=slices, lo=-100, hi=100, var=3.0)], [], [H.time_("T", 1.0)]),
                      dir="max" if cfg["maxi"] else "min", total={"max_eval_total": cfg["limit"]}))
    opt = optimize(st, p, ctx)
    # the gradient of a maximization points to larger values too
    check(p.calls, n, 1, 2, cfg["maxi"], "GRAPE with {0} evaluations".format(cfg["limit"]))
    made = len(p.calls)
    best = opt.get_optimization_algorithm().get_best_controls()
    todo = [("best", best["pulses"][0])] + [("evaluation {0}".format(k + 1), p.calls[k][0][0]) for k in sorted({0, made - 1})]
    order = ctx.pick(list(itertools.permutations(range(len(todo)))), "order", free=True)
    for j in order:
        p.get_FoM(pulses=[np.array(todo[j][1], dtype=float)], parameters=[], timegrids=[best["timegrids"][0]])
    check(p.calls, n, 1, 2, cfg["maxi"], "after GRAPE with {0} evaluations, the user evaluates {1}".format(cfg["limit"], [todo[j][0] for j in order]))
    near(p.calls[made + order.index(0)][3], best_of(Listening_(p.calls[:made]), cfg["maxi"]), FID_TOL, "GRAPE: best controls")
    return (made, tuple(order))


class Listening_:
    def __init__(self, calls):
        self.calls = calls


def check(calls, n, J, g, maxi, what):
    for k, (pulses, _, tgs, v) in enumerate(calls):
        fid = ising_reference(n, J, g, pulses[0], tgs[0][-1])[1]
        near(v, fid if maxi else -fid, FID_TOL, "{0}, evaluation {1}", what, k + 1)


def search(cfg, ctx, state):
    from quocslib.optimalcontrolproblems.IsingModelProblem import IsingModel
    si = ctx.choose(2, "si", free=True) + 1
    n, slices = cfg["n"], cfg["slices"]
    p = Listening(IsingModel(dict(n_qubits=n, J=1, g=2, n_slices=slices, is_maximization=cfg["maxi"])))
    st = H.build(dict(alg="dCRAB", dsm=cfg["dsm"], si=si, dir="max" if cfg["maxi"] else "min", crit={"max_eval": cfg["limit"]},
                      controls=([H.fourier("drive", "T", bins=slices, vec=1, var=2.0)], [], [H.time_("T", 1.0)])))
    opt = optimize(st, p, ctx)
    check(p.calls, n, 1, 2, cfg["maxi"], "dCRAB")
    best = opt.get_optimization_algorithm().get_best_controls()
    want = best_of(p, cfg["maxi"])
    near(p.get_FoM(pulses=best["pulses"], parameters=best["parameters"], timegrids=best["timegrids"])["FoM"], want, FID_TOL, "dCRAB: best controls")
    return len(p.calls)


def qsearch(cfg, ctx, state):
    from quocslib.optimalcontrolproblems.OneQubitProblem import OneQubit
    params = ctx.choose(2, "parameters", free=True)
    a = {"optimization_factor": 1.0 if cfg["maxi"] else -1.0}
    if cfg["drift"] is not None:
        a.update(include_drift=True, linear_drift_val_over_iteration=cfg["drift"])
    p = Listening(OneQubit(a))
    st = H.build(dict(alg="dCRAB", dsm=cfg["dsm"], si=2, dir="max" if cfg["maxi"] else "min", crit={"max_eval": cfg["limit"]},
                      controls=([H.fourier("drive", "T", bins=7, vec=1, var=2.0)], [H.param("delta1", 0.0)] if params else [], [H.time_("T", 1.5)])))
    optimize(st, p, ctx)
    for k, (pulses, par, tgs, v) in enumerate(p.calls):
        psi = np.array([1.0, 0.0], dtype=complex)
        for x in pulses[0]:
            psi = slice_((par[0] if params else 0.1) * SZ / 2 + (x + 0.1) * SX / 2, tgs[0][1] - tgs[0][0]) @ psi
        inf = 1 - abs(np.vdot(np.array([1, -1j]) / np.sqrt(2), psi)) ** 2 + (cfg["drift"] or 0) * k
        near(v, -a["optimization_factor"] * inf, 1e-9, "dCRAB with one qubit {0}, evaluation {1}", a, k + 1)
    return len(p.calls)
