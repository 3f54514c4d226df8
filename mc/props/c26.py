"""C26: quantum and signal tools compute what they are named for"""
import itertools
import os

import numpy as np

from .. import harness as H
from ..explore import Violation
from .c24 import X, Y, Z, expm, matrices

AMPS = (0, 1, -1, 1j, 1 - 1j)


def jax_():
    H.setup_jax(disable_jit=False)
    import jax
    jax.config.update("jax_enable_x64", True)
    import jax.numpy as jnp
    return jnp


def near(got, want, tol, fmt, *args):
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape or not np.all(np.isfinite(got)) or (got.size and np.abs(got - want).max() > tol):
        raise Violation((fmt.format(*args)) + ": {0}, it has to be {1}".format(got.tolist(), want.tolist()))


# ---------------------------------------------------------------------------------------------------------------------
def jobs(tier, seed):
    thorough = tier == "thorough"
    out = []

    def add(**c):
        out.append({"cfg": dict(c, id=len(out)), "bound": None, "chunk": c.pop("chunk", 40)})
    for dims in [(2,), (3,), (2, 2), (2, 3), (3, 2), (2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3)] + ([(2, 3, 4), (2, 2, 2, 2), (1, 3, 2)] if thorough else [(1, 3, 2)]):
        for r in range(len(dims) + 1):
            for pos in itertools.permutations(range(len(dims)), r):
                add(tool="ptrace", dims=dims, pos=pos, chunk=4)
    for dim in (2, 3, 4):
        add(tool="fidelity", dim=dim, chunk=4)
        add(tool="sqrtm", dim=dim, chunk=8)
    for dim in (2, 3, 5, 8):
        add(tool="displace", dim=dim)
    for n in (2, 3, 4, 7):
        for cols in (1, 2, 3):
            add(tool="resample", n=n, cols=cols)
    for tau in (0.1, 1.0, 20.0):
        for c in (0.0, 0.5, 4.0):
            for x0 in (0.0, -1.5):
                add(tool="noise", tau=tau, c=c, x0=x0)
    for n in (1, 2, 3, 4):
        add(tool="linear", n=n)
    add(tool="plot")
    return out


def run(cfg, ctx, state):
    cwd = os.getcwd()
    out = globals()[cfg["tool"]](cfg, ctx, state)
    os.chdir(cwd)
    return (cfg["id"], out)


# ---------------------------------------------------------------------------------------------------------------------
def ref_trace(m, dims, pos):
    """Sum over the basis of the traced subsystems, element by element"""
    keep = [i for i in range(len(dims)) if i not in pos]
    n = int(np.prod([dims[i] for i in keep])) if keep else 1
    out = np.zeros((n, n), complex)
    idx = list(itertools.product(*[range(d) for d in dims]))

    def small(t):
        k = 0
        for i in keep:
            k = k * dims[i] + t[i]
        return k
    for a, ia in enumerate(idx):
        for b, ib in enumerate(idx):
            if all(ia[p] == ib[p] for p in pos):
                out[small(ia), small(ib)] += m[a, b]
    return out


def ptrace(cfg, ctx, state):
    jnp = jax_()
    from quocslib.tools.partial_trace import jax_partial_trace_transform
    dims, pos = cfg["dims"], cfg["pos"]
    d = int(np.prod(dims))
    kind = ctx.choose(2, "types", free=True)
    f = jax_partial_trace_transform(list(dims) if kind else tuple(dims), list(pos) if kind else tuple(pos))
    dense = np.arange(d * d).reshape(d, d) * (1.0 - 0.3j) + np.eye(d) * 2j
    todo = [dense, dense.T.conj() @ dense / d ** 4]
    if kind:
        # all elements of a basis: by linearity every state
        for i, j in itertools.product(range(d), repeat=2):
            e = np.zeros((d, d), complex)
            e[i, j] = 1.0
            todo.append(e)
    for m in todo:
        near(f(jnp.asarray(m)), ref_trace(m, dims, pos), 1e-9 * max(1, np.abs(m).max() * d),
             "partial trace over {0} of {1} with the dimensions {2}", pos, m.tolist() if d < 4 else "a matrix", dims)
        ctx.steps += 1
    for wrong in ((len(dims),), (-1,), (0, len(dims) + 2)):
        try:
            jax_partial_trace_transform(list(dims), list(wrong))
        except ValueError:
            continue
        raise Violation("a partial trace over {0} of {1} subsystems is accepted".format(wrong, len(dims)))
    ctx.state(cfg["id"], kind)
    return len(todo)


def states(dim):
    out = []
    for v in itertools.product(AMPS[:4] if dim > 2 else AMPS, repeat=dim):
        if v[0] in (0, 1) and any(v):
            v = np.array(v, complex) / np.linalg.norm(v)
            out.append(np.outer(v, v.conj()))
    return out


def ref_sqrt(m):
    w, v = np.linalg.eigh(m)
    return (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T


def ref_fidelity(a, b):
    """(sum of the singular values of sqrt(a) sqrt(b))^2"""
    return float(np.linalg.svd(ref_sqrt(a) @ ref_sqrt(b), compute_uv=False).sum()) ** 2


def mixed(dim):
    ss = states(dim)
    out = [ss[0], ss[len(ss) // 2], ss[-1], np.eye(dim) / dim, 0.7 * ss[1] + 0.3 * ss[-2], 0.2 * ss[0] + 0.5 * ss[-1] + 0.3 * ss[len(ss) // 3],
           np.diag(np.arange(1, dim + 1)).astype(complex) / (dim * (dim + 1) / 2), 0.999 * ss[0] + 0.001 * ss[-1]]
    return [np.array(m, complex) for m in out]


def fidelity(cfg, ctx, state):
    jnp = jax_()
    from quocslib.tools.fidelities import fidelity_AD, fidelity_not_diff_due_to_sqrtm
    from quocslib.tools.operations import _sqrtm, state_to_dm
    from quocslib.utils.jax_utils import fidelity_funct
    from quocslib.optimalcontrolproblems.IsingModelProblem import fidelity_funct as ising_fidelity
    dim = cfg["dim"]
    pool = mixed(dim) + (states(dim)[:40] if state["tier"] == "thorough" else states(dim)[2:12])
    a = ctx.pick(pool, "a", free=True)
    for b in pool:
        want = ref_fidelity(a, b)
        what = "fidelity of {0} and {1} ({2})"
        got = float(fidelity_AD(_sqrtm(jnp.asarray(a)), jnp.asarray(b)))
        near(got, want, 2e-6, what, a.tolist(), b.tolist(), "fidelity_AD")
        near(float(fidelity_not_diff_due_to_sqrtm(jnp.asarray(a), jnp.asarray(b))), np.sqrt(want), 2e-4, what, a.tolist(), b.tolist(),
             "fidelity_not_diff_due_to_sqrtm")
        if not -1e-7 <= got <= 1 + 1e-6:
            raise Violation("fidelity {0} of {1} and {2}".format(got, a.tolist(), b.tolist()))
        near(float(fidelity_funct(jnp.asarray(a), jnp.asarray(b))), abs(np.trace(a.conj().T @ b)), 1e-9, what, a.tolist(), b.tolist(), "overlap")
        ctx.steps += 1
    near(ref_fidelity(a, a), 1.0, 1e-6, "reference")
    ctx.state(dim, a.tolist())
    return round(got, 4)


def sqrtm(cfg, ctx, state):
    jnp = jax_()
    from quocslib.tools.operations import _sqrtm, state_to_dm
    dim = cfg["dim"]
    vecs = [np.array(v, complex) for v in itertools.product(AMPS[:4] if dim > 3 else AMPS, repeat=dim) if any(v)]
    part = ctx.choose(8, "part", free=True)
    for v in vecs[part::8]:
        v = v / np.linalg.norm(v)
        m = np.asarray(state_to_dm(jnp.asarray(v)))
        near(m, np.outer(v, v.conj()), 1e-12, "density matrix of {0}", v.tolist())
        for mm in (m, 0.8 * m + 0.2 * np.eye(dim) / dim, 4.0 * m, 0.5 * m + 0.5 * np.diag([1.0] + [0.0] * (dim - 1))):
            s = np.asarray(_sqrtm(jnp.asarray(mm)))
            near(s @ s, mm, 1e-7, "square of the square root of {0}", mm.tolist())
            near(s, ref_sqrt(mm), 1e-6, "square root of {0}", mm.tolist())
            ctx.steps += 1
        ctx.state(dim, v.tolist())
    return part


def displace(cfg, ctx, state):
    jnp = jax_()
    from quocslib.tools.operations import _displace
    dim = cfg["dim"]
    a = np.diag(np.sqrt(np.arange(1, dim)), 1).astype(complex)
    alpha = ctx.pick([0.0, 1.0, -0.4, 0.5j, 0.3 - 0.8j, -1.2 + 0.1j, 2.0 + 1.0j], "alpha", free=True)
    got = np.asarray(_displace(jnp.asarray(a), alpha))
    near(got, expm(alpha * a.conj().T - np.conj(alpha) * a), 1e-8, "displacement by {0} in dimension {1}", alpha, dim)
    near(got @ got.conj().T, np.eye(dim), 1e-9, "displacement by {0} times its adjoint", alpha)
    inv = np.asarray(_displace(jnp.asarray(a), -alpha))
    near(inv @ got, np.eye(dim), 1e-9, "displacement by {0} and back", alpha)
    ctx.steps += 1
    ctx.state(dim, alpha)
    return dim


# ---------------------------------------------------------------------------------------------------------------------
def resample(cfg, ctx, state):
    os.environ["MPLBACKEND"] = "Agg"
    from quocslib.tools.pulsetools import resample_pulse
    n, cols = cfg["n"], cfg["cols"]
    dt = ctx.pick([0.1, 0.5, 1.0, 2.5], "dt", free=True)
    # times on, between, before and behind the old grid, finer and coarser, unordered
    off = ctx.pick([0.0, 0.2, -0.3, 0.49, 0.51, 0.5, -5.0, 3.3], "offset", free=True)
    step = ctx.pick([1.0, 0.25, 2.0, -1.0], "step", free=True)
    m = ctx.pick([1, 2, n, 2 * n + 1], "points", free=True)
    pulse = np.array([[(-1) ** (i + j) * (1.0 + i) + 10.0 * j for j in range(cols)] for i in range(n)])
    new = (off + step * np.arange(m)) * dt + (n * dt if step < 0 else 0.0)
    p0, t0 = pulse.copy(), new.copy()
    got = np.asarray(resample_pulse(dt, pulse, new))
    if not (np.array_equal(pulse, p0) and np.array_equal(new, t0)):
        raise Violation("resampling changes its inputs")
    if got.shape != (m, cols):
        raise Violation("resampling {0} times of {1} pulses gives {2}".format(m, cols, got.shape))
    for k, t in enumerate(new):
        pos = t / dt
        near_ = sorted({int(np.clip(np.floor(pos + 0.5 - 1e-6), 0, n - 1)), int(np.clip(np.floor(pos + 0.5 + 1e-6), 0, n - 1))})
        ok = [i for i in near_ if np.allclose(got[k], pulse[i])]
        if not ok:
            raise Violation("a pulse {0} with the step {1} resampled at {2} is {3}, the nearest grid point has {4}".format(
                pulse.tolist(), dt, t, got[k].tolist(), [pulse[i].tolist() for i in near_]))
        ctx.steps += 1
    ctx.state(cfg["id"], dt, off, step, m)
    return m


def noise(cfg, ctx, state):
    from quocslib.noiseprocesses.ornsteinuhlenbeckprocess import OrnsteinUhlenbeck
    tau, c, x0 = cfg["tau"], cfg["c"], cfg["x0"]
    dt, n = ctx.pick([(0.01, 5), (0.1, 3), (0.1, 1), (0.5, 40), (0.3, 7), (1.0, 2)], "grid", free=True)
    frac = ctx.pick([0.0, 0.4], "rest", free=True)
    seed = ctx.choose(3, "seed", free=True)
    T = n * dt + frac * dt
    mu, s = np.exp(-dt / tau), np.sqrt(c * tau / 2 * (1 - np.exp(-2 * dt / tau)))

    def path(z):
        out = [x0]
        for zi in z:
            out.append(out[-1] * mu + s * zi)
        return np.array(out)
    ou = OrnsteinUhlenbeck(tau=tau, c=c, x0=x0, dt=dt)
    np.random.seed(seed)
    got = np.asarray(ou.get_noise_realization(T))
    z = np.random.RandomState(seed).randn(200)
    near(got, path(z[:n - 1]), 1e-9, "noise with tau {0}, strength {1}, start {2}, step {3} over {4}", tau, c, x0, dt, T)
    np.random.seed(seed)
    many = np.asarray(ou.get_ensemble_noise_realization(T, 3))
    near(many, [path(z[k * (n - 1):(k + 1) * (n - 1)]) for k in range(3)], 1e-9, "ensemble with tau {0}, strength {1}, start {2}, step {3}", tau, c, x0, dt)
    again = np.asarray(ou.get_noise_realization(T))
    if n > 2 and c and np.allclose(again, got):
        raise Violation("two realizations are equal")
    if len(again) != n or not np.isclose(again[0], x0):
        raise Violation("a second realization has {0} slices and starts at {1}".format(len(again), again[0]))
    d = OrnsteinUhlenbeck()
    if (d.tau, d.c, d.x0, d.dt) != (1.0, 1.0, 0.0, 0.01):
        raise Violation("defaults of the noise: {0}".format((d.tau, d.c, d.x0, d.dt)))
    ctx.steps += 3
    ctx.state(cfg["id"], dt, n, frac, seed)
    return n


def linear(cfg, ctx, state):
    from quocslib.tools.linearalgebra import commutator, gram_schmidt
    n = cfg["n"]
    rows = [ctx.pick([(1.0, 0.5, 0.0, -2.0), (0.0, 1.0, 3.0, 1.0), (0.1, -1.0, 1.0, 0.0), (2.0, 2.0, -1.0, 5.0), (-3.0, 0.0, 0.2, 1.0)],
                     "row", free=True)[:n] for _ in range(n)]
    A = np.array(rows)
    if abs(np.linalg.det(A)) > 1e-2:
        G = np.asarray(gram_schmidt(A.copy()))
        near(G.T @ G, np.eye(n), 1e-7, "Gram matrix of the orthonormalized columns of {0}", rows)
        # the first k columns span the same space, in the same direction
        R = G.T @ A
        if np.abs(np.tril(R, -1)).max() > 1e-7 or np.any(np.diag(R) <= 0):
            raise Violation("orthonormalization of {0} changes the spans: {1}".format(rows, R.tolist()))
    B = np.array(rows[::-1]) + 1j * np.eye(n)
    A0, B0 = A.copy(), B.copy()
    want = np.array([[sum(A[i, k] * B[k, j] - B[i, k] * A[k, j] for k in range(n)) for j in range(n)] for i in range(n)])
    near(commutator(A, B), want, 1e-9, "commutator of {0} and {1}", A.tolist(), B.tolist())
    if not (np.array_equal(A, A0) and np.array_equal(B, B0)):
        raise Violation("the commutator changes its arguments")
    ctx.steps += 1
    ctx.state(n, rows)
    return n


def plot(cfg, ctx, state):
    os.environ["MPLBACKEND"] = "Agg"
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from quocslib.tools.pulsetools import visualise_pulse
    n, cols = ctx.pick([(2, 1), (3, 2), (5, 3)], "shape", free=True)
    dt = ctx.pick([0.1, 2.0], "dt", free=True)
    pulse = np.array([[(-1) ** (i + j) * (1.0 + i) + 0.5 * j for j in range(cols)] for i in range(n)])
    f = visualise_pulse(dt, pulse)
    ax = f.axes[0]
    if len(ax.containers) != cols:
        raise Violation("the figure of {0} pulses shows {1}".format(cols, len(ax.containers)))
    for j, bars in enumerate(ax.containers):
        xs = [b.get_x() + b.get_width() / 2 for b in bars]
        ys = [b.get_height() for b in bars]
        if not (np.allclose(xs, dt * np.arange(n)) and np.allclose(ys, pulse[:, j])):
            raise Violation("pulse {0} {1} is drawn at {2} with {3}".format(j, pulse[:, j].tolist(), xs, ys))
    plt.close("all")
    ctx.steps += 1
    ctx.state(n, cols, dt)
    return cols
