"""C24: piecewise time evolution is the ordered product of slice propagators"""
import itertools

import numpy as np

from .. import harness as H, shapes as S
from ..explore import Violation

X, Y, Z = np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.diag([1.0, -1.0]).astype(complex)
TOL = 1e-9


def matrices(dim):
    """Hermitian matrices that do not commute, with complex and degenerate ones, and one that is not Hermitian"""
    if dim == 2:
        out = [Z, X, Y, 0.3 * X + 0.5 * Y - 0.2 * Z + 0.1 * np.eye(2)]
    elif dim == 3:
        lad = np.diag([1.0, np.sqrt(2)], 1).astype(complex)
        out = [np.diag([0.0, 1.0, 1.7]).astype(complex), lad + lad.T, 1j * (lad - lad.T),
               np.array([[0, 0, 1], [0, 0.5, 1j], [1, -1j, 0]], complex)]
    else:
        out = [np.kron(Z, np.eye(2)) + 0.5 * np.kron(np.eye(2), Z) + 0.2 * np.kron(Z, Z), np.kron(X, np.eye(2)),
               np.kron(np.eye(2), Y), np.kron(X, Y) - 0.4 * np.kron(Y, X)]
    return out + [np.zeros((dim, dim), complex)]


def starts(dim):
    u = np.eye(dim, dtype=complex)
    g = np.exp(2j * np.pi * np.outer(range(dim), range(dim)) / dim) / np.sqrt(dim)
    rect = np.arange(1, dim + 1, dtype=complex).reshape(dim, 1) * (1 + 0.5j)
    return [u, g, rect]


def expm(m):
    """Exponential by scaling, Taylor series and squaring (independent of the one under test)"""
    m = np.asarray(m, dtype=np.clongdouble)
    k = max(0, int(np.ceil(np.log2(max(1e-30, float(np.abs(m).sum(axis=1).max()))))) + 3)
    a = m / 2 ** k
    out = term = np.eye(len(m), dtype=np.clongdouble)
    for j in range(1, 22):
        term = term @ a / j
        out = out + term
    for _ in range(k):
        out = out @ out
    return out.astype(complex)


def jobs(tier, seed):
    thorough = tier == "thorough"
    out = []
    for ad in (1, 0):
        for dim in (2, 3, 4):
            for k in (1, 2, 3, 0):
                for n in (1, 2, 3) if ad else (1, 2, 3, 4, 0) if thorough else (1, 2, 3, 0):
                    out.append({"cfg": dict(id=len(out), ad=ad, dim=dim, k=k, n=n), "bound": None,
                                "chunk": 30 if not ad else 60})
    for dim in (2, 3):
        out.append({"cfg": dict(id=len(out), ad=0, dim=dim, k=1, n=3, lossy=1), "bound": None})
        out.append({"cfg": dict(id=len(out), ad=1, dim=dim, k=1, n=3, lossy=1), "bound": None})
    for dim in (2, 3, 4):
        out.append({"cfg": dict(id=len(out), ad=0, dim=dim, k=2, n=40, long=1), "bound": None})
        out.append({"cfg": dict(id=len(out), ad=1, dim=dim, k=2, n=40, long=1), "bound": None})
    return out


def run(cfg, ctx, state):
    from quocslib.timeevolution.piecewise_integrator import pw_evolution, pw_final_evolution
    dim, K, n = cfg["dim"], cfg["k"], cfg["n"]
    ms = matrices(dim)
    A = ctx.pick(ms, "drift", free=True)
    B = list(ctx.pick([c for c in itertools.permutations(ms[:4], K)] if (K < 3 and not cfg["ad"]) or state["tier"] == "thorough"
                      else [c for c in itertools.combinations(ms[:4], K)], "controls", free=True)) if K else []
    dt = ctx.pick([0.1, 1.3] if cfg["ad"] else [0.1, 1.3, 0.0, 1e-4], "dt", free=True)
    if cfg.get("lossy"):
        A = A - 0.4j * np.diag(range(dim))
    U0s = starts(dim) if not cfg["ad"] else [starts(dim)[(n + K) % 3]]
    A, B, U0s = A.copy(), [b.copy() for b in B], [u.copy() for u in U0s]
    if cfg.get("long"):
        vecs = [np.cos(np.arange(K * n) * f) * a for f in (0.3, 1.1) for a in (0.5, 3.0)]
    else:
        vecs = S.vectors(K * n, (0.0, 1.0, -0.7), {(0, "quick"): 82, (1, "quick"): 10}.get((cfg["ad"], state["tier"]), 750))
        vecs = list(vecs)
        if cfg["ad"] and state["tier"] == "quick":
            vecs = vecs[:1] + vecs[1::max(1, len(vecs) // 12)]
    if cfg["ad"]:
        H.setup_jax(disable_jit=False)
        import jax
        jax.config.update("jax_enable_x64", True)
        import jax.numpy as jnp
        from quocslib.timeevolution.piecewise_integrator_AD import pw_evolution_AD, pw_final_evolution_AD
    before = [A.copy(), [b.copy() for b in B], [u.copy() for u in U0s]]
    for x in vecs:
        drive = np.array(x, dtype=float).reshape(K, n)
        if not cfg["ad"] and ctx.steps % 3 == 1:
            # more amplitudes than slices: only the first slices are evolved
            drive = np.hstack([drive, 7.0 * np.ones((K, 1))])
        d0 = drive.copy()
        want = [expm(-1j * dt * sum([drive[k, i] * B[k] for k in range(K)], A)) for i in range(n)]
        what = "dimension {0}, drift {1}, controls {2}, amplitudes {3}, {4} slices of {5}".format(
            dim, A.tolist(), [b.tolist() for b in B], drive.tolist(), n, dt)
        if cfg["ad"]:
            store = jnp.zeros((n, dim, dim), dtype=complex)
            if n:
                check(pw_evolution_AD(store, jnp.asarray(drive), A, B, n, dt), want, "pw_evolution_AD: " + what, 1e-7)
        else:
            mark = 5.0 * np.ones((dim, dim), complex)
            for store in ([mark.copy() for _ in range(n + 1)], np.array([mark] * (n + 1)))[ctx.steps % 2:][:1]:
                got = pw_evolution(store, drive, A, B, n, dt)
                check(got[:n], want, "pw_evolution: " + what)
                check(store[:n], want, "storage of pw_evolution: " + what)
                if not np.array_equal(store[n], mark):
                    raise Violation("pw_evolution changes the storage behind the last slice: " + what)
        if not cfg.get("lossy"):
            for u in want:
                assert np.allclose(u @ u.conj().T, np.eye(dim))
        for u0 in U0s if state["tier"] == "thorough" else [U0s[ctx.steps % len(U0s)]]:
            final = u0
            for u in want:
                final = u @ final
            if cfg["ad"]:
                got = pw_final_evolution_AD(jnp.asarray(drive), A, B, n, dt, u0)
            else:
                got = pw_final_evolution(drive, A, B, n, dt, u0)
            check([got], [final], "final evolution{0} from {1}: {2}".format(" (AD)" if cfg["ad"] else "", u0.tolist(), what),
                  1e-7 if cfg["ad"] else TOL)
        ctx.steps += 1
        ctx.state(cfg["id"], A.tolist(), dt, tuple(x))
        same = (np.array_equal(A, before[0]) and all(np.array_equal(p, q) for p, q in zip(B, before[1]))
                and len(B) == K and all(np.array_equal(p, q) for p, q in zip(U0s, before[2])) and np.array_equal(drive, d0))
        if not same:
            raise Violation("the inputs are changed: " + what)
    return cfg["id"]


def check(got, want, what, tol=TOL):
    got = [np.asarray(g) for g in got]
    if len(got) != len(want):
        raise Violation("{0}: {1} propagators instead of {2}".format(what, len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        if g.shape != w.shape or not np.all(np.isfinite(g)) or np.abs(g - w).max() > tol * max(1.0, np.abs(w).max()):
            raise Violation("{0}: number {1} is {2}, it has to be {3}".format(what, i, g.tolist(), w.tolist()))
