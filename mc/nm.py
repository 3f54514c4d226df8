"""Nelder-Mead as published (Nelder & Mead 1965 / Lagarias 1998 / Gao & Han 2012), as a coroutine.

Yields ("eval", x) and is sent the value of x; yields ("iter", sim, fsim) after the initial simplex (number 0) and after
each iteration (sorted simplex and values)."""
import numpy as np


def coefficients(dim, adaptive):
    if adaptive:
        return 1.0, 1 + 2.0 / dim, 0.75 - 1.0 / (2 * dim), 1 - 1.0 / dim
    return 1.0, 2.0, 0.5, 0.5


def equal(a, b):
    return a == b or (a != a and b != b)


def order(sim, f, choose):
    """The vertices sorted by value, NaN last. The order of equal ones is left open by the algorithm."""
    ind = sorted(range(len(f)), key=lambda i: (f[i] != f[i], f[i]))
    ties = [i for i in ind if equal(f[i], f[ind[-1]])][::-1]
    w = ties[choose(len(ties)) if len(ties) > 1 else 0]
    rest = [i for i in ind if i != w]
    ties = [i for i in rest if equal(f[i], f[rest[0]])]
    b = ties[choose(len(ties)) if len(ties) > 1 else 0]
    ind = [b] + [i for i in rest if i != b] + [w]
    return [sim[i] for i in ind], [f[i] for i in ind]


class Mismatch(Exception):
    """The search under test does something else"""


def any_order(attempt, cap=4000):
    """attempt(choose) for the possible orders of ties until it does not raise Mismatch. Raises the last Mismatch"""
    prefix = []
    for _ in range(cap):
        taken, ns = [], []

        def choose(n):
            c = prefix[len(taken)] if len(taken) < len(prefix) else 0
            taken.append(c)
            ns.append(n)
            return c
        try:
            return attempt(choose)
        except Mismatch as ex:
            last = ex
        while taken and taken[-1] + 1 >= ns[len(taken) - 1]:
            taken.pop()
        if not taken:
            break
        prefix = taken[:-1] + [taken[-1] + 1]
    raise last


def search(sim0, adaptive, choose):
    sim = [np.array(x, dtype=float) for x in sim0]
    dim = len(sim) - 1
    rho, chi, psi, sigma = coefficients(dim, adaptive)
    f = []
    for x in sim:
        f.append((yield ("eval", x)))
    sim, f = order(sim, f, choose)
    yield ("iter", sim, f)
    while True:
        centre = sum(sim[:-1]) / dim
        worst = sim[-1]
        xr = centre + rho * (centre - worst)
        fr = yield ("eval", xr)
        shrink = False
        if fr < f[0]:
            xe = centre + rho * chi * (centre - worst)
            fe = yield ("eval", xe)
            if fe < fr:
                sim[-1], f[-1] = xe, fe
            else:
                sim[-1], f[-1] = xr, fr
        elif fr < f[-2]:
            sim[-1], f[-1] = xr, fr
        elif fr < f[-1]:
            xc = centre + psi * rho * (centre - worst)
            fc = yield ("eval", xc)
            if fc <= fr:
                sim[-1], f[-1] = xc, fc
            else:
                shrink = True
        else:
            xc = centre - psi * (centre - worst)
            fc = yield ("eval", xc)
            if fc < f[-1]:
                sim[-1], f[-1] = xc, fc
            else:
                shrink = True
        if shrink:
            for j in range(1, dim + 1):
                ties = [i for i in range(j, dim) if equal(f[i], f[j])] if j < dim else [j]
                i = ties[choose(len(ties)) if len(ties) > 1 else 0]
                sim[i], sim[j], f[i], f[j] = sim[j], sim[i], f[j], f[i]
                sim[j] = sim[0] + sigma * (sim[j] - sim[0])
                f[j] = yield ("eval", sim[j])
        sim, f = order(sim, f, choose)
        yield ("iter", sim, f)
