"""Independent definitions of what QuOCS documents: bases, pulse shaping, limits."""
import math

import numpy as np


def _erf(x):
    return np.array([math.erf(v) for v in np.asarray(x, dtype=float).ravel()])


def time_grid(T, n):
    """Equidistant grid from 0 to T"""
    if n == 1:
        return np.array([0.0])
    return np.array([T * i / (n - 1) for i in range(n)])


def n_coefficients(pulse):
    b = pulse["basis"]
    k = b.get("basis_vector_number", 1)
    name = b["basis_name"]
    if name == "PiecewiseBasis":
        return pulse["bins_number"]
    if name in ("Fourier", "Chebyshev", "Walsh"):
        return 2 * k
    if name == "Sinc":
        return k
    if name == "Sigmoid":
        return k + 1
    if name in ("SigmoidSigmas", "SigmoidTimeDep"):
        return 2 * k + 1
    if name == "SigmoidAllParas":
        n = k + 1
        n += k if b.get("tau_variation", 1e-20) > 1e-10 else 0
        n += k if b.get("sigma_variation", 1e-20) > 1e-10 else 0
        return n
    raise ValueError(name)


def step_variation(pulse):
    """Initial variation of the coefficients"""
    n = n_coefficients(pulse)
    a = pulse["amplitude_variation"]
    if pulse["basis"]["basis_name"] in ("Fourier", "Chebyshev", "Walsh", "Sinc"):
        a = a / math.sqrt(2)
    return np.full(n, a)


def ramp(t, t0, sigma):
    return 0.5 * (1 + _erf((t - t0) / (math.sqrt(2) * sigma)))


def expansion(pulse, x, w, T):
    """The update of one super-iteration: coefficients x, super-parameters w, time T"""
    b = pulse["basis"]
    name = b["basis_name"]
    n = pulse["bins_number"]
    t = time_grid(T, n)
    x = np.asarray(x, dtype=float)
    k = b.get("basis_vector_number", 1)
    u = np.zeros(n)
    if name == "PiecewiseBasis":
        return x.copy()
    if name in ("Fourier", "Walsh"):        # far from the limits
        for i in range(k):
            ph = 2 * math.pi * w[i] * t / T
            u = u + x[2 * i] * np.sin(ph) + x[2 * i + 1] * np.cos(ph)
        return u
    if name == "Chebyshev":
        for i in range(k):
            arg = np.clip(-1 + 1e-10 + 2 * (1 - 1e-10) * t / T, -1, 1)
            u = u + x[2 * i] * np.cos(w[i] * np.arccos(arg) + x[2 * i + 1])
        return u
    if name == "Sinc":
        om = b.get("basis_max", 1.0)
        for i in range(k):
            u = u + x[i] * np.sinc(2 * om * (t - w[i]) / T)     # numpy's sinc has the pi inside
        return u
    # the family of sigmoids: first ramp at the offset, last ramp brings it back to zero before the end
    sigma = b.get("sigma", 0.1 if name == "Sigmoid" else 1e-10)
    offset = b.get("offset", 0.1 if name == "Sigmoid" else -10 * sigma)
    A = x[:k + 1]
    taus = np.array(w, dtype=float)
    sig = np.full(k, sigma)
    a = pulse["amplitude_variation"]
    dtau, dsig = np.zeros(k), np.zeros(k)
    use_tau = name == "SigmoidTimeDep" or (name == "SigmoidAllParas" and b.get("tau_variation", 1e-20) > 1e-10)
    use_sig = name == "SigmoidSigmas" or (name == "SigmoidAllParas" and b.get("sigma_variation", 1e-20) > 1e-10)
    rest = x[k + 1:]
    if use_tau:
        dtau = rest[:k] * b.get("tau_variation", 0.1) / a
        rest = rest[k:]
    if use_sig:
        dsig = np.abs(rest[:k]) * b.get("sigma_variation", 1.0)
        if name == "SigmoidAllParas":
            dsig = dsig / a
    if use_tau:
        taus = taus + dtau
        lo, hi = offset, T - offset
        if k == 1:
            taus = np.clip(taus, lo, hi)
        elif taus.min() < lo or taus.max() > hi:
            # the interval that spans the switching times and [offset, T - offset] is mapped onto the latter
            m, M = min(taus.min(), lo), max(taus.max(), hi)
            taus = T / 2 + (taus - (m + M) / 2) * (hi - lo) / (M - m)
    if use_sig:
        sig = sigma + dsig
        if offset >= 1e-10:
            for i in range(k):
                room = (T / 2 - abs(T / 2 - taus[i])) * sigma / offset - sigma
                sig[i] = sigma + room * (1 - math.cos(math.pi * dsig[i])) / 2
    u = A[0] * ramp(t, offset, sigma)
    for i in range(k):
        u = u + A[i + 1] * ramp(t, taus[i], sig[i])
    if name != "SigmoidAllParas" or offset >= 1e-10:
        u = u - np.sum(A) * ramp(t, T - offset, sigma)
    return u


def limits(pulse):
    lo, hi = pulse["lower_limit"], pulse["upper_limit"]
    return min(lo, hi), max(lo, hi)


def limit(pulse, u):
    """Cut or shrink to the amplitude limits"""
    lo, hi = limits(pulse)
    u = np.asarray(u, dtype=float)
    if not pulse.get("shrink_ampl_lim", False):
        return np.clip(u, lo, hi)
    top, bot = u.max(), u.min()
    if bot >= hi or top <= lo:
        return np.clip(u, lo, hi)
    if top > hi:        # keep the minimum, shrink towards it
        u = bot + (u - bot) * (hi - bot) / (top - bot)
        top = u.max()
        bot = u.min()
    if bot < lo:        # keep the maximum, shrink towards it
        u = top + (u - top) * (top - lo) / (top - bot)
    return u


def function_of(spec, t, default):
    """Initial guess or scaling function as an array. Returns a callable f(t, pulse)"""
    if spec is None:
        return lambda p: np.full(len(t), default)
    kind = spec["function_type"]
    if kind == "lambda_function":
        f = eval(spec["lambda_function"], {"np": np})
        if f.__code__.co_argcount == 2:
            return lambda p: ("full", f(t, p))
        return lambda p: f(t) + 0.0 * t
    if kind == "list_function":
        return lambda p: np.asarray(spec["list_function"], dtype=float)
    if kind == "python_file":
        f = spec["reference"]
        return lambda p: f(t)
    return lambda p: np.full(len(t), default)


def guess(pulse, t):
    return limit(pulse, function_of(pulse.get("initial_guess"), t, 0.0)(None))


STEPS = ["add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse"]


def build(pulse, update, base, T):
    """The pulse sent to the user: the configured shaping steps in their order"""
    t = time_grid(T, pulse["bins_number"])
    u = np.zeros(len(t))
    steps = pulse.get("shaping_options")
    for s in (STEPS if steps is None else steps):
        if s == "add_initial_guess":
            u = u + guess(pulse, t)
        elif s == "add_base_pulse":
            u = u + base
        elif s == "add_new_update_pulse":
            u = u + update
        elif s == "scale_pulse":
            f = function_of(pulse.get("scaling_function"), t, 1.0)(u)
            u = f[1] if isinstance(f, tuple) else f * u
        elif s == "limit_pulse":
            u = limit(pulse, u)
    return u


def time_of(pulse, times):
    return next(x["initial_value"] for x in times if x["time_name"] == pulse["time_name"])


def clip_parameter(par, v):
    return min(max(v, par["lower_limit"]), par["upper_limit"])
