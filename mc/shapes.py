"""Pulses, parameters and control sets for the properties of the pulse construction, and the drive of the real Controls."""
import copy
import itertools
import logging
import os

import numpy as np

from . import harness as H, reference as R
from .explore import Violation

BASES = ["Fourier", "Chebyshev", "Sinc", "Sigmoid", "SigmoidSigmas", "SigmoidTimeDep", "SigmoidAllParas", "PiecewiseBasis"]


def pulse(basis, name="amp", time="T", bins=5, vec=1, lo=-1e3, hi=1e3, var=0.5, T=2.0, rng=None, basis_kw=None, **kw):
    """The settings of one pulse"""
    if rng is None:
        rng = {"Fourier": (0.1, 3.0), "Chebyshev": (0.2, 4.0), "Sinc": (0.0, T), "Walsh": (0.1, 3.0)}.get(
            basis, (0.1 * T, 0.9 * T))
    d = {"pulse_name": name, "lower_limit": lo, "upper_limit": hi, "bins_number": bins, "time_name": time,
         "amplitude_variation": var}
    if basis == "PiecewiseBasis":
        d["basis"] = {"basis_name": basis, "bins_number": bins}
    else:
        d["basis"] = {"basis_name": basis, "basis_vector_number": vec,
                      "random_super_parameter_distribution": H._dist(*rng)}
    d["basis"].update(basis_kw or {})
    d.update(kw)
    return d


class Rng:
    """Scripted random numbers"""
    def __init__(self, numbers):
        self.numbers, self.i = list(numbers), 0

    def _next(self, n):
        out = [self.numbers[(self.i + j) % len(self.numbers)] for j in range(n)]
        self.i += n
        return np.array(out)

    def get_random_numbers(self, n=1):
        return self._next(n)

    def get_normal_random_numbers(self, n=1):
        return self._next(n) - 0.5


def make(pulses, times, parameters, numbers=(0.37, 0.81, 0.05, 0.62, 0.5), is_AD=False):
    from quocslib.Controls import Controls
    logging.getLogger("oc_logger").setLevel(logging.CRITICAL)
    ctl = Controls(copy.deepcopy(pulses), copy.deepcopy(times), copy.deepcopy(parameters), rng=Rng(numbers), is_AD=is_AD)
    ctl.select_basis()
    return ctl


def super_parameters(ctl, pulses):
    """Super-parameters per pulse (None for piecewise ones)"""
    ws = [list(map(float, w)) for w in ctl.get_random_super_parameter()]
    return [None if p["basis"]["basis_name"] == "PiecewiseBasis" else ws.pop(0) for p in pulses]


def controls(ctl, x):
    p, t, c = ctl.get_controls_lists(np.array(x, dtype=float))
    return [H.arr(a) for a in p], [H.arr(a) for a in t], H.arr(list(c)).ravel()


class Model:
    """What Controls have to be: the reference of the same settings"""
    def __init__(self, pulses, times, parameters):
        self.pulses, self.times, self.parameters = pulses, times, parameters
        self.ns = [R.n_coefficients(p) for p in pulses]
        self.T = [R.time_of(p, times) for p in pulses]
        self.base = [np.zeros(p["bins_number"]) for p in pulses]
        self.values = [p["initial_value"] for p in parameters]
        self.n = sum(self.ns) + len(parameters)

    def parts(self, x):
        out, i = [], 0
        for n in self.ns:
            out.append(np.array(x[i:i + n], dtype=float))
            i += n
        return out, [float(v) for v in x[i:]]

    def updates(self, x, ws):
        return [R.expansion(p, xi, w, T) for p, xi, w, T in zip(self.pulses, self.parts(x)[0], ws, self.T)]

    def controls(self, x, ws):
        pulses = [R.build(p, u, b, T) for p, u, b, T in zip(self.pulses, self.updates(x, ws), self.base, self.T)]
        grids = [R.time_grid(T, p["bins_number"]) for p, T in zip(self.pulses, self.T)]
        pars = np.array([R.clip_parameter(d, v) for d, v in zip(self.parameters, self.parts(x)[1])])
        return pulses, grids, pars

    def commit(self, x, ws):
        """The update of a super-iteration becomes part of the base"""
        for i, u in enumerate(self.updates(x, ws)):
            self.base[i] = u if self.pulses[i].get("overwrite_base_pulse") else self.base[i] + u
        self.values = [R.clip_parameter(d, v) for d, v in zip(self.parameters, self.parts(x)[1])]

    def mean(self):
        return np.concatenate([np.zeros(n) for n in self.ns] + [np.array(self.values, dtype=float)])

    def sigma(self):
        return np.concatenate([R.step_variation(p) for p in self.pulses]
                              + [np.array([p["amplitude_variation"] for p in self.parameters], dtype=float)])


def vectors(n, alphabet=(0.0, 1.0, -0.7), limit=729):
    """All coefficient vectors over the alphabet; if they are too many, all with at most two entries off a dense one"""
    if len(alphabet) ** n <= limit:
        yield from itertools.product(alphabet, repeat=n)
        return
    dense = [0.3 + 0.21 * ((7 * i) % 5) * (-1) ** i for i in range(n)]
    yield tuple(dense)
    for i in range(n):
        for a in alphabet:
            yield tuple(a if k == i else dense[k] for k in range(n))
            yield tuple(a if k == i else 0.0 for k in range(n))
    for i, j in itertools.combinations(range(n), 2):
        yield tuple(1.0 if k == i else -0.7 if k == j else 0.0 for k in range(n))


def compare(ctl, model, x, ws, what, tol=1e-9):
    got, want = controls(ctl, x), model.controls(x, ws)
    for i, p in enumerate(model.pulses):
        if not H.close(got[0][i], want[0][i], tol):
            raise Violation("{0}: pulse {1} ({2}) for the vector {3}, super-parameters {4} is {5}, it has to be {6}".format(
                what, p["pulse_name"], p, list(x), ws[i], got[0][i].tolist(), want[0][i].tolist()))
        if not H.close(got[1][i], want[1][i], tol):
            raise Violation("{0}: time grid of {1} ({2}) is {3}, it has to be {4}".format(
                what, p["pulse_name"], p, got[1][i].tolist(), want[1][i].tolist()))
    if len(got[0]) != len(want[0]) or not H.close(got[2], want[2], tol):
        raise Violation("{0}: parameters for the vector {1} are {2}, they have to be {3}".format(
            what, list(x), got[2].tolist(), want[2].tolist()))
    return got


def write_functions(folder):
    """Python files with guess and scaling functions (two files of the same name in different folders)"""
    for sub, a in (("fa", 0.3), ("fb", -0.6)):
        os.makedirs(os.path.join(folder, sub), exist_ok=True)
        with open(os.path.join(folder, sub, "shapes_user.py"), "w") as f:
            f.write("import numpy as np\ndef guess(t):\n    return {0} + 0.4*t\ndef scale(t):\n    return 1.2 - {0}*t\n"
                    "def scale2(t, pulse):\n    return pulse*(1 + {0}*t) + 0.1\n".format(a))
