"""Driver of the real Quantum-OCS/QuOCS code: builds optimization dictionaries, plays the user's figure of merit and
records everything that is observable from outside."""
import copy
import io
import json
import math
import os
import shutil
import sys

import numpy as np

from . import env
from .explore import Violation, Hang, hash64

CLOCK = env.CLOCK


class Horizon(BaseException):
    """The optimization made more evaluations than any run of this configuration can need"""


# ---------------------------------------------------------------------------------------------------------------------
# controls
# ---------------------------------------------------------------------------------------------------------------------
def _dist(lo, hi):
    return {"distribution_name": "Uniform", "lower_limit": lo, "upper_limit": hi}


def fourier(name, time, bins=5, vec=1, lo=-10.0, hi=10.0, var=0.5, fr=(0.1, 3.0), **kw):
    d = {"pulse_name": name, "lower_limit": lo, "upper_limit": hi, "bins_number": bins, "time_name": time,
         "amplitude_variation": var,
         "basis": {"basis_name": "Fourier", "basis_vector_number": vec,
                   "random_super_parameter_distribution": _dist(*fr)}}
    d.update(kw)
    return d


def chebyshev(name, time, bins=5, vec=1, **kw):
    d = fourier(name, time, bins, vec, **kw)
    d["basis"]["basis_name"] = "Chebyshev"
    return d


def piecewise(name, time, bins=3, lo=-10.0, hi=10.0, var=0.5, **kw):
    d = {"pulse_name": name, "lower_limit": lo, "upper_limit": hi, "bins_number": bins, "time_name": time,
         "amplitude_variation": var, "basis": {"basis_name": "PiecewiseBasis", "bins_number": bins}}
    d.update(kw)
    return d


def sigmoid(name, time, bins=7, vec=2, lo=-10.0, hi=10.0, var=0.5, T=2.0, **kw):
    d = {"pulse_name": name, "lower_limit": lo, "upper_limit": hi, "bins_number": bins, "time_name": time,
         "amplitude_variation": var,
         "basis": {"basis_name": "Sigmoid", "basis_vector_number": vec, "sigma": 0.1, "offset": 0.1,
                   "random_super_parameter_distribution": _dist(0.1, T - 0.1)}}
    d.update(kw)
    return d


def param(name, value=0.4, lo=-10.0, hi=10.0, var=0.3):
    return {"parameter_name": name, "lower_limit": lo, "upper_limit": hi, "initial_value": value,
            "amplitude_variation": var}


def time_(name, value):
    return {"time_name": name, "initial_value": value}


GUESS = {"function_type": "lambda_function", "lambda_function": "lambda t: 0.3 + 0.2*t"}
GUESS2 = {"function_type": "list_function", "list_function": [0.1, -0.2, 0.3, 0.2]}
SCALE = {"function_type": "lambda_function", "lambda_function": "lambda t: 1.0 + 0.5*t"}

PRESETS = {
    # dCRAB
    "F1": lambda: ([fourier("amp", "T")], [], [time_("T", 1.5)]),
    "F1p": lambda: ([fourier("amp", "T")], [param("gain")], [time_("T", 1.5)]),
    "F1g": lambda: ([fourier("amp", "T", initial_guess=dict(GUESS), scaling_function=dict(SCALE))],
                    [param("gain")], [time_("T", 1.5)]),
    "FC2p": lambda: ([fourier("amp_x", "T_x", bins=4, initial_guess=dict(GUESS2)),
                      chebyshev("amp_y", "T_y", bins=6, scaling_function=dict(SCALE))],
                     [param("gain", 0.4), param("shift", -0.7, var=0.2)], [time_("T_x", 1.5), time_("T_y", 2.5)]),
    "FSP": lambda: ([sigmoid("ramp", "T_y", bins=7, vec=2, T=2.5), fourier("amp_x", "T_x", bins=4, vec=1),
                     piecewise("steps", "T_x", bins=3)],
                    [param("gain", 0.4)], [time_("T_y", 2.5), time_("T_x", 1.5)]),
    "F1lim": lambda: ([fourier("amp", "T", lo=-0.3, hi=0.4)], [param("gain", 0.4, lo=0.2, hi=0.5)], [time_("T", 1.5)]),
    "PW": lambda: ([piecewise("steps", "T", bins=3)], [param("gain", 0.4)], [time_("T", 1.5)]),
    "PW1": lambda: ([piecewise("steps", "T", bins=2)], [], [time_("T", 1.5)]),
    # DirectSearch
    "P1": lambda: ([], [param("gain", 0.4)], []),
    "P2": lambda: ([], [param("gain", 0.4), param("shift", -0.7, var=0.2)], []),
    "P3": lambda: ([], [param("gain", 0.4), param("shift", -0.7, var=0.2), param("phase", 1.1, var=0.4)], []),
    "P2lim": lambda: ([], [param("gain", 0.4, lo=0.2, hi=0.5), param("shift", -0.7, lo=-0.8, hi=-0.6, var=0.2)], []),
    # gradient algorithms
    "G": lambda: ([piecewise("drive", "T", bins=3, lo=-50, hi=50)], [], [time_("T", 1.0)]),
    "A": lambda: ([piecewise("drive", "T", bins=3, lo=-50, hi=50)], [], [time_("T", 1.0)]),
    "A2": lambda: ([piecewise("drive", "T", bins=3, lo=-50, hi=50), piecewise("drive_y", "T2", bins=2, lo=-50, hi=50)],
                   [param("gain", 0.4)], [time_("T", 1.0), time_("T2", 2.0)]),
}

DSM = {"NM": {"dsm_algorithm_name": "NelderMead", "is_adaptive": False},
       "NMa": {"dsm_algorithm_name": "NelderMead", "is_adaptive": True},
       "CMA": {"dsm_algorithm_name": "CMAES"},
       "CMA4": {"dsm_algorithm_name": "CMAES", "population": 4}}


def build(cfg):
    """The optimization dictionary of a configuration"""
    if isinstance(cfg["controls"], str):
        pulses, parameters, times = PRESETS[cfg["controls"]]()
    else:
        pulses, parameters, times = copy.deepcopy(cfg["controls"])
    for names, lst, key in ((cfg.get("pulse_names"), pulses, "pulse_name"),
                            (cfg.get("parameter_names"), parameters, "parameter_name")):
        for n, d in zip(names or [], lst):
            d[key] = n
    alg = cfg["alg"]
    st = {"algorithm_name": alg,
          "optimization_direction": {"min": "minimization", "max": "maximization"}[cfg.get("dir", "min")]}
    if cfg.get("seed", 7) is not None:
        st["random_number_generator"] = {"seed_number": cfg.get("seed", 7)}
    st.update(copy.deepcopy(cfg.get("total", {})))
    if alg in ("dCRAB", "DirectSearch"):
        gs = dict(DSM[cfg.get("dsm", "NM")])
        gs.update(cfg.get("gs", {}))
        st["dsm_settings"] = {"general_settings": gs, "stopping_criteria": copy.deepcopy(cfg.get("crit", {}))}
        if alg == "dCRAB":
            st["super_iteration_number"] = cfg.get("si", 1)
        if cfg.get("reeval") is not None:
            st["re_evaluation"] = {} if cfg["reeval"] == "default" else {"re_evaluation_steps": list(cfg["reeval"])}
        if cfg.get("drift") is not None:
            st["compensate_drift"] = dict(cfg["drift"])
    else:
        st["stopping_criteria"] = copy.deepcopy(cfg.get("crit", {}))
        if alg == "AD" and "si" in cfg:
            st["super_iteration_number"] = cfg["si"]
    d = {"optimization_client_name": cfg.get("name", "mc"), "create_logfile": cfg.get("log", False),
         "console_info": False, "dump_format": cfg.get("fmt", "npz"),
         "algorithm_settings": st, "pulses": pulses, "parameters": parameters, "times": times}
    d.update(copy.deepcopy(cfg.get("top", {})))
    return d


# ---------------------------------------------------------------------------------------------------------------------
# observations
# ---------------------------------------------------------------------------------------------------------------------
def arr(x):
    """A real float64 copy of anything array like"""
    a = np.array(x)
    if np.iscomplexobj(a):
        a = a.real
    return np.array(a, dtype=float)


def close(a, b, tol=1e-9):
    """Equal up to rounding (NaN and infinities compare as themselves)"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


def num_eq(a, b, tol=1e-12):
    """Two figures of merit are the same number"""
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Call:
    """One call of the user's figure of merit"""
    __slots__ = ("k", "pulses", "timegrids", "parameters", "t", "answer", "returned", "value", "status", "std",
                 "saved_before", "si", "raised")

    def key(self):
        return tuple(np.round(np.concatenate([p.ravel() for p in self.pulses] + [self.parameters.ravel()]), 9).tolist())

    def same_controls(self, other, tol=1e-9):
        return same_controls(self.triple(), other.triple(), tol)

    def triple(self):
        return (self.pulses, self.timegrids, self.parameters)


def same_controls(a, b, tol=1e-9):
    return (len(a[0]) == len(b[0]) and len(a[1]) == len(b[1]) and len(a[2]) == len(b[2])
            and all(close(x, y, tol) for x, y in zip(a[0], b[0]))
            and all(close(x, y, tol) for x, y in zip(a[1], b[1])) and close(a[2], b[2], tol))


def landscape(triple):
    """Default figure of merit: a smooth positive function of the controls (to be minimized)"""
    s = 0.5
    for i, p in enumerate(triple[0]):
        tg = triple[1][i]
        s += float(np.mean((p - 0.6 - 0.3 * i - 0.2 * tg) ** 2))
    for i, x in enumerate(np.ravel(triple[2])):
        s += float((x - 0.25 + 0.4 * i) ** 2)
    return s


def find_saved(path):
    """(name, bytes) of the best-controls file in a results folder"""
    try:
        names = sorted(n for n in os.listdir(path) if "best_controls." in n and not n.endswith(".tmp"))
    except OSError:
        return None
    if not names:
        return None
    if len(names) > 1:
        raise Violation("several best-controls files: {0}".format(names))
    with open(os.path.join(path, names[0]), "rb") as f:
        return names[0], f.read()


def parse_saved(name, data):
    """Content of a best-controls file as a dictionary of arrays"""
    if name.endswith(".json"):
        return {k: v for k, v in json.loads(data.decode()).items()}
    with np.load(io.BytesIO(data), allow_pickle=False) as z:
        return {k: z[k] for k in z.files}


class Signal:
    """Stand-in of a GUI signal"""
    def __init__(self, run, kind):
        self.run, self.kind = run, kind

    def emit(self, *args):
        self.run.on_signal(self.kind, args)


class Run:
    """One optimization of the real code under a scripted environment"""
    def __init__(self, cfg, answer, horizon=400, ctx=None, exit_obj=None, dict_=None, before_call=None,
                 after_answer=None, on_event=None, keep=False, step_time=1.0, read_saved=True, signals=True):
        self.cfg, self.answer, self.horizon, self.ctx = cfg, answer, horizon, ctx
        self.sign = -1 if cfg.get("dir", "min") == "max" else 1
        self.calls = []
        self.events = []            # ("start",) ("ctrl", triple) ("call", k) ("ret", k) ("plot", it, value)
        self.dict = dict_ if dict_ is not None else build(cfg)
        self.exit_obj = exit_obj
        self.before_call, self.after_answer, self.on_event = before_call, after_answer, on_event
        self.error = None           # exception that left Optimizer or execute()
        self.hit_horizon = False
        self.finished = False
        self.saved_end = None
        self.keep = keep
        self.step_time = step_time
        self.read_saved = read_saved
        self.signals = signals
        self._last_saved = (None, None)
        self.grad_calls = 0
        self.opt = self.alg = None
        self.stopped_at = None
        self.folder = None
        self.names = ([p["pulse_name"] for p in self.dict["pulses"]],
                      [p["parameter_name"] for p in self.dict["parameters"]])

    # -- environment --------------------------------------------------------------------------------------------------
    def on_signal(self, kind, args):
        if kind == "msg":
            self.events.append(("start",) + tuple(args))
        elif kind == "plot":
            self.events.append(("plot",) + tuple(args))
        else:
            p, t, x = args
            self.events.append(("ctrl", ([arr(a) for a in p], [arr(a) for a in t], arr(x).ravel())))
        if self.on_event is not None:
            self.on_event(self, kind)

    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        c = Call()
        c.k = len(self.calls) + 1
        c.si = getattr(self.alg, "super_it", None)
        c.pulses, c.timegrids = [arr(p) for p in pulses], [arr(t) for t in timegrids]
        c.parameters = arr(parameters).ravel()
        c.t = CLOCK.t
        c.saved_before = self.snapshot() if self.read_saved else None
        c.answer = c.returned = c.value = c.status = c.std = c.raised = None
        if c.k > self.horizon:
            self.hit_horizon = True
            raise Horizon()
        self.events.append(("call", c.k))
        self.calls.append(c)
        if self.ctx is not None:
            self.ctx.steps += 1
        if self.before_call is not None:
            self.before_call(self, c)
        ans = self.answer(self, c)
        if not isinstance(ans, dict):
            ans = {"FoM": ans}
        c.returned = ans
        c.answer = dict(ans)
        c.value, c.status, c.std = ans.get("FoM"), ans.get("status_code", 0), ans.get("std")
        CLOCK.advance(self.step_time)
        if self.after_answer is not None:
            self.after_answer(self, c)
        self.events.append(("ret", c.k))
        return ans

    def snapshot(self):
        """Parsed best-controls file as it is on disk now (None: there is none)"""
        folder = self.folder or (self.opt.results_path if self.opt is not None else None)
        if folder is None:
            return None
        found = find_saved(folder)
        if found is None:
            return None
        if self._last_saved[0] is not None and self._last_saved[0][1] == found[1]:
            return self._last_saved[1]
        try:
            parsed = parse_saved(*found)
        except Exception as ex:
            raise Violation("unreadable best-controls file: {0!r}".format(ex))
        self._last_saved = (found, parsed)
        return parsed

    # -- execution ----------------------------------------------------------------------------------------------------
    def fom_object(self):
        alg = self.cfg["alg"]
        if alg == "GRAPE":
            return GrapeFoM(self)
        if alg == "AD":
            return ADFoM(self)
        return PlainFoM(self)

    def create(self):
        from quocslib.Optimizer import Optimizer
        CLOCK.advance(2.0)
        sig = [Signal(self, "msg"), Signal(self, "plot"), Signal(self, "ctrl")] if self.signals else None
        kw = {}
        if self.exit_obj is not None:
            kw["handle_exit_obj"] = self.exit_obj
        self.opt = Optimizer(self.dict, self.fom_object(), sig, **kw)
        self.folder = self.opt.results_path
        self.alg = self.opt.get_optimization_algorithm()
        return self

    def execute_only(self):
        try:
            self.opt.execute()
            self.finished = True
        except Horizon:
            pass

    def execute(self):
        self.execute_only()
        return self.collect()

    def collect(self):
        """Everything that can be seen after the end"""
        self.saved_end = self.snapshot() if self.read_saved else None
        if self.finished:
            self.report = self.read_report()
            self.best_controls = None
            b = self.alg.get_best_controls()
            self.best_controls = ([arr(p) for p in b["pulses"]], [arr(t) for t in b["timegrids"]],
                                  arr(b["parameters"]).ravel())
            self.history = [(int(n), float(np.real(f))) for n, f in zip(self.alg.iteration_number_list,
                                                                      self.alg.FoM_list)]
            self.history_len = (len(self.alg.iteration_number_list), len(self.alg.FoM_list))
            self.reason = getattr(self.alg, "terminate_reason", "")
            self.higher_reason = self.alg.higher_order_terminate_reason
        if not self.keep:
            self.cleanup()
        return self

    def read_report(self):
        names = [n for n in os.listdir(self.folder) if n.endswith("optimized_parameters.json")]
        if len(names) != 1:
            raise Violation("final report files: {0}".format(names))
        with open(os.path.join(self.folder, names[0])) as f:
            return json.load(f)

    def cleanup(self):
        if self.folder and "QuOCS_Results" in self.folder:
            shutil.rmtree(self.folder, ignore_errors=True)

    def go(self):
        self.create()
        CLOCK.advance(self.cfg.get("idle", 0.0))        # the user waits before execute()
        return self.execute()

    # -- reference ----------------------------------------------------------------------------------------------------
    def successes(self, upto=None):
        return [c for c in self.calls[:upto] if not c.status and c.value is not None]

    def best_call(self, upto=None):
        """The evaluation that is the best of the first `upto` ones (first one among ties; never NaN)"""
        best = None
        for c in self.successes(upto):
            v = float(c.value) * self.sign
            if math.isnan(v):
                continue
            if best is None:
                if v < float("inf"):
                    best = c
            elif v < float(best.value) * self.sign:
                best = c
        return best


class PlainFoM:
    def __init__(self, run):
        self.run = run

    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        return self.run.get_FoM(pulses, parameters, timegrids)


SX = np.array([[0, 1], [1, 0]], dtype=complex)
SZ = np.array([[1, 0], [0, -1]], dtype=complex)


class GrapeFoM(PlainFoM):
    """One qubit for the gradients; the value of the figure of merit is an answer of the environment"""
    def get_control_Hamiltonians(self):
        return SX

    def get_drift_Hamiltonian(self):
        return 0.5 * SZ

    def get_target_state(self):
        return np.array([[0, 0], [0, 1]], dtype=complex)

    def get_initial_state(self):
        return np.array([[1, 0], [0, 0]], dtype=complex)

    def get_propagator(self, pulses_list=[], time_grids_list=[], parameters_list=[]):
        from scipy.linalg import expm
        self.run.grad_calls += 1
        dt = time_grids_list[0][-1] / len(time_grids_list[0])
        return [expm(-1j * dt * (0.5 * SZ + u * SX)) for u in pulses_list[0]]


def grape_fidelity(pulse, T):
    """- fidelity of the problem of GrapeFoM"""
    from scipy.linalg import expm
    dt = T / len(pulse)
    U = np.eye(2, dtype=complex)
    for u in pulse:
        U = expm(-1j * dt * (0.5 * SZ + u * SX)) @ U
    return -float(np.abs(U[1, 0]) ** 2)


class ADFoM(PlainFoM):
    """Differentiable landscape for the gradients; the value itself is an answer of the environment"""
    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        import jax
        import jax.numpy as jnp
        if isinstance(pulses, jax.core.Tracer) or isinstance(parameters, jax.core.Tracer):
            self.run.grad_calls += 1
            s = 0.5
            for i in range(pulses.shape[0]):
                s = s + jnp.mean(jnp.real(pulses[i] - 0.6 - 0.3 * i - 0.2 * timegrids[i]) ** 2)
            for i in range(parameters.shape[0]):
                s = s + jnp.real(parameters[i] - 0.25 + 0.4 * i) ** 2
            return {"FoM": self.run.sign * s}
        return self.run.get_FoM(pulses, parameters, timegrids)


_jax_ready = False


def setup_jax(disable_jit=True):
    """Import jax in this worker"""
    global _jax_ready
    if _jax_ready:
        return
    _jax_ready = True
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    import jax
    jax.config.update("jax_platforms", "cpu")
    if disable_jit:
        jax.config.update("jax_disable_jit", True)


def reset_results():
    shutil.rmtree(os.path.join(os.getcwd(), "QuOCS_Results"), ignore_errors=True)
