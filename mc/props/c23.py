"""C23: settings select exactly the named component and honour its options"""
import contextlib
import copy
import io
import itertools
import json
import os
import re

import numpy as np

from .. import campaign as K, env, harness as H, nm, shapes as S
from ..explore import Violation

NAMES = {"algorithm": {"dCRAB": ("quocslib.optimizationalgorithms.dCRABAlgorithm", "dCRABAlgorithm"),
                       "GRAPE": ("quocslib.optimizationalgorithms.GRAPEAlgorithm", "GRAPEAlgorithm"),
                       "AD": ("quocslib.optimizationalgorithms.ADAlgorithm", "ADAlgorithm"),
                       "DirectSearch": ("quocslib.optimizationalgorithms.DirectSearchAlgorithm", "DirectSearchAlgorithm")},
         "dsm_settings": {"NelderMead": ("quocslib.gradientfreemethods.NelderMead", "NelderMead"),
                          "CMAES": ("quocslib.gradientfreemethods.CMAES", "CMAES")},
         "basis": {n: ("quocslib.pulses.basis." + n, n) for n in ("Fourier", "Chebyshev", "PiecewiseBasis", "Sinc", "Sigmoid", "SigmoidTimeDep",
                                                                   "SigmoidSigmas", "SigmoidAllParas", "Walsh")},
         "superparameter_distribution": {"Uniform": ("quocslib.pulses.superparameter.Uniform", "Uniform")}}
UNKNOWN = ["nothing", "dcrab", "DCRAB", "neldermead", "Nelder-Mead", "fourier", "", " Fourier", "Fourier ", "grape", "cmaes", "CMA-ES", "uniform",
           "Direct", "dCRAB2", "Normal", "Sigmoid2", "NelderMeadStoppingCriteria", "ADAlgorithm"]


# ---------------------------------------------------------------------------------------------------------------------
# runs and what is seen of them
# ---------------------------------------------------------------------------------------------------------------------
def transcript(d, alg, value=None, console=False):
    """Everything that can be seen of a run"""
    env.CLOCK.t = 0.0
    env.CLOCK.sleep_hook = None
    env.seed_globals(4711)
    H.reset_results()
    direction = d["algorithm_settings"].get("optimization_direction", "minimization")
    cfg = dict(alg=alg, dir="max" if direction == "maximization" else "min")

    def answer(run, call):
        v = H.landscape(call.triple()) if value is None else value(call)
        ans = {"FoM": run.sign * v}
        if "re_evaluation" in d["algorithm_settings"]:
            ans["std"] = 0.2
        return ans
    d = copy.deepcopy(d)
    for lst, key, default in ((d["pulses"], "pulse_name", "pulse"), (d["parameters"], "parameter_name", "parameter")):
        pass
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        run = object.__new__(H.Run)
        names = copy.deepcopy(d)
        for p in names["pulses"]:
            p.setdefault("pulse_name", "pulse")
        for p in names["parameters"]:
            p.setdefault("parameter_name", "parameter")
        H.Run.__init__(run, cfg, answer, horizon=900, dict_=names, keep=True)
        run.dict = d
        run.create()
        run.execute()
    if run.hit_horizon:
        raise Violation("the optimization does not stop")
    stamp = re.compile(r"^\d{8}_\d{6}(_\d{6})?")
    files = sorted(stamp.sub("", n) for n in os.listdir(run.folder))
    t = {"calls": [(np.concatenate([p for p in c.pulses] + [c.parameters]).round(12).tolist(), [g.round(12).tolist() for g in c.timegrids])
                   for c in run.calls],
         "shape": [(len(c.pulses), [len(p) for p in c.pulses], len(c.parameters)) for c in run.calls[:1]],
         "reason": (run.reason, run.higher_reason), "fom": run.report["Figure of merit"], "files": files,
         "folder": stamp.sub("", os.path.basename(run.folder)), "micro": bool(re.match(r"^\d{8}_\d{6}_\d{6}", os.path.basename(run.folder))),
         "saved": sorted(run.saved_end) if run.saved_end else None,
         "console": "evaluation" in out.getvalue() + err.getvalue()}
    run.cleanup()
    return t, run


def base_dict(scenario):
    d = H.build(dict(alg="dCRAB", dsm="NM", controls="F1", si=1, crit={"max_eval": 7}))
    st = d["algorithm_settings"]
    if scenario == "pulse":
        d["pulses"][0].update(lower_limit=-0.4, upper_limit=0.3)
    elif scenario == "plain":
        # only what has to be there
        d = {"algorithm_settings": st, "parameters": [], "times": [{"time_name": "time", "initial_value": 1.5}],
             "pulses": [{"basis": d["pulses"][0]["basis"]}]}
    elif scenario == "param":
        d = H.build(dict(alg="DirectSearch", dsm="NM", controls="P1", crit={"max_eval": 14}))
        d["parameters"] = [{"initial_value": 0.5}]
    elif scenario == "param3":
        d = H.build(dict(alg="DirectSearch", dsm="NM", controls="P3", crit={"max_eval": 30}))
    elif scenario == "long":
        d = H.build(dict(alg="DirectSearch", dsm="NM", controls="P2", crit={}))
        d["algorithm_settings"]["max_eval_total"] = 400
    elif scenario == "cma":
        d = H.build(dict(alg="DirectSearch", dsm="CMA", controls="P3", crit={"max_eval": 30}))
    elif scenario == "cmalong":
        d = H.build(dict(alg="DirectSearch", dsm="CMA", controls="P1", crit={}))
        d["algorithm_settings"]["max_eval_total"] = 400
    elif scenario == "si":
        d = H.build(dict(alg="dCRAB", dsm="NM", controls="F1p", si=3, crit={"max_eval": 6}))
    elif scenario == "sigmoid":
        d["pulses"] = [H.sigmoid("amp", "T", T=1.5)]
        d["pulses"][0]["basis"].pop("sigma")
        d["pulses"][0]["basis"].pop("offset")
    elif scenario == "sinc":
        d["pulses"] = [S.pulse("Sinc", vec=2, T=1.5)]
    elif scenario == "two":
        d = H.build(dict(alg="dCRAB", dsm="NM", controls="FC2p", si=2, crit={"max_eval": 8}))
    return d


OMIT = "<omit>"
DEFAULT_SHAPING = ["add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse"]
P, B, T, X, A, DS, GS, SC, TOP = (("pulses", 0), ("pulses", 0, "basis"), ("times", 0), ("parameters", 0), ("algorithm_settings",),
                                  ("algorithm_settings", "dsm_settings"), ("algorithm_settings", "dsm_settings", "general_settings"),
                                  ("algorithm_settings", "dsm_settings", "stopping_criteria"), ())
LAMBDA = "lambda_function"


def fun(text):
    return {"function_type": LAMBDA, LAMBDA: text}


# scenario, place, option, documented default (or None: only the others are compared with each other), other values
OPTIONS = [
    ("plain", P, "upper_limit", [1.0], [2.0, 0.2]), ("plain", P, "lower_limit", [0.0], [-1.0, 0.1]), ("plain", P, "bins_number", [101], [7, 100]),
    ("plain", P, "pulse_name", ["pulse"], ["other"]), ("plain", P, "time_name", ["time"], []),
    ("plain", P, "amplitude_variation", [1.0], [0.3, 2.0]), ("plain", P, "shrink_ampl_lim", [False], [True]),
    ("plain", P, "scaling_function", [fun("lambda t: 1.0 + 0.0*t")], [fun("lambda t: 0.5 + t")]),
    ("plain", P, "initial_guess", [fun("lambda t: 0.0*t")], [fun("lambda t: 0.3 + 0.1*t")]),
    ("plain", P, "shaping_options", [DEFAULT_SHAPING], [["add_new_update_pulse"]]),
    ("plain", B, "basis_vector_number", [1], [2, 3]), ("plain", T, "time_name", ["time"], []), ("plain", T, "initial_value", [1.0], [2.0]),
    ("plain", TOP, "create_logfile", [True], [False]), ("plain", TOP, "console_info", [True], [False]),
    ("plain", TOP, "use_microsecond_name", [False], [True]), ("plain", TOP, "dump_format", ["npz"], ["json"]),
    ("plain", TOP, "optimization_client_name", [], ["one", "two"]),
    ("plain", A, "optimization_direction", ["minimization"], ["maximization"]),
    ("pulse", P, "shrink_ampl_lim", [False], [True]), ("pulse", P, "amplitude_variation", [1.0], [0.7]),
    ("pulse", P, "scaling_function", [fun("lambda t: 1.0 + 0.0*t")], [fun("lambda t: 0.1*t"), {"function_type": "list_function", "list_function": [0.1] * 5}]),
    ("pulse", P, "initial_guess", [fun("lambda t: 0.0*t")], [fun("lambda t: 0.1*t"), {"function_type": "list_function", "list_function": [0.1] * 5}]),
    ("pulse", B, "basis_vector_number", [1], [2]),
    ("sigmoid", B, "sigma", [0.1], [0.3]), ("sigmoid", B, "offset", [0.1], [0.4]), ("sigmoid", B, "basis_vector_number", [1], [3]),
    ("sinc", B, "basis_max", [1.0], [0.3]), ("sinc", B, "basis_vector_number", [1], [3]),
    ("param", X, "parameter_name", ["parameter"], ["gain"]), ("param", X, "lower_limit", [0.1], [-1.0, 0.45]),
    ("param", X, "upper_limit", [1.1], [0.52, 2.2]), ("param", X, "amplitude_variation", [0.1], [0.3]),
    ("param", TOP, "dump_format", ["npz"], ["json"]),
    ("param3", GS, "is_adaptive", [False], [True]), ("param3", A, "max_eval_total", [10 ** 11, 10e10], [9]), ("param3", A, "total_time_lim", [10 ** 10], [0.15]),
    ("param3", A, "FoM_goal", [None], [0.75]), ("param3", SC, "max_eval", [], [6, 20]),
    ("param3", SC, "time_lim", [10 ** 10], [0.2]), ("param3", A, "compensate_drift", [{}], []),
    ("param3", A, "compensate_drift", [{"num_average": 1}], [{"compensate_after_minutes": 0.1}, {"compensate_after_minutes": 0.1, "num_average": 3}]),
    ("param3", A, "re_evaluation", [], [{"re_evaluation_steps": [0.3]}, {"re_evaluation_steps": [0.3, 0.5, 0.51]}, {"re_evaluation_steps": [0.9]}]),
    ("param3", A, "random_number_generator", [], [{"seed_number": 1}, {"seed_number": 420}]),
    ("param3", SC, "xatol", [1e-14], [0.3]),
    ("param3", SC, "change_based_stop", [], [{"cbs_funct_evals": 9, "cbs_change": 1e3}, {"cbs_funct_evals": 12, "cbs_change": 1e3}]),
    ("long", SC, "xatol", [1e-14], [1e-3, 1e-10]), ("long", SC, "fatol", [1e-100], [1e-3]), ("long", SC, "max_eval", [10 ** 11, 10e10], [50]),
    ("long", SC, "time_lim", [10 ** 10], [1.0]), ("long", GS, "is_adaptive", [False], []),
    ("cma", GS, "population", [4 + int(3 * np.log(3))], [5, 11]), ("cma", A, "max_eval_total", [10e10], [12]), ("cma", SC, "max_eval", [], [8, 22]),
    ("cmalong", SC, "fatol", [1e-100], [1e-3]), ("cmalong", SC, "max_eval", [10e10], [50]), ("cmalong", SC, "xatol", [1e-14], []),
    ("si", A, "super_iteration_number", [], [1, 2, 4]), ("si", A, "max_eval_total", [10e10], [9]), ("si", A, "FoM_goal", [None], [5.0]),
    ("si", A, "total_time_lim", [10 ** 10], [0.15]), ("si", SC, "max_eval", [], [4, 9]),
    ("si", A, "compensate_drift", [{"num_average": 1}, {"compensate_after_SI": False}], [{"compensate_after_SI": True},
                                                                                           {"compensate_after_minutes": 0.05},
                                                                                           {"compensate_after_minutes": 0.05, "num_average": 2}]),
    ("si", A, "re_evaluation", [], [{"re_evaluation_steps": [0.3]}, {"re_evaluation_steps": [0.3, 0.5, 0.51]}]),
    ("si", A, "random_number_generator", [], [{"seed_number": 1}, {"seed_number": 420}]),
    ("two", ("pulses", 1), "shaping_options", [DEFAULT_SHAPING], [["add_base_pulse", "add_new_update_pulse", "limit_pulse"],
                                                                   ["add_new_update_pulse", "scale_pulse", "add_base_pulse"]]),
    ("two", P, "shaping_options", [DEFAULT_SHAPING], [["add_base_pulse", "add_new_update_pulse", "limit_pulse"]]),
    ("two", ("pulses", 1), "amplitude_variation", [1.0], [0.2]), ("two", ("pulses", 1), "time_name", [], ["T_x", "T_y"]),
    ("two", ("parameters", 1), "amplitude_variation", [0.1], [0.4]), ("two", ("times", 1), "initial_value", [1.0], [3.0]),
]


def apply(d, place, option, value):
    for k in place:
        d = d[k]
    if isinstance(value, str) and value == OMIT:
        d.pop(option, None)
    else:
        d[option] = copy.deepcopy(value)


def scenario_alg(d):
    return d["algorithm_settings"]["algorithm_name"]


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []

    def add(bound, chunk=20, **cfg):
        cfg["id"] = len(jobs)
        jobs.append({"cfg": cfg, "bound": bound, "chunk": chunk})
    for i in range(len(OPTIONS)):
        add(None, kind="option", i=i, chunk=2)
    for s in sorted({o[0] for o in OPTIONS}):
        if s not in ("long", "cmalong") or thorough:
            add(None, kind="pairs", scenario=s)
    for ct in list(NAMES) + ["none", "other"]:
        add(None, kind="import", type=ct, chunk=400)
    add(None, kind="algorithm")
    add(None, kind="dsm")
    add(None, kind="basis")
    add(None, kind="distribution")
    for part in ("algorithm", "dsm", "basis", "distribution"):
        add(None, kind="custom", part=part)
        add(None, kind="unknown", part=part)
    add(None, kind="extra")
    add(None, kind="nm", adaptive=False)
    add(None, kind="nm", adaptive=True)
    return jobs


def run(cfg, ctx, state):
    res = globals()["do_" + cfg["kind"]](cfg, ctx, state)
    ctx.state(cfg["id"], tuple(ctx.choices))
    ctx.steps += 1
    return (cfg["id"], res)


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if k == "calls":
                n = next((i for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y), min(len(a[k]), len(b[k])))
                return "{0} and {1} evaluations, first difference at {2}: {3} / {4}".format(
                    len(a[k]), len(b[k]), n + 1, a[k][n:n + 1], b[k][n:n + 1])
            return "{0}: {1} / {2}".format(k, a[k], b[k])
    return None


def ramp(call):
    return 0.7


VALUES = {("long", "xatol"): ramp, ("param", "lower_limit"): lambda call: float(call.parameters[0] + 0.5) ** 2,
          ("param", "upper_limit"): lambda call: float(call.parameters[0] - 2.0) ** 2}


def do_option(cfg, ctx, state):
    """Omitted is the documented default, and every value has an effect"""
    scenario, place, option, defaults, others = OPTIONS[cfg["i"]]
    seen = []
    for v in ([OMIT] if defaults else []) + defaults + others:
        d = base_dict(scenario)
        apply(d, place, option, v)
        value = VALUES.get((scenario, option))
        seen.append((v, transcript(d, scenario_alg(d), value)[0]))
    n = len(defaults) + (1 if defaults else 0)
    for v, t in seen[1:n]:
        dd = diff(seen[0][1], t)
        if dd:
            raise Violation("{0} of {1}: without the setting and with the documented default {2!r} the runs differ: {3}".format(
                option, ".".join(map(str, place)), v, dd))
    for (v, t), (w, u) in itertools.combinations(seen[max(n - 1, 0):], 2):
        if diff(t, u) is None:
            raise Violation("{0} of {1} has no effect: {2!r} and {3!r} give the same run".format(option, ".".join(map(str, place)), v, w))
    specific(scenario, place, option, seen)
    return len(seen)


def specific(scenario, place, option, seen):
    """What some of the options are documented to do"""
    for v, t in seen:
        given = not (isinstance(v, str) and v == OMIT)
        if option == "bins_number" and t["shape"][0][1] != [v if given else 101]:
            raise Violation("bins_number {0!r}: the pulse has {1} values".format(v, t["shape"]))
        if option == "dump_format" and not any(f.endswith("best_controls." + (v if given else "npz")) for f in t["files"]):
            raise Violation("dump_format {0!r}: files {1}".format(v, t["files"]))
        if option == "create_logfile" and any("log" in f for f in t["files"]) != (v if given else True):
            raise Violation("create_logfile {0!r}: files {1}".format(v, t["files"]))
        if option == "console_info" and t["console"] != (v if given else True):
            raise Violation("console_info {0!r}: output {1}".format(v, t["console"]))
        if option == "use_microsecond_name" and t["micro"] != (v if given else False):
            raise Violation("use_microsecond_name {0!r}: folder {1}".format(v, t["folder"]))
        if option == "optimization_client_name" and t["folder"] != "_" + v:
            raise Violation("optimization_client_name {0!r}: folder {1}".format(v, t["folder"]))
        if option == "pulse_name" and (v if given else "pulse") not in t["saved"]:
            raise Violation("pulse_name {0!r}: saved {1}".format(v, t["saved"]))
        if option == "parameter_name" and (v if given else "parameter") not in t["saved"]:
            raise Violation("parameter_name {0!r}: saved {1}".format(v, t["saved"]))
        if option in ("max_eval_total", "max_eval") and scenario in ("param3", "long") and given and v < 100 and not v <= len(t["calls"]) <= v + 3:
            raise Violation("{0} {1!r}: {2} evaluations".format(option, v, len(t["calls"])))
        if option == "initial_value" and place == T and abs(t["calls"][0][1][0][-1] - (v if given else 1.0)) > 1e-9:
            raise Violation("time {0!r}: time grid {1}".format(v, t["calls"][0][1]))
        if option == "super_iteration_number" and len(t["calls"]) < 5 * v:
            raise Violation("super_iteration_number {0!r}: {1} evaluations".format(v, len(t["calls"])))


def do_pairs(cfg, ctx, state):
    """Two settings at a time, omitted or with the documented default"""
    opts = [o for o in OPTIONS if o[0] == cfg["scenario"] and o[3]]
    pairs = list(itertools.combinations(range(len(opts)), 2))
    if not pairs:
        return 0
    i, j = ctx.pick(pairs, "pair", free=True)
    if opts[i][1:3] == opts[j][1:3]:
        return 0
    ref = None
    for a, b in itertools.product((OMIT, None), repeat=2):
        d = base_dict(cfg["scenario"])
        apply(d, opts[i][1], opts[i][2], OMIT if a else opts[i][3][0])
        apply(d, opts[j][1], opts[j][2], OMIT if b else opts[j][3][0])
        t = transcript(d, scenario_alg(d))[0]
        dd = None if ref is None else diff(ref, t)
        if dd:
            raise Violation("{0} {1} and {2} {3}: {4}".format(opts[i][2], "omitted" if a else opts[i][3][0], opts[j][2],
                                                             "omitted" if b else opts[j][3][0], dd))
        ref = ref or t
    return 1


def load(mc):
    import importlib
    return getattr(importlib.import_module(mc[0]), mc[1])


def do_import(cfg, ctx, state):
    """The selection function itself: all combinations of what is given"""
    from quocslib.utils.dynamicimport import dynamic_import
    from .. import custom
    H.setup_jax()
    known = NAMES.get(cfg["type"], {})
    others = [n for ct in NAMES for n in NAMES[ct] if n not in known]
    attribute = ctx.pick([None, custom.OwnNM], "attribute", free=True)
    name = ctx.pick([None] + sorted(known) + others[:6] + UNKNOWN, "name", free=True)
    module = ctx.pick([None, ("mc.custom", "OwnBasis"), ("mc.custom", "Missing"), ("mc.missing", "OwnBasis"), ("mc.custom", None), (None, "OwnBasis")],
                      "module", free=True) or (None, None)
    kw = dict(module_name=module[0], class_name=module[1], name=name)
    if cfg["type"] != "none":
        kw["class_type"] = cfg["type"]
    if attribute is not None:
        kw["attribute"] = attribute
    try:
        got = dynamic_import(**kw)
    except Exception as ex:
        got = ex
    explicit = custom.OwnBasis if module == ("mc.custom", "OwnBasis") else None
    if attribute is not None:
        ok = got is attribute
    elif name in known:
        ok = got is load(known[name])
    elif name is not None:
        # unknown: never something else than what is given explicitly
        ok = got is None or isinstance(got, Exception) or (explicit is not None and got is explicit)
    elif explicit is not None:
        ok = got is explicit
    else:
        ok = got is None or isinstance(got, Exception)
    if not ok:
        raise Violation("attribute {0}, name {1!r}, module and class {2}, type {3!r} select {4!r}".format(attribute, name, module, cfg["type"], got))
    return str(type(got))


def do_algorithm(cfg, ctx, state):
    name = ctx.pick(sorted(NAMES["algorithm"]), "name", free=True)
    if name == "AD":
        H.setup_jax()
    controls = {"dCRAB": "F1", "DirectSearch": "P2", "GRAPE": "G", "AD": "A"}[name]
    d = H.build(dict(alg=name, dsm="NM", controls=controls, crit={}, total={"max_eval_total": 3}))
    t, run = transcript(d, name)
    if type(run.alg) is not load(NAMES["algorithm"][name]):
        raise Violation("algorithm_name {0!r} selects {1}".format(name, type(run.alg)))
    return name


def do_dsm(cfg, ctx, state):
    """By name and by module and class; the two are different"""
    alg, controls = ctx.pick([("dCRAB", "F1p"), ("DirectSearch", "P3")], "alg", free=True)
    ts = {}
    for name in ("NelderMead", "CMAES"):
        for how in ("name", "class", "both"):
            d = H.build(dict(alg=alg, dsm="NM", controls=controls, crit={"max_eval": 15}))
            mod, cls = NAMES["dsm_settings"][name]
            other = NAMES["dsm_settings"]["CMAES" if name == "NelderMead" else "NelderMead"]
            d["algorithm_settings"]["dsm_settings"]["general_settings"] = {
                "name": {"dsm_algorithm_name": name},
                "class": {"dsm_algorithm_module": mod, "dsm_algorithm_class": cls},
                "both": {"dsm_algorithm_name": name, "dsm_algorithm_module": other[0], "dsm_algorithm_class": other[1]}}[how]
            ts[name, how] = transcript(d, alg)[0]
        for how in ("class", "both"):
            dd = diff(ts[name, "name"], ts[name, how])
            if dd:
                raise Violation("{0} selected by name and by {1} differ: {2}".format(name, how, dd))
    if diff(ts["NelderMead", "name"], ts["CMAES", "name"]) is None:
        raise Violation("NelderMead and CMAES make the same run")
    return alg


def do_nm(cfg, ctx, state):
    """NelderMead (and is_adaptive) by name makes the moves of Nelder-Mead"""
    d = H.build(dict(alg="DirectSearch", dsm="NMa" if cfg["adaptive"] else "NM", controls="P3", crit={"max_eval": 25}))
    t, run = transcript(d, "DirectSearch")
    pts = [c.parameters for c in run.calls]
    vals = [float(c.value) for c in run.calls]
    used = [False] * len(pts)

    def attempt(choose):
        g = nm.search(pts[:4], cfg["adaptive"], choose)
        i = 0
        msg = next(g)
        while i < len(pts):
            if msg[0] == "eval":
                if not H.close(msg[1], pts[i], 1e-7):
                    raise nm.Mismatch("evaluation {0} is {1}, expected {2}".format(i + 1, pts[i], msg[1]))
                i += 1
                msg = g.send(vals[i - 1])
            else:
                msg = next(g)
    try:
        nm.any_order(attempt)
    except nm.Mismatch as ex:
        raise Violation("NelderMead, is_adaptive {0}: {1}".format(cfg["adaptive"], ex))
    return len(used)


def do_basis(cfg, ctx, state):
    """Each basis by name, by class and module, by attribute: its own expansion"""
    names = [b for b in S.BASES]
    name = ctx.pick(names, "name", free=True)
    how = ctx.pick(["name", "class", "attribute", "attribute over name", "name over class"], "how", free=True)
    vec = ctx.pick([1, 2], "vec", free=True)
    p = S.pulse(name, vec=vec, bins=9)
    times = [{"time_name": "T", "initial_value": 2.0}]
    given = copy.deepcopy(p)
    b = given["basis"]
    mod, cls = NAMES["basis"][name]
    other = "Fourier" if name != "Fourier" else "Sinc"
    if how == "class":
        b.pop("basis_name")
        b.update(basis_module=mod, basis_class=cls)
    elif how == "attribute":
        b.pop("basis_name")
        b.update(basis_attribute=load((mod, cls)))
    elif how == "attribute over name":
        b.update(basis_name=other, basis_attribute=load((mod, cls)))
    elif how == "name over class":
        b.update(basis_module=NAMES["basis"][other][0], basis_class=NAMES["basis"][other][1])
    ctl = S.make([given], times, [])
    model = S.Model([p], times, [])
    ws = S.super_parameters(ctl, [p])
    for x in S.vectors(model.n, (1.0, -0.7), 16):
        S.compare(ctl, model, x, ws, "basis {0!r} selected by {1}".format(name, how))
    return name


def do_distribution(cfg, ctx, state):
    """Limits and number of the super-parameters reach the distribution"""
    lo, hi = ctx.pick([(0.1, 5.0), (2.0, 2.0), (0.0, 1.0), (-3.0, -1.0), (1, 4)], "range", free=True)
    vec = ctx.pick([1, 2, 3, 6], "vec", free=True)
    how = ctx.pick(["name", "class", "attribute"], "how", free=True)
    p = S.pulse("Fourier", vec=vec, rng=(lo, hi))
    dist = p["basis"]["random_super_parameter_distribution"]
    mod, cls = NAMES["superparameter_distribution"]["Uniform"]
    if how != "name":
        dist.pop("distribution_name")
        dist.update({"distribution_module": mod, "distribution_class": cls} if how == "class" else {"distribution_attribute": load((mod, cls))})
    numbers = ctx.pick([(0.0,), (0.999999,), (0.37, 0.81, 0.05, 0.62, 0.5)], "numbers", free=True)
    ctl = S.make([p], [{"time_name": "T", "initial_value": 2.0}], [], numbers)
    w = np.array(S.super_parameters(ctl, [dict(p, basis=dict(p["basis"], basis_name="Fourier"))])[0])
    width = (hi - lo) / vec
    want = np.array([lo + i * width + width * numbers[i % len(numbers)] for i in range(vec)])
    inside = all(lo + i * width - 1e-9 <= w[i] <= lo + (i + 1) * width + 1e-9 for i in range(vec)) if len(w) == vec else False
    if not inside or not H.close(w, want, 1e-9):
        raise Violation("Uniform({0}, {1}) with {2} values gives {3}, expected {4}".format(lo, hi, vec, w, want))
    return how


def custom_dict(part, how, name):
    """A dictionary with an own component"""
    from .. import custom
    d = H.build(dict(alg="dCRAB", dsm="NM", controls="F1", si=1, crit={"max_eval": 4}))
    place, prefix, cls = {"algorithm": (d["algorithm_settings"], "algorithm", "OwnDCRAB"),
                          "dsm": (d["algorithm_settings"]["dsm_settings"]["general_settings"], "dsm_algorithm", "OwnNM"),
                          "basis": (d["pulses"][0]["basis"], "basis", "OwnBasis"),
                          "distribution": (d["pulses"][0]["basis"]["random_super_parameter_distribution"], "distribution", "OwnDistribution")}[part]
    known = place.pop(prefix + "_name")
    if how == "attribute":
        place[prefix + "_attribute"] = getattr(custom, cls)
    elif how == "class":
        place[prefix + "_module"], place[prefix + "_class"] = "mc.custom", cls
    if name == "known":
        place[prefix + "_name"] = known
    elif name == "none":
        place[prefix + "_name"] = None
    elif name is not None:
        place[prefix + "_name"] = name
    return d, cls


def do_custom(cfg, ctx, state):
    """An own component is used in the documented order"""
    from .. import custom
    part = cfg["part"]
    how = ctx.pick(["attribute", "class"] if part != "dsm" else ["class"], "how", free=True)
    name = ctx.pick([None, "none", "known"], "name", free=True)
    d, cls = custom_dict(part, how, name)
    ref = transcript(H.build(dict(alg="dCRAB", dsm="NM", controls="F1", si=1, crit={"max_eval": 4})), "dCRAB")[0]
    custom.LOG.clear()
    t, run = transcript(d, "dCRAB")
    used = cls in custom.LOG
    want = how == "attribute" or name != "known"
    if used != want:
        raise Violation("own {0} given by {1}, name {2}: {3}".format(part, how, name, "used" if used else "not used"))
    dd = diff(ref, t)
    if dd:
        raise Violation("own {0} given by {1}: {2}".format(part, how, dd))
    return used


def do_unknown(cfg, ctx, state):
    """An unknown name never runs anything"""
    from .. import custom
    part = cfg["part"]
    name = ctx.pick(UNKNOWN, "name", free=True)
    if part == "algorithm" and name == "ADAlgorithm":
        name = "ADAlgorithmus"
    d, cls = custom_dict(part, None, name)
    try:
        t, run = transcript(d, "dCRAB")
    except Violation:
        raise
    except Exception:
        return "refused"
    raise Violation("{0} name {1!r} is not known, but an optimization with {2} evaluations is made".format(part, name, len(t["calls"])))


def do_extra(cfg, ctx, state):
    """Further entries of the dictionary have no effect"""
    scenario = ctx.pick(["plain", "si", "param3", "two"], "scenario", free=True)
    extra = ctx.pick([{"comment": "text"}, {"notes": {"pulses": []}}, {"seed": 5, "max_eval": 1, "FoM_goal": 100}], "extra", free=True)
    d = base_dict(scenario)
    ref = transcript(d, scenario_alg(d))[0]
    d.update(extra)
    dd = diff(ref, transcript(d, scenario_alg(d))[0])
    if dd:
        raise Violation("the additional entry {0} changes the run: {1}".format(extra, dd))
    return scenario
