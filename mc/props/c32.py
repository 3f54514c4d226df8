"""C32: what the user does with the objects shared with the package has no effect, and what the user keeps is never changed

One run in which the user's code leaves everything alone is the reference. It is repeated with the same answers, and the
user's code (figure of merit, propagators, GUI slots, settings after the creation) does one of many things with what it was
handed, in every evaluation or in exactly one."""
import copy

import numpy as np

from .. import campaign as K, harness as H, oracles as O

# what the user does in place
CALL = ["scale", "fill", "grid", "param", "shorten", "lengthen", "sort", "all"]
SETTINGS = ["values", "clear", "names", "settings", "lists", "deep"]


def _deep(x, seen=0):
    """Every number of the settings, however deep, is changed in place"""
    items = x.items() if isinstance(x, dict) else enumerate(x)
    for k, v in list(items):
        if isinstance(v, (dict, list)):
            _deep(v)
        elif isinstance(v, bool) or v is None:
            x[k] = not v
        elif isinstance(v, (int, float)):
            x[k] = -v - 1 if v else 3


def sigmoids(basis):
    """Steps with the offset left to the package"""
    d = H.sigmoid(basis, "T", bins=5, vec=1)
    d["basis"].update(basis_name=basis, sigma=0.2)
    del d["basis"]["offset"]
    return d


def jobs(tier, seed):
    thorough = tier == "thorough"
    out = []

    def add(bound=None, **cfg):
        i = len(out)
        cfg.setdefault("dir", ("min", "max")[i % 2])
        cfg.setdefault("fmt", ("npz", "json")[i // 2 % 2])
        out.append({"cfg": dict(cfg, id=i), "bound": bound})
    bases = K.gradient_free_bases() + [
        dict(alg="dCRAB", dsm="NM", controls="F1lim", si=2, crit={"max_eval": 7}),
        dict(alg="dCRAB", dsm="NM", controls="PW1", si=2, crit={"max_eval": 5}),
        dict(alg="dCRAB", dsm="CMA4", controls="FSP", si=2, crit={"max_eval": 5}, reeval="default"),
        dict(alg="dCRAB", dsm="NM", controls="PW", si=2, crit={"max_eval": 6}, reeval=[0.4, 0.6]),
        dict(alg="dCRAB", dsm="NM", controls="FC2p", si=3, crit={"max_eval": 4}, drift={"compensate_after_SI": True, "num_average": 2}),
        dict(alg="DirectSearch", dsm="NM", controls="P2", crit={"max_eval": 8}, drift={"compensate_after_minutes": 0.05, "num_average": 2}),
        dict(alg="DirectSearch", dsm="CMA4", controls="P2lim", crit={"max_eval": 6}, reeval="default"),
        dict(alg="dCRAB", dsm="NM", controls="F1p", si=2, crit={"max_eval": 9, "change_based_stop": {"cbs_funct_evals": 4, "cbs_change": 0.35}}),
        dict(alg="dCRAB", dsm="NM", controls=[[sigmoids("SigmoidTimeDep"), sigmoids("SigmoidSigmas"), sigmoids("SigmoidAllParas")], [], [H.time_("T", 2.0)]],
             si=2, crit={"max_eval": 5}),
        dict(alg="dCRAB", dsm="NM", controls="F1p", si=2, crit={"max_eval": 9}, dir="max", total={"FoM_goal": -0.8, "max_eval_total": 14}),
        dict(alg="DirectSearch", dsm="NM", controls="P2", crit={"max_eval": 12}, dir="max", total={"FoM_goal": -0.7, "total_time_lim": 5.0}),
        dict(alg="GRAPE", controls="G", total={"max_eval_total": 6}),
        dict(alg="AD", controls="A", total={"max_eval_total": 3}),
        dict(alg="AD", controls="A2", si=2, total={"max_eval_total": 4})]
    shaped = []
    for controls, guess, scale in (("F1g", "square", "ramp"), ("PW", "square", None), ("FC2p", "shift", "pulse"), ("FSP", "shift", "ramp"),
                                   ("PW1", None, "pulse")):
        shaped.append(dict(alg="dCRAB", dsm="NM", controls=controls, si=2, crit={"max_eval": 5}, own=[guess, scale]))
    for base in bases:
        for what in ("call", "kept", "settings", "answers"):
            add(**copy.deepcopy(base), what=what)
        if base["alg"] != "AD":
            add(**copy.deepcopy(base), what="gui")
            if thorough:
                for d in ("min", "max"):
                    add(**copy.deepcopy(base), what="call", dir=d)
    for base in bases:
        if base["alg"] in ("dCRAB", "GRAPE", "AD") or base.get("reeval"):
            add(**copy.deepcopy(base), what="arrays")
        add(**copy.deepcopy(base), what="reuse")
    for base in shaped:
        add(**copy.deepcopy(base), what="shape")
    return sorted(out, key=lambda j: j["cfg"]["alg"] != "AD")


def deface(kind, lists):
    """In-place changes of pulses, time grids and parameters as they were handed to the user"""
    pulses, grids, pars = lists
    if not isinstance(pulses, list):        # the arrays of jax cannot be changed
        return

    def each(items, f):
        if isinstance(items, np.ndarray):
            if items.flags.writeable and items.size:
                f(items)
            return
        for i, p in enumerate(items):
            if isinstance(p, np.ndarray) and p.ndim and p.flags.writeable:
                f(p)
            else:
                q = np.array([float(p)])
                f(q)
                items[i] = float(q[0])

    def scale(p):
        p *= 2.5

    def fill(p):
        p[...] = 7.25

    if kind in ("scale", "all"):
        each(pulses, scale)
    if kind == "fill":
        each(pulses, fill)
    if kind in ("grid", "all"):
        each(grids, lambda p: p.__isub__(3.0))
    if kind in ("param", "all"):
        each(pars, scale)
    if kind == "sort":
        each(pulses, lambda p: p.sort())
        for items in (pulses, grids, pars):
            if isinstance(items, list):
                items.reverse()
    if kind in ("shorten", "all"):
        for items in (pulses, grids, pars):
            if isinstance(items, list):
                items.clear()
    if kind == "lengthen":
        for items in (pulses, grids, pars):
            if isinstance(items, list):
                items.append(np.zeros(2))


def meddle(kind, d):
    """Changes of the settings after the optimizer was created from them"""
    if kind == "values":
        for p in d["pulses"]:
            p.update(upper_limit=0.01, lower_limit=-0.01, bins_number=2, amplitude_variation=9.0)
        for p in d["parameters"]:
            p.update(initial_value=0.0, upper_limit=0.01, lower_limit=-0.01)
        for t in d["times"]:
            t["initial_value"] = 77.0
    elif kind == "clear":
        for k in list(d):
            if k not in ("pulses", "parameters", "times"):
                del d[k]
    elif kind == "names":
        for p in d["pulses"]:
            p["pulse_name"] = "other"
        for p in d["parameters"]:
            p["parameter_name"] = "another"
        d["optimization_client_name"] = "renamed"
    elif kind == "settings":
        s = d["algorithm_settings"]
        s.update(FoM_goal=1e9, max_eval_total=1, super_iteration_number=1, total_time_lim=0.0, optimization_direction="none")
        for key in ("dsm_settings", "stopping_criteria", "compensate_drift", "re_evaluation"):
            if key in s:
                for v in s[key].values():
                    if isinstance(v, dict):
                        for k in v:
                            v[k] = 1
                    elif isinstance(v, list):
                        v[:] = [0.999]
                s[key].clear()
    elif kind == "deep":
        _deep(d)
    elif kind == "lists":
        d["pulses"].clear()
        d["parameters"].clear()
        d["times"].clear()


OWN = {"square": ("def {n}(t):\n    t = t * t\n    return 0.2 * t\n", "def {n}(t):\n    t *= t\n    return 0.2 * t\n"),
       "shift": ("def {n}(t):\n    return np.cos(t - 0.5)\n", "def {n}(t):\n    t -= 0.5\n    return np.cos(t, out=t)\n"),
       "ramp": ("def {n}(t):\n    return 1 + 0.5 * t\n", "def {n}(t):\n    t *= 0.5\n    t += 1\n    return t\n"),
       "pulse": ("def {n}(t, pulse):\n    return pulse * (1 + t)\n", "def {n}(t, pulse):\n    t += 1\n    pulse *= t\n    return pulse\n")}


def own_functions(cfg, dirty):
    """Guess and scaling of the user in a file of his"""
    import os
    d = H.build(cfg)
    name = "own_functions_{0}_{1}.py".format(cfg["id"], int(dirty))
    with open(name, "w") as f:
        f.write("import numpy as np\n")
        for key, kind in zip(("guess", "scale"), cfg["own"]):
            if kind is not None:
                f.write(OWN[kind][int(dirty)].format(n=key))
    for p in d["pulses"]:
        for key, entry, kind in zip(("guess", "scale"), ("initial_guess", "scaling_function"), cfg["own"]):
            p.pop(entry, None)
            if kind is not None:
                p[entry] = {"function_type": "python_file", "file_path": os.path.abspath(name), "path_mode": "absolute",
                            "function_name": key}
    return d


def _set(*path):
    """Sets the entry with the given path; a trailing function makes the value from the index of pulse or parameter"""
    value = path[-1]

    def f(d):
        for x in (d[path[0]] if path[0] in ("pulses", "parameters", "times") else [d]):
            keys = path[1:-1] if path[0] in ("pulses", "parameters", "times") else path[:-1]
            for k in keys[:-1]:
                x = x.setdefault(k, {})
            x[keys[-1]] = copy.deepcopy(value)
    f.text = "/".join(str(k) for k in path)
    return f


def _nothing(d):
    pass


_nothing.text = "nothing"
REUSE = [_nothing, _set("algorithm_settings", "max_eval_total", 4), _set("algorithm_settings", "total_time_lim", 0.05),
         _set("algorithm_settings", "optimization_direction", "maximization"), _set("algorithm_settings", "optimization_direction", "minimization"),
         _set("algorithm_settings", "FoM_goal", 0.0), _set("algorithm_settings", "random_number_generator", {"seed_number": 5}),
         _set("dump_format", "json"), _set("times", "initial_value", 2.25), _set("pulses", "upper_limit", 0.2),
         _set("pulses", "amplitude_variation", 0.11), _set("parameters", "initial_value", 0.45),
         _set("pulses", "initial_guess", {"function_type": "lambda_function", "lambda_function": "lambda t: 0.1*t"})]
REUSE_FREE = [_set("algorithm_settings", "dsm_settings", "stopping_criteria", "max_eval", 3),
              _set("algorithm_settings", "dsm_settings", "stopping_criteria", "time_lim", 0.05),
              _set("algorithm_settings", "dsm_settings", "stopping_criteria", "fatol", 10.0),
              _set("algorithm_settings", "dsm_settings", "stopping_criteria", "change_based_stop", {"cbs_funct_evals": 3, "cbs_change": 10.0}),
              _set("algorithm_settings", "dsm_settings", "general_settings", "dsm_algorithm_name", "CMAES"),
              _set("algorithm_settings", "dsm_settings", "general_settings", "dsm_algorithm_name", "NelderMead"),
              _set("algorithm_settings", "dsm_settings", "general_settings", "is_adaptive", True),
              _set("algorithm_settings", "dsm_settings", "general_settings", "population", 5),
              _set("algorithm_settings", "compensate_drift", {"compensate_after_minutes": 0.05})]
REUSE_CHOPPED = [_set("pulses", "basis", "basis_vector_number", 2), _set("pulses", "basis", "sigma", 0.3),
                 _set("pulses", "basis", "offset", 0.05), _set("algorithm_settings", "super_iteration_number", 3),
                 _set("algorithm_settings", "compensate_drift", "compensate_after_SI", True)]


def reuses(cfg):
    return (REUSE if cfg["alg"] != "AD" else REUSE[:4] + REUSE[6:9]) + (REUSE_FREE if cfg["alg"] in ("dCRAB", "DirectSearch") else []) \
        + (REUSE_CHOPPED if cfg["alg"] == "dCRAB" else [])


def listed(cfg, arrays=None):
    """Settings with guess and scaling given by values; arrays: as arrays of the user, which are collected there"""
    d = H.build(cfg)

    def values(x):
        if arrays is None:
            return list(x)
        arrays.append(np.array(x, dtype=float))
        return arrays[-1]
    for p in d["pulses"]:
        n = p["bins_number"]
        p["initial_guess"] = {"function_type": "list_function", "list_function": values([0.1 * (i % 3) for i in range(n)])}
        if cfg["alg"] != "GRAPE":
            p["scaling_function"] = {"function_type": "list_function", "list_function": values([1.0 - 0.1 * i for i in range(n)])}
    if cfg.get("reeval"):
        d["algorithm_settings"]["re_evaluation"] = {"re_evaluation_steps": values(
            cfg["reeval"] if isinstance(cfg["reeval"], list) else [0.3, 0.5, 0.501])}
    return d


def answer_of(run, call):
    # records in an order that is not monotonous
    v = H.landscape(call.triple()) - 0.05 * ((call.k * 5) % 7)
    return {"FoM": run.sign * v, "std": (0.1, 0.02, 0.3)[call.k % 3]}


class Raw:
    """The figure of merit handed to the package: records like any other and then meddles"""
    def __init__(self, inner, hook):
        self.inner, self.hook = inner, hook
        for name in ("get_control_Hamiltonians", "get_drift_Hamiltonian", "get_target_state", "get_initial_state"):
            if hasattr(inner, name):
                setattr(self, name, getattr(inner, name))
        if hasattr(inner, "get_propagator"):
            self.get_propagator = self.propagator
        self.store = None

    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        ans = self.inner.get_FoM(pulses=pulses, parameters=parameters, timegrids=timegrids)
        return self.hook("call", (pulses, timegrids, parameters), ans)

    def propagator(self, pulses_list=[], time_grids_list=[], parameters_list=[]):
        ans = self.inner.get_propagator(pulses_list=pulses_list, time_grids_list=time_grids_list, parameters_list=parameters_list)
        return self.hook("propagator", (pulses_list, time_grids_list, parameters_list), ans)


class Run(H.Run):
    hook = None
    after_create = None

    def fom_object(self):
        return Raw(H.Run.fom_object(self), self.hook)

    def on_signal(self, kind, args):
        H.Run.on_signal(self, kind, args)
        if kind not in ("msg", "plot"):
            self.hook("gui", tuple(args), None)

    def go(self):
        self.create()
        if self.after_create is not None:
            self.after_create(self.dict)
        return self.execute()


def play(cfg, ctx, hook, dict_=None, after_create=None):
    K.env.CLOCK.t = 0.0
    K.env.seed_globals(12345)
    H.reset_results()
    r = Run(cfg, answer_of, horizon=200, ctx=ctx, dict_=dict_)
    r.hook, r.after_create = hook, after_create
    r.go()
    if r.hit_horizon:
        O.fail(r, "the optimization does not stop")
    return r


def leave(where, lists, ans):
    return ans


def compare(a, b, what):
    """The run b is the run a"""
    if len(a.calls) != len(b.calls):
        O.fail(b, "{0}: {1} evaluations instead of {2}", what, len(b.calls), len(a.calls))
    for x, y in zip(a.calls, b.calls):
        if not x.same_controls(y):
            O.fail(b, "{0}: evaluation {1} has the controls {2} instead of {3}", what, x.k, y.triple(), x.triple())
        same_file(b, x.saved_before, y.saved_before, "{0}: before evaluation {1}".format(what, x.k))
    same_file(b, a.saved_end, b.saved_end, "{0}: at the end".format(what))
    if not H.same_controls(a.best_controls, b.best_controls):
        O.fail(b, "{0}: best controls {1} instead of {2}", what, b.best_controls, a.best_controls)
    if repr(a.report) != repr(b.report):
        O.fail(b, "{0}: report {1} instead of {2}", what, b.report, a.report)
    if repr(a.history) != repr(b.history) or (a.reason, a.higher_reason) != (b.reason, b.higher_reason):
        O.fail(b, "{0}: history or reasons {1} instead of {2}", what, (b.history, b.reason, b.higher_reason),
               (a.history, a.reason, a.higher_reason))
    pa, pb = [[(int(e[1]), float(e[2])) for e in r.events if e[0] == "plot"] for r in (a, b)]
    if repr(pa) != repr(pb):
        O.fail(b, "{0}: values shown to the client {1} instead of {2}", what, pb, pa)
    ca, cb = [[e[1] for e in r.events if e[0] == "ctrl"] for r in (a, b)]
    if len(ca) != len(cb) or not all(H.same_controls(x, y) for x, y in zip(ca, cb)):
        O.fail(b, "{0}: other controls are shown to the client", what)


def same_file(r, a, b, where):
    if (a is None) != (b is None):
        O.fail(r, "{0}: best-controls file {1} instead of {2}", where, b, a)
    if a is None:
        return
    if sorted(a) != sorted(b):
        O.fail(r, "{0}: entries {1} instead of {2} in the best-controls file", where, sorted(b), sorted(a))
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape or x.tolist() != y.tolist():
            O.fail(r, "{0}: {1} in the best-controls file is {2} instead of {3}", where, k, y.tolist(), x.tolist())


def returned(r, text):
    """The best controls which were returned are the user's: changes of theirs do not show up in those returned later"""
    def get():
        b = r.alg.get_best_controls()
        lists = [b["pulses"], b["timegrids"], b["parameters"]]
        return lists, ([H.arr(x) for x in lists[0]], [H.arr(x) for x in lists[1]], H.arr(lists[2]))
    lists, first = get()
    for kind in CALL:
        deface(kind, lists)
        lists, now = get()
        if not H.same_controls(first, now):
            O.fail(r, "{0}: the best controls are {1} after those returned before were changed ({2}), they were {3}", text, now, kind, first)
    if r.cfg["alg"] == "AD":
        return
    bare = r.alg.get_best_bare_controls()["bare_pulses"]
    was = [np.array(b, copy=True) for b in bare]
    deface("scale", [bare, [], []])
    now = r.alg.get_best_bare_controls()["bare_pulses"]
    if len(now) != len(was) or not all(np.array_equal(x, y, equal_nan=True) for x, y in zip(now, was)):
        O.fail(r, "{0}: the bare pulses are {1} after those returned before were changed, they were {2}", text, now, was)
    if not H.same_controls(first, get()[1]):
        O.fail(r, "{0}: the best controls have changed with the bare pulses returned before", text)


def run(cfg, ctx, state):
    K.prepare(cfg)
    what = cfg["what"]
    key = ("c32", cfg["id"])
    if key not in state:
        state[key] = play(cfg, None, leave, {"shape": lambda: own_functions(cfg, False), "arrays": lambda: listed(cfg)}.get(
            what, lambda: None)())
    ref = state[key]
    n = len(ref.calls)
    ctx.state(cfg["id"], n)
    if what == "call":
        kind = ctx.pick(CALL, "does", free=True)
        when = ctx.choose(n + 1, "in evaluation (0: all)", free=True)

        def hook(where, lists, ans):
            if where != "gui" and when in (0, len(r_box[0].calls)):
                deface(kind, lists)
            return ans
        text = "the user's function changes its arguments ({0}, evaluation {1})".format(kind, when or "all")
        kw = {}
    elif what == "gui":
        kind = ctx.pick(CALL, "does", free=True)
        when = ctx.choose(n + 1, "before evaluation (0: all)", free=True)

        def hook(where, lists, ans):
            if where == "gui" and when in (0, len(r_box[0].calls) + 1):
                deface(kind, lists)
            return ans
        text = "the client changes the controls it is shown ({0}, evaluation {1})".format(kind, when or "all")
        kw = {}
    elif what == "kept":
        kept = []
        part = ctx.pick(["call", "propagator", "gui"], "keeps those of", free=True)

        def hook(where, lists, ans):
            if where == part and (cfg["alg"] != "AD" or ans is None or isinstance(ans["FoM"], float)):       # not while jax is tracing
                items = [x for l in lists for x in (list(l) if isinstance(l, (list, tuple)) else [l])]
                kept.append((len(r_box[0].calls), lists, [len(l) if isinstance(l, list) else None for l in lists], items,
                             [np.array(x, copy=True) for x in items]))
            return ans
        text = "the user keeps what he gets"
        kw = {}
    elif what == "settings":
        kind = ctx.pick(SETTINGS, "settings", free=True)

        def hook(where, lists, ans):
            return ans
        kw = dict(after_create=lambda d: meddle(kind, d))
        text = "the settings are changed after the creation ({0})".format(kind)
    elif what == "answers":
        kind = ctx.pick(["one dictionary", "cleared", "one array", "array of one", "numpy", "int"], "answers", free=True)
        one, buf = {}, np.zeros(())
        pool = []

        def hook(where, lists, ans):
            if where == "propagator":
                if kind == "one dictionary":        # one list for all propagators
                    pool[:] = [np.array(u) for u in ans]
                    return pool
                return ans
            if where == "gui" or not isinstance(ans, dict) or cfg["alg"] == "AD" and not isinstance(ans["FoM"], float):
                return ans
            if kind == "one dictionary":
                one.update(ans)
                return one
            if kind == "cleared":                   # the dictionary of the evaluation before is emptied
                for d in pool:
                    d.clear()
                pool[:] = [dict(ans)]
                return pool[0]
            if kind == "one array":
                buf[...] = ans["FoM"]
                return dict(ans, FoM=buf)
            if kind == "array of one":
                return dict(ans, FoM=np.array(ans["FoM"]), std=np.array(ans.get("std", 1.0)))
            if kind == "numpy":
                return dict(ans, FoM=np.float64(ans["FoM"]), std=np.float64(ans.get("std", 1.0)), status_code=np.int64(0))
            return dict(ans, status_code=0, extra=[1, 2])
        kw = {}
        text = "the user answers with {0}".format(kind)
    elif what == "reuse":
        ways = reuses(cfg)
        i = ctx.pick(list(range(len(ways))), "what is set before the settings are used again", free=True)
        executed = ctx.pick([True, False], "first optimizer executed", free=True)
        fresh, used = H.build(cfg), H.build(cfg)
        ways[i](fresh)
        ref = play(cfg, None, leave, fresh)
        if executed:
            play(cfg, None, leave, used)
        else:
            H.Run(cfg, answer_of, horizon=200, dict_=used).create()
        ways[i](used)

        def hook(where, lists, ans):
            return ans
        kw = dict(dict_=used)
        text = "the settings were used before, then {0} was set".format(ways[i].text)
    elif what == "arrays":
        mine = []
        when = ctx.choose(n + 1, "changes his arrays in evaluation (0: after the creation)", free=True)

        def spoil(d=None):
            for a in mine:
                a[:] = 0.123

        def hook(where, lists, ans):
            if where == "call" and when == len(r_box[0].calls):
                spoil()
            return ans
        kw = dict(dict_=listed(cfg, mine), after_create=spoil if when == 0 else None)
        text = "the user changes the arrays of his settings (evaluation {0})".format(when)
    else:
        def hook(where, lists, ans):
            return ans
        kw = dict(dict_=own_functions(cfg, True))
        text = "the user's guess and scaling functions work in place ({0})".format(cfg["own"])
    r_box = [None]

    K.env.CLOCK.t = 0.0
    K.env.seed_globals(12345)
    H.reset_results()
    r = Run(cfg, answer_of, horizon=200, ctx=ctx, dict_=kw.get("dict_"))
    r.hook, r.after_create = hook, kw.get("after_create")
    r_box[0] = r
    r.go()
    if r.hit_horizon:
        O.fail(r, "{0}: the optimization does not stop", text)
    compare(ref, r, text)
    if what == "kept":
        for k, lists, lens, items, copies in kept:
            if [len(l) if isinstance(l, list) else None for l in lists] != lens:
                O.fail(r, "the lists of evaluation {0} have changed afterwards", k)
            for x, y in zip(items, copies):
                if np.shape(x) != np.shape(y) or not np.array_equal(np.asarray(x), y, equal_nan=True):
                    O.fail(r, "an array of evaluation {0} was {1} and has become {2} later", k, y.tolist(), np.asarray(x).tolist())
    returned(r, text)
    return (cfg["id"], len(r.calls))
