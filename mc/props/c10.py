"""C10: pulses are built as specified by the shaping options"""
import itertools
import os

import numpy as np

from .. import campaign as K, env, harness as H, oracles as O, reference as R, shapes as S
from ..explore import Violation
from . import c03

OPS = R.STEPS


def guesses(bins):
    return [None,
            {"function_type": "lambda_function", "lambda_function": "lambda t: 0.3 + 0.2*t"},
            {"function_type": "lambda_function", "lambda_function": "lambda t: np.sin(t) * 3"},
            {"function_type": "list_function", "list_function": [0.1 * (i + 1) * (-1) ** i for i in range(bins)]},
            {"function_type": "python_file", "file_path": "fa/shapes_user.py", "function_name": "guess"},
            {"function_type": "python_file", "file_path": "fb/shapes_user", "function_name": "guess", "path_mode": "relative"},
            {"function_type": "python_file", "file_path": "ABS/fb/shapes_user.py", "function_name": "guess",
             "path_mode": "absolute"}]


def scalings(bins):
    return [None,
            {"function_type": "lambda_function", "lambda_function": "lambda t: 1.0 + 0.5*t"},
            {"function_type": "lambda_function", "lambda_function": "lambda t, pulse: pulse * (t > 0.3) + 0.05"},
            {"function_type": "list_function", "list_function": [0.5 + 0.3 * i for i in range(bins)]},
            {"function_type": "python_file", "file_path": "fb/shapes_user.py", "function_name": "scale"},
            {"function_type": "python_file", "file_path": "fa/shapes_user.py", "function_name": "scale2"},
            {"function_type": "python_file", "file_path": "ABS/fa/shapes_user.py", "function_name": "scale",
             "path_mode": "absolute"}]


REFERENCE = {"a": 0.3, "b": -0.6}


def resolve(spec, folder):
    """(settings for the code, settings for the reference)"""
    if spec is None or spec["function_type"] != "python_file":
        return spec, spec
    a = REFERENCE[[p for p in spec["file_path"].split("/") if p in ("fa", "fb")][0][1]]
    kind = spec["function_name"]
    if kind == "guess":
        ref = dict(spec, reference=lambda t: a + 0.4 * t)
    elif kind == "scale":
        ref = dict(spec, reference=lambda t: 1.2 - a * t)
    else:
        ref = {"function_type": "lambda_function",
               "lambda_function": "lambda t, pulse: pulse*(1 + ({0})*t) + 0.1".format(a)}
    code = dict(spec, file_path=spec["file_path"].replace("ABS", folder))
    return code, ref


def option_lists(thorough):
    res = [None]
    for n in (1, 2, 3):
        res += [list(o) for o in itertools.product(OPS, repeat=n)]
    for n in (4, 5):
        res += [list(o) for o in itertools.permutations(OPS, n)]
    if not thorough:        # all pairs, all orders of all five, and every second triple and quadruple
        res = [o for i, o in enumerate(res) if o is None or len(o) in (1, 2, 5) or i % 2]
    return res


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []
    for bi, basis in enumerate(("Fourier", "PiecewiseBasis", "Sigmoid")):
        bins = (5, 4, 6)[bi]
        for gi in range(len(guesses(bins))):
            for si in range(len(scalings(bins))):
                if not thorough and (gi + si + bi) % 3 and not (gi + si) % 7 == bi:
                    continue
                for shrink in (False, True):
                    jobs.append({"cfg": dict(id=len(jobs), basis=basis, bins=bins, guess=gi, scale=si, shrink=shrink,
                                             over=bool((gi + si) % 4 == 1)), "bound": None, "chunk": 100})
    for n in range(1, 9):
        jobs.append({"cfg": dict(id=len(jobs), grid=True, bins=[1, 2, 3, 7, 11, 50, 101, 257][n - 1]), "bound": None})
    # whole runs: what is sent is what the settings say
    for alg, dsm in (("dCRAB", "NM"), ("dCRAB", "CMA4")):
        for gi in range(1, 7):
            jobs.append({"cfg": dict(id=len(jobs), run=True, alg=alg, dsm=dsm, guess=gi, scale=(gi * 3 + 1) % 7,
                                     shrink=bool(gi % 2), si=2, crit={"max_eval": 6}, mode="dev",
                                     alphabet=["L", "low", "high"], dir=("min", "max")[gi % 2]), "bound": 1})
    return jobs


def setup_worker(state):
    S.write_functions(state["workdir"])


def settings(cfg, state, lo=-1.1, hi=1.4, **kw):
    folder = state["workdir"]
    g, gr = resolve(guesses(cfg["bins"])[cfg["guess"]], folder)
    s, sr = resolve(scalings(cfg["bins"])[cfg["scale"]], folder)
    p = S.pulse(cfg.get("basis", "PiecewiseBasis"), bins=cfg["bins"], vec=1, T=1.5, lo=lo, hi=hi, var=0.5,
                shrink_ampl_lim=cfg["shrink"], **kw)
    code, ref = dict(p), dict(p)
    if g is not None:
        code["initial_guess"], ref["initial_guess"] = g, gr
    if s is not None:
        code["scaling_function"], ref["scaling_function"] = s, sr
    return code, ref


def run(cfg, ctx, state):
    os.chdir(state["workdir"])
    if cfg.get("grid"):
        return grid(cfg, ctx)
    if cfg.get("run"):
        return whole_run(cfg, ctx, state)
    options = ctx.pick(option_lists(state["tier"] == "thorough"), "options", free=True)
    kw = {} if options is None else {"shaping_options": options}
    if cfg["over"]:
        kw["overwrite_base_pulse"] = True
    code, ref = settings(cfg, state, **kw)
    times = [H.time_("T", 1.5)]
    ctl = S.make([code], times, [])
    model = S.Model([ref], times, [])
    n = model.n
    xs = [np.zeros(n), np.array([0.8 - 0.5 * i for i in range(n)]), np.array([-2.5 + 1.1 * i for i in range(n)])]
    # updates of earlier super-iterations: small ones, or ones which leave the limits and come back
    sizes = (1.0, 6.0, -6.0)
    commits = (1.0, 1.0)
    if options is None or len(options) <= 1:
        commits = ctx.pick(list(itertools.product(sizes, repeat=2)), "updates", free=True)
    for si in range(3):
        ws = S.super_parameters(ctl, [ref])
        for x in xs:
            S.compare(ctl, model, x, ws, "after {0} updates".format(si))
            ctx.steps += 1
        ctx.state(cfg["id"], options, si, commits)
        if si == 2:
            break
        x = commits[si] * np.array([0.3 + 0.2 * ((i + si) % 3) for i in range(n)])
        ctl.update_base_controls(x)
        model.commit(x, ws)
        ctl.select_basis()
    return (cfg["id"], str(options), commits)


def grid(cfg, ctx):
    T = ctx.pick([1.0, 0.001, 3.7, 250.0, 1e-9], "T", free=True)
    basis = ctx.pick(["Fourier", "PiecewiseBasis"], "basis", free=True)
    p = S.pulse(basis, bins=cfg["bins"], T=T)
    times = [H.time_("other", 5.5), H.time_("T", T)]
    ctl = S.make([p], times, [])
    n = ctl.get_control_parameters_number()
    u, t, _ = S.controls(ctl, np.zeros(n))
    want = R.time_grid(T, cfg["bins"])
    if t[0].shape != want.shape or not np.allclose(t[0] / T, want / T, rtol=1e-9, atol=1e-12) or u[0].shape != want.shape:
        raise Violation("time grid {0} of a pulse with {1} points and time {2}".format(t[0], cfg["bins"], T))
    ctx.steps += 1
    ctx.state("grid", cfg["bins"], T, basis)
    return (cfg["id"], T, basis)


def whole_run(cfg, ctx, state):
    """Piecewise pulses: the vector of an evaluation can be read off the other pulse, which has no shaping"""
    cfg = dict(cfg, bins=3)
    code, ref = settings(cfg, state)
    cfg["controls"] = [[code], [H.param("gain")], [H.time_("T", 1.5)]]
    r = K.play(cfg, ctx, state)
    model = S.Model([ref], cfg["controls"][2], [])
    first = model.controls(np.zeros(3), [None])
    if not H.close(r.calls[0].pulses[0], first[0][0]):
        O.fail(r, "the first pulse is {0}, the shaped initial guess is {1}", r.calls[0].pulses[0], first[0][0])
    # the coefficients that are reported rebuild the best pulse through the same steps
    rep = r.report
    if "dcrab_para_list" in rep:
        paras = rep["dcrab_para_list"]
        for x in paras[:-1]:
            model.commit(np.array(x[:3]), [None])
        want = model.controls(np.array(paras[-1][:3]), [None])[0][0]
        if not H.close(r.best_controls[0][0], want):
            O.fail(r, "best pulse {0}, the shaping steps with the coefficients {1} give {2}", r.best_controls[0][0], paras, want)
    return K.observe(r, ctx)
