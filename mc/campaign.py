"""Families of runs shared by the properties: configurations of the real optimizer x all answer sequences of the user's
figure of merit (over an alphabet, up to a horizon), or all sequences that depart at most `bound` times from a smooth
landscape in a longer run that ends by itself."""
import copy
import math

from . import env
from .explore import Violation
from . import harness as H

NAN, INF = float("nan"), float("inf")

# answers are given for a minimization; in a maximization they are sent with the opposite sign
ALPHA_FULL = [0.5, 0.25, -0.75, NAN, INF, 3e11]
ALPHA_SMALL = [0.5, 0.25, -0.75, NAN]
ALPHA_ORD = [0.5, 0.25, -0.75, 2.0]
ALPHA_BIN = [0.5, -0.75]

DEVS = ["L", "tie", "low", "high", "nan", "inf", "huge"]


def value_of(code, run, call):
    """The value (to be minimized) behind an answer code"""
    if not isinstance(code, str):
        return float(code)
    if code == "L":
        return H.landscape(call.triple())
    if code == "Lq":        # the landscape in steps of 1/4096: sums of few values are exact
        return round(H.landscape(call.triple()) * 4096) / 4096
    prev = [run.sign * float(c.value) for c in run.successes() if c is not call]
    prev = [v for v in prev if not math.isnan(v)]
    best = min(prev) if prev else None
    if best is not None and math.isinf(best):
        best = None
    if code == "tie":       # ties with the best so far
        return H.landscape(call.triple()) if best is None else best
    if code == "last":      # ties with the previous value
        return prev[-1] if prev else H.landscape(call.triple())
    if code == "low":       # the best so far
        return -1.0 if best is None else best - 1.0
    if code == "saw":       # a new best in every third evaluation, and after it a worse one
        return (-1.0 if best is None else best - 1.0) if call.k % 3 == 0 else 0.3 * call.k
    if code == "high":      # clearly worse than everything
        return 50.0 + call.k
    if code == "nan":
        return NAN
    if code == "inf":
        return INF
    if code == "-inf":
        return -INF
    if code == "huge":
        return 3e11
    if code == "-huge":
        return -3e11
    raise ValueError(code)


def make_answer(cfg, ctx):
    """The user's figure of merit of a configuration, driven by the choices of ctx"""
    alphabet = cfg["alphabet"]
    free = cfg.get("mode", "full") == "full"
    fails = cfg.get("fails", [])       # extra answers: failed evaluations [(code, status)]
    stops = cfg.get("stops", [])       # extra answers: the user stops the run during the evaluation
    stds = cfg.get("stds")             # deviations of re-evaluated measurements
    durations = cfg.get("durations")   # seconds an evaluation takes
    n = len(alphabet) + len(fails) + len(stops)

    def answer(run, call):
        def choose(m, label):
            return ctx.choose(m, label, free=free) if call.k <= cfg.get("depth", 10**6) else 0
        i = choose(n, "a")
        if durations is not None:
            run.step_time = durations[choose(len(durations), "t")]
        if i < len(alphabet):
            ans = {"FoM": run.sign * value_of(alphabet[i], run, call)}
            if stds is not None:
                ans["std"] = stds[choose(len(stds), "s")]
            return ans
        if i >= len(alphabet) + len(fails):
            run.exit_obj.set_is_user_running(False)
            run.stopped_at = call.k
            return {"FoM": run.sign * value_of(stops[i - len(alphabet) - len(fails)], run, call)}
        code, status = fails[i - len(alphabet)]
        if code is None:
            return {"FoM": None, "status_code": status}
        if code == "missing":
            return {"status_code": status}
        return {"FoM": run.sign * value_of(code, run, call), "status_code": status}
    return answer


def play(cfg, ctx, state, **kw):
    """One run of the configuration"""
    env.CLOCK.t = 0.0
    env.CLOCK.sleep_hook = None
    env.seed_globals(12345)
    H.reset_results()
    if cfg.get("stops") and "exit_obj" not in kw:
        kw["exit_obj"] = handle_exit()
    run = H.Run(cfg, kw.pop("answer", None) or make_answer(cfg, ctx), horizon=cfg.get("horizon", 300), ctx=ctx, **kw)
    run.go()
    if run.hit_horizon:
        raise Violation("the optimization does not stop: more than {0} evaluations".format(run.horizon))
    return run


def handle_exit():
    """The exit handler of the package, held by the user"""
    from quocslib.handleexit.HandleExit import HandleExit
    return HandleExit()


def Ctx0():
    """Choices that are always the default"""
    from .explore import Ctx
    return Ctx()


def prepare(cfg):
    if cfg["alg"] == "AD":
        H.setup_jax()


def observe(run, ctx):
    """Canonical states of a run for the statistics: what has been answered, what is held"""
    best = None
    for c in run.calls:
        v = c.value
        if v is not None and not c.status and not math.isnan(v) and (best is None or v * run.sign < best):
            best = v * run.sign
        ctx.state(run.cfg.get("id"), c.key(), repr(c.value), best)
    return (run.cfg.get("id"), len(run.calls), repr(run.report.get("Figure of merit")), run.reason, run.higher_reason)


def c(**kw):
    return kw


def with_ids(configs):
    for i, cfg in enumerate(configs):
        cfg["id"] = i
    return configs


def gradient_free_bases():
    """Algorithm x search method x controls"""
    return [
        c(alg="dCRAB", dsm="NM", controls="F1", si=2, crit={"max_eval": 4}),
        c(alg="dCRAB", dsm="NMa", controls="F1p", si=2, crit={"max_eval": 5}),
        c(alg="dCRAB", dsm="CMA4", controls="F1p", si=2, crit={"max_eval": 4}),
        c(alg="dCRAB", dsm="NM", controls="FC2p", si=3, crit={"max_eval": 7}),
        c(alg="dCRAB", dsm="NM", controls="FSP", si=2, crit={"max_eval": 9}),
        c(alg="dCRAB", dsm="CMA", controls="F1g", si=2, crit={"max_eval": 7}),
        c(alg="dCRAB", dsm="NM", controls="PW", si=2, crit={"max_eval": 6}),
        c(alg="DirectSearch", dsm="NM", controls="P2", crit={"max_eval": 6}),
        c(alg="DirectSearch", dsm="NMa", controls="P3", crit={"max_eval": 6}),
        c(alg="DirectSearch", dsm="CMA4", controls="P2", crit={"max_eval": 8}),
        c(alg="DirectSearch", dsm="NM", controls="P1", crit={"max_eval": 5}),
    ]


def gradient_bases():
    return [c(alg="GRAPE", controls="G"), c(alg="AD", controls="A"), c(alg="AD", controls="A2", si=2)]


def histories(tier, alphabet_full=ALPHA_FULL, fails=(), devs=DEVS, dev_bound=1, full=True, dev=True, gradient=True,
              directions=("min", "max"), ad=True, h_full=None, extra=None, fmts=("npz", "json"), stops=(), bases=None):
    """The standard campaign: list of jobs"""
    thorough = tier == "thorough"
    fails = [list(f) for f in fails]
    jobs = []
    h_full = h_full or (5 if thorough else 4)
    i = 0
    if full:
        for base in bases or gradient_free_bases():
            for d in directions:
                cfg = dict(copy.deepcopy(base), dir=d, mode="full", alphabet=list(alphabet_full), fails=fails, stops=list(stops),
                           fmt=fmts[i % len(fmts)], total={"max_eval_total": h_full})
                i += 1
                jobs.append(c(cfg=cfg, bound=None))
        if gradient:
            for d in directions:
                jobs.append(c(cfg=dict(c(alg="GRAPE", controls="G"), dir=d, mode="full", alphabet=list(alphabet_full),
                                       fails=fails, stops=list(stops), fmt=fmts[i % len(fmts)], total={"max_eval_total": h_full}), bound=None))
                i += 1
    if dev:
        for base in bases or gradient_free_bases():
            for d in directions:
                cfg = dict(copy.deepcopy(base), dir=d, mode="dev", alphabet=list(devs), fails=fails, stops=list(stops),
                           fmt=fmts[i % len(fmts)])
                cfg["crit"] = dict(cfg["crit"], max_eval=cfg["crit"]["max_eval"] + 8)
                i += 1
                jobs.append(c(cfg=cfg, bound=dev_bound + (1 if thorough else 0)))
        if gradient:
            for d in directions:
                jobs.append(c(cfg=dict(c(alg="GRAPE", controls="G"), dir=d, mode="dev", alphabet=list(devs), fails=fails, stops=list(stops),
                                       fmt=fmts[i % len(fmts)], total={"max_eval_total": 12}),
                              bound=dev_bound + (1 if thorough else 0)))
                i += 1
    if gradient and ad:
        for base in gradient_bases()[1:]:
            for d in directions:
                cfg = dict(base, dir=d, mode="dev", alphabet=list(devs), fails=fails, stops=list(stops), fmt=fmts[i % len(fmts)],
                           total={"max_eval_total": 6 if thorough else 4})
                i += 1
                jobs.append(c(cfg=cfg, bound=2 if thorough else 1, chunk=4))
    for j in jobs:
        if extra:
            j["cfg"].update(copy.deepcopy(extra))
    with_ids([j["cfg"] for j in jobs])
    # long jobs first
    jobs.sort(key=lambda j: 0 if j["cfg"]["alg"] == "AD" else 1)
    return jobs
