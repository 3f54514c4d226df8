"""C12: every control reads its own part of the search vector"""
import itertools

import numpy as np

from .. import campaign as K, env, harness as H, oracles as O, reference as R, shapes as S
from ..explore import Violation

KINDS = [("Fourier", dict(vec=1, bins=4)), ("PiecewiseBasis", dict(bins=3)), ("Sigmoid", dict(vec=2, bins=5)),
         ("Fourier", dict(vec=2, bins=3)), ("Chebyshev", dict(vec=1, bins=6)), ("Sinc", dict(vec=3, bins=5)),
         ("SigmoidAllParas", dict(vec=2, bins=4, basis_kw={"tau_variation": 0.3, "sigma_variation": 0.5, "sigma": 0.05,
                                                          "offset": 0.1})),
         ("SigmoidTimeDep", dict(vec=1, bins=4, basis_kw={"sigma": 0.05, "offset": 0.1})),
         ("SigmoidSigmas", dict(vec=2, bins=4, basis_kw={"sigma": 0.05, "offset": 0.1})), ("PiecewiseBasis", dict(bins=1))]
TIMES = [("T_x", 1.5), ("T_y", 2.5), ("T_z", 0.8)]


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []
    for npulses in (0, 1, 2, 3):
        for npars in (0, 1, 2, 3):
            if npulses + npars == 0:
                continue
            if npulses == 3 and not thorough and npars in (1, 3):
                continue
            jobs.append({"cfg": dict(id=len(jobs), npulses=npulses, npars=npars), "bound": None, "chunk": 60})
    for alg, dsm in (("dCRAB", "NM"), ("dCRAB", "CMA4"), ("DirectSearch", "NM")):
        for order in itertools.permutations(range(3)) if alg == "dCRAB" else [(0,)]:
            for d in ("min", "max"):
                jobs.append({"cfg": dict(id=len(jobs), run=True, alg=alg, dsm=dsm, order=list(order), dir=d,
                                         alphabet=["L", "low", "saw"], mode="dev", si=2, crit={"max_eval": 14}), "bound": 1})
    for pair in ((0, 1), (1, 0)):
        jobs.append({"cfg": dict(id=len(jobs), ad=True, pair=list(pair)), "bound": None, "chunk": 10})
    return jobs


def parameters(n):
    return [H.param("par%d" % i, value=(0.4, -0.7, 1.1)[i], lo=-900 + i, hi=900 - i, var=(0.3, 0.2, 0.45)[i]) for i in range(n)]


def run(cfg, ctx, state):
    if cfg.get("run"):
        return whole_run(cfg, ctx, state)
    if cfg.get("ad"):
        return ad(cfg, ctx, state)
    pulses = []
    # three pulses: fewer kinds each
    kinds = KINDS if cfg["npulses"] < 3 or state["tier"] == "thorough" else KINDS[:5]
    for i in range(cfg["npulses"]):
        basis, kw = ctx.pick(kinds, "basis", free=True)
        name, T = ctx.pick(TIMES[:2] if cfg["npulses"] < 3 else [TIMES[i]], "time", free=True)
        pulses.append(S.pulse(basis, name="p%d" % i, time=name, T=T, var=0.5 + 0.25 * i, **kw))
    times = [H.time_(n, v) for n, v in (TIMES if ctx.choose(2, "order", free=True) == 0 else TIMES[::-1])]
    pars = parameters(cfg["npars"])
    check(ctx, cfg, pulses, times, pars)
    return (cfg["id"], tuple((p["basis"]["basis_name"], p["time_name"]) for p in pulses), times[0]["time_name"])


def generic(n, shift=0):
    return np.array([0.35 + 0.11 * ((5 * i + shift) % 9) for i in range(n)])


def check(ctx, cfg, pulses, times, pars):
    ctl = S.make(pulses, times, pars, numbers=(0.37, 0.81, 0.05, 0.62, 0.5, 0.93, 0.21))
    model = S.Model(pulses, times, pars)
    if ctl.get_control_parameters_number() != model.n:
        raise Violation("{0} entries in the search vector, the controls {1} {2} need {3}".format(
            ctl.get_control_parameters_number(), pulses, pars, model.n))
    owner = [i for i, k in enumerate(model.ns) for _ in range(k)] + [len(pulses) + i for i in range(len(pars))]
    for si in range(3):
        ws = S.super_parameters(ctl, pulses)
        what = "super-iteration {0}".format(si + 1)
        if not H.close(ctl.get_mean_value(), model.mean()):
            raise Violation("{0}: start point {1}, it has to be {2} ({3})".format(what, ctl.get_mean_value(), model.mean(), pulses))
        if not H.close(ctl.get_sigma_variation(), model.sigma()):
            raise Violation("{0}: initial variations {1}, they have to be {2} ({3})".format(
                what, ctl.get_sigma_variation(), model.sigma(), pulses))
        x = generic(model.n, si)
        ref = S.compare(ctl, model, x, ws, what)
        for j in range(model.n):
            y = x.copy()
            y[j] += 0.173
            got = S.compare(ctl, model, y, ws, what + ", entry {0} changed".format(j))
            changed = [i for i in range(len(pulses)) if not H.close(got[0][i], ref[0][i], 1e-12)]
            changed += [len(pulses) + i for i in range(len(pars)) if abs(got[2][i] - ref[2][i]) > 1e-12]
            if any(i != owner[j] for i in changed):
                raise Violation("{0}: entry {1} of the search vector belongs to control {2}, it changes {3}".format(
                    what, j, owner[j], changed))
            ctx.steps += 1
        ctx.state(cfg["id"], si, [(p["basis"]["basis_name"], p["time_name"]) for p in pulses], len(pars))
        if H.close(S.controls(ctl, x)[2], ref[2]) is False:
            raise Violation("the same vector gives other parameters the second time")
        # next super-iteration: the update becomes the base, the basis is redrawn
        ctl.update_base_controls(np.array(x))
        model.commit(x, ws)
        ctl.select_basis()


def ad(cfg, ctx, state):
    """Controls of the automatic differentiation: the same partition, in arrays as long as the longest pulse"""
    H.setup_jax()
    bins = [(3, 2), (2, 5), (4, 4), (1, 3)][ctx.choose(4, "bins", free=True)]
    npars = ctx.choose(3, "parameters", free=True)
    pulses = [S.pulse("PiecewiseBasis", name="p%d" % i, time=TIMES[k][0], bins=b) for i, (k, b) in
              enumerate(zip(cfg["pair"], bins))]
    times = [H.time_(n, v) for n, v in TIMES]
    pars = parameters(npars)
    ctl = S.make(pulses, times, pars, is_AD=True)
    model = S.Model(pulses, times, pars)
    import jax.numpy as jnp
    x = generic(model.n)
    vectors = [x] + [x + 0.173 * np.eye(model.n)[j] for j in range(model.n)]
    for y in vectors:
        want = model.controls(y, [None] * len(pulses))
        for got in (ctl.get_controls_lists(jnp.array(y)), ctl.get_final_controls_lists(jnp.array(y))):
            p, t, c = [H.arr(a) for a in got]
            for i in range(len(pulses)):
                n = bins[i]
                if not H.close(p[i][:n], want[0][i], 1e-5) or np.any(p[i][n:] != 0) or not H.close(t[i][:n], want[1][i], 1e-5):
                    raise Violation("AD pulse {0} for {1} is {2} on {3}, it has to be {4} on {5}".format(
                        i, y, p[i], t[i], want[0][i], want[1][i]))
            if not H.close(c, want[2], 1e-5):
                raise Violation("AD parameters for {0} are {1}, they have to be {2}".format(y, c, want[2]))
        ctx.steps += 1
    ctx.state("ad", bins, npars, cfg["pair"])
    return (cfg["id"], bins, npars)


def whole_run(cfg, ctx, state):
    """In a run, the start simplex varies each control by its own amplitude and the names in the file fit the controls"""
    order = cfg["order"]
    if cfg["alg"] == "DirectSearch":
        pulses = []
    else:
        all_ = [S.pulse("PiecewiseBasis", name="steps", time="T_y", T=2.5, bins=3, var=0.4),
                S.pulse("Fourier", name="wave", time="T_x", T=1.5, bins=4, var=0.9),
                S.pulse("Sigmoid", name="ramp", time="T_z", T=0.8, bins=5, vec=2, var=0.6)]
        pulses = [all_[i] for i in order]
    pars = parameters(2)
    times = [H.time_(n, v) for n, v in TIMES]
    cfg = dict(cfg, controls=[pulses, pars, times])
    r = K.play(cfg, ctx, state)
    model = S.Model(pulses, times, pars)
    for c in r.calls:
        if [len(p) for p in c.pulses] != [p["bins_number"] for p in pulses] or len(c.parameters) != 2:
            O.fail(r, "evaluation {0}: pulses of lengths {1}, {2} parameters for {3}", c.k, [len(p) for p in c.pulses],
                   len(c.parameters), pulses)
        for i, (T, p) in enumerate(zip(model.T, pulses)):
            if not H.close(c.timegrids[i], R.time_grid(T, p["bins_number"])):
                O.fail(r, "evaluation {0}: pulse {1} has the time grid {2}, its time is {3}", c.k, p["pulse_name"],
                       c.timegrids[i], T)
    first = r.calls[0]
    for i, p in enumerate(pulses):
        if not H.close(first.pulses[i], np.zeros(p["bins_number"])):
            O.fail(r, "the run starts with the pulse {0}", first.pulses[i])
    if not H.close(first.parameters, [p["initial_value"] for p in pars]):
        O.fail(r, "the run starts with the parameters {0}", first.parameters)
    # the spread of the start simplex of every control is that control's variation
    if cfg["dsm"] == "NM":
        n = model.n
        pts = r.calls[:n + 1]
        if len(pts) == n + 1 and cfg["crit"]["max_eval"] >= n + 1 and all(c.si == first.si for c in pts):
            for i, p in enumerate(pars):
                d = np.array([c.parameters[i] - first.parameters[i] for c in pts[1:]])
                # orthonormal directions times the variation: the squares sum up to its square
                if not H.close(np.sum(d ** 2), p["amplitude_variation"] ** 2, 1e-7):
                    O.fail(r, "parameter {0} varies by {1} in the start simplex, its variation is {2}", p["parameter_name"], d,
                           p["amplitude_variation"])
            for i, p in enumerate(pulses):
                if p["basis"]["basis_name"] == "PiecewiseBasis":
                    d = np.array([c.pulses[i] for c in pts[1:]])
                    if not H.close(np.sum(d ** 2, axis=0), np.full(len(d[0]), p["amplitude_variation"] ** 2), 1e-7):
                        O.fail(r, "pulse {0} varies by {1} in the start simplex, its variation is {2}", p["pulse_name"], d,
                               p["amplitude_variation"])
    best = r.best_call()
    if best is not None:
        O.saved_equal(r, r.saved_end, best, "at the end")
    return K.observe(r, ctx)
