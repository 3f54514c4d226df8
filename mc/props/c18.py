"""C18: the same seed and settings give the same run"""
import copy
import glob
import os
import random

import numpy as np

from .. import campaign as K, env, harness as H, oracles as O
from ..explore import Violation

MODES = ["copy", "same object", "used copy", "saved file", "after others", "user draws", "no client", "unseeded before",
         "created before", "own exit handler", "numpy seed", "logfile"]


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []
    bases = K.gradient_free_bases() + [dict(alg="GRAPE", controls="G", total={"max_eval_total": 8})]
    for bi, base in enumerate(bases):
        for si, s in enumerate([7, 0, 123456789, "default"]):
            for extra in ({}, {"reeval": "default", "stds": [0.1]}, {"drift": {"compensate_after_SI": True, "num_average": 2}}):
                if extra and (base["alg"] == "GRAPE" or (not thorough and (bi + si) % 4)):
                    continue
                if extra.get("drift") and base["alg"] != "dCRAB":
                    continue
                if not thorough and si >= 2 and (bi + si) % 2:
                    continue
                jobs.append({"cfg": dict(copy.deepcopy(base), id=len(jobs), s=s, mode="dev", alphabet=["L", "low", "tie"],
                                         dir=("min", "max")[bi % 2], fmt=("npz", "json")[si % 2], **extra),
                             "bound": 1 if thorough or (bi + si) % 8 == 0 and not extra else 0})
        if base["alg"] != "GRAPE" and base["controls"] != "P1":
            jobs.append({"cfg": dict(copy.deepcopy(base), id=len(jobs), differ=True, dir="min", mode="dev", alphabet=["L"]), "bound": None})
    for c, si in (("A2", 2), ("A", 1)):
        jobs.insert(0, {"cfg": dict(alg="AD", controls=c, si=si, s=7, mode="dev", alphabet=["L"], dir="min", id=len(jobs),
                                    total={"max_eval_total": 4}), "bound": 0, "chunk": 2})
    return jobs


def settings(cfg, s):
    d = H.build(dict(cfg, seed=None))
    d["algorithm_settings"]["random_number_generator"] = {} if s == "default" else {"seed_number": s}
    return d


def execute(cfg, d, answers=None, pollute=False, **kw):
    """One run; the user's answers are those of the first run as long as the controls are the same"""
    def answer(run, call):
        if pollute:
            np.random.rand(call.k)
            random.random()
        if answers is not None and call.k <= len(answers):
            return dict(answers[call.k - 1])
        return {"FoM": run.sign * K.value_of("L", run, call)}
    H_run = H.Run(cfg, answer, horizon=300, dict_=d, keep=True, read_saved=False, **kw)
    return H_run


def same(a, b, what):
    for x, y in zip(a.calls, b.calls):
        if not (all(np.array_equal(p, q) for p, q in zip(x.pulses, y.pulses)) and np.array_equal(x.parameters, y.parameters)
                and all(np.array_equal(p, q) for p, q in zip(x.timegrids, y.timegrids))):
            O.fail(b, "{0}: evaluation {1} has other controls than in the first run of the same seed: {2} / {3}", what, x.k,
                   y.triple(), x.triple())
    if len(a.calls) != len(b.calls):
        O.fail(b, "{0}: {1} evaluations, the first run of the same seed makes {2}", what, len(b.calls), len(a.calls))
    if a.report != b.report:
        O.fail(b, "{0}: report {1}, the first run of the same seed: {2}", what, b.report, a.report)
    if a.history != b.history or a.reason != b.reason or a.higher_reason != b.higher_reason:
        O.fail(b, "{0}: history or reasons differ: {1} / {2}", what, (b.history, b.reason), (a.history, a.reason))
    if not (all(np.array_equal(p, q) for p, q in zip(a.best_controls[0], b.best_controls[0]))
            and np.array_equal(a.best_controls[2], b.best_controls[2])):
        O.fail(b, "{0}: best controls {1} / {2}", what, b.best_controls, a.best_controls)


def run(cfg, ctx, state):
    K.prepare(cfg)
    env.CLOCK.t = 0.0
    H.reset_results()
    if cfg.get("differ"):
        return differ(cfg, ctx)
    env.seed_globals(12345)
    random.seed(1)
    d = settings(cfg, cfg["s"])
    first_dict = copy.deepcopy(d)
    drive = K.make_answer(cfg, ctx)
    a = H.Run(cfg, drive, horizon=300, ctx=ctx, dict_=d, keep=True, read_saved=False)
    a.go()
    answers = [c.answer for c in a.calls]
    mode = ctx.pick(MODES, "mode", free=True)
    kw, pollute = {}, False
    env.seed_globals(99)
    random.seed(5)
    if mode == "same object":
        d2 = d
    elif mode == "used copy":
        d2 = copy.deepcopy(d)
    elif mode == "saved file":
        from quocslib.utils.inputoutput import readjson
        name = glob.glob(os.path.join(a.folder, "*optimization_dictionary.json"))[0]
        d2 = readjson(name)
        if isinstance(d2, tuple):
            d2 = d2[-1]
        if not isinstance(d2, dict):
            raise Violation("the saved settings cannot be read: {0!r}".format(d2))
    else:
        d2 = copy.deepcopy(first_dict)
    if mode == "after others":
        for alg, ctl, dsm in (("dCRAB", "F1p", "NM"), ("DirectSearch", "P2", "CMA4")):
            o = dict(alg=alg, controls=ctl, dsm=dsm, si=1, crit={"max_eval": 5}, dir="max", seed=3, alphabet=["L"], mode="dev")
            execute(o, H.build(o)).go()
    if mode == "unseeded before":
        o = dict(alg="dCRAB", controls="F1", dsm="NM", si=1, crit={"max_eval": 5}, dir="min", seed=None, alphabet=["L"], mode="dev")
        execute(o, H.build(o)).go()
    if mode == "numpy seed" and cfg["s"] != "default":
        d2["algorithm_settings"]["random_number_generator"]["seed_number"] = np.int64(cfg["s"])
    if mode == "logfile":
        d2["create_logfile"] = True
    if mode == "no client":
        kw["signals"] = False
    if mode == "own exit handler":
        kw["exit_obj"] = K.handle_exit()
    b = execute(cfg, d2, answers, pollute=mode == "user draws", **kw)
    if mode == "created before":
        b.create()
        o = dict(alg="dCRAB", controls="F1", dsm="CMA4", si=1, crit={"max_eval": 5}, dir="min", seed=cfg["s"] if
                 cfg["s"] != "default" else 1, alphabet=["L"], mode="dev")
        execute(o, H.build(o)).go()
        b.execute()
    else:
        b.go()
    ctx.steps += len(b.calls)
    ctx.state(cfg["id"], mode, [c.key() for c in a.calls])
    same(a, b, "seed {0}, {1}".format(cfg["s"], mode))
    return (cfg["id"], mode, len(a.calls))


def differ(cfg, ctx):
    seen = {}
    for s in (0, 1, 2, 7, 2022):
        env.seed_globals(12345)
        r = execute(cfg, settings(cfg, s)).go()
        key = tuple(c.key() for c in r.calls)
        if key in seen:
            O.fail(r, "the seeds {0} and {1} give the same controls", seen[key], s)
        seen[key] = s
        ctx.steps += len(r.calls)
    return (cfg["id"], len(seen))
