"""C29: optimizations alive at the same time do not influence each other"""
import copy
import itertools

import numpy as np

from .. import campaign as K, env, harness as H, oracles as O
from ..explore import Violation
from ..sched import Scheduler

RUNS = {
    "dNM": dict(alg="dCRAB", dsm="NM", controls="F1p", si=2, crit={"max_eval": 3}, seed=7, fmt="npz"),
    "dNM2": dict(alg="dCRAB", dsm="NM", controls="FC2p", si=2, crit={"max_eval": 4}, seed=7, fmt="json"),
    "dCMA": dict(alg="dCRAB", dsm="CMA4", controls="F1", si=2, crit={"max_eval": 5}, seed=3, fmt="json"),
    "dRe": dict(alg="dCRAB", dsm="NM", controls="F1p", si=2, crit={"max_eval": 4}, seed=11, reeval=[0.33, 0.5], stds=0.4),
    "dDrift": dict(alg="dCRAB", dsm="NM", controls="F1g", si=2, crit={"max_eval": 3}, seed=5,
                   drift={"compensate_after_SI": True, "num_average": 2}),
    "dLong": dict(alg="dCRAB", dsm="NM", controls="F1p", si=3, crit={"max_eval": 9}, seed=2),
    "sNM": dict(alg="DirectSearch", dsm="NMa", controls="P2", crit={"max_eval": 6}, seed=7),
    "sCMA": dict(alg="DirectSearch", dsm="CMA4", controls="P3", crit={"max_eval": 7}, seed=9, fmt="json"),
    "sTot": dict(alg="DirectSearch", dsm="NM", controls="P2", crit={}, total={"max_eval_total": 5}, seed=1),
    "sGoal": dict(alg="DirectSearch", dsm="NM", controls="P2", crit={"max_eval": 30}, total={"FoM_goal": 0.52}, seed=1),
    "sCbs": dict(alg="DirectSearch", dsm="NM", controls="P2", seed=6,
                 crit={"max_eval": 9, "change_based_stop": {"cbs_funct_evals": 4, "cbs_change": 0.08}}),
    "dCbs": dict(alg="dCRAB", dsm="CMA4", controls="F1p", si=2, seed=6,
                 crit={"max_eval": 9, "change_based_stop": {"cbs_funct_evals": 3, "cbs_change": 0.05}}),
    "G": dict(alg="GRAPE", controls="G", total={"max_eval_total": 5}, seed=4, values="grape"),
    "A": dict(alg="AD", controls="A", total={"max_eval_total": 3}, seed=4),
}
NAMES = [n for n in RUNS if n != "A"]


def spec(name, dir_, kind="plain", client="mc"):
    c = copy.deepcopy(RUNS[name])
    c.update(dir=dir_, kind=kind, name=client, key=name)
    return c


def jobs(tier, seed):
    thorough = tier == "thorough"
    out = []

    def add(mode, bound, *runs, **kw):
        if kw.get("same_second"):       # the same name in the same second is refused (C19)
            for k, r in enumerate(runs):
                r["name"] = "mc%d" % k
        out.append({"cfg": dict(kw, id=len(out), mode=mode, runs=list(runs)), "bound": bound,
                    "chunk": 3 if any(r["alg"] == "AD" for r in runs) else 12})
    for a, b in (("A", "dNM"), ("A", "A")):
        add("threads", 0 if not thorough else 1, spec(a, "min"), spec(b, "max"))
        add("together", None, spec(a, "min"), spec(b, "max"))
    pairs = list(itertools.combinations_with_replacement(NAMES, 2))
    for i, (a, b) in enumerate(pairs):
        d = (("min", "min"), ("min", "max"), ("max", "max"), ("max", "min"))[i % 4]
        kind = ("plain", "stop", "fail")[i % 3]
        client = "mc" if i % 2 else "other"
        add("threads", (2 if thorough else 1), spec(a, d[0], kind), spec(b, d[1], "plain", client), same_second=i % 2)
        add("nested", None, spec(a, d[0]), spec(b, d[1], kind, client), same_second=i % 2)
        if thorough or i % 2 == 0:
            add("nested", None, spec(b, d[1]), spec(a, d[0], ("fail", "plain", "stop")[i % 3], client), same_second=(i + 1) % 2)
        add("together", None, spec(a, d[0], kind), spec(b, d[1], "plain", client), same_second=1 - i % 2)
    # every interleaving of short runs
    for i, (a, b) in enumerate([("dNM", "dNM"), ("dNM", "sNM"), ("sTot", "sTot"), ("dRe", "dNM"), ("sTot", "G"), ("sCMA", "dCMA"),
                                ("dDrift", "dNM"), ("sTot", "dRe")]):
        x, y = spec(a, "min"), spec(b, "max")
        for r in (x, y):
            r["short"] = 3
            r["coarse"] = not thorough
        add("threads", None, x, y, same_second=i % 2)
    for i, t in enumerate([("dNM", "sNM", "dCMA"), ("dRe", "sTot", "G"), ("dNM2", "dNM2", "dNM2"), ("dDrift", "sGoal", "dLong")]):
        add("threads", 2 if thorough else 1, *[spec(n, ("min", "max")[(i + k) % 2], ("plain", "stop", "fail")[k]) for k, n in enumerate(t)])
        add("together", None, *[spec(n, ("min", "max")[(i + k) % 2], ("plain", "stop", "fail")[k]) for k, n in enumerate(t)])
    return out


def make(cfg, point=None, before=None):
    """A run whose answers depend on its own calls only"""
    handler = K.handle_exit()
    stop_at = 3 if cfg["kind"] == "stop" else None
    fail_at = 4 if cfg["kind"] == "fail" else None

    def answer(run, call):
        if point is not None:
            point("evaluation")
        if before is not None:
            before(call.k)
        if cfg.get("values") == "grape":
            v = H.grape_fidelity(call.pulses[0], 1.0)
        else:
            v = H.landscape(call.triple())
            if call.k % 4 == 3:
                v = v - 0.3
        ans = {"FoM": run.sign * v}
        if cfg.get("stds"):
            ans["std"] = cfg["stds"]
        if call.k == fail_at:
            ans["status_code"] = -1
        if call.k == stop_at:
            handler.is_user_running = False
        if point is not None:
            point("answer")
        return ans
    c = dict(cfg)
    if cfg.get("short"):
        c["total"] = dict(c.get("total", {}), max_eval_total=cfg["short"])
    run = H.Run(c, answer, horizon=200, exit_obj=handler, keep=True, step_time=0.0)
    return run


def points(cfg, sched):
    """Where a run may lose the processor; if all interleavings are explored, only before an evaluation (quick tier)"""
    def point(label):
        if label == "evaluation" or not cfg.get("coarse"):
            sched.point(label)
    return point


def finish(run):
    if run.hit_horizon:
        raise Violation("the optimization does not stop: {0}".format(run.cfg))
    return run.collect()


def alone(cfg, state):
    """The run without any other"""
    key = repr(sorted(cfg.items(), key=str))
    cache = state.setdefault("solo", {})
    if key not in cache:
        fresh()
        r = make(cfg)
        r.create()
        r.execute_only()
        cache[key] = finish(r)
    return cache[key]


def fresh():
    env.CLOCK.t = 0.0
    env.CLOCK.sleep_hook = None
    env.seed_globals(4242)
    H.reset_results()


def strip(x):
    """A report or file content without times and folder names"""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if "time" not in str(k).lower() or "grid" in str(k).lower()}
    if isinstance(x, (list, tuple)):
        return [strip(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    return x


def equal(x, y, tol=1e-10):
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(equal(x[k], y[k]) for k in x)
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(equal(a, b) for a, b in zip(x, y))
    if isinstance(x, (int, float, np.number)) and isinstance(y, (int, float, np.number)) and not isinstance(x, bool):
        return H.num_eq(x, y, tol)
    return type(x) is type(y) and x == y or repr(x) == repr(y)


def compare(ref, run, what):
    n = run.cfg["key"]
    for x, y in zip(ref.calls, run.calls):
        if not x.same_controls(y, 1e-10):
            O.fail(run, "{0}: evaluation {1} of {2} has the controls {3}, alone it has {4}", what, x.k, n, y.triple(), x.triple())
        if not H.num_eq(x.value, y.value):
            O.fail(run, "{0}: evaluation {1} of {2}: value {3}, alone {4}", what, x.k, n, y.value, x.value)
    if len(ref.calls) != len(run.calls):
        O.fail(run, "{0}: {1} makes {2} evaluations, alone {3}", what, n, len(run.calls), len(ref.calls))
    if not run.finished:
        O.fail(run, "{0}: {1} is not finished", what, n)
    for label, a, b in (("report", ref.report, run.report), ("history", ref.history, run.history),
                        ("reason", [ref.reason, ref.higher_reason], [run.reason, run.higher_reason]),
                        ("best controls", list(ref.best_controls), list(run.best_controls)),
                        ("saved best controls", ref.saved_end, run.saved_end)):
        a, b = strip(a), strip(b)
        if not equal(a, b):
            O.fail(run, "{0}: {1} of {2} is {3}, alone {4}", what, label, n, b, a)
    ea = [e[0] for e in ref.events]
    eb = [e[0] for e in run.events]
    if ea != eb:
        O.fail(run, "{0}: messages of {1}: {2}, alone {3}", what, n, eb, ea)


def run(cfg, ctx, state):
    if any(r["alg"] == "AD" for r in cfg["runs"]):
        H.setup_jax()
    refs = [alone(r, state) for r in cfg["runs"]]
    fresh()
    env.seed_globals(17)
    mode = cfg["mode"]

    def create(r):
        t = env.CLOCK.t
        r.create()
        if cfg.get("same_second"):
            env.CLOCK.t = t
        return r
    if mode == "threads":
        sched = Scheduler(ctx)
        runs = []

        def body(r):
            def go():
                create(r)
                sched.point("created")
                r.execute_only()
            return go
        for r in cfg["runs"]:
            runs.append(make(r, point=points(r, sched)))
            sched.add(body(runs[-1]))
        sched.run()
        for e in sched.errors:
            if e is not None:
                raise e
        what = "interleaved as {0}".format([i for i, _ in sched.trace])
    elif mode == "together":
        order = ctx.pick(list(itertools.permutations(range(len(cfg["runs"])))), "order", free=True)
        runs = [create(make(r)) for r in cfg["runs"]]
        for i in order:
            runs[i].execute_only()
        what = "created together, executed in the order {0}".format(order)
    else:
        outer, inner = cfg["runs"]
        at = 1 + ctx.choose(len(refs[0].calls), "at", free=True)
        how = ctx.choose(2, "how", free=True)
        second = make(inner)
        if how:
            create(second)      # created before, executed inside

        def before(k):
            if k == at:
                if not how:
                    create(second)
                second.execute_only()
        first = make(outer, before=before)
        create(first).execute_only()
        runs = [first, second]
        what = "{0} inside evaluation {1} of {2}".format(inner["key"], at, outer["key"])
    folders = [r.folder for r in runs]
    if len(set(folders)) != len(folders):
        raise Violation("optimizations alive together share their results folder: {0}".format(folders))
    for ref, r in zip(refs, runs):
        finish(r)
        ctx.steps += len(r.calls)
        compare(ref, r, what)
    ctx.state(cfg["id"], what)
    return (cfg["id"], tuple(len(r.calls) for r in runs))
