"""C30: the log tells what happened in its optimization, and nothing else"""
import copy
import gc
import glob
import io
import itertools
import os
import re
import sys

from .. import campaign as K, env, harness as H, oracles as O
from ..explore import Violation
from ..sched import Scheduler

EVAL = re.compile(r"Function evaluation number: (\d+)(?:[^\n]*?Re-eval\. number: (\d+))?[^\n]*?FoM: ([^\s,]+)")
RECORD = re.compile(r"New record achieved\. Previous FoM: ([^\s,]+), new best FoM : ([^\s,]+)")
RECORD_RE = re.compile(r"New record achieved\. New best FoM: ([^\s,]+), std: ([^\s,]+)")
FAILED = re.compile(r"interrupted with status code: (\S+) at iteration (\d+)")
SI = re.compile(r"SI (\d+) finished - Number of evaluations: (\d+), Best FoM: ([^\s,]+), Terminate reason: ([^\n]*)")
FINAL = re.compile(r"(?:- INFO - |INFO\s+\S+\s+)(Figure of merit|Termination Reason|terminate_reason|"
                   r"total number of function evaluations|nfev) : ([^\n]*)")
KINDS = [("eval", EVAL), ("record", RECORD), ("re-record", RECORD_RE), ("failed", FAILED), ("si", SI), ("final", FINAL)]

CMA = re.compile(r"CMA-ES - average FoM: ([^\s,]+)")

FAILS = [["L", -1], [None, 7]]


def jobs(tier, seed):
    thorough = tier == "thorough"
    out = []
    flags = [(True, False), (True, True), (False, True), (False, False)]

    def add(bound, **cfg):
        cfg["id"] = len(out)
        out.append({"cfg": cfg, "bound": bound, "chunk": 3 if "AD" in (cfg.get("alg"), [r.get("alg") for r in cfg.get("runs", [])]) else 12})

    bases = K.gradient_free_bases() + [dict(alg="GRAPE", controls="G")]
    for i, base in enumerate(bases):
        for j, d in enumerate(("min", "max")):
            log, console = flags[(i + j) % 2]
            common = dict(copy.deepcopy(base), dir=d, log=log, top={"console_info": console})
            add(None, mode="full", depth=3, alphabet=[0.5, -0.75, float("nan"), 3e11], fails=FAILS, stops=["L"],
                **dict(common, total={"max_eval_total": 4 if thorough else 3}))
            dev = copy.deepcopy(common)
            dev["crit"] = dict(base.get("crit", {}), max_eval=base.get("crit", {}).get("max_eval", 4) + 6)
            add(2 if thorough else 1, mode="dev", alphabet=["L", "low", "high", "tie", "nan"], fails=FAILS[:1], stops=["L"],
                **dict(dev, total={"max_eval_total": 14} if base["alg"] == "GRAPE" else {"FoM_goal": -3.5 if d == "min" else 3.5}))
            if i % 3 == j:
                for log, console in flags[2:]:
                    add(1, mode="dev", alphabet=["L", "low"], fails=FAILS[:1], stops=["L"],
                        **dict(dev, log=log, top={"console_info": console}, total={"max_eval_total": 9}))
    for alg, base in (("dCRAB", dict(dsm="NM", controls="F1p", si=2)), ("DirectSearch", dict(dsm="NM", controls="P2"))):
        for d in ("min", "max"):
            for ree in ([0.33, 0.5], "default"):
                add(2 if thorough else 1, mode="dev", alphabet=["L", "low", "high", "tie"], fails=FAILS[:1], stops=["L"], log=True,
                    top={"console_info": d == "max"}, alg=alg, dir=d, crit={"max_eval": 7}, reeval=ree, stds=[0.1, 1.5], **copy.deepcopy(base))
            add(1, mode="dev", alphabet=["L", "low", "high"], log=True, top={"console_info": True}, alg=alg, dir=d,
                crit={"max_eval": 9}, drift={"compensate_after_SI": True, "num_average": 2, "compensate_after_minutes": 0.05},
                durations=[2.0], **copy.deepcopy(base))
    for d in ("min", "max"):
        add(1, mode="dev", alphabet=["L", "low", "high"], fails=FAILS[:1], stops=["L"], log=True, top={"console_info": d == "min"},
            alg="AD", controls="A2", si=2, dir=d, total={"max_eval_total": 4})
    # several optimizations
    from . import c29
    names = ["dNM", "dCMA", "sNM", "sTot", "sCMA", "dRe", "G"]

    def spec(name, d, kind, client, log, console):
        c = c29.spec(name, d, kind, client)
        c.update(log=log, top={"console_info": console}, mode="dev", alphabet=["L"])
        return c
    for i, (a, b) in enumerate(itertools.product(names, names)):
        if not thorough and (i % 3):
            continue
        d = (("min", "min"), ("min", "max"), ("max", "max"), ("max", "min"))[i % 4]
        kind = ("plain", "stop", "fail")[i % 3]
        x = spec(a, d[0], kind, "mc", True, i % 4 == 0)
        y = spec(b, d[1], "plain", "other", i % 5 != 3, i % 4 == 1)
        add(None, mode="together", runs=[x, y])
        add(None, mode="nested", runs=[copy.deepcopy(x), copy.deepcopy(y)])
        add(1 if thorough else 0, mode="threads", runs=[copy.deepcopy(x), copy.deepcopy(y)])
    for i, t in enumerate([("dNM", "sNM", "dCMA"), ("dRe", "sTot", "G")]):
        runs = [spec(n, ("min", "max")[(i + k) % 2], ("plain", "stop", "fail")[k], "c%d" % k, True, k == 1) for k, n in enumerate(t)]
        add(None, mode="together", runs=runs)
        add(1 if thorough else 0, mode="threads", runs=copy.deepcopy(runs))
    if not thorough:
        x, y = (spec("dNM", "min", "plain", "mc", True, True), spec("sTot", "max", "plain", "other", True, False))
        add(1, mode="threads", runs=[x, y])
    out.sort(key=lambda j: 0 if j["cfg"].get("alg") == "AD" else 1)
    return out


def tokens(text):
    """What the log tells, in its order"""
    found = []
    for kind, rx in KINDS:
        for m in rx.finditer(text):
            found.append((m.start(), kind, m.groups()))
    return [(k, g) for _, k, g in sorted(found, key=lambda x: (x[0], x[1]))]


def read_log(run):
    files = glob.glob(os.path.join(run.folder, "*_logging.log"))
    if len(files) > 1:
        raise Violation("several log files: {0}".format(files))
    if not files:
        return None
    with open(files[0]) as f:
        return f.read()


class Screen(io.StringIO):
    """What is shown in the console"""
    def isatty(self):
        return False


def shown(run):
    return run.screen.getvalue()


def create(run):
    """Create the run with its own console"""
    run.screen = Screen()
    keep, sys.stdout = sys.stdout, run.screen
    try:
        run.create()
    finally:
        sys.stdout = keep
    return run


def close(run):
    try:
        for h in list(run.alg.comm_obj.logger.handlers):
            h.close()
    except Exception:
        pass


def sources(run):
    """Texts which tell the story of the run"""
    out = []
    text = read_log(run)
    if run.cfg["log"] and text is None:
        raise Violation("there is no log file although it is asked for")
    if not run.cfg["log"] and text is not None:
        raise Violation("there is a log file although it is switched off")
    if text is not None:
        out.append(("log file", tokens(text)))
    if run.cfg["top"]["console_info"]:
        out.append(("console", tokens(shown(run))))
    else:
        lines = [s for s in shown(run).splitlines() if s.startswith(("INFO", "WARNING", "DEBUG"))]
        if lines:
            O.fail(run, "console_info is false, but the console shows {0}", lines[:3])
    return out


def tol(run):
    return 1e-6 if run.cfg["alg"] == "AD" else 1e-12


def so_far(run, call):
    """At evaluation k the log tells everything about the evaluations before"""
    for where, toks in sources(run):
        judge_evals(run, where, toks, call.k - 1, "before evaluation {0}".format(call.k))


def averages(run, upto):
    """Running averages of repeated measurements: {k: values that may be told}"""
    out, first = {}, 0
    calls = run.calls[:upto]
    for i, c in enumerate(calls):
        if i == 0 or not c.same_controls(calls[i - 1], 1e-12):
            first = i
        vals = []
        for f in range(first, i + 1):
            part = [x.value for x in calls[f:i + 1]]
            if None not in part:
                vals.append(sum(part) / len(part))
        out[c.k] = vals
    return out


def judge_evals(run, where, toks, n, when):
    cfg = run.cfg
    repeated = cfg.get("reeval") is not None
    evals = [(int(g[0]), g[1], g[2]) for kind, g in toks if kind == "eval"]
    numbers = []
    for k, _, _ in evals:
        if not numbers or numbers[-1] != k:
            numbers.append(k)
    ok = [c.k for c in run.calls[:n] if not c.status]
    told = [k for k in numbers if k > n or k < 1 or not run.calls[k - 1].status]
    if told != ok:
        O.fail(run, "{0} {1}: it tells about the evaluations {2}, {3} were made", where, when, told, ok)
    avg = averages(run, n) if repeated else None
    for k, step, text in evals:
        c = run.calls[k - 1]
        if c.status:
            continue
        try:
            v = float(text)
        except ValueError:
            O.fail(run, "{0} {1}: the figure of merit of evaluation {2} is {3}", where, when, k, text)
        allowed = avg[k] if repeated else [c.value]
        if not any(H.num_eq(v, a, max(tol(run), 1e-9 if repeated else 0)) for a in allowed):
            O.fail(run, "{0} {1}: evaluation {2} has the figure of merit {3}, it is {4}", where, when, k, text, allowed)
    failed = [(g[0], int(g[1])) for kind, g in toks if kind == "failed"]
    want = [(str(c.status), c.k) for c in run.calls[:n] if c.status]
    if failed != want:
        O.fail(run, "{0} {1}: failed evaluations {2}, they are {3}", where, when, failed, want)


def judge_end(run):
    cfg = run.cfg
    srcs = sources(run)
    t = tol(run)
    for where, toks in srcs:
        judge_evals(run, where, toks, len(run.calls), "at the end")
        plain = cfg.get("reeval") is None and cfg.get("drift") is None
        records, best = [], None
        for c in run.successes():
            v = run.sign * float(c.value)
            if v == v and v < (float("inf") if best is None else best):
                records.append((best, v))
                best = v
        got = [g for kind, g in toks if kind == "record"]
        if plain:
            if len(got) != len(records):
                O.fail(run, "{0}: {1} records are told, there are {2}", where, len(got), len(records))
            for g, (old, new) in zip(got, records):
                if not H.num_eq(float(g[1]), run.sign * new, t) or (old is not None and not H.num_eq(float(g[0]), run.sign * old, t)):
                    O.fail(run, "{0}: a record from {1} to {2} is told, it is from {3} to {4}", where, g[0], g[1],
                           old if old is None else run.sign * old, run.sign * new)
        final = [g for kind, g in toks if kind == "final"]
        for key in ("Figure of merit", "nfev", "total number of function evaluations", "terminate_reason"):
            vals = [v.strip() for k, v in final if k == key]
            if key not in run.report:
                if vals:
                    O.fail(run, "{0}: {1} is {2}, it is not in the report", where, key, vals)
                continue
            want = run.report[key]
            same = len(vals) == 1 and (vals[0] == str(want).strip() if isinstance(want, str) else H.num_eq(vals[0], want, t))
            if not same:
                O.fail(run, "{0}: {1} is {2}, the report has {3}", where, key, vals, want)
        reason = [v.strip() for k, v in final if k == "Termination Reason"]
        if reason != ([run.higher_reason.strip()] if run.higher_reason else []):
            O.fail(run, "{0}: the reason of the end is {1}, it is {2!r}", where, reason, run.higher_reason)
        re_rec = [g for kind, g in toks if kind == "re-record"]
        if cfg.get("reeval") is not None and cfg.get("drift") is None and re_rec:
            if not H.num_eq(float(re_rec[-1][0]), run.report["Figure of merit"], 1e-9):
                O.fail(run, "{0}: the last record is {1}, the figure of merit of the optimization is {2}", where, re_rec[-1][0],
                       run.report["Figure of merit"])
        if cfg["alg"] == "dCRAB":
            sis = [g for kind, g in toks if kind == "si"]
            if [int(g[0]) for g in sis] != list(range(1, len(sis) + 1)):
                O.fail(run, "{0}: super-iterations {1}", where, [g[0] for g in sis])
            seen = sorted({c.si for c in run.calls})
            if len(sis) < len(seen):
                O.fail(run, "{0}: {1} super-iterations end, evaluations were made in {2}", where, len(sis), seen)
            if plain:
                for g in sis:
                    upto = [c for c in run.calls if c.si <= int(g[0])]
                    b = run.best_call(len(upto))
                    if b is not None and not H.num_eq(float(g[2]), b.value, t):
                        O.fail(run, "{0}: best figure of merit at the end of super-iteration {1}: {2}, it is {3}", where, g[0], g[2], b.value)
                    here = [c for c in run.calls if c.si == int(g[0])]
                    if not run.higher_reason and run.stopped_at is None and not any(c.status for c in run.calls) and int(g[1]) != len(here):
                        O.fail(run, "{0}: {1} evaluations in super-iteration {2}, {3} were made", where, g[1], g[0], len(here))
            if sis and "terminate_reason" in run.report and sis[-1][3].strip() != str(run.report["terminate_reason"]).strip():
                O.fail(run, "{0}: the last super-iteration ends with {1!r}, the report tells {2!r}", where, sis[-1][3], run.report["terminate_reason"])
    if len(srcs) == 2 and srcs[0][1] != srcs[1][1]:
        O.fail(run, "the console tells {0}, the log file {1}", srcs[1][1], srcs[0][1])


def judge_generations(run):
    """Values of a population are told in the log of the optimization which evaluated it"""
    text = read_log(run)
    if text is None:
        return
    told = [float(x) for x in CMA.findall(text)]
    cma = str(run.cfg.get("dsm")).startswith("CMA")
    if told and not cma:
        O.fail(run, "log file: averages of populations {0}, the optimization has none", told[:3])
    if cma and len(told) > len(run.calls):
        O.fail(run, "log file: {0} populations are told, {1} evaluations were made", len(told), len(run.calls))
    if cma and not told and run.stopped_at is None and not run.higher_reason and not any(c.status for c in run.calls):
        O.fail(run, "log file: no population is told, {0} evaluations were made", len(run.calls))


def fresh(n):
    env.CLOCK.t = 0.0
    env.CLOCK.sleep_hook = None
    env.seed_globals(n)
    H.reset_results()


def single(cfg, ctx):
    fresh(12345)
    run = H.Run(cfg, K.make_answer(cfg, ctx), horizon=200, ctx=ctx, before_call=so_far, keep=True, read_saved=False,
                exit_obj=K.handle_exit() if cfg.get("stops") else None)
    create(run)
    run.execute()
    if run.hit_horizon:
        raise Violation("the optimization does not stop: {0}".format(cfg))
    try:
        judge_end(run)
    finally:
        close(run)
        run.cleanup()
    return K.observe(run, ctx)


def several(cfg, ctx, state):
    from . import c29
    fresh(17)
    mode = cfg["mode"]
    if mode == "threads":
        sched = Scheduler(ctx)
        runs = []

        def body(r):
            def go():
                create(r)
                sched.point("created")
                r.execute_only()
            return go
        for r in cfg["runs"]:
            runs.append(c29.make(r, point=c29.points(r, sched)))
            runs[-1].before_call = so_far
            sched.add(body(runs[-1]))
        sched.run()
        for e in sched.errors:
            if e is not None:
                raise e
    elif mode == "together":
        order = ctx.pick(list(itertools.permutations(range(len(cfg["runs"])))), "order", free=True)
        runs = [create(c29.make(r)) for r in cfg["runs"]]
        for r in runs:
            r.before_call = so_far
        for i in order:
            runs[i].execute_only()
    else:
        outer, inner = cfg["runs"]
        at = 1 + ctx.choose(3, "at", free=True)
        how = ctx.choose(2, "how", free=True)
        second = c29.make(inner)
        second.before_call = so_far
        if how:
            create(second)

        def before(k):
            if k == at:
                if not how:
                    create(second)
                second.execute_only()
        first = c29.make(outer, before=before)
        first.before_call = so_far
        create(first).execute_only()
        runs = [first, second] if second.finished else [first]
    try:
        for r in runs:
            c29.finish(r)
            ctx.steps += len(r.calls)
            judge_end(r)
            if mode == "together":
                judge_generations(r)
    finally:
        for r in runs:
            close(r)
            r.cleanup()
    ctx.state(cfg["id"], tuple(len(r.calls) for r in runs))
    return (cfg["id"], tuple(len(r.calls) for r in runs))


def run(cfg, ctx, state):
    state["n"] = state.get("n", 0) + 1
    if state["n"] % 50 == 0:
        gc.collect()
    K.prepare(cfg if "alg" in cfg else {"alg": "any"})
    return single(cfg, ctx) if "runs" not in cfg else several(cfg, ctx, state)
