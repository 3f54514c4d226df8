"""C07: a failed evaluation stops the run and is never counted as a result"""
import copy
import math

import numpy as np

from .. import campaign as K, oracles as O, harness as H
from .c03 import initial

FAILS = [["low", 1], ["L", -1], [None, 256], ["missing", 2], ["-inf", -256], ["nan", 65536], ["tie", 1000]]


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = K.histories(tier, alphabet_full=[0.5, -0.75, K.NAN], fails=FAILS, devs=["L", "low", "nan"],
                       dev_bound=1, h_full=4 if thorough else 3)
    n = len(jobs)
    # re-evaluation and drift compensation
    for bi, base in enumerate(K.gradient_free_bases()):
        if not thorough and bi in (4, 5, 6, 10):
            continue
        for ei, ex in enumerate((dict(reeval="default", stds=[0.1, 1.0]), dict(reeval=[0.4, 0.6], stds=[0.0]),
                                 dict(drift={"compensate_after_SI": True, "num_average": 2}),
                                 dict(drift={"compensate_after_minutes": 0.05, "num_average": 2}))):
            for ai, alphabet in enumerate((["L", "low", "tie"], ["saw", "L"])):
                if not thorough and (bi + ei + ai) % 2:
                    continue
                cfg = dict(copy.deepcopy(base), dir=("min", "max")[(bi + ei) % 2], mode="dev", alphabet=alphabet,
                           fails=FAILS[:4], id=n, fmt=("npz", "json")[n % 2], **ex)
                jobs.append({"cfg": cfg, "bound": 2 if thorough else 1})
                n += 1
    return jobs


def run(cfg, ctx, state):
    K.prepare(cfg)
    r = K.play(cfg, ctx, state)
    out = K.observe(r, ctx)
    bad = [c for c in r.calls if c.status]
    if bad and r.calls[-1] is not bad[0]:
        O.fail(r, "evaluation {0} failed, {1} were made", bad[0].k, len(r.calls))
    O.count_reported(r)
    if [n for n, _ in r.history] != [c.k for c in r.successes()]:
        O.fail(r, "history {0}", r.history)
    noisy = "reeval" in cfg or "drift" in cfg
    if not noisy:
        O.best_reported(r)
        O.saved_equal(r, r.saved_end, r.best_call(), "at the end")
        O.best_controls_equal(r, initial(cfg))
        O.history_exact(r)
    if not bad:
        return out
    last = bad[0]
    compare(r, last.saved_before, r.saved_end, "the failed evaluation {0} changed the best-controls file".format(last.k))
    kept = r.saved_end
    got = r.report["Figure of merit"]
    if kept is None:
        if not (math.isinf(got) and got * r.sign > 0):
            O.fail(r, "reported {0}, nothing succeeded", got)
    elif not O.num_eq(np.real(np.asarray(kept["FoM"])).item(), got):
        O.fail(r, "reported {0}, saved {1}", got, kept["FoM"])
    if noisy and kept is not None:
        k = int(np.asarray(kept["iteration_number"]))
        if not H.same_controls(r.calls[k - 1].triple(), r.best_controls):
            O.fail(r, "best controls returned {0}, saved are those of evaluation {1}", r.best_controls, k)
    # nothing depends on the value that came with the failure
    script = [c.answer for c in r.calls]
    for code in ((("low",), ("high",), (None,))[len(script) % 3] if noisy else ("low", None)):

        def answer(run, call):
            if call.k > len(script):
                O.fail(run, "an evaluation follows the failed one")
            if call.k < len(script):
                return dict(script[call.k - 1])
            a = {"FoM": None if code is None else run.sign * K.value_of(code, run, call), "status_code": 5}
            if code == "high":
                a["std"] = 0.3
            return a
        q = K.play(cfg, K.Ctx0(), state, answer=answer)
        same(r, q)
    return out


def same(r, q):
    if len(r.calls) != len(q.calls) or r.history != q.history and repr(r.history) != repr(q.history):
        O.fail(q, "the value of a failed evaluation changes the history: {0} / {1}", r.history, q.history)
    if not H.same_controls(r.best_controls, q.best_controls):
        O.fail(q, "the value of a failed evaluation changes the best controls: {0} / {1}", r.best_controls, q.best_controls)
    if not O.num_eq(r.report["Figure of merit"], q.report["Figure of merit"]):
        O.fail(q, "the value of a failed evaluation changes the reported one: {0} / {1}", r.report["Figure of merit"],
               q.report["Figure of merit"])
    for k in set(r.report) | set(q.report):
        if repr(r.report.get(k)) != repr(q.report.get(k)):
            O.fail(q, "the value of a failed evaluation changes {0} in the report: {1} / {2}", k, r.report.get(k),
                   q.report.get(k))
    # (with the failure in the last evaluation allowed both reasons are right)
    if len(r.calls) != r.cfg.get("total", {}).get("max_eval_total") and (r.reason, r.higher_reason) != (q.reason, q.higher_reason):
        O.fail(q, "the value of a failed evaluation changes the reason: {0} / {1}", (r.reason, r.higher_reason),
               (q.reason, q.higher_reason))
    compare(q, r.saved_end, q.saved_end, "the value of a failed evaluation changes the best-controls file")


def compare(r, a, b, text):
    if (a is None) != (b is None) or a is not None and (
            set(a) != set(b) or any(not equal(a[k], b[k]) for k in a)):
        O.fail(r, "{0}:\n{1}\n{2}", text, a, b)


def equal(x, y):
    x, y = np.asarray(x), np.asarray(y)
    if x.dtype.kind in "fciub" and y.dtype.kind in "fciub":
        return x.shape == y.shape and bool(np.all((x == y) | ((x != x) & (y != y))))
    return x.tolist() == y.tolist()
