"""What the properties demand of a finished run (mc.harness.Run)"""
import math

import numpy as np

from .explore import Violation
from .harness import close, num_eq, same_controls


def fail(run, text, *args):
    lines = [text.format(*args)]
    for c in run.calls[-14:]:
        lines.append("  call {0}: params={1} pulses={2} -> {3!r}".format(
            c.k, np.round(c.parameters, 5).tolist(), [np.round(p[:3], 4).tolist() for p in c.pulses], c.answer))
    raise Violation("\n".join(lines))


def best_reported(run):
    """C01: the figure of merit of the final report is the best value returned by a successful evaluation"""
    best = run.best_call()
    got = run.report.get("Figure of merit")
    if got is None:
        fail(run, "the final report has no figure of merit: {0}", run.report)
    if best is None:
        if not (isinstance(got, float) and math.isinf(got) and got * run.sign > 0):
            fail(run, "no evaluation has a usable value, the report claims {0}", got)
    elif not num_eq(got, best.value):
        fail(run, "best value returned: {0} (evaluation {1}), reported: {2}", best.value, best.k, got)


def saved_equal(run, saved, best, where):
    """C02: content of the best-controls file"""
    if best is None:
        if saved is not None:
            fail(run, "{0}: there is a best-controls file (FoM {1}) before any best evaluation", where, saved.get("FoM"))
        return
    if saved is None:
        fail(run, "{0}: no best-controls file, best evaluation is {1}", where, best.k)
    names, pnames = run.names
    for i, n in enumerate(names):
        for key, ref in ((n, best.pulses[i]), ("time_grid_for_" + n, best.timegrids[i])):
            if key not in saved:
                fail(run, "{0}: {1} is missing in the best-controls file: {2}", where, key, sorted(saved))
            if not close(np.real(np.asarray(saved[key])), ref, 1e-9):
                fail(run, "{0}: {1} in the best-controls file is {2}, evaluation {3} had {4}", where, key, saved[key],
                     best.k, ref)
    for i, n in enumerate(pnames):
        if n not in saved:
            fail(run, "{0}: parameter {1} is missing in the best-controls file: {2}", where, n, sorted(saved))
        if not close(np.real(np.asarray(saved[n])).ravel(), best.parameters[i:i + 1], 1e-9):
            fail(run, "{0}: parameter {1} in the best-controls file is {2}, evaluation {3} had {4}", where, n, saved[n],
                 best.k, best.parameters[i])
    if "FoM" not in saved or not num_eq(np.real(np.asarray(saved["FoM"])).item(), best.value):
        fail(run, "{0}: figure of merit in the best-controls file is {1}, evaluation {2} returned {3}", where,
             saved.get("FoM"), best.k, best.value)
    if "iteration_number" not in saved or int(np.asarray(saved["iteration_number"])) != best.k:
        fail(run, "{0}: evaluation number in the best-controls file is {1}, it should be {2}", where,
             saved.get("iteration_number"), best.k)


def saved_always(run):
    """C02 after every evaluation"""
    for c in run.calls:
        saved_equal(run, c.saved_before, run.best_call(c.k - 1), "before evaluation {0}".format(c.k))
    saved_equal(run, run.saved_end, run.best_call(), "at the end")


def best_controls_equal(run, initial=None):
    """C03: get_best_controls() after the end"""
    best = run.best_call()
    ref = best.triple() if best is not None else initial
    if ref is None:
        return
    if run.cfg["alg"] == "AD":
        ref = (ref[0], ref[1], ref[2])
    if not same_controls(padded(run.best_controls), padded(ref), 1e-6 if run.cfg["alg"] == "AD" else 1e-9):
        fail(run, "best controls returned:\n{0}\nbest evaluation {1}:\n{2}", run.best_controls,
             None if best is None else best.k, ref)


def padded(t):
    return t


def count_reported(run):
    n = run.report.get("total number of function evaluations", run.report.get("nfev"))
    if n is not None and int(n) != len(run.calls):
        fail(run, "the report counts {0} evaluations, {1} were made", n, len(run.calls))


def history_exact(run, values=None):
    """C27: the kept history lists the successful evaluations"""
    ok = run.successes()
    want = [(c.k, float(c.value)) for c in ok]
    if run.history_len[0] != run.history_len[1] or len(run.history) != len(want):
        fail(run, "history {0}\nevaluations {1}", run.history, want)
    for (n, f), (k, v) in zip(run.history, want):
        if n != k or not num_eq(f, v):
            fail(run, "history {0}\nevaluations {1}", run.history, want)


def consistent_end(run):
    """The three places that hold the best evaluation agree with the history of the run"""
    best_reported(run)
    saved_equal(run, run.saved_end, run.best_call(), "at the end")
    best_controls_equal(run)
    count_reported(run)
