"""C33: an exception in the user's code reaches the user, ends the run there and costs nothing that was saved

The run without an exception is the reference. It is repeated with an exception in every single call of the user's code
(figure of merit, propagators, guess and scaling functions), of many kinds of exceptions, or with an answer without a usable
value; then another optimization is made in the same process."""
import copy
import os

import numpy as np

from .. import campaign as K, harness as H, oracles as O
from .c32 import Raw, answer_of, compare, same_file


class Own(Exception):
    """An exception of the user that has no message and cannot be compared"""
    def __init__(self, a, b):
        self.a = a

    def __eq__(self, other):
        raise AssertionError("compared")

    __hash__ = None

    def __str__(self):
        return "own"


EXCEPTIONS = {"ValueError": lambda: ValueError("x"), "TypeError": lambda: TypeError("float() argument must be a string"),
              "AttributeError": lambda: AttributeError("dsm_obj"), "KeyError": lambda: KeyError("FoM"), "IndexError": lambda: IndexError(0),
              "StopIteration": lambda: StopIteration(3), "ZeroDivisionError": lambda: ZeroDivisionError(),
              "FloatingPointError": lambda: FloatingPointError(), "LinAlgError": lambda: np.linalg.LinAlgError("singular"),
              "OSError": lambda: OSError(28, "No space left on device"), "MemoryError": lambda: MemoryError(),
              "TimeoutError": lambda: TimeoutError(), "NotImplementedError": lambda: NotImplementedError(),
              "RecursionError": lambda: RecursionError(), "UnicodeError": lambda: UnicodeError(), "EOFError": lambda: EOFError(),
              "KeyboardInterrupt": lambda: KeyboardInterrupt(), "SystemExit": lambda: SystemExit(1),
              "GeneratorExit": lambda: GeneratorExit(), "own": lambda: Own(1, 2), "Exception": lambda: Exception(),
              "ImportError": lambda: ImportError("no module"), "AssertionError": lambda: AssertionError()}
QUICK = ["ValueError", "TypeError", "AttributeError", "KeyError", "StopIteration", "OSError", "KeyboardInterrupt", "own"]
ANSWERS = {"nothing": lambda a: None, "empty": lambda a: {}, "no value": lambda a: {"FoM": None}, "text": lambda a: {"FoM": "low"},
           "two values": lambda a: {"FoM": np.array([a["FoM"] - 9, a["FoM"] - 8])}, "list": lambda a: {"FoM": [a["FoM"]]},
           "complex": lambda a: {"FoM": a["FoM"] - 9 + 1j}, "other name": lambda a: {"fom": a["FoM"] - 9}, "number": lambda a: a["FoM"] - 9,
           "object": lambda a: {"FoM": object()}}
PLACES = ["call", "propagator", "guess", "scale"]


def jobs(tier, seed):
    thorough = tier == "thorough"
    out = []

    def add(**cfg):
        i = len(out)
        cfg.setdefault("dir", ("min", "max")[i % 2])
        cfg.setdefault("fmt", ("npz", "json")[i // 2 % 2])
        out.append({"cfg": dict(cfg, id=i), "bound": None})
    bases = K.gradient_free_bases() + [
        dict(alg="dCRAB", dsm="CMA4", controls="FSP", si=2, crit={"max_eval": 5}, reeval="default"),
        dict(alg="dCRAB", dsm="NM", controls="PW", si=2, crit={"max_eval": 6}, reeval=[0.4, 0.6]),
        dict(alg="dCRAB", dsm="NM", controls="FC2p", si=3, crit={"max_eval": 4}, drift={"compensate_after_SI": True, "num_average": 2}),
        dict(alg="DirectSearch", dsm="NM", controls="P2", crit={"max_eval": 8}, drift={"compensate_after_minutes": 0.05, "num_average": 2}),
        dict(alg="DirectSearch", dsm="CMA4", controls="P2lim", crit={"max_eval": 6}, reeval="default"),
        dict(alg="dCRAB", dsm="NM", controls="F1p", si=2, crit={"max_eval": 9, "change_based_stop": {"cbs_funct_evals": 4, "cbs_change": 0.35}}),
        dict(alg="GRAPE", controls="G", total={"max_eval_total": 6}),
        dict(alg="AD", controls="A", total={"max_eval_total": 3})]
    for base in bases:
        kinds = EXCEPTIONS if base["alg"] != "AD" else QUICK
        for place in PLACES:
            if place == "propagator" and base["alg"] != "GRAPE":
                continue
            if place in ("guess", "scale") and base["alg"] not in ("dCRAB", "GRAPE"):
                continue
            add(**copy.deepcopy(base), place=place, kinds=list(kinds) if place == "call" else list(kinds) if thorough else QUICK[:4])
        if base["alg"] != "AD":
            add(**copy.deepcopy(base), place="answer", kinds=sorted(ANSWERS))
    return sorted(out, key=lambda j: j["cfg"]["alg"] != "AD")


class Counted:
    """Calls of the user's code at one place"""
    n = 0
    at = None
    make = None
    raised = None
    after = 0

    def tick(self):
        self.n += 1
        if self.raised is None and self.at == self.n:
            self.raised = self.make()
            raise self.raised


COUNTERS = {"guess": Counted(), "scale": Counted()}


def user_guess(t):
    COUNTERS["guess"].tick()
    return 0.1 * t


def user_scale(t):
    COUNTERS["scale"].tick()
    return 1.0 - 0.1 * t


def settings(cfg):
    d = H.build(cfg)
    if cfg["place"] in ("guess", "scale"):
        for p in d["pulses"]:
            p["initial_guess" if cfg["place"] == "guess" else "scaling_function"] = {
                "function_type": "lambda_function",
                "lambda_function": "lambda t: __import__('mc.props.c33', fromlist=['x']).user_{0}(t)".format(cfg["place"])}
    return d


class Run(H.Run):
    hook = None

    def fom_object(self):
        return Raw(H.Run.fom_object(self), self.hook)


def play(cfg, ctx, counter, where, change=None):
    """One run; counter counts the calls at the place of the configuration"""
    if where in COUNTERS:
        COUNTERS[where] = counter
    K.env.CLOCK.t = 0.0
    H.reset_results()
    r = Run(cfg, answer_of, horizon=200, ctx=ctx, dict_=settings(cfg))

    def hook(place, lists, ans):
        if counter.raised is not None:
            counter.after += 1
        if place == where or where == "answer" and place == "call":
            counter.traced = not isinstance(ans["FoM"], float) if place == "call" else False
            counter.tick()
            if change is not None and counter.n == counter.stop:
                counter.raised = "answer"
                return change(ans)
        return ans
    r.hook = hook
    r.escaped = None
    r.create()
    try:
        r.execute_only()
    except BaseException as ex:
        if type(ex).__name__ == "Violation":
            raise
        r.escaped = ex
    if r.hit_horizon:
        O.fail(r, "the optimization does not stop")
    r.mid = r.snapshot()
    r.count = counter.n                 # without those of the harness, which asks for the best controls
    if r.escaped is None:
        r.collect()
    else:
        r.cleanup()
    return r


def run(cfg, ctx, state):
    K.prepare(cfg)
    K.env.seed_globals(12345)
    where = cfg["place"]
    key = ("c33", cfg["id"])
    if key not in state:
        c = Counted()
        r = play(cfg, None, c, where)
        if r.escaped is not None:
            raise r.escaped
        state[key] = (r, r.count)
    ref, n = state[key]
    ctx.state(cfg["id"], n)
    kind = ctx.pick(cfg["kinds"], "what", free=True)
    c = Counted()
    # guess and scaling are called many times: at most 40 places, spread evenly, and the first and last ones
    places = list(range(1, n + 1)) if n <= 40 else sorted({1, 2, 3, n - 1, n} | {1 + i * n // 36 for i in range(36)})
    at = places[ctx.choose(len(places), "in call", free=True)]
    change = None
    if where == "answer":
        c.stop, change = at, ANSWERS[kind]
        text = "answer {0} in evaluation {1}".format(kind, at)
    else:
        c.at, c.make = at, EXCEPTIONS[kind]
        text = "{0} in call {1} of {2}".format(kind, at, where)
    r = play(cfg, ctx, c, where, change)
    if c.raised is None:
        O.fail(r, "{0}: only {1} calls instead of {2}", text, c.n, n)
    if where != "answer":
        if r.escaped is not c.raised:
            O.fail(r, "{0}: the caller of execute() gets {1!r}", text, r.escaped)
    elif r.escaped is None:
        O.fail(r, "{0}: accepted", text)
    if c.after:
        O.fail(r, "{0}: {1} calls of the user's code after it", text, c.after)
    for x, y in zip(ref.calls, r.calls):
        if not x.same_controls(y):
            O.fail(r, "{0}: evaluation {1} has the controls {2} instead of {3}", text, x.k, y.triple(), x.triple())
    # what was saved before is still there, complete
    m = len(r.calls)
    if where in ("call", "answer") and not c.traced:
        expected = ref.calls[m - 1].saved_before
    else:
        expected = ref.calls[m].saved_before if m < len(ref.calls) else ref.saved_end
    same_file(r, expected, r.mid, text)
    # the process can go on with other optimizations
    again = play(cfg, None, Counted(), where)
    if again.escaped is not None:
        O.fail(again, "an optimization after {0}: {1!r}", text, again.escaped)
    compare(ref, again, "an optimization after {0}".format(text))
    return (cfg["id"], m)
