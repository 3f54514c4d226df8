"""C22: saved settings and results read back as what was used"""
import copy
import functools
import json
import math
import os

import numpy as np

from .. import campaign as K, env, harness as H, oracles as O
from ..explore import Violation


class SomeClass:
    def method(self):
        return 1


class SomeCallable:
    def __call__(self):
        return 1


def function(x):
    return x


NUMBERS = [lambda: 0, lambda: -7, lambda: 2 ** 70, lambda: 0.1, lambda: -0.0, lambda: 1e-308, lambda: 123456789.123456789,
           lambda: float("nan"), lambda: float("inf"), lambda: float("-inf"), lambda: True, lambda: False, lambda: None,
           lambda: np.float16(0.1), lambda: np.float32(0.1), lambda: np.float64(1) / 3, lambda: np.longdouble(1) / 3,
           lambda: np.int8(-5), lambda: np.int16(300), lambda: np.int32(-70000), lambda: np.int64(2 ** 60), lambda: np.uint8(200),
           lambda: np.uint16(60000), lambda: np.uint32(2 ** 32 - 1), lambda: np.uint64(2 ** 64 - 1), lambda: np.bool_(True),
           lambda: np.bool_(False), lambda: np.float64("nan"), lambda: np.float32("inf"), lambda: np.longlong(9)]
TEXTS = [lambda: "", lambda: "text", lambda: "line\nquote\" back\\slash \u00e4\u03c9 \x01", lambda: np.str_("numpy"), lambda: "null", lambda: "NaN"]
ARRAYS = [lambda: np.array([]), lambda: np.array(1.5), lambda: np.array([0.1, 1 / 3]), lambda: np.array([[1, 2], [3, 4]]),
          lambda: np.array([True, False]), lambda: np.array([0.1, 0.7], dtype=np.float32), lambda: np.array([1, 2], dtype=np.longdouble) / 3,
          lambda: np.arange(6).reshape(1, 2, 3), lambda: np.array([np.nan, np.inf]), lambda: np.array(["a", "b"]),
          lambda: np.arange(4)[::2], lambda: np.arange(6.0).reshape(2, 3).T]
CALLABLES = [lambda: function, lambda: (lambda t: t), lambda: SomeClass, lambda: SomeClass().method, lambda: SomeCallable(),
             lambda: functools.partial(function, 1), lambda: np.sin, lambda: len, lambda: np.float64, lambda: np.ndarray]
EMPTY = [lambda: [], lambda: {}, lambda: ()]
LEAVES = NUMBERS + TEXTS + ARRAYS + EMPTY

SHAPES = [
    lambda a, b: {"x": a},
    lambda a, b: {"x": a, "y": b},
    lambda a, b: {"x": [a, b]},
    lambda a, b: {"x": (a, b), "z": 1},
    lambda a, b: {"x": {"y": a}, "z": b},
    lambda a, b: {"x": [{"u": a}, [b]]},
    lambda a, b: {"x": {"y": {"z": [a, {"w": b}]}}},
    lambda a, b: {"": a, "a b": b, "\u00fc\"": [[a]]},
]


def plain(v):
    """What has to be read back"""
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return plain(v.tolist())
    if isinstance(v, np.longdouble):
        return float(v)
    if isinstance(v, np.generic):
        return v.item()
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if callable(v):
        return None
    raise TypeError(repr(v))


def same(a, b):
    """Equal, also in type (1, 1.0 and true are different)"""
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, float):
        return isinstance(a, float) and (a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b))
    return type(a) is type(b) and a == b


def contains(a, b, path="settings"):
    """None if everything of b is in a, else where not"""
    if isinstance(b, dict):
        if not isinstance(a, dict):
            return path
        for k in b:
            if k not in a:
                return path + "." + k
            r = contains(a[k], b[k], path + "." + k)
            if r:
                return r
        return None
    if isinstance(b, list):
        if not isinstance(a, list) or len(a) != len(b):
            return path
        for i, (x, y) in enumerate(zip(a, b)):
            r = contains(x, y, path + "[%d]" % i)
            if r:
                return r
        return None
    return None if same(a, b) else "{0}: {1!r} instead of {2!r}".format(path, a, b)


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []

    def add(bound, chunk=200, **cfg):
        cfg["id"] = len(jobs)
        jobs.append({"cfg": cfg, "bound": bound, "chunk": chunk})
    for s in range(len(SHAPES)):
        for kind in ("settings", "dump"):
            add(None, kind=kind, shape=s)
            for inner in range(len(SHAPES)):
                add(None if thorough else 1, kind=kind, shape=s, inner=inner)
    add(None, kind="callable")
    add(None, kind="text")
    add(None, kind="bad")
    add(None, kind="refuse")
    for n in range(len(FAMILIES)):
        for fmt in ("npz", "json"):
            add(None, chunk=10, kind="optimizer", family=n, fmt=fmt)
    for alg in ("dCRAB", "DirectSearch", "GRAPE"):
        for d in ("min", "max"):
            for fmt in ("npz", "json"):
                add(None, chunk=10, kind="values", alg=alg, dir=d, fmt=fmt)
    return jobs


def run(cfg, ctx, state):
    env.CLOCK.t = 0.0
    H.reset_results()
    res = globals()["do_" + cfg["kind"]](cfg, ctx, state)
    ctx.state(cfg["id"], tuple(ctx.choices))
    ctx.steps += 1
    return (cfg["id"], res)


def read_back(path, what, tree):
    from quocslib.utils.inputoutput import readjson
    try:
        with open(path) as f:
            raw = json.load(f)
    except Exception as ex:
        raise Violation("{0} of {1!r}: the file is not valid: {2!r}".format(what, tree, ex))
    got = readjson(path)
    if not same(got, raw):
        raise Violation("readjson gives {0!r}, the file holds {1!r}".format(got, raw))
    return raw


def do_settings(cfg, ctx, state):
    a = ctx.pick(LEAVES, "a")()
    b = ctx.pick(LEAVES + CALLABLES, "b")()
    return settings(nest(cfg, a, b))


def nest(cfg, a, b):
    tree = SHAPES[cfg["shape"]](a, b)
    if "inner" in cfg:
        tree = SHAPES[cfg["shape"]](SHAPES[cfg["inner"]](b, a), b)
    return tree


def settings(tree):
    from quocslib.utils.inputoutput import writejsonfile
    path = os.path.join(os.getcwd(), "settings.json")
    if os.path.exists(path):
        os.remove(path)
    before = copy.deepcopy(plain(tree))
    status = writejsonfile(path, tree)
    if status != 0:
        raise Violation("writing {0!r} fails with {1!r}".format(tree, status))
    if not same(plain(tree), before):
        raise Violation("writing modifies the settings {0!r}".format(tree))
    got = read_back(path, "settings file", tree)
    if not same(got, before):
        raise Violation("{0!r} reads back as {1!r}".format(tree, got))
    return "ok"


def do_dump(cfg, ctx, state):
    from quocslib.utils.BestDump import BestDump
    a, b = ctx.pick(LEAVES, "a")(), ctx.pick(LEAVES, "b")()
    tree = nest(cfg, a, b)
    try:
        BestDump(results_path=os.getcwd(), date_time="dt").dump_dict("results", tree)
    except Exception as ex:
        raise Violation("dumping {0!r} raises {1!r}".format(tree, ex))
    got = read_back(os.path.join(os.getcwd(), "dt_results.json"), "dump", tree)
    if not same(got, plain(tree)):
        raise Violation("the dump of {0!r} reads back as {1!r}".format(tree, got))
    return "ok"


def do_callable(cfg, ctx, state):
    a, b = ctx.pick(CALLABLES, "a")(), ctx.pick(CALLABLES + [lambda: 1.5], "b")()
    return settings(ctx.pick(SHAPES, "shape")(a, b))


def do_text(cfg, ctx, state):
    """Arrays as text files"""
    from quocslib.utils.BestDump import BestDump
    a = ctx.pick([np.array([0.1, 1 / 3]), np.array([[1.0, 2e-300], [3, 4e300]]), np.array([5.0]), np.arange(3)], "a")
    BestDump(results_path=os.getcwd(), date_time="dt").other_dumps("some.txt", a)
    got = np.loadtxt(os.path.join(os.getcwd(), "some.txt"))
    if not np.array_equal(np.atleast_1d(got), a):
        raise Violation("{0!r} reads back as {1!r}".format(a, got))
    return "ok"


SAMPLE = {"optimization_client_name": "x", "algorithm_settings": {"algorithm_name": "dCRAB", "flag": True, "list": [1, 2.5, None]},
          "pulses": [{"pulse_name": "p \u00e4", "limit": -1e-3}], "times": []}


def do_bad(cfg, ctx, state):
    """Missing and malformed files"""
    from quocslib.utils.inputoutput import readjson
    path = os.path.join(os.getcwd(), "bad.json")
    text = json.dumps(SAMPLE, indent=1, ensure_ascii=False).encode()
    contents = [b"", b" ", b"{", b"nonsense", b"{'a': 1}", b'{"a": 1,}', b'{"a": 1} x', b'{"a": 1}{"a": 2}', b"\xff\xfe", b"\x00" * 20,
                b'{"a": 01}', b"[1, 2", b'"text', b'{"a" 1}', text + text, text[1:], text.replace(b"\xc3\xa4", b"\xe4")]
    contents += [text[:i] for i in range(len(text))]
    i = ctx.choose(len(contents) + 4, "content", free=True)
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.remove(path)
    if i < len(contents):
        with open(path, "wb") as f:
            f.write(contents[i])
        what = contents[i][:200]
    elif i == len(contents):
        what = "a missing file"
    elif i == len(contents) + 1:
        os.mkdir(path)
        what = "a folder"
    elif i == len(contents) + 2:
        path = os.path.join(os.getcwd(), "missing", "x.json")
        what = "a file in a missing folder"
    else:
        with open(path, "wb") as f:
            f.write(text)
        got = readjson(path)
        if not same(got, SAMPLE):
            raise Violation("a good file reads as {0!r}".format(got))
        return "good"
    try:
        got = readjson(path)
    except Exception as ex:
        raise Violation("reading {0!r} raises {1!r}".format(what, ex))
    if got is not None:
        raise Violation("reading {0!r} yields {1!r}".format(what, got))
    return "nothing"


def do_refuse(cfg, ctx, state):
    """What cannot be written is reported and leaves the file as it was"""
    from quocslib.utils.inputoutput import writejsonfile, readjson
    i = ctx.choose(4, "kind", free=True)
    path = os.path.join(os.getcwd(), "settings.json")
    writejsonfile(path, SAMPLE)
    try:
        if i == 0:
            status = writejsonfile(path, {"a": 1, "b": object()})
        elif i == 1:
            status = writejsonfile(path, {"a": [1, {"b": {1, 2}}]})
        elif i == 2:
            status = writejsonfile(os.path.join(os.getcwd(), "missing", "x.json"), SAMPLE)
        else:
            status = writejsonfile(path, {"a": 2 + 1j})
    except Exception as ex:
        raise Violation("writing raises {0!r}".format(ex))
    if not status:
        raise Violation("writing something that cannot be written reports success ({0})".format(i))
    if not same(readjson(path), SAMPLE):
        raise Violation("the old file is not intact any more: {0!r}".format(readjson(path)))
    return status


def own_guess(t):
    return 0.3 + 0.2 * t


def families():
    from quocslib.optimizationalgorithms.dCRABAlgorithm import dCRABAlgorithm
    return [
        lambda d: None,
        lambda d: d["algorithm_settings"].update(algorithm_attribute=dCRABAlgorithm),
        lambda d: d.update(extra={"numpy": np.float32(0.3), "array": np.arange(3), "function": own_guess, "none": None}),
        lambda d: d["pulses"][0].update(lower_limit=np.float64(-3), upper_limit=np.float32(3), bins_number=np.int64(d["pulses"][0]["bins_number"])),
        lambda d: d["pulses"][0].update(initial_guess={"function_type": "list_function", "list_function": np.linspace(0, 1, d["pulses"][0]["bins_number"])}),
        lambda d: d["pulses"][0].update(initial_guess={"function_type": "list_function", "list_function": [0.1, 0.2, np.float32(0.3), 1, np.int8(1)][:d["pulses"][0]["bins_number"]]}),
        lambda d: d["parameters"][0].update(initial_value=np.longdouble(0.4), amplitude_variation=np.float16(0.5)),
        lambda d: d["times"][0].update(initial_value=np.float64(1.5)),
        lambda d: d["algorithm_settings"].update(super_iteration_number=np.int64(1), note="\u00e4\n"),
        lambda d: d["algorithm_settings"]["random_number_generator"].update(seed_number=np.int64(3)),
        lambda d: d["algorithm_settings"]["dsm_settings"]["stopping_criteria"].update(xatol=np.float64(1e-9), frtol=np.float32(1e-12)),
        lambda d: d["algorithm_settings"].update(max_eval_total=np.int32(3)),
        lambda d: d.update(optimization_client_name=np.str_("np")),
    ]


FAMILIES = range(13)


def do_optimizer(cfg, ctx, state):
    """The settings file in the results folder"""
    base = ctx.pick([dict(alg="dCRAB", dsm="NM", controls="F1p", si=1, crit={"max_eval": 3}),
                     dict(alg="dCRAB", dsm="CMA4", controls="F1p", si=1, crit={"max_eval": 3}),
                     dict(alg="dCRAB", dsm="NM", controls="FC2p", si=2, crit={"max_eval": 3}),
                     dict(alg="dCRAB", dsm="NM", controls="F1p", si=1, crit={"max_eval": 3}, top={"create_logfile": True}),
                     dict(alg="dCRAB", dsm="NM", controls="F1p", si=1, crit={"max_eval": 3}, dir="max",
                          drift={"compensate_after_SI": True}, reeval=[0.3])], "base", free=True)
    oc = dict(base, fmt=cfg["fmt"])
    d = H.build(oc)
    families()[cfg["family"]](d)
    want = plain(copy.deepcopy(d))
    r = H.Run(oc, K.make_answer(dict(alphabet=["L"], fails=[], stops=[]), K.Ctx0()), dict_=d, keep=True)
    r.create()
    files = [n for n in os.listdir(r.folder) if n.endswith("optimization_dictionary.json")]
    if len(files) != 1:
        raise Violation("settings files: {0}".format(files))
    path = os.path.join(r.folder, files[0])
    first = read_back(path, "settings file", want)
    miss = contains(first, want)
    if miss:
        raise Violation("the saved settings differ from those used: {0}".format(miss))
    r.execute()
    after = read_back(path, "settings file", want)
    miss = contains(after, want)
    if miss:
        raise Violation("the saved settings differ from those used after the run: {0}".format(miss))
    if not oc.get("drift"):
        O.best_reported(r)
    return len(r.calls)


VALUES = [lambda x: x, np.float64, np.float32, np.float16, np.longdouble, lambda x: np.array(x), lambda x: int(10 * x),
          lambda x: np.int64(10 * x), lambda x: np.int8(10 * x), lambda x: np.uint16(abs(10 * x)), lambda x: np.float64(x).reshape(())]


def do_values(cfg, ctx, state):
    """Figures of merit of every number type end up in the report and the file"""
    kind = ctx.choose(len(VALUES), "kind", free=True)
    stdk = ctx.choose(4, "std", free=True)
    base = {"dCRAB": dict(dsm="NM", controls="F1p", si=2, crit={"max_eval": 4}),
            "DirectSearch": dict(dsm="NM", controls="P2", crit={"max_eval": 6}),
            "GRAPE": dict(controls="G", total={"max_eval_total": 4})}[cfg["alg"]]
    oc = dict(base, alg=cfg["alg"], dir=cfg["dir"], fmt=cfg["fmt"])

    def answer(run, call):
        v = H.landscape(call.triple()) + 0.37 - 0.11 * call.k
        if kind != 9:
            v *= run.sign
        ans = {"FoM": VALUES[kind](v)}
        if stdk:
            ans["std"] = [0.25, np.float32(0.25), np.array(0.25)][stdk - 1]
        return ans
    try:
        r = H.Run(oc, answer).go()
    except Violation:
        raise
    best = r.best_call()
    O.best_reported(r)
    O.saved_equal(r, r.saved_end, best, "at the end")
    if r.best_call() is not None:
        O.best_controls_equal(r)
    return len(r.calls)
