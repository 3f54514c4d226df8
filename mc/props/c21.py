"""C21: the file exchange gives each evaluation its own answer

The user's program is a peer that looks at the exchange folder and answers at any operation of the real code on a file
there (also in the middle of a write) and at any time while the code waits (virtual clock)."""
import ctypes
import json
import math
import os
import shutil

import numpy as np

from .. import campaign as K, env, harness as H, oracles as O
from ..explore import Violation

GOOD = ["{0!r}\n", "{0!r}", "  {0!r} \r\n", "{0!r}\nsome comment\n", "{0:.17e}\n"]
BAD = ["abc\n", "", "\n", "0,5\n"]


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []

    def add(bound, **cfg):
        cfg["id"] = len(jobs)
        jobs.append({"cfg": cfg, "bound": bound, "chunk": 60})
    b = 4 if thorough else 3
    for ext in ("json", "txt"):
        for shape in ("one", "two", "params", "long", "single", "tiny"):
            for old in ((None, "value", "garbage") if shape == "two" else ("value",)):
                for folders in (("same", "apart") if shape == "two" else ("same",)):
                    add(b if shape == "two" and folders == "same" and old == "value" else 2 if shape != "long" else 1 + thorough, ext=ext, shape=shape,
                        old=old, folders=folders, max_time=2, consume=False, n=2)
        add(b - 1, ext=ext, shape="one", old=None, folders="same", max_time=1, consume=True, n=2)
        for mt in (0.5, 1, 1.2, 3, 4.5):
            add(2, ext=ext, shape="one", old="value", folders="apart", max_time=mt, consume=False, n=1)
        for base in (dict(alg="dCRAB", dsm="NM", controls="FC2p", si=2, crit={"max_eval": 4}),
                     dict(alg="DirectSearch", dsm="NM", controls="P2", crit={"max_eval": 6}),
                     dict(alg="dCRAB", dsm="CMA4", controls="F1", si=1, crit={"max_eval": 6})):
            for d in ("min", "max"):
                add(2 if thorough else 1, ext=ext, old="value", folders="apart" if d == "min" else "same", max_time=1.5, consume=False,
                    optimize=dict(base, dir=d))
    return jobs


def controls_of(shape, k):
    """Distinct controls for the k-th evaluation"""
    x = 0.1234567890123 * (k + 1)
    g = np.linspace(0, 1.5, 4)
    if shape == "one":
        return [np.array([x, -x, 1e-7 * x, 3.0])], [g], []
    if shape == "two":
        return [np.array([x, -x]), np.array([0.5, x, 1.0 / 3])], [np.array([0, 1.5]), np.linspace(0, 2, 3)], [x, -3, np.float64(0.1)]
    if shape == "params":
        return [], [], np.array([x, 1e5 / 3, -1e-9 * x])
    if shape == "long":
        return [np.sin(np.arange(900) * x)], [np.linspace(0, 1, 900)], [x]
    if shape == "single":
        return [np.array([x])], [np.array([1.0])], []
    if shape == "tiny":
        return [np.array([1e-9 * x, 2e-9, -1e-12])], [np.linspace(0, 1e-8, 3)], [1e-10 * x]


def parse(path, ext, lens, np_):
    """The controls as the user's program reads them"""
    if ext == "json":
        with open(path) as f:
            d = json.load(f)
        n = len([k for k in d if k.startswith("pulse")])
        m = len([k for k in d if k.startswith("parameter")])
        if n != len(lens) or m != np_:
            raise ValueError("{0} pulses and {1} parameters in {2}".format(n, m, sorted(d)))
        return ([np.array(d["pulse%d" % (i + 1)], dtype=float) for i in range(n)],
                [np.array(d["time_grid%d" % (i + 1)], dtype=float) for i in range(n)],
                np.array([d["parameter%d" % (i + 1)] for i in range(m)], dtype=float).ravel())
    with open(path) as f:
        lines = [[float(x) for x in l.split()] for l in f.read().splitlines()]
    n = len(lens)
    if len(lines) != 2 * n + np_:
        raise ValueError("{0} lines".format(len(lines)))
    for i, l in enumerate(lens):
        if len(lines[2 * i]) != l or len(lines[2 * i + 1]) != l:
            raise ValueError("pulse {0} has {1} values".format(i, len(lines[2 * i])))
    return ([np.array(lines[2 * i]) for i in range(n)], [np.array(lines[2 * i + 1]) for i in range(n)],
            np.array([l[0] for l in lines[2 * n:]]))


def same(a, b):
    return H.same_controls(a, b, 1e-15)


class Peer:
    """The user's program"""
    def __init__(self, cfg, ctx, controls_path, fom_path, value):
        self.cfg, self.ctx, self.controls_path, self.fom_path, self.value = cfg, ctx, controls_path, fom_path, value
        self.seen = self.read = None        # last controls that were read; those not answered yet
        self.pending = None                 # (time, text): the answer's file is there, but not filled yet
        self.current = self.previous = None  # controls of the evaluation that is going on, and before it
        self.answered = None                # (text, value, time) of this evaluation
        self.error = None
        self.quiet = False

    def begin(self, controls):
        self.previous, self.current = self.current, controls
        self.lens, self.np = [len(p) for p in controls[0]], len(controls[2])
        self.read, self.answered, self.quiet = None, None, False
        self.start = env.CLOCK.t

    def look(self):
        """Reads the controls file"""
        if not os.path.exists(self.controls_path):
            return None
        try:
            got = parse(self.controls_path, self.cfg["ext"], self.lens, self.np)
        except Exception as ex:
            with open(self.controls_path, "rb") as f:
                data = f.read()
            raise Violation("the user's program sees unusable controls: {0!r} in {1!r}".format(ex, data[:300]))
        if not same(got, self.current) and not (self.previous is not None and same(got, self.previous)):
            raise Violation("the user's program reads {0}, the evaluation's controls are {1}".format(got, self.current))
        return got

    def try_read(self):
        got = self.look()
        if got is not None and (self.seen is None or not same(got, self.seen)):
            if not same(got, self.current):
                return False
            self.seen = self.read = got
            if self.cfg["consume"]:
                os.remove(self.controls_path)
            return True
        return False

    def write(self, kind, plain=False):
        if self.read is None or self.answered is not None:
            return
        v = self.value(self.read)
        text = (GOOD + BAD)[kind].format(v)
        self.answered = (kind < len(GOOD), v, env.CLOCK.t)
        self.read = None
        if plain:
            with open(self.fom_path, "w"):
                pass
            self.pending = text
        else:
            with open(self.fom_path + ".mine", "w") as f:
                f.write(text)
            os.rename(self.fom_path + ".mine", self.fom_path)

    def fill(self):
        if self.pending is not None:
            with open(self.fom_path, "w") as f:
                f.write(self.pending)
            self.pending = None

    def at_operation(self, label):
        """0: nothing, 1: looks, 2: answers as soon as possible"""
        c = self.ctx.choose(3, "op")
        if c:
            self.try_read()
            if c == 2:
                self.write(0)

    def at_sleep(self, seconds):
        env.CLOCK.advance(seconds / 2)
        if self.pending is not None and seconds >= 0.005:
            self.fill()
        elif self.answered is None and not self.quiet:
            n = 4 + len(GOOD) + len(BAD)
            c = self.ctx.choose(n, "sleep")
            if c == 1:
                pass                        # busy
            elif c == 2:
                self.try_read()             # the answer takes longer
            elif c == 3:
                self.quiet = True           # no answer at all
            else:
                self.try_read()
                self.write(0 if c == 0 else c - 4, plain=c == 4)
        env.CLOCK.advance(seconds - seconds / 2)
        if env.CLOCK.t - self.start > self.cfg["max_time"] + 30:
            raise Violation("the code still waits after {0} s (maximum {1} s)".format(env.CLOCK.t - self.start, self.cfg["max_time"]))


CALLBACK = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long, ctypes.c_int)


class Watch:
    """The peer acts at the operations on the exchange folder"""
    def __init__(self, peer, folder):
        self.peer, self.folder = peer, folder
        self.lib = ctypes.CDLL(os.environ["VP_CRASH_LIB"])

    def __enter__(self):
        def callback(op, path, size, phase):
            if self.peer.error is None:
                try:
                    self.peer.at_operation((op, phase))
                except BaseException as ex:
                    self.peer.error = ex
            return size // 2 if op == b"write" and phase == 0 else 0
        self.callback = CALLBACK(callback)
        self.lib.vp_callback(self.folder.encode(), self.callback)

        def sleep(seconds):
            if self.peer.error is not None:
                raise self.peer.error
            self.peer.at_sleep(seconds)
        env.CLOCK.sleep_hook = sleep
        return self

    def __exit__(self, *a):
        env.CLOCK.sleep_hook = None
        self.lib.vp_callback(None, CALLBACK(0))
        if self.peer.error is not None and not isinstance(a[1], Violation):
            raise self.peer.error


def answer_value(triple):
    s = 0.0
    for p in triple[0]:
        s += float(np.sum(np.abs(p) * np.arange(1, len(p) + 1)))
    for i, x in enumerate(triple[2]):
        s += abs(float(x)) * (i + 2) * 1e-3
    return s


def judge(cfg, peer, result, t0, what):
    """The answer of one evaluation"""
    waited = env.CLOCK.t - t0
    fom, status = result.get("FoM"), result.get("status_code", 0)
    good = peer.answered is not None and peer.answered[0]
    late = peer.answered is not None and peer.answered[2] - t0 >= cfg["max_time"]
    if good and not late:
        if status or fom is None or not H.num_eq(fom, peer.answered[1], 1e-14):
            raise Violation("{0}: the user's program answered {1} after {2} s (maximum {3} s), the evaluation returns {4}".format(
                what, peer.answered[1], peer.answered[2] - t0, cfg["max_time"], result))
        return
    if good and late and not status:
        if not H.num_eq(fom, peer.answered[1], 1e-14):
            raise Violation("{0}: the evaluation returns {1}, the answer was {2}".format(what, result, peer.answered))
        return
    if not status:
        raise Violation("{0}: there is no readable answer ({1}), but the evaluation returns {2}".format(what, peer.answered, result))
    if peer.answered is None and waited < cfg["max_time"] - 1e-9:
        raise Violation("{0}: the evaluation fails after {1} s without answer, maximum waiting time is {2} s".format(what, waited, cfg["max_time"]))
    if waited >= cfg["max_time"] + (0.5 - 1e-9 if peer.answered is None else 2):
        raise Violation("{0}: the evaluation waits {1} s, maximum is {2} s".format(what, waited, cfg["max_time"]))


def run(cfg, ctx, state):
    from quocslib.utils.FilesUpdateFom import FilesUpdateFoM
    env.CLOCK.t = 0.0
    env.CLOCK.sleep_hook = None
    env.seed_globals(12345)
    H.reset_results()
    root = os.path.join(os.getcwd(), "exchange")
    shutil.rmtree(root, ignore_errors=True)
    cf, ff = (root, root) if cfg["folders"] == "same" else (os.path.join(root, "controls"), os.path.join(root, "answers"))
    os.makedirs(cf)
    os.makedirs(ff, exist_ok=True)
    fom_path = os.path.join(ff, "FoM.txt")
    if cfg["old"]:
        with open(fom_path, "w") as f:
            f.write("-77.5\n" if cfg["old"] == "value" else "?")
    exchange = FilesUpdateFoM(controls_folder=cf, FoM_folder=ff, file_extension=cfg["ext"], max_time=cfg["max_time"])
    peer = Peer(cfg, ctx, os.path.join(cf, "controls." + cfg["ext"]), fom_path, answer_value)
    if cfg.get("optimize"):
        return optimize(cfg, ctx, peer, exchange, root)
    out = []
    for k in range(cfg["n"]):
        p, t, x = controls_of(cfg["shape"], k)
        truth = ([H.arr(a) for a in p], [H.arr(a) for a in t], H.arr(x).ravel())
        peer.begin(truth)
        if k and os.path.exists(fom_path) and ctx.choose(2, "stale"):
            # the previous answer comes again, before the next controls are there
            with open(fom_path, "w") as f:
                f.write("-55.5\n")
        t0 = env.CLOCK.t
        with Watch(peer, root):
            result = exchange.get_FoM(pulses=p, timegrids=t, parameters=x)
            ctx.steps += 1
        judge(cfg, peer, result, t0, "evaluation {0}".format(k + 1))
        for a, b in zip(p, truth[0]):
            if not np.array_equal(a, b):
                raise Violation("the controls were modified")
        ctx.state(cfg["id"], k, tuple(ctx.choices))
        out.append((result.get("status_code", 0), peer.answered is not None))
        if result.get("status_code", 0):
            # nobody waits for it any more
            peer.seen = truth
    shutil.rmtree(root, ignore_errors=True)
    return (cfg["id"], tuple(out))


def optimize(cfg, ctx, peer, exchange, root):
    oc = dict(cfg["optimize"], id=cfg["id"])
    peer.value = lambda triple: (-1 if oc["dir"] == "max" else 1) * H.landscape(triple)

    def answer(run, call):
        peer.begin(call.triple())
        t0 = env.CLOCK.t
        with Watch(peer, root):
            result = exchange.get_FoM(pulses=call.pulses, timegrids=call.timegrids, parameters=call.parameters)
        judge(cfg, peer, result, t0, "evaluation {0}".format(call.k))
        return result
    r = H.Run(oc, answer, ctx=ctx, step_time=0.0, signals=True).go()
    if r.hit_horizon:
        raise Violation("the optimization does not stop")
    failed = [c.k for c in r.calls if c.status]
    if failed and failed != [len(r.calls)]:
        O.fail(r, "evaluation {0} had no answer, the optimization goes on", failed[0])
    O.best_reported(r)
    O.saved_equal(r, r.saved_end, r.best_call(), "at the end")
    O.history_exact(r)
    shutil.rmtree(root, ignore_errors=True)
    return K.observe(r, ctx)
