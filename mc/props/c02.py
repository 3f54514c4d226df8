"""C02: the saved best-controls file always holds the best evaluation"""
import numpy as np

from .. import campaign as K, oracles as O
from ..harness import close

NAMES = [
    (["a", "a"], ["a", "b"]), (["a", "b"], ["a", "a"]), (["a3", "a"], ["a", "a"]), (["a", "a2"], ["a", "a2"]),
    (["FoM", "x"], ["iteration_number", "y"]), (["is_record", "file"], ["status_code", "FoM"]),
    (["a", "time_grid_for_a"], ["time_grid_for_a", "b"]), (["a b", "a/b"], ["a.b", "1"]),
    (["pulse_names", "time_names"], ["parameter_names", "super_it"]), (["x2", "x"], ["x2", "x"]),
]


def jobs(tier, seed):
    jobs = K.histories(tier, fails=[("low", 1)], stops=["low"], devs=K.DEVS + ["-inf", "-huge"])
    n = len(jobs)
    for names in NAMES:
        for fmt in ("npz", "json"):
            for alg in ("NM", "CMA4"):
                jobs.append({"cfg": dict(alg="dCRAB", dsm=alg, controls="FC2p", si=2, crit={"max_eval": 8}, fmt=fmt,
                                         mode="dev", alphabet=["L", "low"], pulse_names=names[0], parameter_names=names[1],
                                         id=n), "bound": 1})
                n += 1
            jobs.append({"cfg": dict(alg="DirectSearch", dsm="NM", controls="P2", crit={"max_eval": 8}, fmt=fmt, dir="max",
                                     mode="dev", alphabet=["L", "low"], pulse_names=[], parameter_names=names[1], id=n),
                         "bound": 1})
            n += 1
    return jobs


def run(cfg, ctx, state):
    K.prepare(cfg)
    r = K.play(cfg, ctx, state)
    out = K.observe(r, ctx)
    if "pulse_names" not in cfg:
        O.saved_always(r)
        return out
    # names that collide: every control has an entry of its own that starts with its name
    for call in r.calls + [None]:
        best = r.best_call(call.k - 1 if call else None)
        saved = call.saved_before if call else r.saved_end
        if best is None:
            if saved is not None:
                O.fail(r, "a best-controls file before any best evaluation")
            continue
        if saved is None:
            O.fail(r, "no best-controls file, best evaluation is {0}", best.k)
        items = [(n, p, t) for n, p, t in zip(r.names[0], best.pulses, best.timegrids)]
        items += [(n, v, None) for n, v in zip(r.names[1], best.parameters)]
        if not match(saved, items, set()):
            O.fail(r, "the controls {0} of evaluation {1} are not all in the best-controls file:\n{2}", items, best.k,
                   {k: np.asarray(v).tolist() for k, v in saved.items()})
        if not O.num_eq(np.asarray(saved["FoM"]).item(), best.value) or int(saved["iteration_number"]) != best.k:
            O.fail(r, "figure of merit {0} / evaluation number {1} in the file, expected {2} / {3}", saved["FoM"],
                   saved["iteration_number"], best.value, best.k)
    return out


def match(saved, items, used):
    if not items:
        return True
    name, value, grid = items[0]
    for k in saved:
        if k in used or not k.startswith(name):
            continue
        try:
            if not close(np.asarray(saved[k]), np.asarray(value)):
                continue
            if grid is not None:
                g = "time_grid_for_" + k
                if g not in saved or g in used or not close(np.asarray(saved[g]), grid):
                    continue
                if match(saved, items[1:], used | {k, g}):
                    return True
            elif match(saved, items[1:], used | {k}):
                return True
        except (ValueError, TypeError):
            continue
    return False
