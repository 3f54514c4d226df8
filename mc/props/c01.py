"""C01: the reported best figure of merit is the true best of the run"""
from .. import campaign as K, oracles as O


def jobs(tier, seed):
    return K.histories(tier, devs=K.DEVS + ["-inf", "-huge"], dev_bound=1)


def run(cfg, ctx, state):
    K.prepare(cfg)
    r = K.play(cfg, ctx, state)
    out = K.observe(r, ctx)
    O.best_reported(r)
    # what is kept after each evaluation is the record of the evaluations so far
    for call in r.calls[1:]:
        best = r.best_call(call.k - 1)
        kept = call.saved_before
        if best is None:
            if kept is not None:
                O.fail(r, "a best value {0} is kept before evaluation {1}, there is none", kept.get("FoM"), call.k)
            continue
        if kept is None or not O.num_eq(float(O.np.real(kept["FoM"])), best.value):
            O.fail(r, "after evaluation {0} the best value is {1}, kept is {2}", call.k - 1, best.value,
                   None if kept is None else kept.get("FoM"))
        if int(kept["iteration_number"]) != best.k:
            O.fail(r, "after evaluation {0} the best is evaluation {1}, kept is {2}", call.k - 1, best.k,
                   kept["iteration_number"])
    return out
