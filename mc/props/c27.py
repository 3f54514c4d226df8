"""C27: clients are told about every evaluation once, in order"""
from .. import campaign as K, oracles as O
from ..harness import same_controls


def jobs(tier, seed):
    jobs = K.histories(tier, alphabet_full=[0.5, -0.75, K.NAN], fails=[("low", 1), (None, 2)], stops=["low"],
                       devs=["L", "tie", "low", "nan", "inf", "-huge"], dev_bound=1)
    n = len(jobs)
    for dsm in ("NM", "CMA4"):
        for alg, controls in (("dCRAB", "F1p"), ("DirectSearch", "P2")):
            for d in ("min", "max"):
                for extra in (dict(reeval="default"), dict(reeval=[0.4, 0.6]),
                              dict(drift={"compensate_after_SI": True, "num_average": 2}),
                              dict(drift={"compensate_after_minutes": 0.1, "num_average": 2})):
                    jobs.append({"cfg": dict(alg=alg, dsm=dsm, controls=controls, si=2, crit={"max_eval": 6}, dir=d,
                                             mode="dev", alphabet=["L", "tie", "low", "nan"], fails=[["low", 1]],
                                             stops=["low"], id=n, **extra), "bound": 1})
                    n += 1
    for j in list(jobs):
        if j["cfg"]["mode"] == "dev" and j["cfg"]["dir"] == "min":
            jobs.append({"cfg": dict(j["cfg"], signals="none", id=n), "bound": 0})
            n += 1
    return jobs


def run(cfg, ctx, state):
    K.prepare(cfg)
    r = K.play(cfg, ctx, state)
    out = K.observe(r, ctx)
    if cfg.get("signals") == "none":
        # an unattended run makes the same evaluations
        q = K.play(cfg, K.Ctx0(), state, signals=False)
        if len(q.calls) != len(r.calls) or not all(a.same_controls(b) for a, b in zip(q.calls, r.calls)):
            O.fail(r, "a run without signals makes {0} evaluations, with signals {1}", len(q.calls), len(r.calls))
        return out
    ev = list(r.events)
    if [e[0] for e in ev].count("start") != 1 or not ev or ev[0][0] != "start" or ev[0][1] != "start":
        O.fail(r, "start messages: {0}", [e for e in ev if e[0] == "start"])
    ev = ev[1:]
    plain = "reeval" not in cfg
    pos = 0
    for call in r.calls:
        want = ["ctrl", "call", "ret"] + ([] if call.status else ["plot"])
        got = [e[0] for e in ev[pos:pos + len(want)]]
        if got != want:
            O.fail(r, "notifications of evaluation {0}: {1}, expected {2}", call.k, got, want)
        if not same_controls(ev[pos][1], call.triple(), 1e-9):
            O.fail(r, "controls announced for evaluation {0}: {1}", call.k, ev[pos][1])
        if not call.status:
            n, v = ev[pos + 3][1], ev[pos + 3][2]
            if n != call.k or (plain and not O.num_eq(float(v), call.value)):
                O.fail(r, "evaluation {0} returned {1}, announced as evaluation {2} with {3}", call.k, call.value, n, v)
        pos += len(want)
    if pos != len(ev):
        O.fail(r, "notifications without an evaluation: {0}", [e[0] for e in ev[pos:]])
    if plain:
        O.history_exact(r)
    elif [n for n, _ in r.history] != [c.k for c in r.successes()]:
        O.fail(r, "evaluation numbers in the history: {0}", [n for n, _ in r.history])
    return out
