"""C17: drift compensation replaces the best value by a fresh measurement

A reference of the whole run (Nelder-Mead, compensation after a super-iteration and after some time, records) follows the
real one evaluation by evaluation; the best-controls file is compared before each of them."""
import copy
import math

import numpy as np

from .. import campaign as K, harness as H, oracles as O, nm
from . import c03


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []

    def add(bound, **cfg):
        i = len(jobs)
        cfg.update(id=i, dir=("min", "max")[i % 2], fmt=("npz", "json")[i // 2 % 2])
        jobs.append({"cfg": cfg, "bound": bound})
    nms = [dict(alg="DirectSearch", dsm="NM", controls="P1"), dict(alg="DirectSearch", dsm="NMa", controls="P2"),
           dict(alg="dCRAB", dsm="NM", controls="PW1", si=2), dict(alg="dCRAB", dsm="NMa", controls="PW", si=2),
           dict(alg="dCRAB", dsm="NM", controls="PW1", si=3)]
    for bi, base in enumerate(nms):
        for di, drift in enumerate([{"compensate_after_minutes": 0.1}, {"compensate_after_minutes": 0.05, "num_average": 2},
                                    {"compensate_after_minutes": 1.0, "num_average": 3}]):
            crit = {"max_eval": 14 if base["alg"] == "DirectSearch" else 10}
            # departures from a landscape at any measurement, with failures and stops
            add(2 if thorough else 1, **base, drift=drift, crit=dict(crit, max_eval=crit["max_eval"] + 8), mode="dev",
                alphabet=["Lq", "low", "high", "saw"], fails=[["low", 1], [None, 2]], stops=["low", "high"])
            # the time each evaluation takes decides when the compensations are made
            add(3 if thorough else 2 if bi == di else 1, **base, drift=drift, crit=crit, mode="dev", alphabet=["Lq", "low"], durations=[1.0, 7.0, 70.0, 86401.5])
            # measurements that are no numbers
            add(2 if thorough else 1, **base, drift=drift, crit=crit, mode="dev", alphabet=["Lq", "nan", "inf", "low"])
            # every sequence of answers of the first evaluations
            if thorough or (bi + di) % 2 == 0:
                add(None, **base, drift=dict(drift, compensate_after_minutes=0.03), crit=crit, mode="full",
                    depth=7 if thorough else 5, alphabet=["Lq", 0.5, -0.75])
            for total in ((6, 9, 11) if thorough else ((6, 9, 11)[(bi + di) % 3],)):
                add(1, **base, drift=drift, crit={"max_eval": 30}, mode="dev", alphabet=["Lq", "low", "high"],
                    total={"max_eval_total": total})
    for controls, dsm in (("PW1", "NM"), ("PW", "CMA4"), ("F1p", "NM"), ("F1p", "CMA4"), ("FC2p", "NM"), ("FSP", "CMA")):
        for num in (1, 2, 3):
            for minutes in (0.0, 0.05) if dsm.startswith("CMA") else (0.0,):
                base = dict(alg="dCRAB", dsm=dsm, controls=controls, si=3,
                            drift={"compensate_after_SI": True, "num_average": num, "compensate_after_minutes": minutes})
                add(2 if thorough else 1, **base, crit={"max_eval": 5}, mode="dev", alphabet=["Lq", "low", "high", "saw", "nan"],
                    fails=[["low", 1]], stops=["low", "high"])
                # the run ends before, in and after every compensation
                for total in range(5, 20):
                    if thorough or num > 1 or total % 2:
                        add(1 if thorough else 0, **base, crit={"max_eval": 5}, mode="dev", alphabet=["Lq", "low"],
                            total={"max_eval_total": total})
                if minutes == 0.0:
                    add(None, **base, crit={"max_eval": 1 if num < 3 else 2}, mode="full", depth=7 if thorough else 4,
                        alphabet=["Lq", 0.5, -0.75])
        # not enabled: nothing is measured again
        add(1, alg="dCRAB", dsm=dsm, controls=controls, si=2, drift={"compensate_after_SI": False}, crit={"max_eval": 5},
            mode="dev", alphabet=["Lq", "low", "high"])
    return jobs


def point(c):
    return np.concatenate([np.ravel(p) for p in c.pulses] + [c.parameters])


class Reference:
    def __init__(self, cfg, r, choose):
        self.cfg, self.r, self.choose = cfg, r, choose
        self.best, self.best_c, self.best_k = math.inf, None, None
        self.k = 0
        d = cfg["drift"]
        self.minutes = d.get("compensate_after_minutes", 0.0)
        self.num = d.get("num_average", 1)
        self.after_si = d.get("compensate_after_SI", False) or self.minutes > 0
        self.compensations = 0

    def over(self):
        return self.k >= len(self.r.calls)

    def bad(self, text, *args):
        raise nm.Mismatch(text.format(*args))

    def take(self):
        """One evaluation: the file before it, its value, a record"""
        c = self.r.calls[self.k]
        sv, r = c.saved_before, self.r
        if self.best_k is None:
            if sv is not None:
                self.bad("before evaluation {0} a best value {1} is saved", c.k, sv["FoM"])
        else:
            if sv is None or not O.num_eq(float(np.real(sv["FoM"])) * r.sign, self.best) \
                    or int(sv["iteration_number"]) != self.best_k:
                self.bad("before evaluation {0} the best value is {1} (evaluation {2}), saved is {3}", c.k, self.best * r.sign,
                         self.best_k, None if sv is None else (sv["FoM"], sv["iteration_number"]))
            for i, n in enumerate(r.names[0]):
                if not H.close(H.arr(sv[n]), self.best_c[0][i]):
                    self.bad("before evaluation {0} the saved pulse is {1}, the best one {2}", c.k, sv[n], self.best_c[0][i])
            for i, n in enumerate(r.names[1]):
                if not H.close(float(np.real(sv[n])), self.best_c[2][i]):
                    self.bad("before evaluation {0} the saved parameter is {1}, the best one {2}", c.k, sv[n], self.best_c[2][i])
        self.k += 1
        if c.status or c.value is None:
            return None
        v = float(c.value) * r.sign
        if v < self.best:
            self.best, self.best_c, self.best_k = v, c.triple(), c.k
        return v

    def compensate(self, where, triple):
        """The controls are measured again. Returns the average or None (cut short)"""
        vs = []
        for i in range(self.num):
            if self.over():
                return None
            c = self.r.calls[self.k]
            if not H.same_controls(c.triple(), triple, 1e-8):
                self.bad("evaluation {0} has to be measurement {1} of {2} of the best controls {3} ({4}), it has {5}", c.k, i + 1,
                         self.num, triple, where, c.triple())
            v = self.take()
            if v is None:
                return None
            vs.append(v)
        if self.over() and (self.r.stopped_at == self.k or self.r.higher_reason) and self.choose(2):
            return None         # the stop came with the last measurement
        if math.isnan(sum(vs)):
            return math.nan     # no value at all: nothing changes
        self.best, self.best_c, self.best_k = sum(vs) / self.num, triple, self.k
        self.compensations += 1
        return self.best

    def end_time(self, k):
        """The time after evaluation k (1-based)"""
        return self.r.calls[k].t if k < len(self.r.calls) else H.CLOCK.t

    def run(self):
        r, cfg = self.r, self.cfg
        s = 0
        while not self.over():
            s += 1
            si = r.calls[self.k].si
            last = max(c.k for c in r.calls if c.si == si)
            if s > 1:
                if cfg["alg"] != "dCRAB":
                    self.bad("a second search")
                if self.after_si:
                    start = self.best_c if self.best_c is not None else c03.initial(cfg)
                    self.compensate("after super-iteration {0}".format(s - 1), start)
                    if self.over():
                        break
            if cfg["dsm"].startswith("NM") and cfg["controls"] in ("P1", "P2", "PW", "PW1"):
                self.search(last)
            else:
                while self.k < last:
                    self.take()
        if self.best_k is None:
            return self
        if not O.num_eq(r.report["Figure of merit"] * r.sign, self.best):
            self.bad("reported {0}, the best value is {1}", r.report["Figure of merit"], self.best * r.sign)
        sv = r.saved_end
        if sv is None or not O.num_eq(float(np.real(sv["FoM"])) * r.sign, self.best) or int(sv["iteration_number"]) != self.best_k:
            self.bad("saved at the end {0}, the best value is {1} (evaluation {2})", None if sv is None else
                     (sv["FoM"], sv["iteration_number"]), self.best * r.sign, self.best_k)
        if not H.same_controls(r.best_controls, self.best_c):
            self.bad("best controls {0}, they have to be {1}", r.best_controls, self.best_c)
        return self

    def search(self, last):
        r, cfg = self.r, self.cfg
        first = self.k
        dim = len(point(r.calls[first]))
        t_last = r.calls[first].t
        gen = nm.search([point(c) for c in r.calls[first:first + dim + 1]], cfg["dsm"] == "NMa", self.choose)
        where = {}          # the controls of the points evaluated
        sent, n = None, 0
        if last - first < dim + 1:
            while self.k < last:
                self.take()
            return
        while self.k < last:
            what = gen.send(sent)
            sent = None
            if what[0] == "eval":
                c = r.calls[self.k]
                if not H.close(what[1], point(c), 1e-7):
                    self.bad("evaluation {0} has to be made at {1}, it is made at {2}", c.k, what[1], point(c))
                where[tuple(np.round(point(c), 6))] = c.triple()
                sent = self.take()
                if sent is None:
                    return
                continue
            n += 1
            if n > 1 and self.minutes > 0 and (self.end_time(self.k) - t_last) / 60.0 >= self.minutes:
                sim, f = what[1], what[2]
                best = min(where.items(), key=lambda it: np.sum((np.array(it[0]) - sim[0]) ** 2))[1]
                v = self.compensate("after {0} min".format(self.minutes), best)
                t_last = self.end_time(self.k)
                if v is None:
                    return
                if math.isnan(v):
                    continue
                shift = v - f[0]
                for i in range(len(f)):
                    f[i] = v if i == 0 else f[i] + shift


def run(cfg, ctx, state):
    r = K.play(cfg, ctx, state)
    try:
        ref = nm.any_order(lambda choose: Reference(cfg, r, choose).run())
    except nm.Mismatch as ex:
        O.fail(r, "{0}", ex)
    O.count_reported(r)
    for c in r.calls:
        ctx.state(cfg["id"], c.k, repr(c.value), round(c.t, 3))
    return (cfg["id"], len(r.calls), ref.compensations, ref.best_k)
