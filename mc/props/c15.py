"""C15: CMA-ES samples, ranks and recombines as specified

The random numbers are scripted: sample k of a generation moves along coordinate k mod N, so that the samples show the
step size and the axes of the search distribution, which are compared with the published recursion (Hansen, "The CMA
evolution strategy: a tutorial") driven by the points evaluated and the ranking of the answers."""
import itertools
import math

import numpy as np

from .. import oracles as O, harness as H, nm, env
from ..explore import Violation


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []

    def add(bound=None, **cfg):
        cfg["id"] = len(jobs)
        jobs.append({"cfg": cfg, "bound": bound, "chunk": 200})
    for N in (1, 2, 3):
        for pop in (2, 3, 4):
            add(N=N, pop=pop, gens=3, mode="rank", sigma="given")
        add(N=N, pop=4, gens=3, mode="rank", sigma="default")
        add(N=N, pop=5, gens=2, mode="rank", sigma="given")
        add(N=N, pop=4, gens=2, mode="ties", sigma="given")
    for N in (1, 2, 3, 4, 6):
        for pop in (None, 4, 5.7, 9):
            add(bound=2 if thorough else 1, N=N, pop=pop, gens=6 if thorough else 4, mode="dev", sigma="given")
    add(N=2, pop=6, gens=2 if thorough else 1, mode="rank", sigma="given")
    return jobs


def default_population(N):
    return int(4 + math.floor(3 * math.log(N)))


class Script:
    """Random numbers of the search"""
    def __init__(self, N, pop):
        self.N, self.pop, self.count = N, pop, 0
        self.zs, self.flat = [], []

    def sample(self):
        i = self.count
        self.count += 1
        z = np.zeros(self.N)
        j = i % self.N
        z[j] = (0.6 + 0.35 * ((i * 7) % 5)) * (-1) ** (i + i // self.N)
        self.zs.append(z)
        return z

    def get_normal_random_numbers(self, n=1, *a, **kw):
        """The next n numbers, however the search cuts its draws"""
        while len(self.flat) < n:
            self.flat.extend(self.sample())
        res, self.flat = self.flat[:n], self.flat[n:]
        return np.array(res)

    def get_random_numbers(self, n=1, *a, **kw):
        raise Violation("CMA-ES draws uniform random numbers")


def start(cfg):
    N = cfg["N"]
    x0 = np.array([0.4 * (-1) ** i + 0.1 * i for i in range(N)])
    s = np.array([0.5 + 0.25 * i for i in range(N)]) if cfg["sigma"] == "given" else None
    return x0, s


def answers(cfg, ctx, pop, values):
    k = len(values)
    if cfg["mode"] == "rank":
        # the ranks of a generation form a permutation
        i = k % pop
        used = [v for v in values[k - i:]]
        free = [v for v in range(pop) if float(v) not in used]
        return float(free[ctx.choose(len(free), "r", free=True)]) if len(free) > 1 else float(free[0])
    if cfg["mode"] == "ties":
        return float(ctx.choose(3, "r", free=True))
    return None


class Reference:
    def __init__(self, N, pop, x0, s):
        self.N, self.pop = N, pop
        self.m = np.array(x0, dtype=float)
        self.sigma = 1.0
        self.C = np.diag(np.asarray(s, dtype=float) ** 2)
        self.mu = pop // 2
        w = np.array([math.log(self.mu + 0.5) - math.log(i) for i in range(1, self.mu + 1)])
        self.w = w / w.sum()
        self.mueff = 1.0 / float(np.sum(self.w ** 2))
        me = self.mueff
        self.cc = (4 + me / N) / (N + 4 + 2 * me / N)
        self.cs = (me + 2) / (N + me + 5)
        self.c1 = 2 / ((N + 1.3) ** 2 + me)
        self.cmu = min(1 - self.c1, 2 * (me - 2 + 1 / me) / ((N + 2) ** 2 + me))
        self.damps = 1 + 2 * max(0.0, math.sqrt((me - 1) / (N + 1)) - 1) + self.cs
        self.pc = np.zeros(N)
        self.ps = np.zeros(N)
        self.chi = math.sqrt(N) * (1 - 1 / (4 * N) + 1 / (21 * N ** 2))
        self.count = 0

    def update(self, xs, ranks):
        """xs: points of the generation, ranks: indices from the best to the worst"""
        N = self.N
        self.count += len(xs)
        best = [xs[i] for i in ranks[:self.mu]]
        old = self.m
        self.m = sum(w * x for w, x in zip(self.w, best))
        y = (self.m - old) / self.sigma
        lam, V = np.linalg.eigh(self.C)
        isqrt = V @ np.diag(lam ** -0.5) @ V.T
        self.ps = (1 - self.cs) * self.ps + math.sqrt(self.cs * (2 - self.cs) * self.mueff) * (isqrt @ y)
        norm = float(np.linalg.norm(self.ps))
        gens = self.count / self.pop
        h = norm / math.sqrt(1 - (1 - self.cs) ** (2 * gens)) / self.chi < 1.4 + 2 / (N + 1)
        self.pc = (1 - self.cc) * self.pc + h * math.sqrt(self.cc * (2 - self.cc) * self.mueff) * y
        rank_mu = sum(w * np.outer((x - old) / self.sigma, (x - old) / self.sigma) for w, x in zip(self.w, best))
        self.C = ((1 - self.c1 - self.cmu) * self.C
                  + self.c1 * (np.outer(self.pc, self.pc) + (1 - h) * self.cc * (2 - self.cc) * self.C)
                  + self.cmu * rank_mu)
        self.C = (self.C + self.C.T) / 2
        self.sigma = self.sigma * math.exp((self.cs / self.damps) * (norm / self.chi - 1))


def run(cfg, ctx, state):
    from quocslib.gradientfreemethods.CMAES import CMAES
    env.CLOCK.t = 0.0
    N = cfg["N"]
    pop = default_population(N) if cfg["pop"] is None else int(math.floor(cfg["pop"]))
    x0, s = start(cfg)
    x0_copy, s_copy = x0.copy(), None if s is None else s.copy()
    rng = Script(N, pop)
    points, values = [], []
    limit = pop * cfg["gens"]

    def func(x, iterations, *rest):
        if len(points) > limit + 2 * pop:
            raise Violation("the search does not stop at its limit of evaluations {0}".format(limit))
        points.append(np.array(x, dtype=float))
        ctx.steps += 1
        v = answers(cfg, ctx, pop, values)
        if v is None:
            c = ctx.pick(["L", "tie", "low", "high"], "v")
            v = float(np.sum((points[-1] - 0.2) ** 2))
            if values and c != "L":
                v = {"tie": values[-1], "low": min(values) - 0.5, "high": max(values) + 1.0}[c]
        values.append(v)
        return v
    settings = {} if cfg["pop"] is None else {"population": cfg["pop"]}
    solver = CMAES(settings, {"max_eval": limit - pop + 1 if cfg["id"] % 2 else limit, "fatol": -1.0},
                   callback=lambda: True)
    res = solver.run_dsm(func, x0, sigma_v=s, rng=rng)
    ctx.state(cfg["id"], tuple(values))

    def bad(text, *a):
        raise Violation(text.format(*a) + "\nanswers {0}\npoints {1}".format(values, [np.round(p, 6).tolist() for p in points]))
    if len(points) != limit:
        bad("{0} evaluations, expected {1} generations of {2}", len(points), cfg["gens"], pop)
    if res["NfunevalsUsed"] != len(points):
        bad("{0} evaluations are reported, {1} were made", res["NfunevalsUsed"], len(points))
    if not np.array_equal(x0, x0_copy) or s is not None and not np.array_equal(s, s_copy):
        bad("the arguments of the search are changed")
    if not H.close(points[0], x0, 1e-12):
        bad("the first evaluation is made at {0}, not at the start point", points[0])
    last = values[-pop:]
    if not O.num_eq(res["F_min_val"], min(last)):
        bad("the returned value is {0}, the best one of the last generation is {1}", res["F_min_val"], min(last))
    if not any(v == min(last) and H.close(p, res["X_opti_vec"], 1e-12) for v, p in zip(last, points[-pop:])):
        bad("the returned point {0} is not the best one of the last generation", res["X_opti_vec"])

    def attempt(choose):
        ref = Reference(N, pop, x0, np.full(N, 0.3) if s is None else s)
        for g in range(cfg["gens"]):
            xs, vs = points[g * pop:(g + 1) * pop], values[g * pop:(g + 1) * pop]
            for k in range(pop):
                if g == 0 and k == 0:
                    continue
                z = rng.zs[g * pop + k]
                a = float(np.linalg.norm(z))
                y = (xs[k] - ref.m) / ref.sigma / a
                # y is sqrt(lambda) times a unit eigenvector of C
                scale = float(np.trace(ref.C))
                if not H.close(ref.C @ y / scale, float(y @ y) * y / scale, 1e-8) or float(y @ y) < 1e-12 * scale:
                    raise nm.Mismatch("sample {0} of generation {1} is {2}: not mean {3} + sigma {4} * axis of the "
                                      "distribution {5}".format(k + 1, g + 1, xs[k], ref.m, ref.sigma, ref.C.tolist()))
            # all axes are different ones: orthogonal to each other
            for j in range(N):
                for k in range(j):
                    a = [i for i in range(1 if g == 0 else 0, pop) if rng.zs[g * pop + i][j]]
                    b = [i for i in range(1 if g == 0 else 0, pop) if rng.zs[g * pop + i][k]]
                    if a and b:
                        u, v = xs[a[0]] - ref.m, xs[b[0]] - ref.m
                        if abs(u @ v) > 1e-7 * np.linalg.norm(u) * np.linalg.norm(v):
                            raise nm.Mismatch("samples {0} and {1} of generation {2} are not along different axes".format(
                                a[0] + 1, b[0] + 1, g + 1))
            # opposite and longer moves along the same axis
            for i in range(1 if g == 0 else 0, pop):
                for k in range(1 if g == 0 else 0, i):
                    zi, zk = rng.zs[g * pop + i], rng.zs[g * pop + k]
                    j = int(np.argmax(np.abs(zi)))
                    if zk[j]:
                        if not H.close((xs[i] - ref.m) / zi[j], (xs[k] - ref.m) / zk[j], 1e-8):
                            raise nm.Mismatch("samples {0} and {1} of generation {2} do not scale with their random "
                                              "numbers".format(i + 1, k + 1, g + 1))
            rest = list(range(pop))
            ranks = []
            while rest:
                lo = min(vs[i] for i in rest)
                ties = [i for i in rest if vs[i] == lo]
                i = ties[choose(len(ties)) if len(ties) > 1 else 0]
                ranks.append(i)
                rest.remove(i)
            ref.update(xs, ranks)
    try:
        nm.any_order(attempt)
    except nm.Mismatch as ex:
        bad("{0}", ex)
    return (cfg["id"], tuple(np.round(points[-1], 8).tolist()))
