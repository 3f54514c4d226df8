"""C20: a crash never loses or corrupts the best controls saved before

A child process is killed before every operation that changes a file of the results folder, and in the middle of every
write (mc/native/crash.c); what is then on disk is compared with the uninterrupted run. Operations that fail (disk full)
are explored in the same way."""
import json
import os
import shutil
import subprocess
import sys

import numpy as np

from .. import harness as H
from ..explore import Violation

FILE = "native/crash.c"


def jobs(tier, seed):
    thorough = tier == "thorough"
    jobs = []

    def add(**cfg):
        cfg["id"] = len(jobs)
        for mode in (1, 2):
            jobs.append({"cfg": dict(cfg, crash=mode), "bound": None, "chunk": 40})
    for fmt in ("npz", "json"):
        add(alg="dCRAB", dsm="NM", controls="F1p", si=1, crit={"max_eval": 6}, fmt=fmt, answers=["low"], dir="min")
        add(alg="dCRAB", dsm="NM", controls="FC2p", si=2, crit={"max_eval": 3}, fmt=fmt, answers=["low", "high"], dir="max")
        add(alg="dCRAB", dsm="CMA4", controls="F1", si=2, crit={"max_eval": 4}, fmt=fmt, answers=["L"], dir="min")
        add(alg="DirectSearch", dsm="NM", controls="P2", crit={"max_eval": 5}, fmt=fmt, answers=["low"], dir="max")
        add(alg="DirectSearch", dsm="NM", controls="P1", crit={"max_eval": 4}, fmt=fmt, answers=["low", "tie", "low", "fail"], dir="min")
        add(alg="dCRAB", dsm="NM", controls="F1p", si=1, crit={"max_eval": 4}, fmt=fmt, answers=["low", "low", "stop"], dir="min")
        add(alg="GRAPE", controls="G", total={"max_eval_total": 4}, fmt=fmt, answers=["low", "nan", "low"], dir="max")
        add(alg="dCRAB", dsm="NM", controls="F1p", si=2, crit={"max_eval": 6}, fmt=fmt, answers=["low", "low", "high"], stds=[0.3],
            reeval=[0.4, 0.5], dir="min")
        add(alg="dCRAB", dsm="NM", controls="F1p", si=2, crit={"max_eval": 3}, fmt=fmt, answers=["low", "high"],
            drift={"compensate_after_SI": True, "num_average": 2}, dir="min")
        if thorough:
            add(alg="AD", controls="A", total={"max_eval_total": 3}, fmt=fmt, answers=["low"], dir="min")
            add(alg="dCRAB", dsm="NM", controls="FSP", si=2, crit={"max_eval": 9}, fmt=fmt, answers=["L"], dir="min")
    return jobs


class Server:
    def __init__(self, workdir):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        lib = os.path.join(workdir, "crash.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", lib, os.path.join(here, FILE), "-ldl"], check=True)
        env = dict(os.environ, LD_PRELOAD=lib, VP_CRASH_LIB=lib, PYTHONPATH=os.path.dirname(here))
        self.p = subprocess.Popen([sys.executable, "-m", "mc.crashserver"], env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, cwd=workdir)

    def ask(self, **req):
        self.p.stdin.write((json.dumps(req) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the process that is to be crashed cannot be started")
        return json.loads(line)


def setup_worker(state):
    state["cache"] = {}


def scratch(state):
    work = os.path.join(state["workdir"], "crash")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    return work


def reference(cfg, state):
    """The uninterrupted run: operations, contents of the file after each evaluation, final report"""
    key = cfg["id"]
    if key not in state["cache"]:
        if "server" not in state:
            state["server"] = Server(state["workdir"])
        res = state["server"].ask(cfg=cfg, work=scratch(state), target=None)
        ops, ref = [], None
        for line in res["log"].splitlines():
            w = line.split(" ", 4)
            if w[0] == "op":
                ops.append((int(w[1]), w[2], int(w[3]), w[4]))
            elif w[0] == "reference":
                ref = json.loads(line[len("reference "):])
            elif w[0] in ("error", "trouble"):
                raise Violation("the uninterrupted run fails: " + line)
        if ref is None:
            raise Violation("the uninterrupted run does not come to its end: " + res["log"][-2000:])
        state["cache"][key] = (ops, ref)
    return state["cache"][key]


def tears(op, size, tier, crash):
    """Bytes of a write that are already on disk"""
    if op not in ("write", "pwrite", "sendfile") or size <= 1:
        return [0]
    if crash == 2:
        return [0, size // 2]
    if tier == "thorough" and size <= 6000:
        return list(range(0, size))
    return sorted({0, 1, size // 4, size // 2, 3 * size // 4, size - 1})


def same(a, b):
    return json.dumps(a, sort_keys=True, default=str) == json.dumps(b, sort_keys=True, default=str)


def plain(saved):
    return {k: np.real(np.asarray(v)).tolist() for k, v in saved.items()}


def run(cfg, ctx, state):
    ops, ref = reference(cfg, state)
    points = [(i, t) for i, op, size, path in ops for t in tears(op, size, state["tier"], cfg["crash"])]
    target, torn = points[ctx.choose(len(points), "crash", free=True)]
    work = scratch(state)
    res = state["server"].ask(cfg=cfg, work=work, target=target, torn=torn, mode=cfg["crash"])
    calls = rets = 0
    done = []
    for line in res["log"].splitlines():
        w = line.split(" ")
        if w[0] == "call":
            calls = int(w[1])
        elif w[0] == "ret":
            rets = int(w[1])
        elif w[0] == "op":
            done.append(line)
        elif w[0] == "trouble":
            raise RuntimeError(line)
        ctx.steps += 1
    if cfg["crash"] == 1 and not os.WIFSIGNALED(res["status"]):
        raise RuntimeError("the crash did not happen: " + res["log"][-500:])
    where = "{0} at operation {1} ({2}, {3} bytes already written), {4} evaluations begun, {5} returned".format(
        "crash" if cfg["crash"] == 1 else "failed operation", target, done[min(target, len(done) - 1)] if done else "-", torn,
        calls, rets)
    root = os.path.join(work, "QuOCS_Results")
    folders = os.listdir(root) if os.path.isdir(root) else []
    found = report = None
    if folders:
        folder = os.path.join(root, folders[0])
        found = H.find_saved(folder)
        names = [n for n in os.listdir(folder) if n.endswith("optimized_parameters.json")]
        if names:
            with open(os.path.join(folder, names[0]), "rb") as f:
                report = f.read()
    saved = None
    if found is not None:
        try:
            saved = plain(H.parse_saved(*found))
        except Exception as ex:
            raise Violation("{0}: the best-controls file is unreadable: {1!r} ({2} bytes)".format(where, ex, len(found[1])))
    # what it may be: after the last evaluation that is certainly processed, and after the last one that has returned
    processed = rets - 1 if rets == calls and rets > 0 else rets
    allowed = [ref["saved"][processed], ref["saved"][rets]]
    if cfg["crash"] == 2:
        # the code may have gone on without this save
        allowed = ref["saved"][:rets + 1]
        certain = [s for s in ref["saved"][:processed + 1]]
        if saved is None and target_later(ops, target, certain, ref):
            raise Violation("{0}: the best-controls file is gone".format(where))
    if not any(same(saved, a) for a in allowed):
        raise Violation("{0}: the best-controls file holds {1}\nexpected one of {2}".format(where, brief(saved), [brief(a) for a in allowed]))
    if report is not None:
        try:
            rep = json.loads(report.decode())
        except Exception as ex:
            raise Violation("{0}: the final report is unreadable: {1!r} ({2} bytes)".format(where, ex, len(report)))
        if not isinstance(rep, dict) or sorted(rep) != sorted(ref["report"]):
            raise Violation("{0}: the final report is incomplete: {1}".format(where, sorted(rep)))
        if cfg["crash"] == 1 and rets == len(ref["saved"]) - 1 and json.dumps(rep) != json.dumps(ref["report"]):
            raise Violation("{0}: the final report holds {1}, without crash {2}".format(where, rep, ref["report"]))
    ctx.state(cfg["id"], cfg["crash"], target, torn, calls, rets)
    return (cfg["id"], cfg["crash"], calls, rets, found is not None, report is not None)


def target_later(ops, target, certain, ref):
    """The file had been saved before the operation that failed"""
    renamed = [i for i, op, size, path in ops if "best_controls." in path and not path.endswith(".tmp")]
    return bool(renamed) and target > renamed[0] and any(s is not None for s in certain)


def brief(saved):
    return None if saved is None else {k: saved[k] for k in saved if np.asarray(saved[k]).size <= 1}
