#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--replay FILE]

Decides one property on the code in /repo by exhaustive exploration (see DESIGN.md). Exit 0: it held on everything
explored; exit 1 with a VIOLATION line: it is broken."""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
for k, v in {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg",
             "JAX_PLATFORMS": "cpu", "PYTHONDONTWRITEBYTECODE": "1", "TF_CPP_MIN_LOG_LEVEL": "3", "PYTHONHASHSEED": "0",
             "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"}.items():
    os.environ[k] = v
sys.dont_write_bytecode = True
if os.environ.get("MC_REEXEC") != "1":      # the settings above have to be there when the interpreter starts
    os.environ["MC_REEXEC"] = "1"
    if len(sys.argv) > 1 and sys.argv[1] in ("C21",):       # file operations are observed by a preloaded library
        lib = os.path.join(HERE, "build", "crash.so")
        os.makedirs(os.path.dirname(lib), exist_ok=True)
        if os.system("gcc -shared -fPIC -O1 -w -o {0}.{2} {1} -ldl && mv {0}.{2} {0}".format(
                lib, os.path.join(HERE, "mc", "native", "crash.c"), os.getpid())):
            sys.exit("mc/native/crash.c cannot be compiled")
        os.environ["LD_PRELOAD"] = os.environ["VP_CRASH_LIB"] = lib
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)

from mc import explore as X      # noqa: E402  (imports neither numpy nor the code under test)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--evidence")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--only", help="explore only jobs whose configuration contains this text")
    args = ap.parse_args()
    pid = args.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = "mc.props." + pid.lower()
    meta = json.load(open(os.path.join(HERE, "mc", "checks.json"))).get(pid, {"level": "model_checking", "bound": "", "rule": ""})
    module = importlib.import_module(modname)
    if args.replay:
        rec = json.load(open(args.replay))
        msg = X.confirm(modname, rec, rec.get("tier", args.tier), rec.get("seed", seed))
        print("replay of {0}: {1}".format(pid, "no violation" if msg is None else msg))
        return 0 if msg is None else 1
    t0 = time.time()
    jobs = module.jobs(args.tier, seed)
    if args.only:
        jobs = [j for j in jobs if args.only in json.dumps(j["cfg"])]
    # two fixed executions first, each twice: the harness must own all nondeterminism
    res = X.explore(modname, jobs, args.tier, seed, time_cap=700 if args.tier == "quick" else 6000,
                    keep_going=args.keep_going)
    known = load_known(pid)
    new, seen = [], set()
    for v in res.violations:
        k = next((f for f in known if f["match"] in v["message"]), None)
        if k is not None:
            seen.add(k["id"])
        else:
            new.append(v)
    for f in known:
        if f["id"] in seen:
            print("KNOWN-FINDING: property={0} {1}".format(pid, f["what"]))
    path = None
    if new:
        v = min(new, key=lambda v: (sum(1 for c in v["choices"] if c), len(v["choices"])))
        again = X.confirm(modname, v, args.tier, seed)
        v.update(property=pid, tier=args.tier, seed=seed, reproduced=again is not None)
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "{0}-{1}.json".format(pid, os.getpid()))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
    wall = time.time() - t0
    cov = {"states": len(res.states), "transitions": res.steps, "traces_validated_against_impl": res.executions,
           "samples": [{k: s[k] for k in ("cfg", "choices", "outcome")} for s in res.samples[:4]],
           "configurations": res.configs, "choice_points": res.choices, "distinct_outcomes": len(res.outcomes),
           "longest_choice_sequence": res.maxdepth, "exhaustive": bool(res.complete and not res.violations),
           "bound": meta["bound"]}
    if meta["level"] in ("exploration", "fault_enumeration"):
        cov["evaluations"] = cov.pop("traces_validated_against_impl")
        cov["distinct_nontrivial"] = len(res.states)
        cov.pop("states")
        cov["rule"] = meta["rule"]
    if res.note:
        cov["cap"] = res.note
    ev = {"property": pid, "tier": args.tier, "seed": seed, "level": meta["level"], "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(args.evidence or os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("{0} [{1}] configurations={2} executions={3} transitions={4} states={5} outcomes={6} complete={7} wall={8:.1f}s"
          .format(pid, args.tier, res.configs, res.executions, res.steps, len(res.states), len(res.outcomes),
                  res.complete, wall))
    if new:
        print(v["message"][:3000])
        print("cfg: {0}\nchoices: {1}".format(json.dumps(v["cfg"]), v["choices"]))
        print("VIOLATION property={0} replay={1}".format(pid, path))
        return 1
    return 0


def load_known(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path))["findings"] if f["property"] == pid]


if __name__ == "__main__":
    sys.exit(main())
