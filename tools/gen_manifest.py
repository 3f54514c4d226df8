#!/usr/bin/env python3
"""Writes mc/checks.json (what the evidence files quote) and MANIFEST.json from the table below. A property without a
module in mc/props is listed as not claimed."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUNS = ("Trusted: CPython, numpy, scipy and jax; the harness (mc/harness.py: virtual clock, scripted figure of merit, "
        "observation of the files on disk) and the oracle in mc/props. Nothing is claimed outside the stated alphabets "
        "and bounds.")
T_RUN = "stateless model checking: exhaustive exploration of environment answers on the real code"
T_DEV = "stateless model checking: all answer sequences to a horizon, all bounded deviations of longer runs"
T_SHAPE = "bounded exhaustive enumeration of configurations on the real code against a reference model"

CHECKS = {
    "C01": (T_DEV, "all algorithms x search methods x directions; every sequence over {0.5, 0.25, -0.75, NaN, inf, 3e11} "
            "and failures to 4 (thorough 5) evaluations; every run to its own end with 1 (2) departures (tie, low, high, "
            "NaN, inf, huge, failure) from a smooth landscape at any evaluation", ""),
    "C02": (T_DEV, "as C01, both file formats, colliding and renamed control names; the file is parsed before and after "
            "every evaluation", ""),
    "C03": (T_DEV, "as C01 with failures and user stops at every evaluation; report, best controls and the rebuilt "
            "pulses are compared with the recorded calls", ""),
    "C04": (T_DEV, "two runs per execution (maximize F, minimize -F) over algorithms x search methods x 11 settings "
            "(re-evaluation, drift, goals, criteria); all 4-sequences and 1 (2) departures, failures and stops included",
            ""),
    "C05": (T_DEV, "algorithms x {evaluation limit, time limit, goal and their combinations} x all answer and duration "
            "sequences within the horizon", ""),
    "C06": (T_RUN, "a stop at every observable event of the run (start message, controls sent, inside the figure of merit, "
            "gradient calls, value sent, between super-iterations) x {signal, exit handler} x algorithms x 2 optimizers "
            "alive", ""),
    "C07": (T_DEV, "a failed evaluation (status codes with good, missing and None values) at every evaluation, alone and "
            "together with ties and records, with re-evaluation and drift compensation", ""),
    "C08": (T_DEV, "criteria alone and combined x answers to a horizon and departures x durations; stop position and name "
            "compared with a reference of the criteria", ""),
    "C14": (T_DEV, "dimensions 1-3, standard and adaptive, default and given simplices; every comparison outcome "
            "(alphabet of ordered values with ties) to depth 7-9, longer runs with departures; an independent "
            "Nelder-Mead has to propose the same points", "Ties are accepted in any order numpy may sort them."),
    "C15": (T_DEV, "dimensions 1-3, populations default/4/5/..., every ranking of the first generations; published "
            "update equations recomputed from the points seen", ""),
    "C16": (T_DEV, "7 ladders x 6 algorithm/search combinations; every sequence of 3 values x 2 deviations to 4 (6) "
            "measurements, 2 values to 7 (9), longer runs with 1 (2) departures", "NaN and infinities excluded."),
    "C27": (T_DEV, "as C01; the sequence of all messages to the client and all calls of the figure of merit", ""),
    "C09": (T_SHAPE, "8 bases x 8 limit pairs (swapped, equal, one-sided included) x shrink on/off x 7 guesses x all coefficient "
            "vectors over the alphabet; all piecewise pulses over levels below, at and above the limits to 4 bins; parameters; "
            "whole runs of every algorithm with 1 departure", "Standard shaping (limits applied last)."),
    "C10": (T_SHAPE, "3 bases x 7 guesses x 7 scalings x shrink x all orders of shaping steps up to the bound x coefficient "
            "vectors; time grids of 1-257 points; whole runs with 1 departure", ""),
    "C11": (T_SHAPE, "9 bases and their variants x 1-3 (4) basis vectors x bins x times x random numbers incl. the extremes x all "
            "coefficient vectors over the alphabet", ""),
    "C12": (T_SHAPE, "all ordered choices of 0-3 pulses (7 kinds) x 0-3 parameters x shared and own times; every component of the "
            "search vector moved alone; whole runs with 1 departure", ""),
    "C13": (T_DEV, "6 control sets x search methods x 1-4 super-iterations; all 4 (6) answer sequences and 1 (2) departures, "
            "failures and stops", "Without drift compensation, re-evaluation and overwriting shaping options."),
    "C17": (T_DEV, "a reference of the whole run is followed evaluation by evaluation: search methods x averaging counts x "
            "time triggers x answer and duration departures, failures and stops; file compared before each evaluation", ""),
    "C18": (T_DEV, "pairs of runs of the same seed under 12 circumstances (settings copied, reused, read back, after other runs, "
            "user draws ...) x algorithms x seeds x answer departures; different seeds differ", ""),
    "C19": ("stateless model checking: all schedules of concurrent starts up to a preemption bound on the real code",
            "2-3 starts in threads switched at every file operation, preemption bound 2-3 (4), clock ticks in between, existing "
            "folders and files", ""),
    "C20": ("stateless model checking: a crash at every file operation and inside every write of a run (fault injection)",
            "a process killed before every file-changing operation and in the middle of every write, and every operation failing, in "
            "24 runs (algorithms x formats x directions x failures, stops, re-evaluation, drift)",
            "Process crash, not power loss: what was handed to the operating system stays."),
    "C21": ("stateless model checking: all schedules of the real code and the user's program up to a deviation bound",
            "the user's program reads, answers, or answers late at every file operation and waiting time; deviation bound 2-3 (4); "
            "leftover, unreadable, missing and slow answers; both formats", ""),
    "C22": (T_SHAPE, "all settings trees of nesting depth 2 over 40+ leaf kinds x containers; settings, reports, dumped "
            "dictionaries of real runs; missing and malformed files", "Real numbers; string keys."),
    "C23": (T_SHAPE, "all names x ways of naming; every documented option alone and in pairs compared with explicit defaults through "
            "what the run does", ""),
    "C24": (T_SHAPE, "dimensions 2-4 x all drifts and ordered choices of 0-3 non-commuting controls x 0-3 (4) and 40 slices x steps x "
            "amplitude vectors; independent exponential", ""),
    "C25": (T_SHAPE, "5 systems and the library's Ising models x 2-48 slices x direction x guess x all amplitude vectors over the "
            "alphabet; the gradient handed to L-BFGS-B against differences of the figure of merit, with a rigorous first-order "
            "bound for GRAPE", ""),
    "C26": (T_SHAPE, "partial traces for all subsystem dimensions (1-3 (4) subsystems), positions and orders on a basis of all "
            "states; fidelities, square roots over all small states; displacement, resampling, noise, orthonormalization over grids",
            ""),
    "C28": (T_SHAPE, "dimensions 1-6 x variations x starts x all scripted draws over 6 (3, 2) values; first points of whole runs", ""),
    "C29": ("stateless model checking: all interleavings of runs at evaluation granularity up to a preemption bound, real code "
            "under a controlled scheduler", "66 pairs and 4 triples of 11 runs (5 algorithm/search combinations, re-evaluation, "
            "drift, goals) x stop/failure of one; preemption bound 1 (2), all interleavings of 8 short pairs; every nesting point; "
            "every execution order", ""),
    "C30": ("stateless model checking: exhaustive answer, failure and stop sequences, and all nestings, orders and bounded "
            "interleavings of several runs, of the real code; the log file and the console are read before every evaluation",
            "answers to depth 3 over 4 values, 2 failures and a stop; departures <= 1 (2) from a landscape; log and console switches; "
            "16 (49) pairs and 2 triples of 7 runs: every order, nesting points 1-3, preemption bound 0 (1)", ""),
    "C31": ("stateless model checking: all histories of evaluations and propagator requests of bounded length on the real "
            "problem classes, each value compared with an independent reference", "histories of length 2-3 (4) over 3-10 controls and "
            "operations x settings of 5 problems; GRAPE runs with 7 limits followed by all orders of user evaluations; dCRAB runs", ""),
    "C32": ("stateless model checking: every in-place change of a list of kinds, in every single evaluation and in all, of the real "
            "code, compared with the run without changes", "8 kinds of changes x (each evaluation, all) by the figure of merit, the "
            "propagators and the interface, 6 changes of the settings, changes of arrays in them, 6 ways to reuse answers, 13-26 entries set before the settings are used again x 25 algorithm configurations; in-place "
            "guess and scaling functions", ""),
    "C33": ("stateless model checking with fault injection: an exception or unusable answer in every single call of the user's code, "
            "each history followed by a further optimization, on the real code", "23 kinds of exceptions (8 for AD, 4 in quick for "
            "propagators, guess and scaling) x all calls (at most 40 per run for guess and scaling) x 19 configurations; 10 unusable "
            "answers x all evaluations x 18 configurations", ""),
}


def main():
    claimed, checks = [], {}
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    notapp = []
    for p in props:
        pid = p["id"]
        if pid not in CHECKS or not os.path.exists(os.path.join(HERE, "mc", "props", pid.lower() + ".py")):
            notapp.append({"property": pid, "reason": NOT.get(pid, "no check has been built yet")})
            continue
        tech, bound, extra = CHECKS[pid][:3]
        level = CHECKS[pid][3] if len(CHECKS[pid]) > 3 else "model_checking"
        checks[pid] = {"level": level, "bound": bound, "rule": bound, "assumptions": [x for x in (extra, RUNS) if x]}
        claimed.append({"property": pid, "quick_cmd": "./check.py {0} --tier quick".format(pid),
                        "thorough_cmd": "./check.py {0} --tier thorough".format(pid), "technique": tech, "level": level,
                        "level_note": "Exhaustive within: " + bound + ". " + (extra + " " if extra else "") + RUNS})
    man = {"version": 1, "setup_cmd": "chmod +x check.py && mkdir -p evidence replays",
           "checks": claimed, "not_applicable": notapp,
           "notes": "No hooks in /repo: the code is driven through its public interface; clock, signals, file system "
                    "operations and threads are controlled from outside. Findings and fixes: known_findings.json."}
    json.dump(checks, open(os.path.join(HERE, "mc", "checks.json"), "w"), indent=1)
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


NOT = {}

if __name__ == "__main__":
    main()
