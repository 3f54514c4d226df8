"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
S = "src/quocslib/"
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [S + f for f in files],
                     "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": S + c} for a, b, c in state]
    P.append(d)

OA = "optimizationalgorithms/OptimizationAlgorithm.py"
DC = "optimizationalgorithms/dCRABAlgorithm.py"
DS = "optimizationalgorithms/DirectSearchAlgorithm.py"
GR = "optimizationalgorithms/GRAPEAlgorithm.py"
AD = "optimizationalgorithms/ADAlgorithm.py"
CO = "communication/AllInOneCommunication.py"
NM = "gradientfreemethods/NelderMead.py"
CM = "gradientfreemethods/CMAES.py"
SC = "stoppingcriteria/StoppingCriteria.py"
BD = "utils/BestDump.py"
CT = "Controls.py"
BP = "pulses/BasePulse.py"

prop("C01", "The reported best figure of merit is the true best of the run",
 "Without re-evaluation or drift compensation, whatever values the user's figure of merit returns (ties, NaN, infinities and very large values included), for every algorithm, search method and direction, the best figure of merit the optimization holds after each evaluation, and reports at the end, equals the smallest (minimization) or largest (maximization) value returned so far by a successful evaluation, in the user's own sign. NaN is never the best. A tie never replaces an earlier best.",
 ["histories", "configurations"],
 "All sequences of figure-of-merit answers x algorithm (dCRAB, DirectSearch, GRAPE, AD) x search method (Nelder-Mead, CMA-ES) x direction x number of super-iterations.",
 "Tests check that one smooth problem converges below a threshold; none compares the reported best with the history of values, and none uses ties, NaN or a late record.",
 [OA, DC, DS, GR, AD, CO],
 [("record test against the best value so far", OA), ("record bookkeeping per algorithm", DC)],
 ["Optimizer.execute", "best figure of merit in the final report (optimized_parameters file)"],
 [("best FoM", "best value so far", OA)])

prop("C02", "The saved best-controls file always holds the best evaluation",
 "After every evaluation, the best-controls file in the results folder (npz or json) contains exactly the pulses, time grids and parameters that were sent to the user's figure of merit in the best evaluation so far, stored under the user's control names, together with the value returned for it in the user's sign and its evaluation number. An evaluation that is not a new best leaves the file as it was; before the first successful evaluation there is no file.",
 ["histories", "configurations"],
 "All answer sequences x file format x algorithm x numbers, names and name collisions of pulses/times/parameters.",
 "One test checks that a json file exists for one run; content is never compared with the history of evaluations.",
 [BD, CO, DC, DS],
 [("dump on record", BD), ("controls currently being evaluated are the ones dumped", CO)],
 ["*_best_controls.npz / .json in the results folder after each evaluation"])

prop("C03", "The best controls and the final report reproduce the best evaluation",
 "After the optimization ends, for whatever reason, asking for the best controls returns the pulses, time grids and parameters of the best successful evaluation (the initial controls if there was none), and the final report holds its value and the number of evaluations really made. The direct search reports the best parameters, and dCRAB's reported frequencies and coefficients of all super-iterations, summed through the basis on top of the initial guess, rebuild the best pulses; the best bare pulses are that sum without guess, scaling and limits.",
 ["histories", "configurations"],
 "All answer sequences and stop positions x algorithm x search method x basis x number of pulses, parameters, super-iterations.",
 "Tests only print the results; no test re-evaluates the returned controls or rebuilds them from the report.",
 [OA, DC, DS, GR, AD, CT, BP],
 [("base controls updated with the best vector after each search", CT), ("lists of super-iteration parameters", DC)],
 ["get_best_controls()", "get_best_bare_controls()", "*_optimized_parameters.json"])

prop("C04", "Maximizing F behaves exactly as minimizing -F",
 "For every algorithm, setting and answer sequence, maximizing F and minimizing -F send the same controls in the same order, stop at the same point and for the same reason, and save the same best controls, and every figure of merit shown to the user (final report, evaluation history, saved file, plot signal) is F in the maximization and -F in the minimization. The goal value is given in the user's sign. What the user's function returns is not modified.",
 ["histories", "configurations"],
 "All answer sequences x algorithm x search method x re-evaluation / drift compensation / goal / change-based stop settings.",
 "Maximization tests run one problem and look at the final value; nothing compares the two directions step by step.",
 [OA, CO, DC, DS, GR, AD],
 [("sign factor applied to what is measured and undone for what is shown", CO), ("sign factor", OA)],
 ["sequence of controls sent", "final report", "FoM_list", "saved file", "plot signal"])

prop("C05", "Total budgets are never exceeded and the true reason is recorded",
 "The number of evaluations never exceeds the total evaluation limit, no evaluation starts once the total time limit has passed or once the best value has reached the goal, and none of these limits stops a run before it is reached. The run then ends normally, with the saved file, report and best controls of the best evaluation so far, and names the limit that stopped it as the reason.",
 ["histories", "configurations"],
 "All positions at which a budget can run out (start simplex, reflection, expansion, contraction, shrink, generation, re-evaluation, drift compensation, between super-iterations) x answer sequences x evaluation durations x algorithm.",
 "Stopping tests use one long run per criterion and only check that it ends, not where, nor in the middle of a re-evaluation or drift compensation.",
 [OA, DC, DS, NM, CM, GR, AD],
 [("checks before each evaluation", OA), ("search leaves its loop when stopped", NM)],
 ["calls of the user's figure of merit", "termination reason", "results folder"])

prop("C06", "A user stop at any point halts the run and keeps the results",
 "If the user stops the optimization (Ctrl+C, or through the exit handler) at any point of its execution, at most the one evaluation already being prepared is still made and no evaluation starts after it, execution returns normally, and the saved file, the final report and the best controls are those of the best evaluation made. Ctrl+C is given as the reason of the run (a stop through the exit handler as that of the search it interrupts), and it reaches the optimization that is being executed even if other optimizers were created.",
 ["schedules", "histories"],
 "All program points (every executed source line) at which the stop can arrive x algorithm x search method x re-evaluation / drift settings.",
 "No test stops an optimization; an asynchronous signal can arrive at thousands of program points.",
 [OA, CO, "handleexit/HandleExit.py", NM, CM, DC, DS, GR, AD],
 [("signal handler", OA), ("running flag polled before each evaluation", OA), ("callback polled by the search", NM)],
 ["calls of the user's figure of merit after the stop", "results after execute()"])

prop("C07", "A failed evaluation stops the run and is never counted as a result",
 "If an evaluation returns a nonzero status code (with or without a value), no further evaluation is started, its value never becomes the best, never enters an average, the evaluation history or the saved file, however good it looks, and execution ends normally with the best of the successful evaluations.",
 ["fault_sequences", "histories"],
 "Every position of the failure (including inside re-evaluations and drift compensation) x value of the failed evaluation x status code x algorithm.",
 "No test returns a status code.",
 [CO, OA, DC, DS, GR, AD],
 [("status code clears the running flag", CO), ("record only for status 0", DC)],
 ["saved file", "final report", "FoM_list", "calls of the figure of merit"])

prop("C08", "Each search stops exactly when one of its own criteria is met",
 "A single direct search stops at the first check at which one of its configured criteria holds (number of evaluations, time since the search started, simplex size, spread of the values, change-based trend over the last evaluations) and not before, names the criterion that stopped it, and a later super-iteration starts with fresh counters, clock and history.",
 ["histories", "configurations"],
 "All answer sequences and evaluation durations up to the bound x thresholds of each criterion x search method x super-iterations.",
 "Each criterion is tried with one threshold in one long run, where stopping a few evaluations early or late, or for another reason, passes.",
 [SC, "stoppingcriteria/NelderMeadStoppingCriteria.py", "stoppingcriteria/CMAESStoppingCriteria.py", NM, CM, DC],
 [("criteria checked once per iteration or generation", "stoppingcriteria/NelderMeadStoppingCriteria.py"), ("change-based check after every evaluation", SC)],
 ["number of evaluations of each search", "terminate_reason"])

prop("C09", "Every control sent respects the configured limits",
 "In every evaluation, with the standard shaping, every pulse value lies within the pulse's amplitude limits (also when given in swapped order) and every parameter within its limits, for every basis, guess, scaling and limiting mode, and so do the saved and returned best controls. Cutting leaves values inside the limits untouched; shrinking preserves the pulse's shape (an affine image where it crosses a limit on either side).",
 ["inputs", "configurations", "histories"],
 "All coefficient vectors over an alphabet that spans inside/at/outside the limits x limits x guess x scaling x basis x cut/shrink, over several super-iterations.",
 "One test runs the shrink option; the violation shows only for particular combinations of guess, scaling and out-of-range coefficients.",
 [BP, "parameters/BaseParameter.py", CT],
 [("limit_pulse as last shaping step", BP), ("limit check of parameters", "parameters/BaseParameter.py")],
 ["arguments of the user's figure of merit"])

prop("C10", "Pulses are built as specified by the shaping options",
 "The pulse sent to the figure of merit equals the composition, in the configured order, of the chosen shaping steps: initial guess (function, list or Python file, itself limited), sum of the updates of earlier super-iterations, the current update in the basis, scaling (by a function of time, of time and pulse, a list or a file), and limiting. Its time grid is an equidistant grid from 0 to the pulse's time with the configured number of points.",
 ["configurations", "inputs", "programs"],
 "All ordered selections of the five shaping steps x guess kinds x scaling kinds x limits x values.",
 "Tests try two or three shaping configurations and only require the run to finish.",
 [BP, CT, "parameters/TimeParameter.py"],
 [("ordered list of shaping steps", BP)],
 ["arguments of the user's figure of merit", "Controls.get_controls_lists"])

prop("C11", "Each basis realizes its documented expansion",
 "For every coefficient vector, super-parameter set, number of basis vectors, time and number of points, the update built by each basis (Fourier, Chebyshev, Sinc, Sigmoid and its variants, Walsh, piecewise) equals the documented sum of basis functions, is finite, and the variants of the sigmoid basis with switched-off extra parameters agree with the sigmoid basis.",
 ["inputs", "configurations"],
 "All coefficient vectors over a small alphabet x super-parameter sets x 1-3 basis vectors x times x bin numbers x basis options.",
 "Only Fourier and piecewise are exercised by tests, and only through convergence.",
 ["pulses/basis/" + b + ".py" for b in ("Fourier", "Chebyshev", "Sinc", "Sigmoid", "SigmoidTimeDep", "SigmoidSigmas", "SigmoidAllParas", "Walsh", "PiecewiseBasis")],
 [("shaped pulse of each basis", "pulses/basis/Fourier.py")],
 ["BasePulse.get_bare_pulse"])

prop("C12", "Every control reads its own part of the search vector",
 "For every combination and order of pulses, bases, times and parameters, the search vector is partitioned among the controls without gap or overlap: changing one entry changes exactly one control, the start point, the initial variations and the names have the same order as the controls, each pulse uses the time it names, and the partition stays valid when the basis is redrawn in a new super-iteration.",
 ["configurations"],
 "All lists of up to three pulses (with different bases, bin numbers and basis sizes), up to two times and up to three parameters.",
 "Tests run four fixed combinations to completion without checking which entry drives which control.",
 [CT, BP, "parameters/BaseParameter.py"],
 [("index map built control by control", CT), ("index update after a basis redraw", CT)],
 ["Controls.get_controls_lists / get_mean_value / get_sigma_variation", "Optimizer runs"])

prop("C13", "Every super-iteration starts from the best controls found so far",
 "In dCRAB, the first controls evaluated in each super-iteration are exactly the best controls found until then, the update of every later evaluation is added to them, the super-parameters are redrawn for each super-iteration, one per equal sub-interval of the configured range, and at most the configured number of super-iterations is made. Without drift or noise the best value therefore never gets worse from one super-iteration to the next.",
 ["histories", "configurations"],
 "All answer sequences of each super-iteration x search method x basis x number of pulses and parameters x seeds.",
 "Tests check convergence only; restarting from a slightly wrong base still converges.",
 [DC, CT, BP, "pulses/superparameter/Uniform.py"],
 [("base controls updated with the best vector of the SI", DC), ("stratified draw", "pulses/superparameter/Uniform.py")],
 ["arguments of the user's figure of merit", "final report"])

prop("C14", "Nelder-Mead makes the textbook moves and returns its best point",
 "For every sequence of answers, the Nelder-Mead search (standard and adaptive) evaluates the points the published algorithm prescribes (reflection, expansion, outside and inside contraction, shrink, with its tie rules), as scipy's implementation does from the same simplex, until a criterion stops it, counts its evaluations correctly, and returns the best point it accepted with its value.",
 ["histories", "configurations"],
 "All answer sequences over an ordinal alphabet with ties up to the bound x dimension x standard/adaptive x start simplex.",
 "One test minimizes the Rosenbrock function; a wrong branch or tie rule still converges there.",
 [NM, "gradientfreemethods/DirectSearchMethod.py"],
 [("simplex moves", NM)],
 ["points at which the function passed to run_dsm is called", "result dictionary"])

prop("C15", "CMA-ES samples, ranks and recombines as specified",
 "For every sequence of answers, CMA-ES evaluates exactly the configured (or default) population per generation, its very first sample is the start point, later samples depend on the answers only through their ranking, the mean, step size and covariance follow the published update equations, and it returns the best point of its last generation with its value.",
 ["histories", "configurations"],
 "All rankings of a generation over several generations x dimension x population x sigma vector x seeds.",
 "One test minimizes a smooth function; errors in weights or paths only slow convergence.",
 [CM],
 [("generation loop", CM)],
 ["points at which the function passed to run_dsm is called", "result dictionary"])

prop("C16", "Re-evaluation follows the probability ladder and averages correctly",
 "With re-evaluation configured, controls are measured again as long as, after each measurement, the probability that their averaged value beats the current best reaches the next configured threshold; they become the new best exactly if the whole ladder was passed and the last threshold is exceeded after the last measurement. The recorded best value and deviation are the averages over all measurements of those controls, the search is given the average, the number of measurements never exceeds the number of thresholds plus one, and the first controls of the run need only one confirmation. A value that is not a number reaches no threshold, and no value affects the averages of other controls.",
 ["histories", "configurations"],
 "All sequences of measured values and deviations over an alphabet up to the bound x threshold lists x algorithm x direction.",
 "One noisy test run checks nothing about how often controls are measured or which average is recorded.",
 [DC, DS],
 [("ladder of thresholds", DC), ("running averages", DC)],
 ["calls of the figure of merit", "saved file", "FoM_list", "final report"])

prop("C17", "Drift compensation replaces the best value by a fresh measurement",
 "With drift compensation, the best controls are measured again the configured number of times after each super-iteration (if enabled) and, in Nelder-Mead, whenever the configured time has passed since the last compensation; the average becomes the best value in the report and the file, whether better or worse than before, the other simplex values are shifted by the same amount, and the simplex points stay the same. A compensation cut short by a stop, or one whose average is not a number, changes nothing but a genuine new best.",
 ["histories", "schedules"],
 "All answer sequences, evaluation durations and stop positions x compensation settings x averages x algorithm.",
 "One test runs it with a synthetic drift and checks that it ends.",
 [DC, DS, NM],
 [("re-measurement after SI", DC), ("periodic re-measurement and simplex shift", NM)],
 ["calls of the figure of merit", "saved file", "final report"])

prop("C18", "The same seed and settings give the same run",
 "With a random seed configured, two optimizations with the same settings and the same figure of merit send identical controls in identical order and report identical results, whatever the state of the global random generator, whatever ran before in the process, and whether the settings are the same dictionary object used again, a copy, or read back from the saved file; different seeds give different controls.",
 ["histories", "configurations"],
 "All settings over algorithm x search method x basis x seed, preceded by every sequence of up to two other runs.",
 "No test repeats a run; hidden global state needs a second run in the same process to show.",
 ["tools/randomgenerator.py", "pulses/superparameter/Uniform.py", "tools/linearalgebra.py", CM, DC, DS, GR, AD, "Optimizer.py"],
 [("seeded generator handed to basis, simplex and CMA-ES", DC)],
 ["sequence of controls sent", "final report"])

prop("C19", "Every optimization gets its own results folder",
 "Every optimizer creates its own results folder under the working directory, named with its start time and client name, and never writes into or overwrites the folder of another one: starts that would use the same name are refused, for every interleaving of concurrent starts and whether or not the common parent folder exists, and never corrupt the first one's results. With microsecond names, starts at different microseconds succeed.",
 ["schedules", "histories"],
 "All interleavings of the file-system steps of two starts in different processes/threads x existing/missing parent folder x equal/different times and names.",
 "Tests start optimizers one after the other, one per second.",
 [CO, BD],
 [("existence check, then creation", CO)],
 ["file system below the working directory"])

prop("C20", "A crash never loses or corrupts the best controls saved before",
 "If the process dies at any point, the best-controls file on disk is always complete and readable and holds either the last best saved before or the new best being saved; once a first best was saved it is never missing. The same holds for the final report.",
 ["crash_points", "histories"],
 "Every file-system operation, and every truncated write, of every save in a history of records x format.",
 "Tests never crash the process.",
 [BD, "utils/inputoutput.py"],
 [("write aside, then rename", BD)],
 ["files in the results folder after the crash"])

prop("C21", "The file exchange gives each evaluation its own answer",
 "With file-based evaluation, the value used for an evaluation is the one the user's program wrote after reading that evaluation's controls: an answer left over from before is never used, the user's program never sees half-written controls, and the controls it reads are exactly those of the evaluation. An answer that arrives at any time within the maximum waiting time is used (it is complete at the latest ten milliseconds after its file appears); if no answer arrives within that time (not earlier, and at most half a second later), or the answer is not readable, the evaluation fails with a nonzero status and the optimization ends normally.",
 ["schedules", "fault_sequences"],
 "All interleavings of the file operations and polls of optimizer and user program (slow, fast, stale, silent, unreadable answers) over several evaluations.",
 "No test uses file exchange.",
 ["utils/FilesUpdateFom.py", "utils/inputoutput.py", CO],
 [("remove old answer before writing controls", "utils/FilesUpdateFom.py"), ("poll with time-out", "utils/FilesUpdateFom.py")],
 ["controls file and FoM.txt", "status code", "final report"])

prop("C22", "Saved settings and results read back as what was used",
 "The settings saved in the results folder, the final report and the dumped dictionaries are valid files that read back equal to what was used, for every mixture of real numbers (plain and numpy scalars of every kind), lists, arrays, strings, booleans, nulls and nested dictionaries with string keys; functions and classes among the settings are replaced by null and never prevent saving. Reading a missing or malformed settings file yields nothing rather than wrong settings.",
 ["inputs", "configurations"],
 "All trees up to the bound over an alphabet of leaf types x containers x file kinds.",
 "One test dumps one dictionary.",
 ["utils/inputoutput.py", BD, CO],
 [("encoders", BD)],
 ["*_optimization_dictionary.json", "*_optimized_parameters.json", "readjson"])

prop("C23", "Settings select exactly the named component and honour its options",
 "Every documented name of algorithm, search method, basis and distribution selects that component, an explicitly given class or module wins in the documented order, unknown names never select a different component silently, missing optional settings take the documented default values, and every documented option given in the dictionary reaches the component it configures.",
 ["configurations"],
 "All names x ways of naming (attribute, module and class, name) x presence or absence of each optional setting.",
 "Tests use three of the names in one way each.",
 ["utils/dynamicimport.py", "utils/map_dictionary.json", "Optimizer.py", CT, DC, DS, "pulses/basis/ChoppedBasis.py"],
 [("name map", "utils/map_dictionary.json"), ("dynamic import", "utils/dynamicimport.py")],
 ["class of the objects created", "behaviour of a run with defaults vs explicit defaults"])

prop("C24", "Piecewise time evolution is the ordered product of slice propagators",
 "For every drift and set of control Hamiltonians, pulses, number of slices and step, the slice propagators are exp(-i dt (H0 + sum of u_k H_k)), the final propagator is their time-ordered product applied to the start operator, unitary for Hermitian Hamiltonians; drift, controls, pulses and start operator are left unchanged, and the differentiable versions give the same slice and final propagators.",
 ["inputs"],
 "All systems over an alphabet of small Hermitian matrices (dimension 2-4, non-commuting) x 0-3 controls x 0-4 and 40 slices x amplitudes x steps.",
 "Used only inside convergence tests with one Ising model.",
 ["timeevolution/piecewise_integrator.py", "timeevolution/piecewise_integrator_AD.py"],
 [("slice loop", "timeevolution/piecewise_integrator.py")],
 ["pw_evolution, pw_final_evolution, pw_final_evolution_AD"])

prop("C25", "Gradients used by GRAPE and AD match the figure of merit",
 "For every control vector, the gradient that the gradient-based algorithms use is the derivative of the figure of merit they minimize (for GRAPE: of the state-transfer overlap with one piecewise-constant control of at least two slices and unit scaling, to first order in the time step; for AD: exactly, for piecewise-constant controls and parameters), with the sign of the chosen direction and with each component belonging to its own slice, so that a small step against it improves the figure of merit.",
 ["inputs", "configurations"],
 "All control vectors over an amplitude alphabet for small systems x direction x initial guess (and scaling for AD) inside the limits x super-iterations.",
 "Two convergence tests on one Ising model each; a gradient with a wrong sign or scale on some slices still often converges.",
 [GR, AD, "optimalcontrolproblems/IsingModelProblem.py", "optimalcontrolproblems/IsingModelADProblem.py"],
 [("forward/backward propagation", GR), ("jax gradient", AD)],
 ["get_gradient vs finite differences of get_FoM"])

prop("C26", "Quantum and signal tools compute what they are named for",
 "The partial trace over any set of subsystems equals the textbook partial trace for every state and ordering of subsystems, fidelities agree with the textbook formula, lie in [0, 1] and are 1 for equal states, the matrix square root squares to its argument, displacement operators are unitary, pulse resampling takes the value of the nearest old grid point at every new time (the first and last value outside), orthonormalization keeps the spans of the leading columns, and the Ornstein-Uhlenbeck noise follows its recursion with the configured correlation time, strength and start, with one value for every full time step.",
 ["inputs", "configurations"],
 "All subsystem dimensions/positions up to three subsystems, states over a small alphabet, noise settings and seeds.",
 "None of these tools has a test.",
 ["tools/partial_trace.py", "tools/fidelities.py", "tools/operations.py", "tools/pulsetools.py", "noiseprocesses/ornsteinuhlenbeckprocess.py", "tools/linearalgebra.py"],
 [("transpose mask", "tools/partial_trace.py")],
 ["return values of the tools"])

prop("C27", "Clients are told about every evaluation once, in order",
 "For every run, the client is sent one start message, then for every evaluation first the controls being evaluated, before the figure of merit is called with the same controls, and after it the evaluation number and value; evaluation numbers count up from 1 without gaps, the evaluation history kept by the algorithm lists exactly the successful evaluations with number and value in the user's sign, and nothing is sent for an evaluation that failed or was not made.",
 ["histories", "configurations"],
 "All answer, failure and stop sequences x algorithm x presence of signals.",
 "No test connects signals.",
 [CO, OA, DC, DS, GR, AD],
 [("controls signal before, value signal after the evaluation", CO)],
 ["comm_signals_list", "FoM_list / iteration_number_list"])

prop("C28", "The start simplex is centred, scaled and never degenerate",
 "For every start vector, nonzero variation vector, dimension and random draw (that does not make the raw directions dependent to rounding), the start simplex has its first vertex at the start point and its other vertices displaced from it by an orthonormal set of directions rescaled component-wise by the variations, so that it is never degenerate; the inputs are left unchanged.",
 ["inputs"],
 "All dimensions 1-6 x start and variation vectors over an alphabet x grid of random draws including the extremes.",
 "No test looks at the simplex.",
 ["tools/linearalgebra.py"],
 [("Gram-Schmidt of a randomly perturbed identity", "tools/linearalgebra.py")],
 ["simplex_creation", "first evaluations of a Nelder-Mead run"])

prop("C29", "Optimizations alive at the same time do not influence each other",
 "Two or more seeded optimizations in one process, whether nested, interleaved in different threads evaluation by evaluation, or created together and executed in any order, each send the same controls and produce the same results, saved files and stop reasons as when run alone; stopping or failing one does not affect the others.",
 ["schedules", "configurations"],
 "All interleavings at evaluation granularity of two runs up to the bound x algorithm pairs x stop/failure of one of them.",
 "Tests run one optimizer at a time in their own process state.",
 [OA, CO, DC, DS, NM, CM, "tools/randomgenerator.py", "handleexit/HandleExit.py"],
 [("all run state held in per-run objects", OA)],
 ["controls sent, reports and files of each run"])

prop("C30", "The log tells what happened in its own optimization, and nothing else",
 "There is a log file in the results folder exactly if it is asked for, and messages of the optimization appear in the console exactly if console information is asked for (only errors otherwise); where both are asked for, both tell the same story. At every moment the log lists all evaluations made so far, in order, each with its number and its value in the user's own sign (under re-evaluation: the average of the repeated measurements so far), every failed evaluation with its status, and, without re-evaluation and drift compensation, every new record with the previous and new best value. At the end it has the end of every dCRAB super-iteration with the best value so far, and the figure of merit, counts and stop reasons of the final report. It never contains evaluations, records or results of another optimization of the process, in whatever order they are created and executed, nested or interleaved in threads.",
 ["inputs", "schedules", "configurations"],
 "All answer sequences over an alphabet with failures and user stops x algorithms, searches, directions x log and console switches, checked before every evaluation; pairs and triples of optimizations in every execution order, nesting point and interleaving up to the bound.",
 "No test reads a log; one checks that the file is missing when switched off.",
 ["tools/logger.py", CO, OA, DC, DS, GR, AD],
 [("one logger with its own handlers per optimization", "tools/logger.py"), ("messages of evaluations and final results", CO)],
 ["*_logging.log in the results folder", "standard output"])

prop("C31", "The bundled problems give their textbook figure of merit, regardless of history",
 "The figure of merit of each bundled problem is the one of the controls it is given, whatever was evaluated before: one qubit (infidelity of the state after the piecewise constant drive with both detunings, the first parameter replacing the first detuning, the linear drift counted in evaluations, multiplied by the chosen sign), one qubit with amplitude and phase, the periodic Ising chain with nearest and next-nearest couplings (fidelity with all spins flipped; negative for minimization; the propagators it returns are those of the controls), its differentiable version, and the Rosenbrock function. The values they record are those they returned. In a GRAPE or dCRAB run stopped by any limit, every value is that of the controls of its evaluation, also when the user evaluates controls afterwards, in any order.",
 ["histories", "inputs"],
 "All sequences (length 2-4) of evaluations and propagator requests over a pool of controls x settings of the problems, against independently computed references; runs with every limit of a list, followed by all orders of user evaluations.",
 "Tests run one optimization and look at its end at most.",
 ["optimalcontrolproblems/OneQubitProblem.py", "optimalcontrolproblems/OneQubitProblem_2fields.py", "optimalcontrolproblems/IsingModelProblem.py",
  "optimalcontrolproblems/IsingModelADProblem.py", "optimalcontrolproblems/RosenbrockProblem.py", "timeevolution/piecewise_integrator.py"],
 [("propagators computed for the gradient are used for the value of the same controls only", "optimalcontrolproblems/IsingModelProblem.py")],
 ["get_FoM", "get_propagator", "FoM_list"])

prop("C32", "What is shared with the user is never a way into the optimization",
 "Pulses, time grids and parameters handed to the user's figure of merit, to his propagator function and to the interface are his: whatever he does with them in place (values, lists, in any or all evaluations) changes neither the controls evaluated later, nor the saved best controls, the reported values, the best controls at the end, the stop. The same holds for guess and scaling functions that work in place on the time grid and the pulse, for the settings dictionary (and arrays in it) after the optimizer was created from it, and for the answers: a dictionary, list or array the user reuses, empties or fills again gives the same optimization as fresh ones. A settings dictionary that already served for an optimizer, executed or not, and in which the user then sets an entry, gives the same run as a fresh one with that entry. Best controls and bare pulses that were returned can be changed without effect on those returned later. In the other direction, arrays and lists the user keeps are never changed by the optimization.",
 ["histories", "inputs"],
 "All (kind of in-place change) x (each single evaluation or all) for every algorithm, search method, drift compensation and re-evaluation setting, each compared with the run in which the user changes nothing.",
 "Figures of merit of the tests only read their arguments, and no test looks at more than the end of a run.",
 [CO, "pulses/BasePulse.py", "Controls.py", "Optimizer.py", OA, DC, DS, GR, AD, "utils/BestDump.py"],
 [("the user gets copies of the controls", CO), ("guess and scaling get a copy of the time grid", "pulses/BasePulse.py")],
 ["arguments of get_FoM", "best-controls file", "get_best_controls", "signals to the interface"])

prop("C33", "A user's exception ends the run there and costs nothing that was saved",
 "If the user's figure of merit, propagator, guess or scaling function raises an exception of any kind at any call, this very exception reaches the caller of execute(), none of the user's evaluations is called after it, no value is invented for the failed call, and the best-controls file is complete and holds the best evaluation made before. The same holds for an answer from which no value can be taken (nothing, no figure of merit, text, several values, a complex value): it is never accepted. Afterwards the process can go on: a further optimization with the same settings is the same as one in a process without exceptions.",
 ["inputs", "faults", "histories"],
 "Every call of the user's code of a run x 23 kinds of exceptions, 10 kinds of unusable answers, for every algorithm, search method, drift compensation and re-evaluation; each followed by a further optimization.",
 "No test lets the user's code raise.",
 [OA, CO, DC, DS, GR, AD, NM, CM, "pulses/BasePulse.py", "Optimizer.py"],
 [("the user's function is called without any handler around it", CO)],
 ["exception leaving execute()", "best-controls file", "controls of the further optimization"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
