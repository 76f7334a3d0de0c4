#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
SOLV = ["rkstiff/etd34.py", "rkstiff/etd35.py", "rkstiff/if34.py", "rkstiff/if45dp.py",
        "rkstiff/etd4.py", "rkstiff/etd5.py", "rkstiff/if4.py"]
BASE = ["rkstiff/solver.py", "rkstiff/solveras.py", "rkstiff/solvercs.py"]
FSAL = ("cached first-stage nonlinear value", "N(u) of the state the next step starts from (first-same-as-last)", "every solver's strategy object")
COEF = ("cached coefficients", "exponentials and psi-weights for the step size they were computed for", "every solver's _update_coeffs")
ACC = ("acceptance flag", "whether the previous attempt was accepted, i.e. which cached stage is valid", "rkstiff/solveras.py")

prop("C01", "A fresh integration carries nothing over from earlier use of the solver",
 "After any history of completed, failed or interrupted step and evolve calls on a solver object, calling evolve (or reset and then step) gives the same times, states, suggested steps and stored history as a newly constructed solver with the same operator, nonlinear function and settings. This holds wherever in the earlier work an exception, interrupt, failed allocation or non-finite value struck.",
 ["histories", "crash_points", "fault_sequences", "configurations"],
 "All seven solvers in every operator form, all settings; every sequence of earlier evolve/step/reset calls, each possibly cut short at any point by an exception from the nonlinear function, an interrupt or allocation failure at any line, or NaN/inf values; then any new integration.",
 "Tests reset a solver at most once after an orderly run; they never interrupt one, and cannot range over where in a run the failure lands or what was cached at that moment.",
 BASE + SOLV, [("reset() clears time, history, caches and the acceptance flag", "rkstiff/solveras.py reset / rkstiff/solvercs.py reset"), ("_reset() of every solver", "rkstiff/etd35.py _reset and siblings")],
 [FSAL, COEF, ACC], ["evolve return value", "solver.t", "solver.u", "step return values"])

prop("C02", "Every step equals the solver's one-step map applied to its input state",
 "In any chain of steps, each state returned for a step of size h equals the solver's Runge-Kutta scheme applied once to the input state with exactly that h, up to rounding, whatever step sizes, rejected attempts, resets and evolve calls came before. Coefficients or nonlinear evaluations kept from another step size or attempt never enter a step they do not belong to.",
 ["histories", "inputs", "configurations"],
 "All solvers and operator forms; every sequence of step sizes (repeated, alternating, nearly equal, tiny, huge), every pattern of acceptance and rejection, resets and evolve calls in between; real, complex, zero, small, stiff and oscillatory operators.",
 "Tests check convergence orders and a few fixed chains; the caches are history-dependent and a stale coefficient or stage after one particular sequence of step sizes and rejections is invisible to them.",
 BASE + SOLV + ["rkstiff/etd.py"], [("coefficient cache keyed by h", "every solver's _update_coeffs"), ("first-same-as-last stage reuse keyed by acceptance", "update_stages in every strategy")],
 [FSAL, COEF, ACC], ["step return values", "solver.t", "solver.u"])

prop("C03", "A step that raises leaves the solver as if it had not been attempted",
 "If a step raises - because the nonlinear function raised, memory ran out, an interrupt arrived, a floating-point trap fired, or no acceptable step size was found - then repeating it from the same state with the same or another step size, and continuing from there, gives what the solver would have given had the failed call never been made.",
 ["crash_points", "fault_sequences", "histories"],
 "All solvers and forms; a failure at any line of step() or in any call of the nonlinear function, one or several times in a chain, then a retry with the same or a different step size.",
 "Tests never make a step fail part-way and go on; the failure point decides which cached stage and which half-updated coefficients survive.",
 BASE + SOLV, [("what a failed step leaves in the caches", "rkstiff/solveras.py step, rkstiff/solvercs.py step"), ("coefficient cache keyed by h", "every solver's _update_coeffs")],
 [FSAL, COEF, ACC], ["step return values after the retry"])

prop("C04", "Adaptive steps are accepted only within tolerance and resized within bounds",
 "An adaptive step accepts an attempt exactly when its state is finite and its embedded error estimate, over the solution components above the configured cutoff fraction of the largest, meets the configured tolerance and safety factor. A rejected attempt multiplies the step by the control factor, limited to between one quarter and the configured reduction factor (one quarter if the result is not finite). The step suggested next is the accepted step itself, or, when the control factor, itself limited to at most four, exceeds the configured growth threshold, that limited factor times it. Settings changed between steps govern the next step.",
 ["histories", "configurations", "fault_sequences"],
 "All adaptive solvers and forms, all valid settings, all states and step sizes, all sequences of rejections including those provoked by NaN, inf or huge nonlinear values at any call, and settings changed at any point between steps.",
 "Tests feed the controller a handful of mock error values and check loose inequalities; they do not tie acceptance to the real error estimate of the real scheme over arbitrary rejection histories.",
 ["rkstiff/solveras.py", "rkstiff/etd34.py", "rkstiff/etd35.py", "rkstiff/if34.py", "rkstiff/if45dp.py"],
 [("step-size factor from the error estimate", "rkstiff/solveras.py _compute_s"), ("rejection and acceptance rules", "rkstiff/solveras.py _reject_step_size, _accept_step_size"), ("embedded error estimates", "update_stages in the adaptive strategies")],
 [("config", "tolerance, safety, growth and reduction factors, cutoff", "rkstiff/solveras.py SolverConfig")], ["step return values", "calls of the nonlinear function"])

prop("C05", "Adaptive stepping always ends, and succeeds whenever an acceptable step exists",
 "Every adaptive step ends after at most 51 attempts, either accepted or with one of the solver's own errors, and such an error is raised only when unacceptable error estimates really have driven the step below the configured minimum or used up the attempts. A solution with no error at all (zero or constant nonlinear term, zero or equilibrium state) integrates to the end, and once a nonlinear function that returned NaN or inf, or raised, behaves again, at most one more step fails before steps succeed.",
 ["fault_sequences", "histories", "configurations", "inputs"],
 "All adaptive solvers and forms, all valid settings; degenerate problems, states and step sizes; NaN/inf/huge/raising nonlinear values at any subset of calls for any length of time.",
 "Tests use a mock with a constant error; they never run a problem with zero error, a zero state, or a nonlinear function that fails for a while and recovers.",
 ["rkstiff/solveras.py", "rkstiff/etd34.py", "rkstiff/etd35.py", "rkstiff/if34.py", "rkstiff/if45dp.py"],
 [("attempt limit and minimum step", "rkstiff/solveras.py step"), ("handling of nan/inf control factors", "rkstiff/solveras.py step, _compute_s, _reject_step_size")],
 [ACC], ["step outcome", "evolve outcome", "number of nonlinear evaluations"])

prop("C06", "Adaptive evolve covers exactly the requested interval, in step with its states",
 "Adaptive evolve starts at t0, advances time strictly and by exactly the size of each accepted step, never steps past tf and ends at tf to within rounding, for any interval (negative, far from zero, ending at zero), any initial step and any number of steps. The state stored at each time is the one reached by exactly those steps, each step starting from the size last suggested, shortened only to end at tf.",
 ["histories", "inputs", "configurations"],
 "All adaptive solvers, intervals, initial steps (absent, tiny, larger than the interval), rejection patterns and run lengths beyond 100 steps.",
 "Tests integrate a few intervals starting at 0; the end-of-interval logic and the progress reporting depend on rounding of accumulated times and on step counts no test reaches.",
 ["rkstiff/solveras.py"], [("time accumulation and last-step clipping", "rkstiff/solveras.py evolve"), ("progress reporting every 100 steps", "rkstiff/solveras.py evolve")],
 [("current time", "start plus the sum of accepted steps", "rkstiff/solveras.py evolve")], ["solver.t", "solver.u", "evolve return value", "step calls made by evolve"])

prop("C07", "Constant-step evolve visits t0, t0+h, ... and stops when it reaches tf",
 "Constant-step evolve produces states at t0, t0+h, t0+2h, ... and stops at the first of these that reaches tf: when h divides the interval (up to rounding) exactly (tf-t0)/h steps are taken and the last is at tf, otherwise the end lies less than one step beyond tf. A step size that is not positive, or that exceeds the interval, is refused instead of being integrated or looped on.",
 ["histories", "inputs", "configurations"],
 "All constant-step solvers, intervals (negative, far from zero, ending at zero), step sizes that divide the interval or not, and step counts from one to thousands.",
 "Tests use a few (t0, tf, h) triples; whether the accumulated time reaches tf in the right number of steps depends on rounding for each triple.",
 ["rkstiff/solvercs.py"], [("loop condition on accumulated time", "rkstiff/solvercs.py evolve"), ("step-size validation", "rkstiff/solvercs.py evolve")],
 [("current time", "start plus the number of steps times h", "rkstiff/solvercs.py evolve")], ["solver.t", "solver.u", "evolve return value"])

prop("C08", "Stored history is every store_freq-th step, and a true prefix after a failure",
 "The times and states stored by evolve are the start point and every store_freq-th step, in order and as matching pairs, and whether or how often data is stored never changes the trajectory or the returned state. If evolve fails part-way, what is stored is a prefix of what the undisturbed run would have stored, and holds the start point and every store_freq-th of the steps completed before the failure.",
 ["histories", "crash_points", "configurations"],
 "All solvers; all storing options and frequencies (including larger than the number of steps); failures from the nonlinear function or an interrupt at any point of the run.",
 "Tests look at lengths for one or two frequencies with a mock and never at what remains after a failure.",
 ["rkstiff/solveras.py", "rkstiff/solvercs.py"], [("append on step_count % store_freq", "rkstiff/solveras.py evolve, rkstiff/solvercs.py evolve")],
 [("solver.t, solver.u", "stored history", "rkstiff/solver.py")], ["solver.t", "solver.u", "evolve return value"])

prop("C09", "Restarting from a checkpoint reproduces the rest of the uninterrupted run",
 "If a run is lost at any point and only its checkpoints survive, a new solver started from a stored (time, state) of a constant-step run, or from the state and suggested step returned by an adaptive step, reproduces the remaining times, states and suggested steps of the uninterrupted run.",
 ["crash_points", "histories", "fault_sequences"],
 "All solvers and forms; crashes at any line or nonlinear call, any number of times in one run, any checkpoint interval.",
 "No test splits a run; the equivalence needs every cached quantity to be a function of the state and step size alone, for every cut.",
 BASE + SOLV, [("caches are functions of (state, step size) only", "every solver's _update_stages")], [FSAL, COEF, ACC], ["solver.t", "solver.u", "step return values"])

prop("C10", "Solvers used at the same time do not influence each other",
 "Several solvers used at once - interleaved call by call, run from different threads under any interleaving, or nested inside one another's nonlinear function - each give the results they give alone. Changing the settings of one solver has no effect on any other unless the caller gave both the same settings object.",
 ["schedules", "histories", "configurations"],
 "Any set of solver objects, of the same or different classes, sharing operators, nonlinear functions and step sizes or not; every interleaving of their calls down to single lines; settings changed on any of them at any time.",
 "Tests use one solver at a time; a shared default, cache or buffer shows only when two live solvers with different problems alternate in a particular order.",
 BASE + SOLV + ["rkstiff/etd.py"], [("all working state is per instance", "constructors of solvers and strategies"), ("settings objects are per solver unless given", "constructors")],
 [("module or class level state", "default settings, loggers, any shared buffer", "rkstiff/*.py")], ["evolve and step results of every solver", "solver.config"])

prop("C11", "Diagonal, full-matrix and eigen-decomposed operators give the same steps",
 "One linear operator given as a vector of diagonal entries, as the equivalent full matrix, or as a full matrix to be eigen-decomposed leads to the same accepted steps, suggested step sizes and states up to rounding, through any history of acceptances and rejections. For full-matrix ETD this holds while the configured contour encloses the spectrum of h times the operator.",
 ["histories", "configurations", "inputs"],
 "All solvers offering more than one form; diagonal and dense, symmetric and non-normal, real and complex operators; all step-size histories and settings.",
 "Tests exercise each form separately on one or two problems and never compare the forms step by step through rejections.",
 SOLV, [("three implementations of each scheme", "diagonal, diagonalized and full-matrix strategies"), ("error estimate in solution coordinates", "update_stages of the diagonalized strategies")],
 [FSAL, COEF], ["step return values of solvers run in lockstep"])

prop("C12", "Logging never changes results, never raises, and writes each event once",
 "Log levels, failing, full or slow log sinks, and clock jumps change no numerical result and raise nothing out of a solver. However many solvers of a class are created, in whatever thread interleaving, each logged event reaches the library's log handler exactly once and only if its level is enabled; which events a solver reports depends on its own work alone, not on what was reported or created before; and an invalid level is refused leaving the level in force.",
 ["schedules", "fault_sequences", "configurations"],
 "All solvers and log levels (names and numbers), level changes during runs, sinks that raise I/O errors on any write, wall-clock jumps, concurrent construction under every line interleaving, runs of any length.",
 "Tests create loggers one after another in one thread with a working stream; the check-then-add of the handler and the reporting code on long runs depend on schedules and inputs they do not reach.",
 ["rkstiff/util/loghelper.py", "rkstiff/solver.py", "rkstiff/solveras.py", "rkstiff/solvercs.py"],
 [("handler added only if none", "rkstiff/util/loghelper.py setup_logger"), ("level parsing", "rkstiff/util/loghelper.py")],
 [("per-class logger", "level and handler list", "logging module registry")], ["records written to the sink", "results at each level"])

prop("C13", "A Hankel transform is always consistent with its reported size and radius",
 "After any sequence of changes to the number of points or the radius of a Hankel transform - accepted, refused, or cut short by a failed allocation, interrupt or special-function error - its grids, matrix, forward and inverse transforms are exactly those of a new transform built with the size and radius it now reports, which are those last set successfully. Matrices and transforms handed out earlier are unaffected by later changes, and other transforms in use at the same time are unaffected too.",
 ["histories", "crash_points", "fault_sequences", "schedules"],
 "All sequences of set-size, set-radius, transform and read operations with valid and invalid arguments, a failure at any line of any of them, on one or several interleaved objects.",
 "Tests change one parameter once and look at shapes; none fails half-way through a change.",
 ["rkstiff/transforms.py", "rkstiff/grids.py"], [("setters rebuild grids and matrix", "rkstiff/transforms.py _setnr_setrmax, _sethankelmatrix"), ("copies returned by accessors", "rkstiff/transforms.py hankel_matrix, bessel_zeros")],
 [("grids and matrix", "derived from (nr, rmax); must change together", "rkstiff/transforms.py")], ["nr, rmax, r, kr", "ht, iht, hankel_matrix, bessel_zeros"])

prop("C14", "Data given to or handed out by a solver never changes behind the caller's back",
 "Solvers never modify the initial state, the operator, or the arrays returned by the nonlinear function. States they have returned or stored, and the history lists of earlier integrations, never change because of later steps, integrations, resets or failures, and each stored state is its own array. Transforms, grid functions, derivatives and model operators likewise leave their arguments and their earlier results unchanged.",
 ["histories", "fault_sequences", "inputs"],
 "All solvers and forms, the Hankel transform, the grid, derivative and model functions; nonlinear functions that return constants or memoised arrays; arguments of any layout and kind; any sequence of later operations including failing ones; the caller holding on to every array and list ever handed out.",
 "Tests look at a result right after the call that made it and do not keep earlier results across later use.",
 BASE + SOLV + ["rkstiff/transforms.py", "rkstiff/grids.py", "rkstiff/derivatives.py", "rkstiff/models.py"], [("stage arrays are rebound, not written in place", "update_stages in every strategy"), ("history lists are replaced, not cleared", "reset in rkstiff/solveras.py and rkstiff/solvercs.py")],
 [FSAL], ["all arrays given and handed out", "solver.t", "solver.u"])

prop("C15", "The shipped model operators are stateless and re-entrant",
 "The operators built by the Korteweg-de Vries, Burgers and Allen-Cahn helpers, the soliton profiles and the spectral derivative functions return the value defined for their argument, independent of earlier or concurrent calls under any interleaving, and change neither their arguments nor values they returned before. Operators built for different grids or parameters are independent of one another.",
 ["schedules", "histories", "inputs"],
 "All interleavings, down to single lines, of calls to one or several operators with different arguments, grids and parameters, keeping every result.",
 "Tests call each helper once or twice in sequence; shared scratch state or captured variables show only when calls overlap or results are kept.",
 ["rkstiff/models.py", "rkstiff/derivatives.py"], [("closures capture only constants", "rkstiff/models.py"), ("results are new arrays", "rkstiff/models.py, rkstiff/derivatives.py")], [], ["return values", "arguments after the call"])

prop("C16", "Settings objects only ever hold valid values, and take effect where they should",
 "Through any sequence of assignments, a solver or ETD settings object only holds values satisfying its documented constraints (NaN satisfies none); a refused assignment raises and leaves every setting unchanged; settings never given hold their documented defaults. A solver uses the values its settings hold at the time of each step or coefficient computation, so a refused assignment in mid-run leaves the run unchanged.",
 ["histories", "fault_sequences", "configurations"],
 "All sequences of valid and invalid assignments (wrong sign, boundary, NaN, inf, wrong type) before, between and during steps - including from inside the nonlinear function - for both settings classes.",
 "Tests try single bad values at construction time; they do not interleave refused assignments with a running integration or try non-finite values.",
 ["rkstiff/solveras.py", "rkstiff/etd.py"], [("validating property setters", "rkstiff/solveras.py SolverConfig, rkstiff/etd.py ETDConfig")],
 [("settings values", "tolerances, factors, contour settings", "rkstiff/solveras.py, rkstiff/etd.py")], ["settings attributes", "step results"])

prop("C17", "A failure inside a call reaches the caller as it is",
 "An exception raised inside a call of the library - by the caller's nonlinear function, by a numerical kernel, a failed allocation or an interrupt, at any point - ends that call and reaches the caller as the very same exception. It is never swallowed, turned into a result, a rejected step or a retry, or replaced by another error, whatever its type (also when it is the error of another solver used inside the nonlinear function), and the nonlinear function is not called again after it. This holds for solver construction, step and evolve, Hankel transforms, grids, derivatives, model operators and settings.",
 ["crash_points", "fault_sequences", "histories"],
 "All solvers and forms and all other public functions; one exception of any type at any call of the nonlinear function or of a kernel, or at any point where an interrupt can be delivered, after any history.",
 "Tests never raise inside a call; which exception types a handler somewhere in the call chain would catch, and at which point, is invisible to them.",
 BASE + SOLV + ["rkstiff/transforms.py", "rkstiff/grids.py", "rkstiff/derivatives.py", "rkstiff/models.py"],
 [("cleanup after a failed step re-raises", "rkstiff/solveras.py step, rkstiff/solvercs.py step"), ("no other exception handlers in the package", "rkstiff/")],
 [], ["exception seen by the caller", "calls of the nonlinear function"])

prop("C18", "A copied or saved and restored solver continues exactly like the original",
 "A solver, with its settings and stored history, or a Hankel transform, that is copied with copy.deepcopy or saved and restored with pickle between any two calls (given a nonlinear function that can be copied) holds the same history and settings as the original and from there on returns the same states, times, suggested steps and transforms as an object with the same past that was never copied; and nothing done to the original or to the copy afterwards affects the other.",
 ["histories", "crash_points", "schedules", "fault_sequences"],
 "All solvers, forms and settings; any history of steps, integrations, resets, settings changes and failures before the snapshot; any continuation of both, in any interleaving; repeated snapshots.",
 "Tests never copy or save a solver; state kept outside the object, or keyed by the identity of something in it, or shared between copies, shows only when a copy and its original go on after a particular history.",
 BASE + SOLV + ["rkstiff/etd.py", "rkstiff/transforms.py"], [("all working state is held in plain attributes of the object", "constructors of solvers and strategies")],
 [FSAL, COEF, ACC], ["step and evolve results of original and copy", "solver.t", "solver.u", "solver.config"])

prop("C19", "Memory in use does not grow with the work done",
 "However many steps, rejected or failing attempts, resets and integrations a solver has made, whatever the step sizes, it holds no more memory than after the first few, apart from the history the user asked evolve to store; each integration's history replaces the last one; and solvers, transforms, grids, operators and models that the program has dropped are freed.",
 ["histories", "fault_sequences", "configurations"],
 "All solvers, forms and settings; arbitrarily long runs with fixed, changing and ever new step sizes, rejections, failures inside attempts and resets; repeated integrations; repeated construction, use and dropping of every kind of object.",
 "Tests make tens of steps on short-lived objects; a table of coefficients per step size, a registry of solvers or a log of attempts only shows as growth over a long history.",
 BASE + SOLV + ["rkstiff/etd.py", "rkstiff/transforms.py", "rkstiff/util/loghelper.py"], [("coefficients are kept for the latest step size only", "_update_coeffs of every solver"), ("reset() empties the history", "rkstiff/solveras.py, rkstiff/solvercs.py reset")],
 [COEF, FSAL, ("history", "stored times and states", "solver.t, solver.u")], ["memory of the process", "solver.t", "solver.u"])

prop("C20", "A scheme of the user's own is driven by the documented rules",
 "For any subclass of the adaptive or constant-step base class that provides the documented hooks, whatever sequence of states, error estimates, non-finite values and exceptions its hooks return: every attempt is handed the state accepted last and the step size due; the driver accepts, rejects, resizes and gives up by the documented rules with the subclass's own order and limits; accepted states are returned, passed on and stored as they came, at the times their sizes add up to; the acceptance flag tells the hook whether its previous attempt stands, and _reset is called by reset, at the start of evolve and after every failure and never while the flag stands; an exception of the hook reaches the caller.",
 ["histories", "fault_sequences", "crash_points", "configurations"],
 "All sequences of hook answers (any control factor, NaN or infinity in state or estimate, zero states and errors, exceptions of any type), all settings and limits, any order, any sequence of step, evolve, reset and settings calls, interrupts at any point of the drivers.",
 "Tests drive a few hand-written schemes through one or two attempts; the bookkeeping of retries, limits, flags and times over arbitrary sequences of answers is a large product no list of examples covers, and the built-in schemes reach only a part of it.",
 BASE, [("attempt loop", "rkstiff/solveras.py step"), ("evolution loops", "rkstiff/solveras.py evolve, rkstiff/solvercs.py evolve")],
 [ACC], ["arguments of _update_stages and calls of _reset", "step and evolve results", "solver.t", "solver.u"])

prop("C21", "Using the library changes nothing outside it",
 "Whatever is done with the library - importing it, construction, steps, integrations, transforms, grids, derivatives, models, settings, log levels, from any thread, whether the call succeeds, is refused, fails or is interrupted at any point - the process around it is left as it was: NumPy's error handling, print options and random state, Python's random state, warning filters, loggers other than the library's own, standard output, signal handlers, interpreter limits and hooks, environment, threads, open files and working directory; no file is written, no process started and no connection opened. The caller's nonlinear function runs under the error handling and warning filters the caller chose.",
 ["histories", "fault_sequences", "crash_points", "schedules", "configurations"],
 "All sequences of calls with valid and refused arguments, a failure or interrupt at any point of any call, several threads under any interleaving each with its own error handling, any settings of the surrounding program.",
 "Tests run the library alone in a process whose settings nobody looks at; a setting restored on the normal path but not after a failure, or visible to other threads meanwhile, passes all of them.",
 BASE + SOLV + ["rkstiff/__init__.py", "rkstiff/util/loghelper.py", "rkstiff/transforms.py", "rkstiff/grids.py", "rkstiff/derivatives.py", "rkstiff/models.py"],
 [("no process-wide settings are used; logging only through the library's own loggers", "rkstiff/__init__.py, rkstiff/util/loghelper.py, rkstiff/solver.py")],
 [("process-wide state", "read by every other part of the program", "numpy, warnings, logging, sys")],
 ["np.geterr and warning filters inside the nonlinear function", "process-wide settings before and after each call", "standard output", "the interpreter's audit events"])

prop("C22", "The same calls give the same results wherever and whenever they are made",
 "A sequence of calls - construction, steps, integrations, transforms, grids, derivatives, models - with the same arguments gives the same results, and the same refusals, in any process: whatever the clocks say and however they jump or stand still, whatever the state of the random generators, floating-point error handling that does not raise, warning filters, print options, buffer sizes, garbage collection, environment variables, working directory, process number, number of processors, thread, stack depth or state of standard output, at any log level, and however often it is repeated. It makes no difference whether numbers are given as Python or NumPy floats or as integers of the same value, or whether arrays may be written to.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "All sequences of calls on all solvers, forms, settings, transforms, grids, derivatives and models; any behaviour of the clocks (frozen, slow, leaping, running backwards), any surroundings, garbage collection at any point.",
 "Tests run in one process at full speed with a well-behaved clock: a time budget, a randomised contour, a shortcut chosen by environment or processor count passes all of them and then depends on the machine.",
 BASE + SOLV + ["rkstiff/etd.py", "rkstiff/transforms.py", "rkstiff/grids.py", "rkstiff/derivatives.py", "rkstiff/models.py"],
 [("no clock, random number or environment variable is read; results are functions of the arguments and the object's past", "rkstiff/solveras.py, rkstiff/solvercs.py, rkstiff/etd.py")],
 [("surroundings", "clocks, random state, environment, handling of floating-point errors", "time, random, os, numpy")],
 ["results of every call", "solver.t", "solver.u"])

# ---- pure functions: not claimed (see MANIFEST not_applicable) -------------
prop("N01", "Each solver converges at its stated order",
 "For smooth problems the global error of every solver decreases at its stated order as the step size goes to zero, for non-stiff and stiff operators.",
 ["inputs"], "All smooth problems and step-size sequences.", "Tests measure slopes on three problems.",
 SOLV, [("scheme coefficients", "update_coeffs in every strategy")])
prop("N02", "The psi functions are accurate for every argument",
 "The psi functions used by the ETD solvers, by direct evaluation or contour integration as selected, agree with their defining integrals to near working precision for every real or complex argument.",
 ["inputs"], "All arguments and contour settings.", "Tests compare at a few points.",
 ["rkstiff/etd.py"], [("direct formulae and contour means", "rkstiff/etd.py psi1..psi3 and update_coeffs")])
prop("N03", "Spectral derivatives are exact on resolved functions",
 "The Fourier and Chebyshev derivative functions return the exact derivative, to rounding, of every function resolved by the grid, for every derivative order, size and interval.",
 ["inputs"], "All resolved functions, sizes, intervals and orders.", "Tests use a few functions.",
 ["rkstiff/derivatives.py", "rkstiff/grids.py"], [("multiplication by (ik)^n; powers of D", "rkstiff/derivatives.py")])
prop("N04", "Grids have exactly the requested number of points on the requested interval",
 "Every grid constructor returns exactly the requested number of points, inside the requested interval and matched to its wavenumbers, for every valid size and interval.",
 ["inputs"], "All sizes and interval endpoints.", "Tests use a few intervals; the number of points can depend on rounding of the spacing.",
 ["rkstiff/grids.py"], [("uniform spacing", "rkstiff/grids.py construct_x_kx_rfft, construct_x_kx_fft")])
prop("N05", "The Hankel transform approximates the continuous transform and inverts itself",
 "For functions resolved by the grid the discrete Hankel transform agrees with the continuous order-zero transform, and the inverse undoes the forward transform.",
 ["inputs"], "All resolved functions, sizes and radii.", "Tests use Gaussians.",
 ["rkstiff/transforms.py"], [("transform matrix", "rkstiff/transforms.py _sethankelmatrix")])
prop("N06", "The model operators discretise the stated equations",
 "The model operators make the semi-discrete system equal to the stated partial differential equation on resolved functions, and the soliton profiles solve the Korteweg-de Vries equation.",
 ["inputs"], "All parameters and resolved profiles.", "Tests check one soliton and shapes.",
 ["rkstiff/models.py"], [("operator definitions", "rkstiff/models.py")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
