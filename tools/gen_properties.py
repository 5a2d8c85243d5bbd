#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

QP, NL, ST = "source/qp.cc", "source/nonlinear.cc", "source/structs.cc"
HQ, HN, HR, HS = ("include/mini_opt/%s.hpp" % n for n in ("qp", "nonlinear", "residual", "structs"))
SER, TRC = "source/serialization.cc", "source/tracing.cc"

add("C01", "Interior point success means a true KKT point of the problem passed in",
    "Whenever the interior point QP solver reports that it satisfied its KKT tolerance, the returned x, slacks, equality multipliers and inequality multipliers form a KKT point of the caller's QP: stationarity, equality and inequality residuals are each within the requested tolerance, slacks and inequality multipliers are strictly positive, and the mean complementarity is below the requested complementarity tolerance. This holds for every problem, barrier strategy, initial guess and parameter choice, including reading only the lower triangle of the Hessian.",
    ["inputs", "configurations"], "all QPs (any N, M, K, scaling, duplicate or tight bounds) and all parameter combinations",
    "Tests check a dozen hand-made or diagonal problems with default parameters against known solutions; a wrong termination test or residual block is invisible unless it changes those answers.",
    [QP, HQ], [("termination test on the KKT residual norms and complementarity", "QPInteriorPointSolver::Solve"), ("residual evaluation", "QPInteriorPointSolver::EvaluateKKTConditions"), ("norms", "QPInteriorPointSolver::ComputeErrors")],
    [("variables (x, s, y, z)", "primal, slack, dual iterate", "QPInteriorPointSolver::variables_")], ["Solve() return value", "x_block/s_block/y_block/z_block"])
add("C02", "Convex QPs with a strictly interior start are solved to the global optimum",
    "Strictly convex, well-conditioned QPs with a non-degenerate optimum (independent active constraints) are solved to tolerance within a few tens of iterations when the start strictly satisfies the inequalities, for every barrier strategy and initial guess method; no class of such problems (size, number of equalities or bounds, signs or scale of bounds, strategy) fails to converge in more than a vanishing fraction of cases. Whenever the solver does report success the returned x is the unique global minimizer and the returned multipliers are its Lagrange multipliers.",
    ["inputs", "configurations"], "all strictly convex, feasible, moderately conditioned QPs with an interior start; all barrier strategies, guess methods, decrease factors",
    "The tests converge on a handful of small problems, mostly with diagonal Hessians; sign or indexing errors that only matter with dense Hessians, mixed active sets, several bounds per variable or a specific strategy are not reached.",
    [QP], [("Newton step, step length, barrier update", "QPInteriorPointSolver::Iterate"), ("initial guess", "QPInteriorPointSolver::ComputeInitialGuess")],
    [], ["Solve() return value", "x_block/y_block/z_block"])
add("C03", "Interior point iterates stay strictly interior, box-feasible and monotone",
    "At every iteration of the interior point solver slacks and inequality multipliers stay strictly positive and a step never takes more than 99.5% of the distance to zero but otherwise goes as far as that rule allows, up to the full step (fraction to boundary); step lengths lie in (0, 1]. The equality and inequality constraint residuals shrink by exactly the factor (1 - primal step length) each iteration, so an x truncated at any iteration limit violates no inequality by more than 1e-9 (plus rounding) once the start was feasible.",
    ["inputs", "configurations", "histories"], "all QPs, all strategies, all truncation points k = 1..max_iterations",
    "Tests look only at converged solutions; the guarantee must hold at each intermediate iterate, because the nonlinear solver truncates the QP.",
    [QP], [("step length rule (19.9)", "QPInteriorPointSolver::ComputeAlpha"), ("separate primal and dual steps", "QPInteriorPointSolver::Iterate")],
    [("alpha", "primal and dual step lengths", "IPIterationOutputs::alpha")], ["Solve() with max_iterations = k", "outputs.iterations[k].ip_outputs"])
add("C04", "Each interior point iteration takes the documented primal-dual Newton step",
    "Every iteration moves the variables along the exact solution of the full primal-dual Newton system of the perturbed KKT conditions (equation 19.12 of the reference, with the second order correction in predictor-corrector mode) for the barrier parameter it reports, scaled by the reported primal step for x and s and the reported dual step for y and z. The eliminated system the solver factors is equivalent to the full one for every combination of equality constraints, coefficients and repeated bounds on one variable.",
    ["inputs", "configurations"], "all states (x, s > 0, y, z > 0) and barrier values, all strategies, any number of bounds per variable, arbitrary bound coefficients",
    "Tests compare the eliminated and full system for four fixed problems, never with the corrector term and never after real iterations.",
    [QP], [("variable elimination", "QPInteriorPointSolver::ComputeLDLT / SolveForUpdate"), ("predictor-corrector", "QPInteriorPointSolver::Iterate")],
    [], ["Solve() with USER_PROVIDED variables and one iteration", "consecutive truncated runs"])
add("C05", "Interior point iteration records describe what really happened",
    "The record of every interior point iteration is truthful: initial and final KKT norms equal the norms recomputed at the iterate before and after the step with that iteration's barrier target, consecutive records chain, the barrier parameter follows the schedule of the selected strategy and flags, probe values appear only in predictor-corrector mode and match the affine step, and the multiplier summary equals the minimum and largest magnitude of the returned equality multipliers. The number of records never exceeds the iteration limit, equals it when the limit is what stopped the solver, and the solver stops at the first iteration that meets both tolerances.",
    ["inputs", "configurations", "histories"], "all QPs, strategies, barrier flags and iteration limits",
    "No test reads the per-iteration numbers; they are only printed on failure.",
    [QP, HS], [("record creation and barrier schedule", "QPInteriorPointSolver::Solve"), ("multiplier summary", "ComputeLagrangeMultiplierSummary")],
    [], ["QPInteriorPointSolverOutputs"])
add("C06", "Null-space solver returns the constrained minimizer or reports indefiniteness",
    "For every equality constrained QP with consistent constraints, including redundant or more-than-N constraints, the null-space solver succeeds exactly when the Hessian is positive definite on the null space of the constraints, and then the result satisfies all constraints and minimizes the objective over them. Otherwise it reports that the problem is not positive definite, and the full Hessian itself may be indefinite without affecting success.",
    ["inputs"], "all G (definite, semidefinite, indefinite), all A of any rank and row order, all consistent b",
    "Two fixed problems are tested, both with a definite Hessian, full-rank constraints and a self-inverse pivot permutation.",
    [QP], [("QR null-space elimination", "QPNullSpaceSolver::Solve")], [], ["Solve() return value", "variables()"])
add("C07", "Solver results depend only on the inputs, not on history or memory",
    "Solving a problem with a solver object that was used before (other problems, other sizes, other strategies, failed or aborted solves, replaced problems) gives bit for bit the same result, records and variables as a newly constructed solver, and repeated solves agree bit for bit regardless of the previous contents of heap memory and of other solvers, even ones used from inside the user functions of the solve. This applies to the interior point, the null-space and the nonlinear solver.",
    ["histories", "inputs"], "all sequences of Setup / Solve / SetVariables calls on one object, and all heap contents",
    "Tests nearly always use a fresh solver per problem; stale buffers only matter for particular sequences of sizes and strategies.",
    [QP, NL], [("buffers resized and cleared", "QPInteriorPointSolver::Setup, ComputeLDLT"), ("workspace reset", "ConstrainedNonlinearLeastSquares::Solve, LinearizeAndFillQP")],
    [("H_, r_, delta_, delta_affine_", "reused workspaces", "QPInteriorPointSolver")], ["outputs of Solve()", "variables()"])
add("C08", "Malformed problems, parameters and calls are rejected with an exception",
    "Every malformed request (null problem, mismatched dimensions of any block, constraint or residual indices that are negative or too large, zero constraint coefficients that need clamping, out-of-range parameters, wrong number of initial variables, moved-from residuals, solving before setup) raises a library exception that derives from std::exception, before any memory is misused. The object stays usable: it still solves valid problems, and the previously accepted problem, correctly afterwards; boundary values that are documented as valid are accepted.",
    ["inputs", "configurations", "fault_sequences"], "all kinds of malformed input, each boundary value of each parameter, any order of rejected and accepted calls",
    "No test passes an invalid argument.",
    [QP, NL, HQ, HR, "include/mini_opt/assertions.hpp"], [("assertions", "QPInteriorPointSolver::Setup, CheckParams, GatherValues, ShiftTo")], [], ["exceptions", "subsequent Solve() results"])
add("C09", "No memory error or undefined behaviour on any well-formed input",
    "On every well-formed problem, no matter how degenerate (single variable, square or redundant equalities, many bounds per variable, huge or tiny scales, NaN or infinite residual values, indefinite Hessians, immediate exits, long runs), no entry point of the library reads or writes outside its objects, uses freed or uninitialised memory, overflows an integer or trips an internal dimension check of the linear algebra library.",
    ["inputs", "configurations", "histories"], "all well-formed inputs to all entry points",
    "The tests run without sanitizers and with the linear algebra checks compiled out.",
    [QP, NL, HR, ST, SER, TRC], [("dimension bookkeeping", "ProblemDims, error_buffer_, A_eq sizing")], [], ["sanitizer reports", "linear algebra assertion hook"])
add("C10", "Exceptions from user code propagate intact and leave the solver reusable",
    "If a residual, the custom retraction or the exit callback throws at any call, that exact exception reaches the caller of Solve, nothing is leaked, no later user code runs in that solve, and the same solver object (and the shared trace collector) then produces the same result as a new one.",
    ["fault_sequences", "inputs"], "every user-code call index of every solve (each is a fault point), for every problem class",
    "No test throws from user code.",
    [NL, HR, TRC], [("exception neutrality", "ConstrainedNonlinearLeastSquares::Solve")], [], ["exception observed by the caller", "allocation balance", "subsequent results"])
add("C11", "Residuals scatter values and derivatives into exactly the right entries",
    "For every index map (any order, any gaps, repeated variables) and any residual dimension and parameter dimension (static or dynamic), a residual reads exactly the variables it names and adds J^T J (lower triangle only), J^T r and its Jacobian columns to exactly the entries of those variables, leaving every other entry untouched; contributions of several residuals add up. The error vector, the returned quadratic error and the error helper agree with one half the squared norm of the function value.",
    ["inputs"], "all index maps, dimensions, values and initial contents of the outputs",
    "Four index maps of dimension at most 3 are tested, always into zeroed outputs.",
    [HR, "source/residual.cc"], [("gather / scatter", "Residual::Model::UpdateHessian, UpdateJacobian, ErrorVector")], [], ["H, b, J outputs"])
add("C12", "Inequality constraint algebra is consistent under clamping and shifting",
    "For every coefficient pair and every value, a bound built from the comparison helpers is feasible exactly for the values the comparison admits, clamping returns the value itself if it is feasible and otherwise the nearest feasible value (to rounding), and a constraint shifted to a linearization point holds for a step exactly when the original holds for the shifted value, keeping the variable and coefficient.",
    ["inputs"], "all a != 0, b, x, including signed zero, huge, tiny and negative coefficients",
    "The test checks a few values with coefficients of +1 and -1 only.",
    [HQ], [("IsFeasible / ClampX / ShiftTo", "LinearInequalityConstraint"), ("Var", "operator<=, operator>=")], [], ["return values"])
add("C13", "Nonlinear steps are accepted only with sufficient decrease of the merit",
    "The nonlinear solver changes its variables only by a step whose merit (cost plus penalty times equality violation) satisfies the Armijo sufficient decrease condition at the recorded step length, and it accepts the first tried step length that does; rejected or failed searches leave the variables exactly as they were. After every solve the variables are exactly the last accepted candidate, or the initial values if none was accepted.",
    ["inputs", "configurations", "histories"], "all residual functions, constraints, strategies, parameters and starting points",
    "The nonlinear tests are not even built here and only check final answers of a few functions.",
    [NL], [("Armijo test", "ConstrainedNonlinearLeastSquares::SelectStepSize"), ("candidate swap", "UpdateLambdaAndCheckExitConditions")],
    [("variables_, candidate_vars_", "accepted and candidate points", "ConstrainedNonlinearLeastSquares")], ["user residual calls", "retraction calls", "records", "variables()"])
add("C14", "Nonlinear solver never leaves the box once it starts inside it",
    "When the starting point satisfies the inequality constraints and the default retraction is used, every point at which user residuals are evaluated, linearized, accepted or returned satisfies every inequality constraint to within 1e-9 plus rounding, no matter where the inner QP solver or the line search stops.",
    ["inputs", "configurations", "histories"], "all residuals, box constraints, feasible starts, iteration limits, line search strategies, with and without equality constraints",
    "Tests check the final point of a few constrained problems; intermediate evaluations outside the box (where user functions may be undefined) go unnoticed.",
    [NL, QP], [("constraints shifted to the linearization point", "LinearizeAndFillQP"), ("interior steps", "QPInteriorPointSolver")], [], ["arguments of user residual calls"])
add("C15", "Nonlinear termination states and iteration counts are always justified",
    "Each reported termination state is true of the final iteration: absolute, relative and first-order tolerances really hold at the recorded values, maximum damping was really exceeded after failed searches, an indefinite QP is really indefinite on the constraint null space, the callback really asked to stop, or the iteration limit was really reached. No iteration continues past a condition that should have stopped it, iterations are numbered consecutively within the limit, and the exit callback runs exactly once per recorded iteration, in order, with that record.",
    ["inputs", "configurations", "histories"], "all problems, parameters, limits (including zero iterations) and callback behaviours",
    "Tests assert one expected state for converged runs; wrong precedence, off-by-one or missed exits on other paths are not seen.",
    [NL], [("exit logic", "UpdateLambdaAndCheckExitConditions, Solve")], [], ["NLSSolverOutputs", "exit callback"])
add("C16", "Well-posed least squares problems converge to their solution",
    "For well-conditioned least squares problems (linear residuals; mildly nonlinear residuals that vanish at the solution; mildly nonlinear residuals balanced by constraint multipliers), without constraints, with consistent equality constraints, with box constraints around a feasible start, or with both as long as the inner problems are solved, the nonlinear solver with default-like parameters and enough inner iterations ends at the known constrained minimizer (cost, distance and constraint error within tolerances that follow from the exit tolerances) and reports a satisfied tolerance; only with bounds active at the minimizer may it instead report, at that same point, that damping was exhausted.",
    ["inputs", "configurations"], "all problems of the class, both line search strategies, any damping settings within range",
    "Tests cover a few classic functions; they cannot show convergence for arbitrary dimension, index maps, constraint mixes and damping settings.",
    [NL, QP], [("SQP iteration", "ConstrainedNonlinearLeastSquares::Solve")], [], ["variables()", "termination state"])
add("C17", "Damping follows the Levenberg-Marquardt schedule and stays in its bounds",
    "The damping recorded for (and applied in) each iteration starts at the initial value, shrinks by the configured factor after success (a different factor when recovering) but never below the minimum, jumps to the failure value or grows tenfold after a failed search, and never exceeds the maximum while the solver keeps iterating. The recorded optimizer state is recovering exactly after failed searches and returns to nominal on success.",
    ["inputs", "configurations", "histories"], "all success/failure histories and all damping parameters",
    "Only one test enables damping and it never inspects the schedule.",
    [NL], [("lambda schedule", "UpdateLambdaAndCheckExitConditions"), ("applied to the diagonal", "LinearizeAndFillQP")], [], ["NLSIteration::lambda, optimizer_state"])
add("C18", "Line search tries a strictly decreasing, correctly computed step sequence",
    "Every line search first tries the full step, tries at most the configured number of further steps, and each further step length is strictly between zero and the previous one: a fixed fraction of it when backtracking, otherwise the minimizer of the quadratic (first retry) or cubic (later retries) polynomial that interpolates the merit values and slope observed so far. A search is reported as out of iterations only after using its full budget, as non-finite only after a non-finite evaluation, and as an invalid step only if that minimizer does not lie in range.",
    ["inputs", "configurations", "histories"], "all merit functions and slopes, both strategies, all budgets and factors",
    "Polynomial helpers are tested on two polynomials in isolation; the sequence fed to them never is.",
    [NL], [("step sequence", "SelectStepSize, ComputeAlphaPolynomialApproximation"), ("interpolation", "QuadraticApproxMinimum, CubicApproxCoeffs, CubicApproxMinimum")], [], ["NLSIteration::line_search_steps", "retraction calls"])
add("C19", "Candidates come only from the retraction applied to the current point",
    "Every candidate point is the retraction of the current accepted point along the current direction with the recorded step length: a custom retraction is called once per tried step with exactly the accepted point, a direction of the problem dimension and that step length, its result is what gets evaluated and (if accepted) becomes the variables, and without one the candidate is x + alpha * dx. Residuals are linearized only at accepted points and each iteration evaluates all residuals at the same point.",
    ["inputs", "histories", "configurations"], "all retractions (including ones whose parameterization is larger than the tangent space or that are nonlinear), strategies and histories",
    "Custom retractions appear only in tests that are not built here and their arguments are never checked.",
    [NL], [("RetractCandidateVars", "ConstrainedNonlinearLeastSquares"), ("evaluation", "EvaluateNonlinearErrors")], [], ["retraction arguments", "residual arguments"])
add("C20", "Nonlinear iteration records describe what really happened",
    "Every nonlinear iteration record is truthful: initial errors are one half the squared norm of all costs and the L1 norm of all equality residuals at the accepted point, the errors of each tried step are those at the candidate, directional derivatives are the true slopes along the direction, and logged eigenvalues are the smallest, largest and smallest-magnitude eigenvalue of the damped Gauss-Newton Hessian (present exactly when requested); the same statistics are right for any symmetric matrix given by its lower triangle. The inner solver's outcome is recorded with it.",
    ["inputs", "configurations", "histories"], "all problems, parameters and histories",
    "Tests print these records but assert almost none of them.",
    [NL, QP], [("record creation", "ConstrainedNonlinearLeastSquares::Solve"), ("derivatives", "ComputeQPCostDerivative"), ("eigenvalues", "QP::ComputeEigenvalueStats")], [], ["NLSIteration"])
add("C21", "Search directions solve the damped, linearized subproblem",
    "In every nonlinear iteration the direction is the minimizer of the Gauss-Newton model with the recorded damping, subject to all linearized equality constraints and the inequality constraints shifted to the current point: exactly (to rounding) when there are no inequality constraints, and within the inner tolerances when the inner solver reports success. The inner solver used is the null-space solver exactly when there are equality but no inequality constraints.",
    ["inputs", "configurations"], "all residual sets, index maps, constraint mixes, damping values and inner solver limits",
    "A wrong block, sign or damping term only slows convergence on the tested functions.",
    [NL, QP], [("QP assembly", "LinearizeAndFillQP"), ("solver choice", "Solve, ComputeStepDirection")], [], ["direction passed to the retraction", "Jacobians returned by user residuals"])
add("C22", "The equality penalty follows its update rule and never decreases",
    "The penalty used in the merit function starts at the configured value, is never lowered within a solve, and is raised exactly when the required value (largest multiplier magnitude when the inner solver provides multipliers, otherwise the bound of equation 18.36) exceeds it, to that value times the configured factor. Without equality constraints it never changes.",
    ["inputs", "configurations", "histories"], "all problems with equality constraints, all penalty parameters",
    "No test looks at penalties.",
    [NL], [("SelectPenalty", "ConstrainedNonlinearLeastSquares::SelectPenalty, Solve")], [], ["NLSIteration::penalty"])
add("C23", "Solver results survive serialization to JSON and back without loss",
    "For every solver result, converting to JSON and back (as an object, through text, or through a binary encoding) reproduces every field: finite numbers bit for bit, enumerations, optional values, which inner solver was used, and the order and number of records; non-finite numbers stay non-finite. In the document every field appears under its own name, enumerations as their documented names and absent optional values as null.",
    ["inputs"], "all results producible by the solvers and all field values, including NaN and infinities",
    "There are no serialization tests at all.",
    [SER, "include/mini_opt/serialization.hpp"], [("field lists and enum tables", "source/serialization.cc")], [], ["json value", "reconstructed outputs"])
add("C24", "Malformed JSON is rejected with an exception, never undefined behaviour",
    "Deserializing any JSON document either yields a result object or throws a JSON exception; a document in which any field is missing (absent optional values are explicit nulls), an enumeration is not one of its names, or any field has the wrong type (null stands for a non-finite number) always throws, and an accepted document is read as what it says. No document, however mangled, causes a memory error, a crash or a hang.",
    ["inputs"], "all JSON documents, in particular every single-field deletion, type change and structural mutation of a valid one",
    "There are no serialization tests at all.",
    [SER], [("from_json", "adl_serializer<NLSSolverOutputs>")], [], ["exceptions", "sanitizer reports"])
add("C25", "Trace collection is complete, ordered, bounded and race free",
    "Every traced scope that ends normally submits exactly one event with its own name, start time, non-negative duration, process and thread id (in a process that did not fork meanwhile), and scopes left by an exception submit none; the collector keeps the most recent 100000 events in submission order. Any number of threads may trace and dump at the same time: every dump is a consistent snapshot and no event is lost, duplicated or torn.",
    ["schedules", "histories", "inputs"], "all interleavings of tracing and dumping threads, all nesting structures, event counts below and above the limit",
    "Tracing is not tested, and races need concurrent schedules.",
    [TRC, "include/mini_opt/tracing.hpp"], [("mutex-protected deque", "trace_collector::submit_event, get_trace_json"), ("RAII", "scoped_trace")],
    [("events", "bounded queue", "trace_collector_impl")], ["get_trace_json()"])
add("C26", "The trace dump is always a well-formed trace document",
    "For every set of recorded events, including none and names with quotes, backslashes or control characters, the dump parses as JSON (names being valid UTF-8), has one complete-event entry per retained event with the original name, timestamp in microseconds, duration in microseconds, process and thread id, and declares its time unit.",
    ["inputs"], "all event names (any text), values and counts",
    "Tracing is not tested.",
    [TRC], [("JSON formatting", "fmt::formatter<trace_event>, get_trace_json")], [], ["get_trace_json()"])
add("C27", "Independent solvers can run concurrently with identical results",
    "Any number of solver objects may be used concurrently from different threads, each by one thread, even when they share read-only problem definitions: there is no data race, and every result is bit for bit the one obtained sequentially.",
    ["schedules", "inputs"], "all interleavings of solves on distinct solver objects",
    "The tests are single threaded.",
    [QP, NL, HR, TRC], [("no shared mutable state besides the locked trace collector", "library wide")], [], ["results per thread", "race detector"])
add("C28", "Result summaries and counters agree with the records they summarize",
    "For every result object the counters of inner iterations, line search steps and failed searches equal those recomputed from the records, the textual summary mentions every iteration with its recorded values, states and results by their documented names, colour output differs from plain output only by terminal escape sequences (with success green and failure red), and detailed inner output is included exactly when requested. Stream output of every enumeration is its name, and the derived quantities (totals, maxima, validity, satisfied-tolerance test) match their definitions (a maximum over values that include NaN is not prescribed).",
    ["inputs"], "all result objects, all enumerators, both colour and detail flags, non-finite values",
    "Only three statistics are read by tests that are not built here, and strings are never checked.",
    [ST, HS], [("formatting and counters", "NLSSolverOutputs::ToString, NumQPIterations, NumLineSearchSteps, NumFailedLineSearches")], [], ["return values"])
add("C29", "Failed assertions raise an exception that identifies what failed",
    "Every assertion macro is silent when its condition holds and otherwise throws the library's assertion error whose message contains the condition text, source file, line, both operand expressions with their values (for comparisons) and the formatted reason if one was given. Comparison macros agree with the comparison they name for all operand values. When the condition holds it is evaluated exactly once and the arguments of the reason are not evaluated.",
    ["inputs"], "all macros, operand types and values, with and without a reason and format arguments",
    "No test triggers an assertion.",
    ["include/mini_opt/assertions.hpp"], [("macros and formatting", "include/mini_opt/assertions.hpp")], [], ["exception type and message"])
add("C30", "The interior point solver starts and resumes from exactly the stated point",
    "The naive guess starts at x = 0 clamped into the bounds with zero equality multipliers; the equality constrained guess starts at the minimizer (and multipliers) of the problem without its inequalities, with x clamped into the bounds. In both, each slack is the value of its constraint but at least 1e-9 and each inequality multiplier is the reciprocal of its slack, whatever variables were stored before. With a user provided guess the solver starts from exactly the stored variables, whether they were stored as a whole, through the mutable blocks (which partition them as x, s, y, z), or by a previous solve. Besides the variables and the barrier parameter nothing is carried from one iteration to the next: repeating single iterations with the recorded barrier parameters gives the same iterates as one solve.",
    ["inputs", "histories", "configurations"], "all QPs whose bounds can be satisfied (and, for the equality constrained guess, with a nonsingular equality constrained problem), all strategies and flags, all stored variables",
    "The tests only look at where the solver ends, which for well conditioned problems hardly depends on where it starts.",
    [QP, HQ], [("initial guess", "QPInteriorPointSolver::ComputeInitialGuess"), ("storage and accessors of the variables", "QPInteriorPointSolver::SetVariables / x_block / s_block / y_block / z_block")],
    [("variables (x, s, y, z)", "primal, slack, dual iterate", "QPInteriorPointSolver::variables_")], ["first record of QPInteriorPointSolverOutputs", "variables()"])
add("C31", "Results do not depend on how a problem is written down",
    "Problems that are mathematically the same lead, up to rounding, to the same records and iterates in both solvers: when variables are renumbered, when costs, constraints or the parameters of a residual are listed in another order, when a residual is split into its rows, stored with another (static or dynamic) type, or given parameters it does not use, when a residual that is always zero or a variable that nothing else depends on is added, when the unused upper triangle of G holds other values, and (for the interior point and null-space solvers) when a constraint is multiplied by a factor (positive for inequalities), or (null-space) repeated.",
    ["inputs", "configurations"], "all problems whose results are not decided by rounding (perturbing the data in the 13th digit does not change them); reformulations judged per class, because rounding decides single cases",
    "Each test writes its problem down in one way.",
    [QP, HQ, NL, "include/mini_opt/residual.hpp"], [("elimination and steps", "QPInteriorPointSolver::ComputeLDLT / SolveForUpdateNoEquality / ComputeAlpha"), ("linearization", "ConstrainedNonlinearLeastSquares::LinearizeAndFillQP"), ("scatter", "Residual::UpdateHessian / UpdateJacobian")],
    [("iterates of the original and of the other formulation", "matched through the renaming", "variables()")], ["records of QPInteriorPointSolverOutputs and NLSSolverOutputs", "variables()"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        s = p["statement"]
        f.write(json.dumps(p) + "\n")
print(len(P))
