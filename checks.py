"""Configuration of the checks: which drivers, on how many cases, and what must be observed."""

QP_RULE_GEN = ("QPs with N=1..8 (now and then up to 40), random equality rows, repeated / duplicated / scaled bounds, garbage in the "
               "upper triangle of G, all barrier strategies, initial guesses and flags, drawn from the seed. ")

CHECKS = {
    "C01": dict(
        level="exploration",
        jobs=[dict(driver="drv_qp", variant="plain", args={"mode": "c01"}, cases=400000)],
        rule=QP_RULE_GEN + "Non-trivial: a solve that reported SATISFIED_KKT_TOL, whose result was recomputed in long double.",
        require={"large-problems": 1000, "satisfied": 20000, "satisfied:PREDICTOR_CORRECTOR": 3000, "satisfied:FIXED_DECREASE": 3000,
                 "satisfied:COMPLEMENTARITY": 3000},
    ),
    "C02": dict(
        level="exploration",
        jobs=[dict(driver="drv_qp", variant="plain", args={"mode": "c02"}, cases=200000)],
        rule=QP_RULE_GEN + "Strictly convex problems constructed from a known strictly complementary solution with a strictly "
             "interior start. Non-trivial: a solve whose result was compared with the known optimum.",
        require={"multipliers-compared": 50000, "runs:PREDICTOR_CORRECTOR": 20000},
    ),
    "C03": dict(
        level="exploration",
        jobs=[dict(driver="drv_qp", variant="plain", args={"mode": "follow"}, cases=160000)],
        rule=QP_RULE_GEN + "Each solve is followed iterate by iterate by truncating it at 1, 2, 3, ... iterations. Non-trivial: "
             "an iteration whose Newton direction was recomputed from the full system in long double.",
        require={"large-problems": 100, "alpha-checked": 50000, "primal-limited": 5000, "dual-limited": 5000},
    ),
    "C04": dict(
        level="exploration",
        jobs=[dict(driver="drv_qp", variant="plain", args={"mode": "follow"}, cases=160000)],
        rule=QP_RULE_GEN + "Each solve is followed iterate by iterate by truncating it at 1, 2, 3, ... iterations. Non-trivial: "
             "an iteration whose Newton direction was recomputed from the full system in long double.",
        require={"large-problems": 100, "newton-checked": 50000, "newton:PREDICTOR_CORRECTOR+eq+ineq": 3000, "newton:FIXED_DECREASE+eq+ineq": 3000,
                 "newton:COMPLEMENTARITY+eq+ineq": 3000, "newton:COMPLEMENTARITY+eq": 20},
    ),
    "C05": dict(
        level="exploration",
        jobs=[dict(driver="drv_qp", variant="plain", args={"mode": "follow"}, cases=160000)],
        rule=QP_RULE_GEN + "Each solve is followed iterate by iterate by truncating it at 1, 2, 3, ... iterations. Non-trivial: "
             "an iteration whose record was compared with the recomputed one.",
        require={"norms-checked": 50000, "probe-checked": 5000, "multiplier-summaries": 20000, "satisfied": 3000},
    ),
    "C06": dict(
        level="exploration",
        jobs=[dict(driver="drv_ns", variant="plain", cases=400000)],
        rule="Equality constrained QPs with N=1..20 and 1..3N constraint rows built from a known row space (redundant, repeated, zero, "
             "badly scaled and nearly dependent rows, selectors, square systems), Hessians of known inertia on the null space. "
             "Non-trivial: a solve whose outcome was compared with the independently computed one.",
        require={"class:pd": 50000, "class:pd+redundant": 50000, "class:pd+square": 50000, "class:pd+redundant+square": 40000,
                 "class:indefinite": 20000, "class:indefinite+redundant": 15000, "more-constraints-than-variables": 50000,
                 "compared": 200000, "nearly-dependent-compared": 10000, "indefinite-G-accepted": 50000, "reused": 80000},
    ),
}

NLS_RULE = ("Nonlinear problems with 1..6 (now and then up to 24) variables built from data-described user functions (linear, mildly nonlinear, rough, "
            "degenerate, non-finite and lying-Jacobian families), 0..3 equality constraints, bounds, custom retractions, random "
            "valid parameters (in a third of the cases one threshold is placed next to a value that decided something in an earlier run), exit "
            "callbacks, shifted and scaled variables; every user callback is logged and the log plus the returned records are checked "
            "against the specification. Non-trivial: ")


def nls(what, require, cases=600000):
    return dict(level="exploration",
                jobs=[dict(driver="drv_nls", variant="plain", args={"mode": "monitor"}, cases=cases, thorough=6000000)],
                rule=NLS_RULE + what, require=require)


CHECKS.update({
    "C13": nls("an iteration whose accepted and rejected candidates were re-evaluated in long double and judged by the Armijo rule.",
               {"accepted-checked": 200000, "rejected-checked": 100000, "moved-checked": 200000, "kept-checked": 100000}),
    "C14": nls("a recorded point compared with every bound.", {"box-points": 800000, "box-solves": 15000}),
    "C15": nls("an exit whose claimed reason was re-derived from the records, or an iteration shown to have no reason to stop.",
               {"exits-checked": 80000, "termination:MAX_ITERATIONS": 20000, "termination:MAX_LAMBDA": 5000,
                "termination:SATISFIED_ABSOLUTE_TOL": 2000, "termination:SATISFIED_RELATIVE_TOL": 10000,
                "termination:SATISFIED_FIRST_ORDER_TOL": 10000, "termination:USER_CALLBACK": 4000, "indefinite-checked": 80, "target:absolute": 15000,
                "target:relative": 12000, "target:derivative": 15000, "target:lambda": 6000}),
    "C17": nls("an iteration whose recorded damping was compared with the schedule and, where decidable, with the damping "
               "that explains its direction.",
               {"lambda-checked": 300000, "restored": 2000, "failed-again": 20000, "direction:damped": 100000}),
    "C18": nls("a tried step length compared with the step sequence rule.",
               {"alpha:backtrack": 50000, "alpha:quadratic": 20000, "alpha:cubic": 15000, "invalid-alpha-checked": 30}),
    "C19": nls("a candidate point compared with the retraction of the accepted point.",
               {"candidates-checked": 400000, "iterations-checked": 300000}),
    "C20": nls("a record whose errors, slopes, eigenvalues and inner outcome were recomputed in long double.",
               {"slopes-checked": 300000, "eigenvalues-checked": 150000, "qp-record-checked": 40000, "qp-multipliers-checked": 15000,
                "nonfinite-checked": 40000, "eigenvalue-stats:indefinite": 40000, "eigenvalue-stats:definite": 40000}),
    "C21": nls("a direction compared with the independently computed minimizer of the damped subproblem.",
               {"direction:unconstrained": 100000, "direction:null-space": 60000, "direction:bounds": 50000,
                "direction:bounds+eq": 20000}),
    "C22": nls("an iteration whose penalty was compared with the update rule.",
               {"penalty:bound-18.36": 70000, "penalty:multipliers": 40000, "penalty-raised": 12000}),
})

CHECKS["C07"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_hist", variant="plain", cases=200000),
          dict(driver="drv_threads", variant="plain", args={"mode": "nested"}, cases=20000, thorough=400000),
          dict(driver="drv_hist", variant="valgrind", cases=2000, thorough=20000, case_limit=120)],
    rule="Sequences of 2..6 solves on one solver object (new problems, other sizes and strategies, warm starts, copies, problems "
         "changed in place, rejected and aborted requests in between), each repeated by a new solver under different contents of "
         "new heap blocks and of the stack; plus a run under valgrind for decisions on uninitialised values. Non-trivial: a solve "
         "with a history whose result was compared bit for bit.",
    require={"compared-ip": 150000, "compared-nls": 150000, "compared-null-space": 40000, "aborted-solves": 40000,
             "rejected-requests": 80000, "problem-changed": 50000, "warm-starts": 20000, "copies": 20000, "nested:nls": 80000},
    technique="runtime monitoring: differential history monitor with poisoned memory; valgrind memcheck")

CHECKS["C08"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_reject", variant="plain", cases=100000, thorough=1500000),
          dict(driver="drv_reject", variant="asan", cases=3000, thorough=40000)],
    rule="Enumerated malformed requests (about 250 kinds: problem shapes, constraint indices, parameters just outside their range or "
         "NaN, misuse before Setup, too few variables, wrong block sizes, moved-from residuals) around fresh random valid problems, "
         "each followed by solving the previous and/or a new problem and comparing with a new solver; valid boundary values are "
         "accepted. Repeated under ASan/UBSan/Eigen assertions so that a rejection may not come after the memory damage. "
         "Non-trivial: a case whose requests were all answered.",
    require={"rejected": 5000000, "previous-problem-solved": 1500000, "new-problem-solved": 300000, "accepted": 500000},
    technique="runtime monitoring: enumerated misuse with exception/usability oracles, ASan/UBSan")

CHECKS["C10"] = dict(
    level="fault_enumeration",
    jobs=[dict(driver="drv_fault", variant="plain", cases=60000, thorough=800000),
          dict(driver="drv_fault", variant="asan", cases=1500, thorough=20000)],
    rule="For each random nonlinear problem the calls into user code (residuals with and without Jacobian, retraction, exit callback) of "
         "one solve are counted and the solve is repeated with an exception of one of eight types injected at every call (all calls when "
         "there are few enough, otherwise a sample with the first and last): the same exception object must arrive, no user code may run "
         "after it, no heap block may leak, the solver must afterwards reproduce the undisturbed run bit for bit. Non-trivial: a "
         "problem with at least one call into user code.",
    require={"faults": 1200000, "leak-checked": 40000, "reused-after-fault": 400000, "all-calls-enumerated": 35000,
             "fault:callback": 100000, "fault:linearize": 400000, "fault:residual": 500000, "fault:retraction": 80000},
    technique="runtime monitoring: exception injection at enumerated user calls, heap accounting, differential reuse; ASan/UBSan")

CHECKS["C11"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_res", variant="plain", args={"mode": "C11"}, cases=800000, thorough=12000000)],
    rule="1..4 residuals of random shape (static and dynamic, 1..8 rows, 0..70 parameters, any index map, repeated variables) whose "
         "function returns planned values, evaluated through every entry point into outputs filled with recognisable NaNs; variables "
         "that are not named are NaNs too. Each entry is compared with the long double sum (exactly for integer data), untouched "
         "entries bit for bit. Non-trivial: every case (all compare at least one residual).",
    require={"residuals": 1000000, "hessian-entries": 8000000, "jacobian-entries": 12000000, "index-repeated": 400000,
             "dynamic": 300000, "static": 500000})

CHECKS["C12"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_res", variant="plain", args={"mode": "C12"}, cases=400000, thorough=6000000)],
    rule="Bounds from the comparison helpers and with arbitrary coefficients (all scales, signed zeros, denormals, huge values, values "
         "on and next to the boundary), judged with 113-bit arithmetic; small dyadic numbers for the shift equivalence, where every "
         "operation is exact. Non-trivial: every case (64 groups of values each).",
    require={"at-bound": 5000000, "clamp-feasible": 5000000, "clamp-infeasible": 5000000, "feasibility-exact": 3000000,
             "shift-at-boundary": 800000, "shifted": 10000000})

CHECKS["C16"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_conv", variant="plain", cases=1600000, thorough=30000000)],
    rule="Well conditioned least squares problems with 1..5 (now and then up to 16) variables in three families (linear; mildly nonlinear with vanishing residuals; "
         "mildly nonlinear with residuals balanced by multipliers of linear equalities and active bounds), with and without equalities "
         "and bounds, both line searches, random damping. The minimizer is known by construction or from an active set enumeration in "
         "long double. Non-trivial: a solved problem whose result was compared with the minimizer.",
    require={"satisfied": 1400000, "solved:linear": 100000, "solved:consistent+eq": 80000, "solved:residual+active": 150000,
             "solved:linear+eq+active": 30000, "solved:residual+eq+active": 50000, "solved:large": 8000})

# Every driver once more with the sanitizers and the linear algebra assertions as the only judges.
CHECKS["C09"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_hard", variant="asan", cases=10000, thorough=400000),
          dict(driver="drv_qp", variant="asan", args={"mode": "mixed"}, cases=8000, thorough=200000),
          dict(driver="drv_nls", variant="asan", args={"mode": "monitor"}, cases=30000, thorough=600000),
          dict(driver="drv_ns", variant="asan", cases=30000, thorough=600000),
          dict(driver="drv_hist", variant="asan", cases=10000, thorough=200000),
          dict(driver="drv_conv", variant="asan", cases=30000, thorough=600000),
          dict(driver="drv_res", variant="asan", args={"mode": "all"}, cases=20000, thorough=400000),
          dict(driver="drv_reject", variant="asan", cases=1500, thorough=40000),
          dict(driver="drv_fault", variant="asan", cases=1500, thorough=40000),
          dict(driver="drv_json", variant="asan", args={"mode": "C23"}, cases=1500, thorough=60000),
          dict(driver="drv_trace", variant="asan", args={"mode": "all"}, cases=96, thorough=2000, shards=32),
          dict(driver="drv_structs", variant="asan", args={"mode": "all"}, cases=1500, thorough=60000),
          dict(driver="drv_threads", variant="asan", args={"mode": "nested"}, cases=200, thorough=8000),
          dict(driver="drv_hard", variant="valgrind", cases=160, thorough=8000, case_limit=120),
          dict(driver="drv_qp", variant="valgrind", args={"mode": "mixed"}, cases=240, thorough=8000, case_limit=120),
          dict(driver="drv_nls", variant="valgrind", args={"mode": "monitor"}, cases=800, thorough=20000, case_limit=120),
          dict(driver="drv_ns", variant="valgrind", cases=800, thorough=20000, case_limit=120)],
    rule="All drivers of the other checks (valid, degenerate, badly scaled, malformed and aborted requests, long histories) and one with "
         "hostile input (up to 65 variables, up to 200 bounds, non-finite and extreme numbers in every field and parameter, residuals "
         "with up to 70 rows, copies and moves of solvers, results printed and serialized), under AddressSanitizer, "
         "UndefinedBehaviorSanitizer, the assertions of Eigen and libstdc++, and part of it under valgrind memcheck for "
         "uninitialised memory. Nothing but their reports is judged. Non-trivial: a case that reached the library with its own problem.",
    require={"done:interior-point": 4000, "done:null-space": 3000, "done:nls": 4500, "done:shapes": 2500, "faults": 20000,
             "rejected": 80000, "serialized": 4000},
    technique="runtime monitoring: ASan, UBSan, Eigen and libstdc++ assertions, valgrind memcheck")

CHECKS["C23"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_json", variant="plain", args={"mode": "C23"}, cases=60000, thorough=1500000)],
    rule="Results of the solvers and random result objects in which every field takes any value (random bit patterns, denormals, signed "
         "zeros, NaN, infinities, extreme counters, any enumerator, any combination of optional values, up to 200 records), converted to a "
         "JSON object, to text (three layouts) and to CBOR, MessagePack, UBJSON or BSON and back, alone, in lists and over existing "
         "documents. The document itself is compared with one built independently. Non-trivial: a result that went all ways.",
    require={"round-trips": 55000, "via:object": 55000, "via:text": 55000, "via:cbor": 10000, "via:msgpack": 10000, "via:ubjson": 10000,
             "via:bson": 10000, "nonfinite-fields": 300000, "solver-results": 6000, "null-space-records": 30000,
             "interior-point-records": 50000, "eigenvalue-records": 40000})

CHECKS["C24"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_json", variant="plain", args={"mode": "C24"}, cases=2400, thorough=150000),
          dict(driver="drv_json", variant="asan", args={"mode": "C24"}, cases=500, thorough=30000)],
    rule="Random valid documents in which every node is removed, renamed and replaced by a value of each other type, several random "
         "structural changes are made at once (parts exchanged, wrapped, duplicated, numbers and names changed), or the text is damaged. "
         "A document must be accepted if and only if an independent description of the format accepts it, and then be read as what it "
         "says. Repeated under ASan and UBSan. Non-trivial: a document whose mutations were all judged.",
    require={"rejected:missing": 100000, "rejected:type": 700000, "rejected:mutated": 100000, "rejected:damaged-text": 10000,
             "accepted": 200000, "not-json": 100000},
    technique="runtime monitoring: enumerated document mutations with an independent acceptance oracle, ASan/UBSan")

CHECKS["C25"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_trace", variant="plain", args={"mode": "all"}, cases=768, thorough=20000, shards=128),
          dict(driver="drv_trace", variant="plain", args={"mode": "limit"}, cases=36, thorough=600, shards=12, tag="limit"),
          dict(driver="drv_trace", variant="tsan", args={"mode": "all"}, cases=320, thorough=8000, shards=80)],
    rule="Random nests of traced scopes (all macros, early ends, exceptions, handlers, destructors during unwinding) in 1..8 threads with "
         "0..3 threads dumping meanwhile, each scope stamped with the clock before and after construction and destruction; events "
         "submitted directly to collectors of our own by up to 8 threads; counts below, at and beyond the limit. Every event and every "
         "dump is matched with what the threads did. Repeated under ThreadSanitizer. Non-trivial: a case whose events all were matched; "
         "distinct cases differ in the observed order of the threads' events.",
    require={"scopes-checked": 200000, "thread-switches": 50000, "dumps-in-between": 800, "left-by-exception": 80000,
             "ended-in-unwinding": 20000, "submitted-events": 2000000, "beyond-limit": 8, "at-limit": 2},
    technique="runtime monitoring: offline checker of recorded scope histories (completeness, order, snapshots), ThreadSanitizer")

CHECKS["C26"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_trace", variant="plain", args={"mode": "document"}, cases=50000, thorough=1000000),
          dict(driver="drv_trace", variant="asan", args={"mode": "document"}, cases=3000, thorough=60000)],
    rule="0..40 events with names of arbitrary text (quotes, backslashes, every control character, any Unicode code point, things that look "
         "like format strings or escapes, 5000 characters) and extreme numbers; every dump is parsed by an independent parser and "
         "compared entry by entry. Non-trivial: a dump that was compared.",
    require={"entries-checked": 800000, "control-characters": 5000000, "quotes-and-backslashes": 10000000, "empty-dumps": 4000})

CHECKS["C27"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_threads", variant="plain", args={"mode": "threads"}, cases=8000, thorough=400000),
          dict(driver="drv_threads", variant="tsan", args={"mode": "threads"}, cases=700, thorough=30000, shards=64),
          dict(driver="drv_threads", variant="tsan_notrace", args={"mode": "threads"}, cases=900, thorough=40000, shards=64)],
    rule="2..8 threads run the same 3..12 tasks (interior point, null-space and nonlinear solves, evaluations, eigenvalues, residuals, text "
         "and JSON output, rejected problems) in different orders on solvers of their own and shared definitions, some while the trace is "
         "dumped; every result is compared byte for byte with the one obtained alone (before or after). Repeated under ThreadSanitizer "
         "with and without tracing. Non-trivial: a case whose results were all compared; distinct cases differ in problems or in the "
         "observed order of the tasks.",
    require={"overlapping-pairs": 150000, "task:nls": 50000, "task:interior-point": 30000, "task:null-space": 20000, "task:reject": 10000,
             "dumped-meanwhile": 700},
    technique="runtime monitoring: ThreadSanitizer plus byte-for-byte comparison of concurrent with sequential results")

CHECKS["C28"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_structs", variant="plain", args={"mode": "C28"}, cases=60000, thorough=1500000),
          dict(driver="drv_structs", variant="asan", args={"mode": "C28"}, cases=1500, thorough=60000)],
    rule="Results of the solvers and random result objects (every field any value, any enumerator, up to 200 records). The counters and "
         "derived quantities are recomputed from the records; the text is parsed line by line and every number and name in it compared "
         "with the field it shows, with and without details; coloured text is split into text and colours. Every enumerator is streamed. "
         "Non-trivial: a result whose texts all were parsed; distinct cases differ in content.",
    require={"totals-checked": 1500000, "step-lines": 1200000, "numbers-checked": 18000000, "inner-records": 900000, "painted-words": 400000,
             "eigenvalue-lines": 150000, "derived-checked": 1100000, "solver-results": 8000})

CHECKS["C29"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_structs", variant="plain", args={"mode": "C29"}, cases=80000, thorough=3000000),
          dict(driver="drv_structs", variant="asan", args={"mode": "C29"}, cases=1500, thorough=60000)],
    rule="About 190 call sites of all macros (operands of ten types and several expressions, with and without reason and arguments) reached "
         "with random operands incl. NaN, infinities, extremes, format-like text; every message is searched for condition, file, line, "
         "operands, values and reason; and the library's own assertions are provoked. Non-trivial: a case whose sites were all "
         "judged; distinct cases differ in their operands.",
    require={"thrown": 7000000, "passed": 7000000, "found:reason": 3500000, "found:operand-value": 14000000, "library-errors": 300000})
CHECKS["C30"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_qp", variant="plain", args={"mode": "guess"}, cases=300000, thorough=6000000)],
    rule=QP_RULE_GEN + "The documented starting point is computed in long double; the first record and the first iterate of the solver "
         "must be the ones it leads to. Stored starts are replayed through SetVariables, the blocks and single iterations. Non-trivial: a "
         "computed guess that was compared; distinct cases differ in their starting point.",
    require={"first-iterate-compared": 100000, "clamped:NAIVE": 30000, "clamped:SOLVE_EQUALITY_CONSTRAINED": 60000, "resumed": 80000,
             "resumed-pc": 30000, "stored-starts": 100000, "guess:SOLVE_EQUALITY_CONSTRAINED+eq+ineq": 30000, "large-problems": 400})

CHECKS["C31"] = dict(
    level="exploration",
    jobs=[dict(driver="drv_equiv", variant="plain", args={"mode": "qp"}, cases=400000, thorough=8000000, tag="qp"),
          dict(driver="drv_equiv", variant="plain", args={"mode": "nls"}, cases=300000, thorough=6000000, tag="nls")],
    rule="Random QPs (the generators of C01-C05) and nonlinear problems (the families of C13-C22), each written down in two other ways by "
         "random combinations of the reformulations; records and iterates are compared row by row with a tolerance taken from runs on data "
         "perturbed in the 13th digit. Violation: a class of reformulations of which more than 0.4% (0.15% over all) disagree; "
         "on the correct code at most 0.05% do. Non-trivial: a reformulation that agreed to its end; distinct cases differ in the problem.",
    require={"qp:agreed": 150000, "null-space:agreed": 60000, "nls:agreed": 300000, "qp:rescaled constraints": 50000, "nls:split rows": 100000,
             "nls:padded parameters": 60000, "nls:a zero cost": 50000, "nls:an extra variable": 40000, "null-space:repeated row": 15000,
             "nls:compared": 1500000, "qp:compared": 900000},
    technique="runtime monitoring: metamorphic comparison of recorded trajectories of equivalent problems, calibrated by perturbed runs")
