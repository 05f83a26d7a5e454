#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and tools/checks.json. Run after editing; outputs are committed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), check=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, check=check))
API = "src/osqp_api.c"; AUX = "src/auxil.c"
BE = "enumerated over finite problem alphabets (n<=3, m<=3, small integer and badly scaled entries, every bound kind), on the builtin and the MKL backend"

prop("C01", "Solved means solved, on the caller's own data",
 "Whenever a solve ends with status solved, the returned primal and dual vectors are finite, are primal feasible and stationary within the absolute/relative tolerances of the settings, and close the duality gap within them when that test is enabled, all evaluated on the matrices, costs and bounds the caller supplied rather than on an internally scaled copy. No multiplier points at an infinite bound. Status solved inaccurate guarantees the same at ten times the tolerances (runs that ask for termination on scaled residuals are exempt).",
 ["inputs", "configurations"], BE + ", for every tolerance/scaling/step-size/polishing/backend variant listed",
 "Unit tests compare a handful of fixed problems with stored solutions; they cannot exhaust problem structure x settings, and only look at unscaled residuals of those few.",
 [AUX, API, "src/scaling.c", "src/polish.c"],
 [("check_termination", AUX), ("compute_prim_res/compute_dual_res/compute_*_tol", AUX), ("unscale_solution", "src/scaling.c"), ("store_solution", AUX)],
 observe=["osqp_solve: info->status_val, solution->x, solution->y"],
 check=dict(bin="verdict", libs=["bi", "mkl"], level="exploration", technique="bounded exhaustive enumeration of problems x settings on the real solver, dense re-evaluation of optimality",
   note="Exhaustive over the listed alphabets; independent dense oracle. Builtin backend uses an API-compatible QDLDL stand-in."))

prop("C02", "Infeasibility verdicts come with a valid certificate",
 "Whenever a solve ends with a primal or dual infeasibility status, the returned certificate is a vector of infinity norm one that satisfies the documented infeasibility inequalities on the caller's unscaled data within the requested tolerance (ten times it for the inaccurate statuses). The objective is plus infinity for primal and minus infinity for dual infeasibility, and the primal-dual solution and the other certificate are blanked with the documented sentinel.",
 ["inputs", "configurations"], BE + ", for every variant of tolerances, scaling, step size and backend listed",
 "Tests check a few hand-made infeasible problems; validity must hold for every problem declared infeasible, including through scaling and unbounded constraint sides.",
 [AUX, API, "src/scaling.c"],
 [("is_primal_infeasible/is_dual_infeasible", AUX), ("certificate unscaling in check_termination", AUX), ("normalisation in store_solution", AUX)],
 observe=["solution->prim_inf_cert, dual_inf_cert, info->status_val, info->obj_val"],
 check=dict(bin="verdict", libs=["bi", "mkl"], level="exploration", technique="bounded exhaustive enumeration of problems x settings on the real solver, certificate re-verified densely",
   note="Exhaustive over the listed alphabets, which contain thousands of infeasible and unbounded problems."))

prop("C03", "The verdict is the true one, whatever the backend and scaling",
 "For every convex problem solved from a cold start, a feasible bounded problem is never declared infeasible, an infeasible or unbounded problem is never declared solved, and a feasible unbounded problem is never declared primal infeasible. With a direct linear solver every small well-scaled problem is decided within the iteration limit, and the objective and (if unique) the minimiser agree with the exact optimum regardless of backend, direct or indirect linear solver, scaling, polishing and step-size options.",
 ["inputs", "configurations"], BE + "; ground truth computed in rational arithmetic",
 "Tests have no independent ground truth beyond stored answers for a few problems and cannot cross all backends/options.",
 [API, AUX, "algebra/builtin", "algebra/mkl", "algebra/_common"],
 [("ADMM iteration", API), ("linear system solvers", "algebra/*/lin_sys"), ("check_termination", AUX)],
 observe=["info->status_val, info->obj_val, solution->x"],
 check=dict(bin="verdict", libs=["bi", "mkl"], level="exploration", technique="bounded exhaustive enumeration of problems x backends/options against an exact rational-arithmetic oracle",
   note="Exhaustive over the listed alphabets. The indirect solver must decide only feasible strongly convex problems (its inner tolerance is absolute)."))

prop("C04", "Reported information describes the returned solution on every exit",
 "However a solve ends (solved, inaccurate, iteration limit, time limit, polished or not), the reported objective, dual objective, duality gap, primal and dual residuals and KKT error are those of the very vectors returned, measured on the caller's data, and the iteration count is the number of iterations actually performed. The status string always matches the status code.",
 ["inputs", "configurations", "histories"], BE + "; every iteration limit 1..60 and every time limit point, every check interval, polishing on/off",
 "Tests compare the objective at convergence only; the exits that stop between two evaluations of the residuals (limits) are not sampled.",
 [API, AUX, "src/polish.c"],
 [("update_info", AUX), ("compute_obj_val_dual_gap", AUX), ("final update after the loop", API)],
 observe=["OSQPInfo after osqp_solve"],
 check=dict(bin="info", libs=["bi", "mkl"], level="exploration", technique="bounded exhaustive enumeration of problems x exits (every stopping iteration), dense re-evaluation",
   note="Residuals re-evaluated densely; the primal residual is bracketed since the internal z is not returned."))

prop("C05", "The iteration is the documented ADMM recursion",
 "Given the data, step size, regularisation and relaxation parameters, the k-th iterates are those of the documented operator-splitting recursion with over-relaxation, per-constraint step sizes (raised for equalities, lowered for unbounded rows) and projection onto the bounds, and termination, step-size adaptation and the final status happen at the iterations and for the reasons documented. This holds for every problem and every iteration up to the limit.",
 ["inputs", "histories", "configurations"], BE + "; all trajectories up to the stated number of iterations, checked state by state against an independently written model of the algorithm",
 "Tests only look at the fixed point reached, which many wrong recursions share (slower or with wrong intermediate limits).",
 [API, AUX], [("update_xz_tilde, update_x, update_z, update_y", AUX), ("main loop of osqp_solve", API), ("adapt_rho", AUX)],
 state=[dict(name="x,z,y", meaning="ADMM iterates", where="include/private/types.h")],
 observe=["solution->x,y, info after osqp_solve with iteration limit k, for all k"],
 check=dict(bin="admm", libs=["bi", "mkl"], level="model_checking", technique="explicit-state model of the documented algorithm explored over all problems of an alphabet; every model trace replayed on the implementation and compared state by state",
   note="Model is an independent dense implementation; runs within rounding of a decision threshold are counted inconclusive."))

prop("C06", "Updating a solver is equivalent to setting up the updated problem",
 "After any sequence of successful updates of the linear cost, bounds, matrix values (all or any index subset) and step size, a cold-started solve gives the same status and, within the tolerances, the same solution as a solver freshly set up with the resulting data. With internal scaling off and equal settings the iterates coincide to rounding.",
 ["histories", "inputs"], "all update sequences up to the stated depth over an alphabet of updates (every index subset, every bound-type change), from small problems, on every backend",
 "Tests run a few update calls once from a fixed problem; equivalence must hold after any sequence, including updates changing constraint types or order of entries.",
 [API, AUX, "src/scaling.c", "algebra/_common/kkt.c", "algebra/_common/lin_sys/qdldl/qdldl_interface.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c"],
 [("osqp_update_data_vec/osqp_update_data_mat/osqp_update_rho", API), ("update_rho_vec", AUX), ("update_KKT_P/update_KKT_A/update_KKT_param2", "algebra/_common/kkt.c"), ("unscale_data/scale_data", "src/scaling.c")],
 observe=["solution and info after updates vs fresh setup"],
 check=dict(bin="update", libs=["bi", "mkl"], level="exploration", technique="exhaustive exploration of all update histories up to a depth on the real code, differential oracle (fresh setup)",
   note="Every history is executed on the implementation; reference is a fresh solver on the same final data."))

prop("C07", "A rejected call changes nothing",
 "A setup, update, warm-start, settings or solution-retrieval call that reports an error because its arguments are invalid returns the documented nonzero code and leaves the solver exactly as it was: every later solve, solution and setting is identical to what it would have been had the call never been made. New bounds that cross or are not a number, and step sizes that are not positive, are such invalid arguments.",
 ["histories", "inputs"], "every invalid call of a catalogue inserted at every position of every history up to the stated depth; twin solver without the call as oracle",
 "Tests check the return code of a few invalid calls, never the behaviour of the solver afterwards.",
 [API, AUX], [("validate_settings", AUX), ("bounds check in osqp_update_data_vec", API), ("length checks in osqp_update_data_mat", API)],
 observe=["return codes; twin comparison of solution, info, settings"],
 check=dict(bin="reject", libs=["bi", "mkl"], level="exploration", technique="exhaustive exploration of call histories with an invalid call at every position, twin differential",
   note="Bitwise comparison against the twin without the rejected call."))

prop("C08", "Invalid problem data are refused at setup with the documented code",
 "Setup accepts every well-formed problem, in whatever order the columns of its matrices store their row indices (the order carries no meaning for the solution or for later partial updates), and refuses, with the data-validation code and without producing a usable solver or touching memory out of range, every problem with missing arrays, non-positive or inconsistent dimensions, a quadratic cost matrix that is not square upper triangular, or a lower bound above an upper bound. A refused setup leaks nothing.",
 ["inputs"], "all single and pairwise corruptions of a well-formed problem description over several sizes",
 "Tests try a few corruptions one by one.",
 [AUX, API], [("validate_data", AUX), ("osqp_setup", API)],
 observe=["return code of osqp_setup"],
 check=dict(bin="valid", libs=["bi", "mkl"], asan=True, level="exploration", technique="bounded exhaustive enumeration of corrupted inputs (single and pairwise) on the real code under sanitizers",
   note="Reference predicate written from the documentation."))

prop("C09", "Settings are validated, defaulted and updated exactly as documented",
 "The default settings are the documented ones; setup accepts a settings vector exactly when every entry is in its documented range, and updating settings accepts exactly the in-range values, changes precisely the updatable entries and leaves setup-only entries alone. Solves after an update behave like those of a solver set up with the updated settings.",
 ["inputs", "configurations", "histories"], "every settings field at every boundary value, alone and in pairs, at setup and at update",
 "Tests try individual invalid values of some fields at setup only.",
 [AUX, API], [("validate_settings", AUX), ("osqp_update_settings, osqp_set_default_settings", API), ("copy_settings", "src/util.c")],
 observe=["return codes, solver->settings, later solves"],
 check=dict(bin="valid", libs=["bi", "mkl"], level="exploration", technique="bounded exhaustive enumeration of settings values (single and pairwise) with a reference predicate",
   note="Reference predicate and default table are written from the documentation."))

prop("C10", "A solve depends on the problem and starting point, not on history",
 "A cold-started solve gives the same status, iterates and information whatever was solved, updated away and back, queried or interrupted by a limit before; nothing reported is left over from an earlier solve. Retrieving the solution any number of times is a pure read, and running the same calls twice gives identical results.",
 ["histories"], "all sequences of API calls up to the stated depth on one solver, compared with a fresh solver brought directly to the same data, settings and step size",
 "Tests almost always solve once per solver; stale status, polish or timing information needs specific two- or three-call histories.",
 [API, AUX], [("osqp_cold_start, reset_info", API), ("store_solution", AUX)],
 observe=["OSQPInfo, OSQPSolution after every solve of a history"],
 check=dict(bin="history", libs=["bi", "mkl"], level="exploration", technique="exhaustive exploration of all API histories up to a depth on the real code, differential oracle (fresh solver)",
   note="Direct solvers bitwise; the indirect solver keeps its inner iterate and is compared to tolerance."))

prop("C11", "Warm starting starts where the caller says",
 "A warm start with given primal and/or dual vectors makes the next solve begin at exactly that point in the caller's units, whatever the scaling, and leaves the omitted part unchanged; starting at an optimal point terminates with that point at the first check. Disabling warm starting, or a cold start, makes the next solve start from zero.",
 ["inputs", "histories"], "all problems and start vectors of small alphabets, primal/dual/both, with and without scaling, after every short history",
 "Tests warm start once from one optimal point.",
 [API, "src/scaling.c"], [("osqp_warm_start, osqp_cold_start", API)],
 observe=["first iterate after a warm start, iteration count"],
 check=dict(bin="warm", libs=["bi", "mkl"], level="exploration", technique="bounded exhaustive enumeration of start points x problems x histories, one-step reference model",
   note="First iterate compared with an independent dense ADMM step from the requested point."))

prop("C12", "Solvers are independent of one another",
 "Operations on one solver never influence another: for every interleaving of the calls made on two solvers, each behaves exactly as if it were alone, including when the calls run in different threads. After concurrent solves the process's interrupt handler is what it was before, and an interrupt arriving meanwhile stops each solve that is running as it would alone.",
 ["schedules", "histories"], "all interleavings of the API calls of two solvers, and all thread schedules of two solves up to a preemption bound at every interception point",
 "Tests use one solver at a time in one thread; shared mutable state only shows under specific interleavings.",
 [API, "src/interrupt_unix.c", "algebra/builtin/algebra_libs.c", "algebra/mkl/algebra_libs.c"],
 [("per-solver workspace", "include/private/types.h"), ("osqp_start_interrupt_listener/osqp_end_interrupt_listener", "src/interrupt_unix.c")],
 state=[dict(name="int_detected, oact", meaning="process-wide interrupt state", where="src/interrupt_unix.c")],
 observe=["solution, info of each solver; SIGINT disposition"],
 check=dict(bin="isolate", libs=["bi", "mkl"], level="model_checking", technique="stateless model checking of the real code: all call interleavings, and all thread schedules up to a preemption bound under a controlled scheduler",
   note="Scheduling points are the intercepted library calls (allocation, clock, signal, print)."))

prop("C13", "Iteration and time limits are honoured promptly and truthfully",
 "A solve never performs more than the configured number of iterations and, when the clock first passes the time limit at some iteration, it stops at that iteration; the status is then the corresponding limit status (or a verdict whose tolerances the current iterate really meets), with the current iterate returned. The time counted against the limit includes setup for the first solve and updates for later ones, as documented.",
 ["fault_sequences", "inputs"], "the clock passing the limit at every single reading, every iteration limit, every check interval, on first and later solves",
 "Tests set one tiny time limit; real clocks cannot place the expiry at each iteration.",
 [API], [("time limit test in the main loop", API), ("final status after the loop", API), ("osqp_tic/osqp_toc", "src/timing_linux.c")],
 observe=["status, iteration count, solution"],
 check=dict(bin="limits", libs=["bi", "mkl"], level="fault_enumeration", technique="exhaustive enumeration of expiry points under a virtual clock on the real code, model trajectory as oracle",
   note="Clock is owned by the explorer (link-time interposition of clock_gettime)."))

prop("C14", "An interrupt at any point stops the solve cleanly",
 "A SIGINT delivered at any moment while a solve iterates makes that solve end with the interrupted status at the end of the current iteration, returning that iterate (one arriving after the verdict leaves the undisturbed result), and never corrupts the solver: after it, the previous signal disposition is back, the solver can be solved again or cleaned up, and the next solve is unaffected. A SIGINT delivered outside a solve goes to the caller's own handler.",
 ["crash_points", "schedules"], "signal raised at every interception point of every call, every prior disposition",
 "No test delivers a signal at all.",
 ["src/interrupt_unix.c", API], [("osqp_start_interrupt_listener/osqp_is_interrupted/osqp_end_interrupt_listener", "src/interrupt_unix.c"), ("interrupt exit of osqp_solve", API)],
 observe=["status, return code, sigaction(SIGINT), later solves"],
 check=dict(bin="sigint", libs=["bi", "mkl"], level="fault_enumeration", technique="exhaustive enumeration of signal delivery points on the real code",
   note="Signals are raised synchronously at each intercepted call."))

prop("C15", "Step-size adaptation follows the documented rules",
 "The step size stays within its documented limits, is changed during a solve only at iterations allowed by the selected adaptation rule and interval, only when the estimate differs by more than the tolerance factor, and then becomes the documented estimate; equality and unbounded rows keep their documented multiples. The number of updates and final step size are reported, and solutions remain correct after any change of step size by the caller.",
 ["inputs", "configurations", "histories"], "all adaptation modes x intervals x tolerances x fractions over small problems; all elapsed-time patterns for the time-based rule under a virtual clock",
 "Tests run adaptation once with default settings and check only the solution.",
 [AUX, API], [("compute_rho_estimate, adapt_rho, set_rho_vec", AUX), ("adaptive_rho switch in osqp_solve", API)],
 observe=["info->rho_updates, info->rho_estimate, solver->settings->rho after k iterations for all k"],
 check=dict(bin="rho", libs=["bi", "mkl"], level="model_checking", technique="explicit-state model of the adaptation rules checked for conformance on every trajectory of the alphabet; virtual clock for the time rule",
   note="Observes the step size after every iteration count k by re-running with limit k."))

prop("C16", "Polishing only ever improves the answer",
 "When polishing is reported successful, the returned point is the solution of the equality-constrained problem on the guessed active set, with residuals not worse than without polishing, a duality gap no worse or within the tolerances (when that test is enabled), and multipliers of the right sign; when it is reported failed, skipped or not needed, the returned point is exactly the unpolished one. Polishing never changes the status and touches nothing but the solution and its information.",
 ["inputs", "configurations"], BE + "; polishing on vs off twins over regularisation and refinement settings",
 "Tests polish two or three problems and check the solution only.",
 ["src/polish.c", API], [("polish, form_Ared, iterative_refinement", "src/polish.c")],
 observe=["solution, info with polishing on vs. off"],
 check=dict(bin="polish", libs=["bi", "mkl"], level="exploration", technique="bounded exhaustive enumeration with an unpolished twin as oracle",
   note="Differential plus dense KKT evaluation."))

prop("C17", "Internal scaling is invisible",
 "Scaling is an internal device: with any number of scaling iterations the solver reports verdicts, solutions, certificates, residuals and objectives in the caller's units, and these agree with the unscaled solver within tolerance even for badly scaled data. The caller's arrays and the problem solved after updates are unaffected by how often data were scaled and unscaled.",
 ["inputs", "configurations", "histories"], BE + "; scaling 0,1,2,10,25 and power-of-ten rescalings of rows, columns and cost, with update histories",
 "Tests use default scaling on a few well-scaled problems.",
 ["src/scaling.c", AUX, API], [("scale_data/unscale_data/unscale_solution", "src/scaling.c")],
 observe=["solution and info across scaling settings"],
 check=dict(bin="scaling", libs=["bi", "mkl"], level="exploration", technique="bounded exhaustive enumeration with equivalent rescaled problems and unscaled runs as oracle",
   note="Metamorphic and dense oracle."))

prop("C18", "Non-convex problems are recognised, convex ones never rejected",
 "Setup and matrix updates never refuse a convex problem as non-convex. With a direct solver, every problem whose per-iteration quadratic form (cost matrix plus sigma on the diagonal plus the rho-weighted constraint rows) has a clearly negative eigenvalue, in particular every one with clearly negative curvature in a direction no constraint row sees, is refused at setup with the non-convex code and status, and a matrix update leading to such a problem returns an error. A refused solver refuses further calls with the not-initialised code, and after convex values are put back by an update the solver behaves as a freshly set up one. Where a non-convex problem is accepted and a solve ends with the non-convex status, no solution, no certificate and no objective value is given (all are the not-a-number marker).",
 ["inputs", "histories"], "all symmetric integer cost matrices of small size x constraints x regularisation values, at setup and through updates",
 "Tests check one non-convex matrix at two regularisation values.",
 ["algebra/_common/lin_sys/qdldl/qdldl_interface.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c", API],
 [("inertia test after factorisation", "algebra/*/lin_sys")],
 observe=["return code of osqp_setup and osqp_update_data_mat, status"],
 check=dict(bin="noncvx", libs=["bi", "mkl"], level="exploration", technique="bounded exhaustive enumeration of cost matrices with an eigenvalue oracle",
   note="Knife-edge matrices (eigenvalue within rounding of zero) are counted inconclusive."))

prop("C19", "No sequence of API calls corrupts or leaks memory",
 "For every sequence of API calls on a valid solver, no call reads uninitialised or out-of-range memory, frees twice or uses freed memory, and after cleanup everything allocated has been released exactly once. Cleanup accepts a null solver, and null or not-set-up solvers passed to other calls are refused with the not-initialised code.",
 ["histories"], "all API call sequences up to the stated depth, every backend, with poisoned allocations, under address and undefined-behaviour sanitizers",
 "Test sequences are short and fixed and run without sanitizers.",
 [API, "algebra", "src"], [("osqp_cleanup", API), ("vector/matrix allocation", "algebra/*/vector.c, matrix.c")],
 observe=["sanitizer reports, live allocation count, results under different fill patterns"],
 check=dict(bin="memory", libs=["bi", "mkl"], extra_libs=["bi_zero", "mkl_zero"], asan=True, level="exploration", technique="exhaustive exploration of API histories up to a depth on the real code under sanitizers with allocation accounting",
   note="Blocks obtained from MKL and its handles are accounted at its interface; what MKL allocates internally is not."))

prop("C20", "Running out of memory at any allocation is handled",
 "If any single allocation (or every allocation from some point on) fails during setup, solve, polishing, update or code generation, the call returns an error code instead of crashing, and the solver can still be cleaned up without invalid frees. A polishing step cut short this way is reported as failed and leaves the unpolished solution. A failed setup leaves nothing unreclaimable behind.",
 ["fault_sequences"], "failure of each allocation number k, alone and from k on, for every k in every API call",
 "No test makes an allocation fail.",
 [API, "src/polish.c", "algebra"], [("NULL checks after allocation", API), ("osqp_cleanup of partial solvers", API)],
 observe=["return code, crash, live allocation count"],
 check=dict(bin="oom", libs=["bi", "mkl"], asan=True, level="fault_enumeration", technique="exhaustive enumeration of allocation-failure points on the real code",
   note="Allocation failures injected at link-time-interposed malloc/calloc/realloc."))

prop("C21", "The caller's arrays are copied, never kept or modified",
 "Setup, updates, warm starts and derivative calls only read the arrays passed to them during the call: they never write to them and never use them afterwards, so the caller may reuse or free them immediately. Results depend only on the stored values described by the sparse format, not on spare capacity or contents behind it.",
 ["inputs", "histories"], "every API call with every caller array in read-only memory that becomes inaccessible after the call, over all short histories",
 "Tests keep their arrays alive and unmodified, so retention or overrun would go unnoticed.",
 [API, "algebra/builtin/matrix.c", "algebra/mkl/matrix.c"], [("copying in osqp_setup / OSQPMatrix_new_from_csc / OSQPVectorf_new", API)],
 observe=["page protection faults"],
 check=dict(bin="buffers", libs=["bi", "mkl"], level="exploration", technique="exhaustive exploration of API histories with page-protected caller buffers",
   note="Arrays end exactly at an inaccessible page; after each call they are made inaccessible."))

prop("C22", "Every linear-algebra kernel computes its mathematical definition",
 "On every backend each vector and sparse-matrix operation used by the solver returns what its definition prescribes for all operands, including empty vectors and matrices, aliased outputs, special scalars and rows or columns without entries, and modifies nothing but its output.",
 ["inputs", "configurations"], "all operands over small alphabets and sizes 0..3 (all sparsity patterns), all scalar special cases and aliasing patterns, on both backends",
 "The algebra tests use a few stored operands per kernel.",
 ["algebra/builtin/vector.c", "algebra/builtin/matrix.c", "algebra/mkl/vector.c", "algebra/mkl/matrix.c", "algebra/_common/csc_math.c", "algebra/_common/csc_utils.c"],
 [("OSQPVectorf_*, OSQPMatrix_*", "include/private/algebra_*.h")],
 observe=["outputs of each kernel"],
 check=dict(bin="kernels", libs=["bi", "mkl"], level="exploration", technique="bounded exhaustive enumeration of operands with dense reference definitions on both backends",
   note="Entries are small integers, so results are exact."))

prop("C23", "Matrix constructors and query functions tell the truth",
 "The sparse-matrix helpers build valid compressed-column matrices with exactly the requested shape, values and ownership for all sizes; dimensions, version, capability and error-message queries return the documented answers for every argument, including null or failed solvers and unknown codes.",
 ["inputs"], "all shapes up to 4x4, all values of small alphabets, all error codes in and around the valid range",
 "Tests cover a few shapes and codes.",
 [API, "src/error.c"], [("OSQPCscMatrix_*", API), ("osqp_error_message, osqp_get_dimensions, osqp_capabilities", API)],
 observe=["returned structures and strings"],
 check=dict(bin="helpers", libs=["bi", "mkl"], level="exploration", technique="bounded exhaustive enumeration of helper arguments against definitions",
   note=""))

prop("C24", "Generated embedded code solves the same problem the same way",
 "For every problem and settings, the C code generated from a solver compiles stand-alone and its solve gives the same status, iteration count and solution as the library solver on the same data, and, after the vector, matrix or step-size updates its mode supports, the same as the library after those updates. Generation fails cleanly with an error code when the directory cannot be written or the options are invalid.",
 ["programs", "inputs", "histories"], "all problems of a small alphabet x embedded modes x settings; every file-opening failure point",
 "Codegen is not compiled in the tested configuration at all.",
 ["src/codegen.c", API, "algebra/_common/lin_sys/qdldl"], [("codegen_src/codegen_inc/codegen_defines", "src/codegen.c")],
 observe=["generated sources compiled and run, compared with library"],
 check=dict(bin="codegen", libs=["bi"], level="exploration", technique="bounded exhaustive enumeration of generated programs executed against the library",
   note="Builtin backend with the QDLDL stand-in; generated code compiled with gcc as shared objects."))

prop("C25", "Adjoint derivatives are the derivatives of the solution",
 "At every solved strictly complementary problem with a unique solution, the derivatives returned for the cost vector, bounds and matrix entries equal the true directional derivatives of the optimal solution as given by the implicit function theorem and by finite differences. Requests before a successful solve or compute step are refused with an error code.",
 ["inputs"], "all nondegenerate problems of a small alphabet x seeds dx,dy over unit vectors",
 "Derivatives are not compiled in the tested configuration.",
 ["src/derivative.c"], [("adjoint_derivative_compute/get_mat/get_vec", "src/derivative.c")],
 observe=["dP,dq,dA,dl,du"],
 check=dict(bin="deriv", libs=["bi"], level="exploration", technique="bounded exhaustive enumeration of problems x seeds against an exact sensitivity oracle",
   note="Degenerate (non strictly complementary or non unique) problems are skipped and counted."))

prop("C26", "Reported times account for exactly the documented work",
 "The reported setup, update, solve and polish times are the clock time spent in those phases of the current call sequence, and the total is setup plus solve plus polish for the first solve and update plus solve plus polish afterwards; nothing is counted twice or carried over from an earlier solve. All are nonnegative and consistent for every sequence of calls.",
 ["histories"], "all API call sequences up to the stated depth under a virtual clock that advances a known amount per reading",
 "Real clocks give no reference; tests only check that times are positive.",
 [API, "src/timing_linux.c"], [("osqp_tic/osqp_toc", "src/timing_linux.c"), ("update_time/clear_update_time/first_run", API)],
 observe=["info->setup_time, update_time, solve_time, polish_time, run_time"],
 check=dict(bin="times", libs=["bi", "mkl"], level="exploration", technique="exhaustive exploration of API histories under a virtual clock with an accounting model",
   note=""))

prop("C27", "Verbosity never changes results, and silence is silent",
 "Turning printing on or off changes nothing but what is printed: status, iterates, information and later behaviour are bit-identical with a direct solver. With printing off, calls that succeed print nothing.",
 ["configurations", "histories"], "verbose/silent twins over all histories up to the stated depth and all problems of small alphabets; all exits",
 "Tests run with one verbosity and never compare.",
 [API, "src/util.c", "src/polish.c"], [("can_print logic in osqp_solve", API), ("print_summary etc.", "src/util.c")],
 observe=["twin comparison; captured output"],
 check=dict(bin="verbose", libs=["bi", "mkl"], level="exploration", technique="exhaustive exploration of histories with verbose/silent twins on the real code",
   note="Printing captured by link-time interposition."))

prop("C28", "The factorised system always tracks the current data",
 "After setup and after any sequence of value updates of the cost or constraint matrix (full, partial, any index order, repeated indices) and of the step size, the direct linear solver solves exactly the linear system of the current data, regularisation and step sizes, for every right-hand side, sparsity pattern and backend. The same holds for the regularised system used by polishing and for the iterative solver within its tolerance.",
 ["histories", "inputs"], "all sparsity patterns of small matrices x all update sequences up to a depth x unit right-hand sides, direct and indirect solvers of both backends",
 "Tests solve one stored system and update it once or twice.",
 ["algebra/_common/kkt.c", "algebra/_common/lin_sys/qdldl/qdldl_interface.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c"],
 [("form_KKT, update_KKT_P, update_KKT_A, update_KKT_param2", "algebra/_common/kkt.c"), ("permutation of index maps", "algebra/_common/lin_sys/qdldl/qdldl_interface.c")],
 observe=["solutions of the internal linear solver through its function table"],
 check=dict(bin="linsys", libs=["bi", "mkl"], level="model_checking", technique="explicit-state exploration of all data-update sequences of the internal linear solver against a dense reference state",
   note="Drives the internal linear-solver interface (names in include/private/lin_alg.h)."))

prop("C30", "Every build configuration behaves like the default one",
 "Every supported build configuration compiles: 32-bit or 64-bit indices, single precision, packed settings, debug, and printing, profiling, interrupts, derivatives or code generation disabled, alone and together. Builds with the same number type accept and reject the same inputs and give bit for bit the same results, statuses, iteration counts, settings and printed text as the default build for every call history that does not depend on time; a disabled feature reports that it is not implemented and leaves the rest unchanged; capabilities tell what was built. Builds given custom memory and printing functions use only those. Single precision builds return the same error codes, never contradict a verdict of the double precision build on problems whose linear systems are well conditioned, and what they report as solved meets the tolerances up to rounding.",
 ["configurations", "inputs", "histories"], "all listed build variants x all call histories up to a depth x settings x problems of small alphabets",
 "Only one configuration (MKL, double, 64-bit, all features) is built and tested.",
 ["CMakeLists.txt", "include/public/osqp_api_types.h", "include/public/osqp_api_constants.h", "include/private/glob_opts.h", "include/private/printing.h", "src", "algebra"], [("conditional compilation", "src, algebra")],
 observe=["return codes, info, solution, settings, printed text, memory and printing calls per build variant"],
 check=dict(bin="builds", libs=["bi", "mkl"], opt_libs=["bi_int", "bi_pack", "bi_debug", "bi_custom", "bi_nointr", "bi_noderiv", "bi_nogen", "bi_noprof", "bi_noprint", "bi_bare", "bi_intbare", "mkl_int", "mkl_bare", "mkl_custom", "bi_f32", "bi_f32long"], level="exploration", technique="bounded exhaustive exploration of call histories and problems on every build variant, each in its own process, with the default build as oracle",
   note="Variants are built from the working tree by the repository's own CMake."))

def main():
    built = {f[:-4] for f in os.listdir(os.path.join(V, "harness")) if f.endswith(".cpp")}
    built |= {f[:-3] for f in os.listdir(os.path.join(V, "harness")) if f.endswith(".py")}
    claimed, na, reg = [], [], {}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            if p["state"]: o["anchors"]["state"] = list(p["state"])
            if p["observe"]: o["anchors"]["observe_at"] = list(p["observe"])
            f.write(json.dumps(o) + "\n")
            c = p["check"]
            if c["bin"] in built and not c.get("off"):
                claimed.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                    thorough_cmd="python3 check.py %s thorough" % p["id"], technique="model checking: " + c["technique"],
                    level=c["level"], level_note=c["note"] or "Exhaustive within the stated bounds."))
                reg[p["id"]] = dict(bin=c["bin"], libs=c["libs"] + c.get("extra_libs", []), asan=c.get("asan", False), **({"opt_libs": c["opt_libs"]} if "opt_libs" in c else {}))
            else:
                na.append(dict(property=p["id"], reason=c.get("off") or "check not built yet"))
    m = dict(version=1, setup_cmd="python3 tools/build.py lib bi mkl bi_asan mkl_asan bi_zero mkl_zero && python3 tools/build.py bins",
             hooks=dict(guard="OSQP_VERIF", enable="not needed: no hooks were added to /repo; the checks interpose the environment at link time (see shim/)", source_commits=[]),
             checks=claimed, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    json.dump(reg, open(os.path.join(V, "tools", "checks.json"), "w"), indent=1)
    print(len(P), "properties,", len(claimed), "claimed")
main()
