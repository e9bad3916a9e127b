#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed; this file is their source)."""
import json, os
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
O = "src/Optimization/"; L = "src/LinAlg/"; I = "src/Interface/"; U = "src/Utils/"
RES = []
def prop(id, title, st, over, q, why, files, mech, obs=None):
    assert len(title) <= 80, title
    RES.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs or [])))

prop("P01", "A reported optimum satisfies the optimality conditions of the user's problem",
 "When a solve returns a success status, the returned primal point is feasible for the user's bounds and constraints and, with the returned bound and constraint multipliers in the user's sign and scale convention, satisfies stationarity, multiplier signs and complementarity up to the tolerance options the user gave. The returned objective is the user's objective at the returned point.",
 ["inputs", "configurations"],
 "every well-posed problem (convex and nonconvex, any mix of free, one-sided, two-sided and fixed variables, equalities, one- and two-sided inequalities, none of either), both problem formulations, and every combination of algorithm options",
 "the existing tests compare a final objective on a few fixed problems; they check neither multipliers nor feasibility, and only default-like option sets",
 [O+"hiopAlgFilterIPM.cpp", O+"hiopNlpFormulation.cpp", O+"hiopResidual.cpp", O+"hiopIterate.cpp"],
 [("error measures and termination test", O+"hiopAlgFilterIPM.cpp evalNlpAndLogErrors/checkTermination"), ("residual", O+"hiopResidual.cpp update"), ("back-transformation of solution and multipliers", O+"hiopNlpFormulation.cpp get_dual_solutions/user_callback_solution")],
 ["return status", "solution getters", "solution callback"])
prop("P02", "User functions are evaluated only at points inside the bounds",
 "After the starting point has been made interior, every point at which the solver calls the user's functions, every iterate it reports and the solution it returns lies within the variable bounds, enlarged by no more than the documented bound relaxation. The slack variables it reports stay inside the (relaxed) constraint bounds in the same way.",
 ["inputs", "histories"],
 "every problem, option set and iteration, including steps taken by the line search, second-order corrections and feasibility restoration",
 "no test looks at the points at which the callbacks are invoked",
 [O+"hiopAlgFilterIPM.cpp", O+"hiopIterate.cpp", O+"hiopNlpFormulation.cpp"],
 [("fraction-to-the-boundary rule", O+"hiopIterate.cpp fractionToTheBdry"), ("projection into the bounds", O+"hiopVectorPar projectIntoBounds_local"), ("bound relaxation", O+"hiopNlpFormulation.cpp process_bounds/relax_bounds")],
 ["every user callback", "iterate callback"])
prop("P03", "The reported termination status is true and reached in bounded work",
 "A solve always ends, within its iteration limit, with a status that describes what happened: the iteration limit is reported only when it was reached, a user stop only when the user asked for one, success and acceptable-level success only when the corresponding tolerances are met. A strictly convex, strictly feasible, well-scaled problem is solved to success, or to the limit of rounding, in a bounded number of iterations, and a problem without feasible points is never reported as solved.",
 ["inputs", "configurations", "histories"],
 "every problem family (feasible, infeasible, degenerate), tolerance and iteration-limit setting, and user-stop iteration",
 "tests run feasible problems with default limits to success only",
 [O+"hiopAlgFilterIPM.cpp"],
 [("termination test", O+"hiopAlgFilterIPM.cpp checkTermination"), ("main loops", O+"hiopAlgFilterIPM.cpp run"), ("feasibility restoration", O+"hiopAlgFilterIPM.cpp apply_feasibility_restoration")],
 ["return status", "iterate callback", "number of iterations"])
prop("P04", "A failing user evaluation ends the solve with an error status, never a crash",
 "If any user callback reports failure at any point of a solve, the solve returns the user-function error status (or recovers where documented), never reports success based on the failed evaluation, does not abort the process and does not read memory it does not own. The solver object can be destroyed, or used again, afterwards.",
 ["fault_sequences"],
 "every callback and every index of its invocation within the solve, one or several failures, both formulations",
 "no test makes a callback fail",
 [O+"hiopAlgFilterIPM.cpp", O+"hiopNlpFormulation.cpp"],
 [("propagation of evaluation failures", O+"hiopAlgFilterIPM.cpp evalNlp*, run, startingProcedure")],
 ["return status", "process exit"])
prop("P05", "Each interior-point iteration keeps its invariants and reports true measures",
 "Along a solve, iterations are numbered consecutively, the barrier parameter never increases outside restoration and stays positive, the step lengths lie in (0,1], all slacks and bound multipliers stay strictly positive where a bound exists and zero elsewhere, steps respect the fraction-to-the-boundary rule, and bound multipliers stay within the documented neighbourhood of mu over slack. The infeasibility measures reported to the user equal those recomputed from the reported iterate.",
 ["inputs", "histories", "configurations"],
 "every iteration of every solve, for both formulations and all option combinations",
 "tests observe only the final objective",
 [O+"hiopAlgFilterIPM.cpp", O+"hiopIterate.cpp", O+"hiopDualsUpdater.cpp", O+"hiopResidual.cpp"],
 [("fraction to the boundary", O+"hiopIterate.cpp"), ("barrier update", O+"hiopAlgFilterIPM.cpp update_log_barrier_params"), ("multiplier safeguard", O+"hiopIterate.cpp adjustDuals_primalLogHessian"), ("multiplier update", O+"hiopDualsUpdater.cpp")],
 ["iterate callback", "iterates of the solver"])
prop("P06", "Accepted steps satisfy the documented filter line-search rules",
 "Every trial step the line search accepts either gives sufficient decrease of infeasibility or barrier objective relative to the current point, or satisfies the Armijo condition when the switching condition holds, and is acceptable to the filter; the filter rejects exactly the points dominated by one of its entries and is augmented exactly when documented. The filter is emptied when the barrier parameter changes.",
 ["inputs", "histories"],
 "all iterates of all solves; all sequences of filter insertions and queries",
 "the acceptance rules are never checked by a test; a wrong rule usually still converges on easy problems",
 [O+"hiopAlgFilterIPM.cpp", O+"hiopFilter.cpp", O+"hiopLogBarProblem.hpp"],
 [("acceptance test", O+"hiopAlgFilterIPM.cpp accept_line_search_conditions"), ("filter", O+"hiopFilter.cpp"), ("barrier objective", O+"hiopLogBarProblem.hpp")],
 ["iterate callback"])
prop("P07", "The search direction solves the regularised optimality system",
 "At every iteration, the primal-dual direction the solver moves along satisfies all blocks of the linearised optimality conditions at the current iterate for the regularisation the solver chose, to the accuracy the step computation promises. This holds for each linear-solver and factorisation-acceptance option and for the quasi-Newton and the Newton variants.",
 ["inputs", "configurations", "histories"],
 "every iterate with mixed bounds and constraints, every regularisation and every linear-system formulation available without accelerators",
 "tests check only that the algorithm converges, which wrong directions often do not prevent",
 [O+"hiopKKTLinSys.cpp", O+"hiopKKTLinSysMDS.cpp", O+"hiopKKTLinSysDense.hpp", O+"hiopHessianLowRank.cpp"],
 [("reduction and back-substitution", O+"hiopKKTLinSys.cpp computeDirections"), ("iterative refinement", O+"hiopKKTLinSys.cpp compute_directions_w_IR"), ("assembly", O+"hiopKKTLinSysMDS.cpp build_kkt_matrix")],
 ["direction at the iterate callback"])
prop("P08", "Equivalent formulations of one problem give the same answer",
 "The solution, objective and multipliers do not depend on how a problem is presented: constraint functions evaluated together or separately, dense or mixed dense-sparse formulation, the order of constraints, equivalent Jacobian sparsity layouts (including explicit zeros), or scaling of the problem on or off.",
 ["inputs", "configurations"],
 "all problems with a unique solution and every presentation of them",
 "each test uses one presentation and one order",
 [O+"hiopNlpFormulation.cpp", O+"hiopNlpTransforms.cpp", I+"hiopInterface.hpp"],
 [("split of constraints", O+"hiopNlpFormulation.cpp process_constraints/eval_c_d/eval_Jac_c_d"), ("scaling", O+"hiopNlpTransforms.cpp")],
 ["solution getters"])
prop("P09", "What is delivered by callbacks and getters agrees and is in user order",
 "The final-solution callback, the solution and multiplier getters and the last iterate callback agree with each other; all vectors have the user's dimensions and the user's ordering of variables and constraints, constraint values equal the user's functions at the reported point, and asking twice gives the same answer.",
 ["inputs", "configurations"],
 "all problems with arbitrarily interleaved equalities and inequalities, fixed variables, scaling, and every ending of the solve",
 "tests read the objective only",
 [O+"hiopNlpFormulation.cpp", O+"hiopAlgFilterIPM.cpp", O+"hiopNlpTransforms.cpp"],
 [("ordering of constraints", O+"hiopNlpFormulation.cpp copy_EqIneq_to_cons/user_callback_*"), ("getters", O+"hiopAlgFilterIPM.cpp getSolution/get_dual_solutions")],
 ["callbacks", "getters"])
prop("P10", "User callbacks are invoked according to the documented protocol",
 "The solver tells the user's code truthfully whether the point of evaluation is new, passes dimensions, index sets and arrays that match the problem, requests the sparsity pattern of the derivatives as documented, and never modifies the point or multipliers between evaluations that claim the same point. The evaluation counts it reports equal the calls it made.",
 ["histories", "inputs"],
 "all call sequences the solver can produce, with user code that caches results whenever the point is declared old",
 "the example problems ignore the new-point flag",
 [O+"hiopNlpFormulation.cpp", O+"hiopAlgFilterIPM.cpp", I+"hiopInterface.hpp"],
 [("evaluation layer", O+"hiopNlpFormulation.cpp eval_*"), ("order of evaluations in an iteration", O+"hiopAlgFilterIPM.cpp evalNlp*")],
 ["every user callback"])
prop("P11", "Fixed variables are treated as fixed",
 "A variable whose bounds coincide keeps that value (exactly when removed, up to the relaxation otherwise) in every evaluation and in the solution, whichever treatment of fixed variables is chosen, and the optimum equals that of the problem with the variable substituted. Without a treatment, the solver refuses the problem instead of producing a wrong answer.",
 ["inputs", "configurations"],
 "any number and position of fixed variables, both treatments, tolerances for fixedness, both formulations",
 "only one dense example has fixed variables",
 [O+"hiopNlpTransforms.cpp", O+"hiopNlpFormulation.cpp"],
 [("removal", O+"hiopNlpTransforms.cpp hiopFixedVarsRemover"), ("relaxation", O+"hiopNlpTransforms.cpp hiopFixedVarsRelaxer")],
 ["every user callback", "solution getters"])
prop("P12", "Starting and warm-start information is used faithfully",
 "A user-supplied starting point, with or without multipliers or slacks, is used after only the documented projection into the interior of the bounds; missing information is initialised by the documented defaults. Restarting from the reported optimal primal-dual point with a small initial barrier parameter converges to the same optimum.",
 ["inputs", "configurations"],
 "arbitrary (also infeasible or boundary) starting points and multipliers, all start options",
 "tests use the default starting point of the examples",
 [O+"hiopNlpFormulation.cpp", O+"hiopAlgFilterIPM.cpp"],
 [("starting procedure", O+"hiopAlgFilterIPM.cpp startingProcedure"), ("starting point queries", O+"hiopNlpFormulation.cpp get_starting_point/get_warmstart_point"), ("projection", L+"hiopVectorPar.cpp projectIntoBounds_local")],
 ["first iterate", "solution getters"])
prop("P13", "Solves are deterministic, repeatable and independent of each other",
 "Solving the same problem twice, on one solver object or on two, in one process or with other solver instances alive or interleaved, gives the same sequence of iterates and the same answer. No solve changes options, problem data or results of another.",
 ["histories", "programs"],
 "every program that creates, runs, re-runs and destroys solver objects in any order",
 "each test runs one solver once per process",
 [O+"hiopAlgFilterIPM.cpp", O+"hiopNlpFormulation.cpp", U+"hiopOptions.cpp"],
 [("re-initialisation", O+"hiopAlgFilterIPM.cpp reInitializeNlpObjects/run/resetSolverState"), ("finalisation of the formulation", O+"hiopNlpFormulation.cpp finalizeInitialization")],
 ["iterate callbacks", "solution getters"])
prop("P14", "Options take effect exactly as set, with documented ranges and precedence",
 "An option accepts exactly the values of its declared type, range or choices; any other value leaves it unchanged with a warning, values from the options file take precedence over values set by the program, and the value read back is the one in effect. Options that depend on each other are made consistent in the documented way.",
 ["inputs", "programs", "configurations"],
 "all option names, arbitrary values of right and wrong type, any order of setting, arbitrary options-file contents",
 "no test covers rejected values, precedence or malformed files",
 [U+"hiopOptions.cpp", U+"hiopOptions.hpp"],
 [("registration and range checks", U+"hiopOptions.cpp register_*/set_val"), ("file loading", U+"hiopOptions.cpp load_from_file"), ("consistency", U+"hiopOptions.cpp ensure_consistence")],
 ["option getters"])
prop("P15", "Vector operations compute what they state on serial and compound vectors",
 "Every vector operation (arithmetic, reductions, masked and bound-related operations, copies between sub-ranges, projections and step-length rules) gives the mathematically stated result for every content and pattern, leaves its inputs and unselected elements untouched, and behaves identically on a plain vector and on the same content split over a compound vector.",
 ["inputs", "programs"],
 "all sizes including empty, all values including zeros, infinities of the bound convention and signed values, all patterns, and sequences of operations",
 "the unit tests use constant-filled vectors of one size and a few patterns",
 [L+"hiopVectorPar.cpp", L+"hiopVectorCompoundPD.cpp", L+"hiopVectorIntSeq.cpp"],
 [("vector kernels", L+"hiopVectorPar.cpp"), ("compound vectors", L+"hiopVectorCompoundPD.cpp")],
 ["results of the vector operations"])
prop("P16", "Distributed vectors and matrices behave as their sequential counterparts",
 "For any partition of the columns over any number of ranks, including empty parts, distributed vectors and column-distributed matrices give on every rank the results of the same operation on the undivided data, and all ranks obtain the same scalars.",
 ["inputs", "schedules", "configurations"],
 "all partitions, rank counts and contents",
 "tests use equal partitions with constant content",
 [L+"hiopVectorPar.cpp", L+"hiopMatrixDenseRowMajor.cpp"],
 [("reductions over ranks", L+"hiopVectorPar.cpp dotProductWith/..."), ("distributed products", L+"hiopMatrixDenseRowMajor.cpp")],
 ["results on every rank"])
prop("P17", "Dense matrix operations compute what they state",
 "Every dense matrix operation (products, scaling, sub-block copies and additions, appends and shifts of rows, norms, symmetric updates) gives the stated result for every shape and content and changes nothing else.",
 ["inputs", "programs"],
 "all shapes including empty and one-row, all offsets, alpha and beta including 0 and 1, and sequences of operations",
 "the unit tests use constant matrices where index mistakes do not show",
 [L+"hiopMatrixDenseRowMajor.cpp"],
 [("dense kernels", L+"hiopMatrixDenseRowMajor.cpp")],
 ["results of the matrix operations"])
prop("P18", "Triplet sparse matrix operations agree with dense arithmetic",
 "Every operation on general and symmetric sparse matrices in triplet form equals the same operation on the dense matrix they represent, for every sparsity pattern including empty rows, empty matrices and explicit zeros, at every offset of the target block.",
 ["inputs", "programs"],
 "all sorted sparsity patterns, values, shapes, offsets and diagonal weights",
 "the unit tests use one regular pattern with constant values",
 [L+"hiopMatrixSparseTriplet.cpp"],
 [("triplet kernels", L+"hiopMatrixSparseTriplet.cpp")],
 ["results of the matrix operations"])
prop("P19", "Compressed-row sparse matrix operations agree with dense arithmetic",
 "Conversions to compressed rows, symbolic and numeric products with diagonal scaling, transposition, sums and diagonal updates equal the dense computation for every sparsity pattern, keep column indices sorted and unique, and can be repeated numerically for new values on the same pattern.",
 ["inputs", "programs"],
 "all patterns including empty rows and columns, all values and repeated numeric phases",
 "the unit tests cover a few small fixed patterns",
 [L+"hiopMatrixSparseCSRSeq.cpp"],
 [("compressed-row kernels", L+"hiopMatrixSparseCSRSeq.cpp")],
 ["results of the matrix operations"])
prop("P20", "Mixed dense-sparse matrices act as the one matrix they represent",
 "A matrix split into a sparse and a dense block, rectangular or symmetric, behaves in every operation as the single dense matrix it represents: products with vectors, assembly of the blocks of a linear system, norms, scaling and shifts.",
 ["inputs", "programs"],
 "all block sizes including empty sparse or dense part, all patterns and values",
 "only a handful of constant-valued cases are tested",
 [L+"hiopMatrixMDS.hpp", L+"hiopMatrixMDS.cpp"],
 [("block dispatch", L+"hiopMatrixMDS.hpp")],
 ["results of the matrix operations"])
prop("P21", "Network reduction and complex linear algebra are exact",
 "Complex sparse and dense matrix operations, the sparse complex direct solver and the reduction of an admittance matrix onto a subset of buses give the mathematically exact result (Schur complement, conjugation and transposition rules included) for every invertible input, and failure of a factorisation is reported.",
 ["inputs", "programs"],
 "all patterns, sizes, bus selections and complex values; repeated use of one reduction object",
 "one fixed network file is tested",
 [U+"hiopKronReduction.cpp", L+"hiopMatrixComplexSparseTriplet.cpp", L+"hiopMatrixComplexDense.cpp", L+"hiopLinSolverUMFPACKZ.cpp"],
 [("reduction", U+"hiopKronReduction.cpp"), ("sub-matrix extraction", L+"hiopMatrixComplexSparseTriplet.cpp"), ("direct solver", L+"hiopLinSolverUMFPACKZ.cpp")],
 ["results"])
prop("P22", "Krylov solvers tell the truth about convergence",
 "When an iterative linear solver reports success, the returned vector satisfies the requested residual tolerance, the reported iteration count and residual are those of the returned vector, and on symmetric positive definite (respectively nonsingular) well-conditioned systems it does converge; otherwise it reports failure. Preconditioner, starting point and repeated use do not change the truth of the report.",
 ["inputs", "configurations", "histories"],
 "all systems (definite, indefinite, nonsymmetric, singular), preconditioners, tolerances, iteration limits and starting points",
 "one fixed system per solver is tested",
 [L+"hiopKrylovSolver.cpp"],
 [("CG and BiCGStab", L+"hiopKrylovSolver.cpp")],
 ["solver result and report"])
prop("P23", "The dense symmetric solver solves the system and counts inertia correctly",
 "For every nonsingular symmetric matrix the dense direct solver returns the solution, and the number of negative eigenvalues it reports is the true one; a singular matrix is reported as such. Refactorising new values on the same object is independent of earlier ones.",
 ["inputs", "histories"],
 "all symmetric matrices with pivots of either block size, any inertia, repeated factorisations",
 "no test looks at the reported inertia",
 [L+"hiopLinSolverSymDenseLapack.hpp"],
 [("pivot-block inertia count", L+"hiopLinSolverSymDenseLapack.hpp matrixChanged")],
 ["solver result"])
prop("P24", "The limited-memory Hessian equals its defining quasi-Newton update",
 "After any sequence of accepted steps the limited-memory Hessian approximation acts, in products, in solves with added diagonal and in reduced-system products, as the dense secant-update matrix built from the retained step pairs and current initial scaling; pairs are skipped and dropped as documented, the memory length is respected and the approximation stays positive definite.",
 ["inputs", "histories", "configurations"],
 "all sequences of iterates including curvature-violating ones, all memory lengths, all scaling strategies",
 "it is exercised only indirectly, and the algorithm tolerates wrong approximations",
 [O+"hiopHessianLowRank.cpp"],
 [("update", O+"hiopHessianLowRank.cpp update"), ("compact representation", O+"hiopHessianLowRank.cpp updateInternalBFGSRepresentation/solve/symMatTimesInverseTimesMatTrans")],
 ["products and solves"])
prop("P25", "A distributed solve gives the same result on any number of ranks",
 "A dense problem with its variables distributed over any number of ranks, with any partition, follows the same iterates as on one rank up to rounding, all ranks return the same status and multipliers, and no rank waits forever.",
 ["schedules", "configurations", "inputs"],
 "all rank counts, partitions (including ranks without variables where allowed), problem families and option sets",
 "only a single objective with fixed rank counts is compared",
 [O+"hiopAlgFilterIPM.cpp", O+"hiopNlpFormulation.cpp", O+"hiopHessianLowRank.cpp", L+"hiopVectorPar.cpp"],
 [("collective reductions", O+"hiopNlpFormulation.cpp; "+L+"hiopVectorPar.cpp")],
 ["iterate callback and return status on every rank"])
prop("P26", "Primal decomposition evaluates every recourse term exactly once per iteration",
 "In the two-stage decomposition solver, each recourse function is evaluated exactly once at each master iterate, at the current master solution, with its value, gradient and curvature accumulated exactly once; the result does not depend on the number of ranks or on the arrival order of the evaluations, and the run terminates with a true status.",
 ["schedules", "configurations", "inputs"],
 "all numbers of recourse terms and ranks, arbitrary evaluation durations and orders, failing evaluations",
 "one example with a fixed objective is run, with no delays and no check of what was evaluated",
 [O+"hiopAlgPrimalDecomp.cpp", I+"hiopInterfacePrimalDecomp.cpp"],
 [("work distribution", O+"hiopAlgPrimalDecomp.cpp run"), ("quadratic model", O+"hiopAlgPrimalDecomp.cpp HessianApprox")],
 ["master and recourse callbacks", "return status", "MPI messages"])
prop("P27", "No memory error, undefined behaviour or leak in any run of the library",
 "No sequence of public API calls, with whatever problem and options, reads or writes outside the memory it owns, uses uninitialised or freed memory, executes undefined behaviour, or leaks memory once its objects are destroyed.",
 ["inputs", "programs", "configurations", "fault_sequences"],
 "all workloads of all other properties, run under the memory and undefined-behaviour monitors, including error paths and re-runs",
 "tests are not run under sanitizers and exercise no error path",
 ["src"],
 [("ownership of work arrays", O+"hiopAlgFilterIPM.cpp dealloc_alg_objects, "+O+"hiopNlpFormulation.cpp"), ("memory back end", "src/ExecBackends/MemBackendCppImpl.hpp")],
 ["sanitizer reports"])
prop("P28", "The C and Fortran interfaces give the results of the C++ interface",
 "A problem posed through the C or the Fortran-style interface is evaluated and solved as the same problem posed through the C++ interface: same callbacks, options, status, objective and solution, for any sequence of create, set, solve and destroy calls.",
 ["inputs", "programs"],
 "all problems expressible in the C interfaces and several problem objects alive at a time",
 "one hard-wired example is run",
 [I+"chiopInterface.cpp", I+"chiopInterface.hpp", I+"hiopFortranInterface.c"],
 [("adapters", I+"chiopInterface.hpp; "+I+"hiopFortranInterface.c")],
 ["C API results"])
prop("P29", "Moving limits, elastic mode and restoration stay within what they promise",
 "With moving limits set, no accepted step changes a variable by more than the limit; with elastic mode, the bounds used are never tighter than the user's, shrink monotonically back towards them and end within the final relaxation; after feasibility restoration the solver continues from a point acceptable to its filter whose infeasibility is reduced by the required factor (or, for the quick variant tried first, its optimality error), or says that it failed.",
 ["inputs", "histories", "configurations"],
 "all problems that need restoration, all elastic-mode and moving-limit settings",
 "one elastic-mode example is run; moving limits are never tested",
 [O+"hiopAlgFilterIPM.cpp", O+"hiopFRProb.cpp", O+"hiopNlpFormulation.cpp"],
 [("moving limits", O+"hiopAlgFilterIPM.cpp ensure_moving_lims"), ("elastic bounds", O+"hiopNlpFormulation.cpp reset_bounds"), ("restoration", O+"hiopAlgFilterIPM.cpp apply_feasibility_restoration; "+O+"hiopFRProb.cpp")],
 ["iterate callback"])
prop("P30", "Regularisation follows its documented schedule and yields correct inertia",
 "Whenever the linear system is accepted, its inertia is the one required for a descent direction (or the curvature test that replaces it holds); the primal and dual regularisations are zero unless needed and otherwise follow the documented initial values, growth and decay factors and limits, and exceeding the limit is reported as failure.",
 ["inputs", "histories", "configurations"],
 "every sequence of inertia outcomes (correct, wrong, singular), barrier parameter values and regularisation options",
 "wrong schedules still converge on the tested problems",
 [O+"hiopPDPerturbation.cpp", O+"hiopFactAcceptor.cpp", O+"hiopKKTLinSys.cpp"],
 [("schedule", O+"hiopPDPerturbation.cpp"), ("acceptance of a factorisation", O+"hiopFactAcceptor.cpp")],
 ["regularisation values", "factorised matrix"])
prop("P31", "Text output obeys verbosity and reports the truth",
 "Messages appear exactly when the verbosity level admits them, the iteration log shows the values of the iterates in order, and vectors, matrices and linear systems written to files can be read back to the values in memory. Statistics counters never go backwards and count what happened.",
 ["configurations", "inputs"],
 "all verbosity levels, all sizes and all solves",
 "the output is never inspected",
 [U+"hiopLogger.cpp", U+"hiopRunStats.hpp", U+"hiopCSR_IO.hpp"],
 [("verbosity filter", U+"hiopLogger.cpp"), ("iteration log", O+"hiopAlgFilterIPM.cpp outputIteration"), ("matrix files", U+"hiopCSR_IO.hpp")],
 ["standard output", "files"])

NOT_APPLICABLE = {}
NOTE = {}
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in RES:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in RES:
        id = p["id"]
        if id in PROPS:
            P = PROPS[id]
            checks.append(dict(property=id, quick_cmd=f"python3 check.py {id} quick", thorough_cmd=f"python3 check.py {id} thorough",
                               evidence_file=f"evidence/{id}.json", technique=P.get("technique", "online monitor with reference oracle under ASan/UBSan, random workloads"),
                               level=P.get("level", "exploration"), level_note=P.get("note", "Random exploration; what was observed is counted in the evidence file. Trusts the reference oracle in the harness and the compiler's sanitizers.")))
        else:
            na.append(dict(property=id, reason=NOT_APPLICABLE.get(id, "not built yet")))
    m = dict(version=1, setup_cmd="python3 check.py setup",
             hooks=dict(guard="none", enable="no hooks in /repo: monitors attach through callbacks, getters and link-time or derived-class interposition", source_commits=[]),
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__":
    main()
