"""Registry: which monitors decide which property, and how much of them is run."""
INCONCLUSIVE_MAX = 3
PROPS = {}
def P(pid, **kw):
    PROPS[pid] = kw
def J(h, mode, quick, thorough, **kw):
    return dict(h=h, mode=mode, quick=quick, thorough=thorough, **kw)

P("P15", rule="random programs of vector operations on the real vectors and on plain reference arrays; one evaluation per operation, distinct by (program prefix, resulting content), non-trivial if the vector is non-empty",
  jobs=[J("h_vec", "serial", 4000, 60000), J("h_vec", "compound", 1500, 20000)],
  need={"op:adjustDuals_plh": 50})
P("P16", rule="as for the serial vectors, with random (also empty) partitions over 2-4 MPI ranks",
  jobs=[J("h_vec", "dist", 400, 4000, np=2), J("h_vec", "dist", 300, 4000, np=3), J("h_vec", "dist", 300, 3000, np=4),
        J("h_mat", "dist", 400, 4000, np=2), J("h_mat", "dist", 300, 4000, np=3), J("h_mat", "dist", 300, 3000, np=4)])

NLPRULE = "one evaluation per monitored iteration of a solve of a randomly generated problem under random options; distinct by iterate content, non-trivial if the problem has a bound or constraint"
def nlp(c, g, t=12, extra=()):
    js = []
    for m, n in (("conv_qn", c), ("conv_nw", c), ("gen_qn", g), ("gen_nw", g), ("wild_qn", 2 * g), ("wild_nw", 2 * g), ("conv_qn_x", c), ("conv_nw_x", c), ("gen_qn_x", 2 * g), ("gen_nw_x", 2 * g), ("wild_qn_x", 2 * g), ("wild_nw_x", 2 * g)):
        js.append(J("h_nlp", m, n, n * t, hang=200))
    return js + list(extra)
for _id in ("P01", "P02", "P03", "P05", "P06", "P07", "P09", "P10"):
    P(_id, rule=NLPRULE, jobs=nlp(200, 80), need={"iterate_callbacks_checked": 500, "directions_checked": 500})

MATRULE = "random operands (dimensions, patterns, values, empty ones included); one evaluation per operation against naive arithmetic; distinct by (operation, result), non-trivial if the result is non-empty"
P("P17", rule=MATRULE, jobs=[J("h_mat", "dense", 10000, 40000), J("h_mat", "dense", 2000, 20000, variant="plain")])
P("P18", rule=MATRULE, jobs=[J("h_mat", "triplet", 10000, 40000), J("h_mat", "triplet", 2000, 20000, variant="plain")])
P("P19", rule=MATRULE, jobs=[J("h_mat", "csr", 10000, 40000), J("h_mat", "chain", 4000, 15000), J("h_mat", "csr", 2000, 20000, variant="plain")])
P("P20", rule=MATRULE, jobs=[J("h_mat", "mds", 10000, 40000), J("h_mat", "mds", 2000, 20000, variant="plain")])
P("P21", rule=MATRULE, jobs=[J("h_cplx", "mat", 6000, 60000, leaks=1), J("h_cplx", "solve", 2000, 20000, leaks=1), J("h_cplx", "kron", 2000, 20000, leaks=1)],
  need={"singular_reductions": 50})

LINRULE = "random operators, right-hand sides, tolerances and starting points (singular, indefinite, badly scaled ones included); one evaluation per solve or product judged against a direct computation; distinct by result"
P("P22", rule=LINRULE, jobs=[J("h_lin", "krylov", 8000, 80000)])
P("P23", rule=LINRULE, jobs=[J("h_lin", "lapack", 8000, 80000)])
P("P24", rule=LINRULE, jobs=[J("h_lin", "lowrank", 4000, 40000), J("h_lin", "lowrank", 400, 4000, np=2), J("h_lin", "lowrank", 300, 3000, np=3)])
P("P30", rule="random sequences of regularisation requests against a reference of the documented schedule, and every factorisation of monitored solves; distinct by (history, values)",
  jobs=[J("h_lin", "pdreg", 10000, 100000), J("h_nlp", "conv_nw", 200, 2400, hang=200), J("h_nlp", "gen_nw", 150, 2000, hang=200)])

P("P14", rule="random sequences of settings (right and wrong type, at and beyond the limits, unknown names, NaN) and random options files against a model of the documented ranges, precedence and consistency rules; one evaluation per setting (all options compared after it)",
  jobs=[J("h_opt", "opt", 6000, 80000), J("h_sess", "optfile_qn", 250, 4000, hang=200), J("h_sess", "optfile_nw", 250, 4000, hang=200)])
P("P31", rule="random messages, vectors and matrices at all verbosity levels, and matrix files read back by an independent reader; one evaluation per message or file",
  jobs=[J("h_opt", "log", 4000, 40000), J("h_opt", "log", 300, 3000, np=2), J("h_opt", "csr", 4000, 40000),
        J("h_sess", "itlog_qn", 300, 5000, hang=200), J("h_sess", "itlog_nw", 300, 5000, hang=200), J("h_sess", "kktfile_nw", 300, 5000, hang=200)],
  need={"log_rows": 1000, "kkt_systems": 300})
P("P04", rule="one evaluation per solve with one or several injected evaluation failures (callback, invocation, formulation), compared with the undisturbed solve and followed by a second run of the same object; distinct by (problem, fault, ending)",
  jobs=[J("h_sess", "fault_qn", 500, 8000, hang=200, leaks=1, ub=1), J("h_sess", "fault_nw", 500, 8000, hang=200, leaks=1, ub=1)],
  need={"reused_after_failure": 100})

def sess(name, q, t=15, **kw):
    return [J("h_sess", name + "_qn", q, q * t, hang=200, **kw), J("h_sess", name + "_nw", q, q * t, hang=200, **kw)]
P("P08", rule="one evaluation per pair of solves of one problem in two presentations (constraints and variables reordered, objective and constraints rescaled, shifted, one-call or split evaluation, dense or mixed, scaling on or off, other linear system, other ranges), compared after mapping back; distinct by problem and presentation; and the scaled data of every monitored solve",
  jobs=sess("equiv", 300) + nlp(100, 40), need={"agreements": 300})
P("P11", rule="one evaluation per solve of a problem with fixed (or nearly fixed) variables, all callbacks watched, compared with the problem in which they are substituted; distinct by problem, options and solution",
  jobs=sess("fixed", 400) + [J("h_sess", "refuse_qn", 100, 1500, hang=200), J("h_sess", "refuse_nw", 100, 1500, hang=200)], need={"fixed_values_seen": 1000, "substituted_compared": 50})
P("P12", rule="one evaluation per solve started from user-given points, multipliers or a warm start, the starting iterate recomputed from what was given; distinct by start",
  jobs=sess("warm", 400) + nlp(100, 60), need={"starts_checked": 300, "warm_starts": 50, "starts_lsq": 50})
P("P13", rule="one evaluation per pair of runs (same object again, second object, after a user stop, options changed and restored, a nested solve inside a callback), iterates compared bit for bit; distinct by problem and scenario",
  jobs=sess("rerun", 300) + [J("h_sess", "fault_qn", 150, 2000, hang=200), J("h_sess", "fault_nw", 150, 2000, hang=200)], need={"compared_rerun": 100})
P("P29", rule="one evaluation per iteration of solves with moving limits, elastic bounds, forced restoration and accept-every-trial; distinct by iterate",
  jobs=sess("limits", 500), need={"elastic_updates": 200, "moving_checked": 300})
P("P25", rule="one evaluation per dense problem solved on all the ranks (random partition, empty parts, split communicators) and on one, iterates compared entry by entry; distinct by problem, options and partition",
  jobs=[J("h_dist", "all", 90, 1200, np=2, hang=200), J("h_dist", "all", 80, 1200, np=3, hang=200), J("h_dist", "all", 50, 900, np=4, hang=300), J("h_dist", "all", 0, 600, np=5, hang=300)],
  need={"iterates_compared": 1500, "empty_parts": 10})
P("P26", rule="one evaluation per decomposition run whose complete history (every recourse evaluation of every rank, every model handed to the master, every master solution) is gathered and checked offline; distinct by assignment of terms to ranks; and random evaluations of the quadratic model",
  jobs=[J("h_pridec", "pridec", 60, 900, hang=200)] + [J("h_pridec", "pridec", q, q * 12, np=n, hang=200) for n, q in ((2, 50), (3, 60), (4, 40))]
  + [J("h_pridec", "pridec", 0, 400, np=5, hang=200), J("h_pridec", "fault", 80, 1000, hang=200), J("h_pridec", "fault", 60, 800, np=3, hang=200), J("h_pridec", "fault", 30, 800, np=2, hang=200), J("h_pridec", "eval", 3000, 40000)],
  need={"terms evaluated": 10000, "failed terms": 50, "status 0": 100})
P("P28", rule="one evaluation per solve through the C dense, C mixed dense-sparse or Fortran-style interface, compared bit for bit (status, iterations, objective, solution, every callback with its point and flags) with the C++ interface; distinct by problem, options and event log",
  jobs=[J("h_cif", "all", 200, 3000, hang=200, leaks=1, ub=1)], need={"events_compared": 5000})

# memory, undefined behaviour, leaks: (1) address/undefined-behaviour/leak sanitizers over every workload, (2) the same
# cases under two fills of fresh memory must be observed to do the same, (3) memcheck on an uninstrumented build
def _p27():
    js, mc = [], []
    # harness, mode, quick (sanitizers with the two fills), quick (memcheck)
    for h, mode, q, v in (
        ("h_vec", "serial", 500, 60), ("h_vec", "compound", 300, 40),
        ("h_mat", "dense", 800, 60), ("h_mat", "triplet", 800, 60), ("h_mat", "csr", 800, 60), ("h_mat", "mds", 800, 60), ("h_mat", "chain", 300, 30),
        ("h_cplx", "mat", 800, 60), ("h_cplx", "solve", 400, 40), ("h_cplx", "kron", 400, 40),
        ("h_lin", "krylov", 800, 40), ("h_lin", "lapack", 800, 40), ("h_lin", "lowrank", 400, 20), ("h_lin", "pdreg", 800, 40),
        ("h_opt", "opt", 300, 20), ("h_opt", "log", 300, 20), ("h_opt", "csr", 400, 20),
        ("h_nlp", "gen_qn", 60, 6), ("h_nlp", "gen_nw", 60, 6),
        ("h_sess", "fault_qn", 60, 0), ("h_sess", "fault_nw", 60, 0), ("h_sess", "rerun_qn", 30, 0), ("h_sess", "rerun_nw", 30, 0),
        ("h_sess", "fixed_qn", 40, 4), ("h_sess", "fixed_nw", 40, 4), ("h_sess", "warm_qn", 40, 6), ("h_sess", "warm_nw", 40, 6),
        ("h_sess", "limits_qn", 40, 4), ("h_sess", "limits_nw", 40, 4), ("h_sess", "optfile_qn", 40, 4), ("h_sess", "optfile_nw", 40, 0),
        ("h_sess", "kktfile_nw", 40, 4), ("h_cif", "all", 40, 6), ("h_pridec", "pridec", 20, 4), ("h_pridec", "eval", 300, 20), ("h_pridec", "fault", 20, 4)):
        js.append(J(h, mode, q, q * 20, hang=300, leaks=1, ub=1, fills=1, shard=(q + 1) // 2 if h in ("h_nlp", "h_sess", "h_cif", "h_pridec") else q))
        mc.append(J(h, mode, v, max(v, 6) * 15, hang=400, tool="memcheck", variant="o1", shard=2 if h in ("h_nlp", "h_sess", "h_cif", "h_pridec") else max(v, 6), **({} if v else {})))
    js = mc + js  # the slow ones first
    js += [J("h_dist", "all", 20, 300, np=2, hang=200, leaks=1, ub=1), J("h_pridec", "pridec", 15, 200, np=3, hang=200, leaks=1, ub=1),
           J("h_vec", "dist", 100, 1000, np=3, leaks=1, ub=1), J("h_mat", "dist", 100, 1000, np=3, leaks=1, ub=1)]
    return js
P("P27", rule="the workloads of the other monitors under address, undefined-behaviour and leak sanitizers, repeated with different contents of fresh memory, and under memcheck; one evaluation per monitored event of these workloads, distinct by content",
  jobs=_p27(), need={"cases_compared_under_two_fills": 3000, "cases_under_memcheck": 300})
