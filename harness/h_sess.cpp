// Histories of solves: failing evaluations, re-runs and interleaved solvers, equivalent
// presentations of one problem, fixed variables, starts and warm starts, moving limits, elastic
// mode and restoration, the iteration log and the options file.
#include "session.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <cstring>
#include <fstream>
#include <sstream>
using vh::Rng;
typedef std::unique_ptr<SessionBase> SP;
static SessionBase* mk(Prob& p, bool qn) { if(qn) return new SesQN(p); return new SesNW(p); }

// options that leave the promises of the solver untouched (well-behaved subset)
static void mild_opts(Rng& g, bool qn, Opts& o)
{
  if(g.b(0.3)) o.s.push_back({"scaling_type", "none"});
  if(g.b(0.3)) o.d.push_back({"mu0", pow(10, g.u(-2, 0.5))});
  if(g.b(0.2)) o.d.push_back({"kappa_mu", g.u(0.15, 0.5)});
  if(g.b(0.2)) o.i.push_back({"max_soc_iter", g.i(0, 4)});
  if(g.b(0.2)) o.s.push_back({"duals_init", "zero"});
  if(qn) {
    if(g.b(0.3)) o.i.push_back({"secant_memory_len", g.i(3, 10)});
    if(g.b(0.3)) o.s.push_back({"duals_update_type", "linear"});
  } else {
    if(g.b(0.3)) o.s.push_back({"KKTLinsys", g.b(0.5) ? "xycyd" : "xdycyd"});
    if(g.b(0.2)) o.s.push_back({"fact_acceptor", "inertia_free"});
  }
}
static bool same_trace(const std::vector<VD>& a, const std::vector<VD>& b, std::string& why, double rt = 0)
{
  if(a.size() != b.size()) { why = vh::fmt("%d iterations against %d", (int)a.size(), (int)b.size()); return false; }
  for(size_t k = 0; k < a.size(); k++) {
    if(a[k].size() != b[k].size()) { why = vh::fmt("iteration %d differs in size", (int)k); return false; }
    for(size_t i = 0; i < a[k].size(); i++) if(!vh::close(a[k][i], b[k][i], rt, rt)) { why = vh::fmt("iteration %d, item %d: %.17g against %.17g", (int)k, (int)i, a[k][i], b[k][i]); return false; }
  }
  return true;
}

// ------------------------------------------------------------------ failing evaluations
static void body_fault(Rng& g, bool qn)
{
  int fam = g.b(0.5) ? CONVEX : g.b(0.6) ? NONCONVEX : INFEASIBLE;
  Prob p = gen(g, fam, g.b(0.15) ? 14 : 6, !qn);
  Opts o;
  mild_opts(g, qn, o);
  o.i.push_back({"max_iter", g.i(5, 60)});
  if(g.b(0.1)) o.s.push_back({"force_resto", "yes"});
  bool one = g.b(0.3);
  int sm = g.i(-1, 1);
  // how often is each function called without a fault
  SP a(mk(p, qn));
  a->o = o; a->u.one_call = one; a->u.start_mode = sm; a->u.keep_trace = true;
  a->build();
  int st0 = a->run();
  std::vector<int> kinds;
  for(int c = 0; c < C_NCALL; c++) if(a->u.ncall[c] > 0) kinds.push_back(c);
  SP b(mk(p, qn));
  b->o = o; b->u.one_call = one; b->u.start_mode = sm; b->u.keep_trace = true;
  b->build();
  int kind = g.pick(kinds);
  long n = a->u.ncall[kind], at = g.b(0.3) ? g.i(0, std::min(n - 1, 2L)) : g.i(0, n - 1);
  b->u.fault[kind].insert(at);
  bool persistent = g.b(0.3);
  if(persistent) for(long q = at; q < n + 4; q++) b->u.fault[kind].insert(q);
  if(g.b(0.2)) { int k2 = g.pick(kinds); b->u.fault[k2].insert(g.i(0, a->u.ncall[k2] - 1)); }
  b->u.fault_poison = g.b(0.7);
  bool fr_at_fault = false;
  long after = 0;
  b->u.on_call = [&](int, int) { if(b->u.nfault) after++; };
  int st = b->run();
  (void)fr_at_fault;
  std::string w = vh::fmt("[%s] failure of %s, invocation %ld of %ld%s", b->tag.c_str(), callname(kind), at, n, persistent ? " and later" : "");
  if(!b->u.nfault) R().viol("P13:fault_free_prefix", "%s never happened", w.c_str());
  if(st != hiop::Error_In_User_Function) R().viol(is_success(st) ? "P04:success" : "P04:status", "%s: the solve ended with status %d (without the failure %d)", w.c_str(), st, st0);
  if(b->u.fin.called && is_success(b->u.fin.status)) R().viol("P04:success_cb", "%s: the solution callback said %d", w.c_str(), b->u.fin.status);
  // iterates reported before the failure are those of the undisturbed run
  for(size_t k = 0; k < b->u.trace.size() && k < a->u.trace.size(); k++)
    if(b->u.trace[k] != a->u.trace[k] && !(std::isnan(b->u.trace[k][1]))) { R().viol("P04:prefix", "%s: iterate %d differs from that of the undisturbed run", w.c_str(), (int)k); break; }
  if(b->u.trace.size() > a->u.trace.size()) R().viol("P04:prefix", "%s: more iterations than without the failure", w.c_str());
  R().count(std::string("fault_") + callname(kind));
  R().maxv("calls_after_failure", after);
  R().eval(vh::mix(vh::hash_s(w), st));
  // the solver object can be used again
  if(g.b(0.6)) {
    b->u.fault.clear();
    b->u.nfault = 0;
    b->u.on_call = nullptr;
    b->u.trace.clear();
    b->u.have_x = false;
    int st2 = b->run();
    std::string why;
    if(st2 != st0) R().viol("P04:reuse_status", "%s: the next run on the same object ended with %d instead of %d", w.c_str(), st2, st0);
    else if(!same_trace(b->u.trace, a->u.trace, why)) R().viol("P04:reuse", "%s: the next run on the same object differs: %s", w.c_str(), why.c_str());
    R().count("reused_after_failure");
  }
  R().sample(w + vh::fmt(" -> %d", st));
}

// ------------------------------------------------------------------ repeated and interleaved solves
struct Snap { std::vector<std::string> v; };
static Snap snap_options(hiop::hiopOptions* o)
{
  static const char* S[] = {"KKTLinsys", "accept_every_trial_step", "callback_mem_space", "compute_mode", "duals_init", "duals_update_type", "elastic_bound_strategy", "elastic_mode", "fact_acceptor", "fixed_var", "force_resto", "linsol_mode", "mem_space", "options_file_fr_prob", "regularization_method", "scaling_type", "sigma_update_strategy", "warm_start", "write_kkt"};
  static const char* D[] = {"acceptable_tolerance", "bound_relax_perturb", "comp_tol", "cons_tol", "dual_tol", "duals_lsq_ini_max", "fixed_var_perturb", "fixed_var_tolerance", "kappa1", "kappa2", "kappa_eps", "kappa_mu", "moving_lim_abs", "moving_lim_rel", "mu0", "recalc_lsq_duals_tol", "rel_tolerance", "scaling_max_grad", "sigma0", "smax", "tau_min", "theta_mu", "tolerance", "delta_0_bar", "delta_w_min_bar", "delta_w_max_bar"};
  static const char* I[] = {"acceptable_iterations", "max_iter", "max_soc_iter", "secant_memory_len", "verbosity_level"};
  Snap r;
  for(auto n : S) r.v.push_back(std::string(n) + "=" + o->GetString(n));
  for(auto n : D) r.v.push_back(vh::fmt("%s=%.17g", n, o->GetNumeric(n)));
  for(auto n : I) r.v.push_back(vh::fmt("%s=%d", n, o->GetInteger(n)));
  return r;
}
static std::string snap_diff(const Snap& a, const Snap& b)
{
  for(size_t i = 0; i < a.v.size(); i++) if(a.v[i] != b.v[i]) return a.v[i] + " became " + b.v[i];
  return "";
}
struct Res { int st; std::vector<VD> tr; VD x, zl, zu, lam; double obj; };
static Res result(SessionBase& s) { return Res{s.out.status, s.u.trace, s.out.x, s.out.zl, s.out.zu, s.out.lam, s.out.obj}; }
static void rearm(SessionBase& s) { s.u.trace.clear(); s.u.have_x = false; s.u.newx_seen.clear(); s.u.stopped_in_cb = false; }
static void same_result(const Res& a, const Res& b, const char* key, const std::string& w)
{
  std::string why;
  if(a.st != b.st) { R().viol(vh::fmt("P13:%s_status", key).c_str(), "%s: status %d instead of %d", w.c_str(), b.st, a.st); return; }
  if(!same_trace(a.tr, b.tr, why)) { R().viol(vh::fmt("P13:%s_iterates", key).c_str(), "%s: the iterates differ: %s", w.c_str(), why.c_str()); return; }
  if(a.x != b.x || a.zl != b.zl || a.zu != b.zu || a.lam != b.lam || a.obj != b.obj) R().viol(vh::fmt("P13:%s_solution", key).c_str(), "%s: same iterates, another solution", w.c_str());
  R().count(std::string("compared_") + key);
  R().count("iterates_compared", a.tr.size());
  R().eval(vh::mix(vh::hash_s(w), vh::hash_d(a.st, a.x.data(), a.x.size())), !a.tr.empty());
}
static void full_opts(Rng& g, bool qn, Opts& o)
{
  mild_opts(g, qn, o);
  if(g.b(0.3)) o.d.push_back({"tolerance", pow(10, g.u(-9, -5))});
  if(g.b(0.2)) o.d.push_back({"bound_relax_perturb", pow(10, g.u(-9, -5))});
  if(g.b(0.15)) o.d.push_back({"moving_lim_abs", pow(10, g.u(-1, 1))});
  if(g.b(0.15)) o.s.push_back({"elastic_mode", g.b(0.5) ? "tighten_bound" : g.b(0.5) ? "correct_it" : "correct_it_adjust_bound"});
  if(g.b(0.1)) o.s.push_back({"force_resto", "yes"});
  if(!qn && g.b(0.3)) { static const std::vector<std::string> v = {"stable", "speculative", "forcequick"}; o.s.push_back({"linsol_mode", g.pick(v)}); }
  if(qn && g.b(0.3)) { static const std::vector<std::string> v = {"sigma0", "sty", "sty_inv", "snrm_ynrm", "sty_srnm_ynrm"}; o.s.push_back({"sigma_update_strategy", g.pick(v)}); }
}
static void fix_some(Rng& g, Prob& p, Opts& o)
{
  for(int i = 0; i < p.n; i++) if(g.b(0.3)) { p.xl[i] = p.xu[i] = p.xref[i]; }
  bool any = false, all = true;
  for(int i = 0; i < p.n; i++) { any = any || p.xl[i] == p.xu[i]; all = all && p.xl[i] == p.xu[i]; }
  if(all) { p.xl[0] = -INFB; p.xu[0] = INFB; }
  if(any) o.s.push_back({"fixed_var", g.b(0.6) ? "remove" : "relax"});
}
static void body_rerun(Rng& g, bool qn)
{
  int fam = g.b(0.5) ? CONVEX : g.b(0.7) ? NONCONVEX : g.b(0.5) ? INFEASIBLE : DEGENERATE;
  Prob p = gen(g, fam, g.b(0.2) ? 15 : 7, !qn);
  if(g.b(0.3)) p.fs = pow(10, g.u(-1, 3));
  if(g.b(0.3)) for(int j = 0; j < p.m; j++) { double f = pow(10, g.u(-1, 3)); p.cs[j] = f; if(p.cl[j] > -INFB) p.cl[j] *= f; if(p.cu[j] < INFB) p.cu[j] *= f; }
  Opts o;
  full_opts(g, qn, o);
  if(qn && g.b(0.25)) fix_some(g, p, o);
  o.i.push_back({"max_iter", g.i(5, 80)});
  bool one = g.b(0.3);
  int sm = g.i(-1, 3);
  User proto(p);
  if(sm >= 2) rand_duals(g, p, proto, false);
  auto make = [&]() {
    SessionBase* s = mk(p, qn);
    s->o = o; s->u.one_call = one; s->u.start_mode = sm; s->u.keep_trace = true;
    s->u.zl0 = proto.zl0; s->u.zu0 = proto.zu0; s->u.lam0 = proto.lam0; s->u.s0 = proto.s0; s->u.vl0 = proto.vl0; s->u.vu0 = proto.vu0;
    s->monitored = false;
    s->build();
    return s;
  };
  VD x0 = p.x0;
  SP a(make());
  Snap o0 = snap_options(a->nlp()->options);
  a->run();
  Res ref = result(*a);
  std::string d = snap_diff(o0, snap_options(a->nlp()->options));
  if(!d.empty()) R().viol("P13:options_changed", "[%s] the solve changed an option: %s", a->tag.c_str(), d.c_str());
  std::string w = "[" + a->tag + "] ";
  int nact = g.i(2, 4);
  for(int q = 0; q < nact; q++) {
    int act = g.i(0, 6);
    if(act == 0) {
      rearm(*a); a->run();
      same_result(ref, result(*a), "rerun", w + "second run of one object");
    } else if(act == 1) {
      SP b(make());
      b->run();
      same_result(ref, result(*b), "second", w + "second object");
    } else if(act == 2) {  // a complete other solve inside the iterate callback
      SP b(g.b(0.5) ? make() : nullptr);
      SessionBase& s = b ? *b : *a;
      rearm(s);
      int at = ref.tr.empty() ? 0 : g.i(0, ref.tr.size() - 1);
      Prob p2 = gen(g, NONCONVEX, 6, true);
      bool qn2 = g.b(0.5);
      Opts o2;
      full_opts(g, qn2, o2);
      o2.i.push_back({"max_iter", 20});
      int nested = 0;
      s.extra_iter = [&](int it) {
        if(it != at) return true;
        SP t(mk(p2, qn2));
        t->o = o2; t->monitored = false;
        t->build();
        t->run();
        nested++;
        return true;
      };
      s.run();
      s.extra_iter = nullptr;
      same_result(ref, result(s), "nested", w + "with another solve inside a callback");
      R().count("nested_solves", nested);
    } else if(act == 3) {  // the user stops, then starts again
      SP b(g.b(0.5) ? make() : nullptr);
      SessionBase& s = b ? *b : *a;
      rearm(s);
      int at = ref.tr.empty() ? 0 : g.i(0, ref.tr.size() - 1);
      s.u.stop_at = at;
      s.run();
      s.u.stop_at = -1;
      rearm(s); s.run();
      same_result(ref, result(s), "after_stop", w + vh::fmt("run after a run stopped by the user at %d", at));
    } else if(act == 4) {  // options changed for one run and set back
      auto* op = a->nlp()->options;
      Snap before = snap_options(op);
      struct Ch { const char* n; char t; double v; const char* s; };
      static const Ch chs[] = {{"mu0", 'd', 0.3, 0}, {"tolerance", 'd', 1e-3, 0}, {"bound_relax_perturb", 'd', 1e-4, 0}, {"max_iter", 'i', 3, 0}, {"scaling_type", 's', 0, "none"}, {"scaling_type", 's', 0, "gradient"}, {"duals_init", 's', 0, "zero"}, {"kappa_mu", 'd', 0.77, 0}, {"max_soc_iter", 'i', 1, 0}, {"scaling_max_grad", 'd', 3., 0}, {"elastic_mode", 's', 0, "correct_it"}, {"secant_memory_len", 'i', 1, 0}, {"tau_min", 'd', 0.9, 0}, {"moving_lim_abs", 'd', 0.2, 0}, {"acceptable_iterations", 'i', 2, 0}};
      std::vector<std::function<void()>> undo;
      int nc = g.i(1, 3);
      for(int c = 0; c < nc; c++) {
        const Ch& ch = chs[g.i(0, sizeof(chs) / sizeof(chs[0]) - 1)];
        std::string n = ch.n;
        if(ch.t == 'd') { double v = op->GetNumeric(ch.n); undo.push_back([=] { op->SetNumericValue(n.c_str(), v); }); op->SetNumericValue(ch.n, ch.v); }
        if(ch.t == 'i') { int v = op->GetInteger(ch.n); undo.push_back([=] { op->SetIntegerValue(n.c_str(), v); }); op->SetIntegerValue(ch.n, (int)ch.v); }
        if(ch.t == 's') { std::string v = op->GetString(ch.n); undo.push_back([=] { op->SetStringValue(n.c_str(), v.c_str()); }); op->SetStringValue(ch.n, ch.s); }
        w += std::string(" {") + ch.n + "}";
      }
      R().mute = true;  // the monitor's configuration does not follow this change
      rearm(*a); a->run();
      R().mute = false;
      for(int c = (int)undo.size() - 1; c >= 0; c--) undo[c]();
      d = snap_diff(before, snap_options(op));
      if(!d.empty()) R().viol("P13:options_changed", "%s: after a run with changed options, set back: %s", w.c_str(), d.c_str());
      rearm(*a); a->run();
      same_result(ref, result(*a), "options_back", w + "run after options were changed, used and set back");
    } else if(act == 5) {  // several objects alive, options of each its own
      SP b(make()), c(make());
      Snap sb = snap_options(b->nlp()->options);
      auto* oc = c->nlp()->options;
      oc->SetNumericValue("mu0", 0.77); oc->SetNumericValue("tolerance", 1e-2); oc->SetIntegerValue("max_iter", 4); oc->SetStringValue("scaling_type", "none");
      d = snap_diff(sb, snap_options(b->nlp()->options));
      if(!d.empty()) R().viol("P13:options_shared", "%s: setting an option of one object changed another: %s", w.c_str(), d.c_str());
      R().mute = true;
      if(g.b()) c->run();
      R().mute = false;
      b->run();
      same_result(ref, result(*b), "alive", w + "with another object of other options alive");
      if(g.b()) { c.reset(); rearm(*b); b->run(); same_result(ref, result(*b), "after_destroy", w + "after another object was destroyed"); }
      // read after the others ran and were destroyed
      if(is_success(ref.st)) { VD x(p.n); a->alg()->getSolution(x.data()); (void)x; }
    } else {  // a new solver on the same formulation
      VD x1(p.n, 0.), x2(p.n, 0.);
      SP b(make());
      b->run();
      rearm(*b);
      // the solution of `a` is still the one it had
      a->alg()->getSolution(x1.data());
      double f1 = a->alg()->getObjective();
      b->run();
      a->alg()->getSolution(x2.data());
      double f2 = a->alg()->getObjective();
      if(x1 != x2 || f1 != f2) R().viol("P13:solution_changed", "%s: the solution of one object changed when another ran", w.c_str());
      same_result(ref, result(*b), "rerun", w + "second object, second run");
    }
  }
  if(p.x0 != x0) R().viol("P13:start_modified", "%s: the user's starting point was modified", w.c_str());
}

// ------------------------------------------------------------------ presentations of one problem
static Prob perm_cons(const Prob& p, const VI& pi)
{
  Prob q = p;
  for(int j = 0; j < p.m; j++) {
    int k = pi[j];
    q.A[j] = p.A[k]; q.E[j] = p.E[k]; q.S[j] = p.S[k]; q.cs[j] = p.cs[k]; q.cc[j] = p.cc[k]; q.cl[j] = p.cl[k]; q.cu[j] = p.cu[k]; q.pat[j] = p.pat[k];
  }
  return q;
}
static Prob perm_vars(const Prob& p, const VI& pi)
{
  Prob q = p;
  for(int i = 0; i < p.n; i++) {
    int k = pi[i];
    q.q[i] = p.q[k]; q.quart[i] = p.quart[k]; q.ca[i] = p.ca[k]; q.cf[i] = p.cf[k]; q.xl[i] = p.xl[k]; q.xu[i] = p.xu[k]; q.xref[i] = p.xref[k]; q.x0[i] = p.x0[k];
    for(int l = 0; l < p.n; l++) q.Q[i][l] = p.Q[k][pi[l]];
    for(int j = 0; j < p.m; j++) { q.A[j][i] = p.A[j][k]; q.E[j][i] = p.E[j][k]; q.S[j][i] = p.S[j][k]; q.pat[j][i] = p.pat[j][k]; }
  }
  return q;
}
static VI rand_perm(Rng& g, int n) { VI r(n); for(int i = 0; i < n; i++) r[i] = i; for(int i = n - 1; i > 0; i--) std::swap(r[i], r[g.i(0, i)]); return r; }
// smallest singular value of the rows, by the Gram matrix and inverse iteration
// Two solutions of the same (strictly convex) problem, both in the terms of p. The allowed distances
// follow from strong convexity and the tolerances of the certificates, not from the solver.
static void same_solution(const Prob& p, const SessionBase& A, const Res& a, const Res& b, double sfa, double sfb, const char* key, const std::string& w, const char* prop = "P08")
{
  if(!is_success(a.st) || !is_success(b.st)) {
    if(is_success(a.st) != is_success(b.st)) R().count("one_sided_success");
    return;
  }
  if(a.st != hiop::Solve_Success || b.st != hiop::Solve_Success) { R().count("not_fully_converged"); return; }
  int n = p.n, m = p.m;
  double sf = std::min(1., std::min(sfa, sfb));
  double lsum = 0;
  for(int j = 0; j < m; j++) lsum += std::max(fabs(a.lam[j]), fabs(b.lam[j])) * (2.2e-8 / std::min(1., 1.) * std::max(1., p.cs[j]) * 10 + 2e-8 * std::max(p.cl[j] > -INFB ? fabs(p.cl[j]) : 0., p.cu[j] < INFB ? fabs(p.cu[j]) : 0.));
  for(int i = 0; i < n; i++) lsum += (a.zl[i] + b.zl[i] + a.zu[i] + b.zu[i]) * 2e-8 * (1 + fabs(p.xref[i]) + 3);
  double e = 2 * (n + m + 1) * 2 * 1.1e-8 / sf + lsum, r = 2 * sqrt((double)n) * 1.1e-6 / sf, s = 0.3 * p.fs;
  double tol = sqrt(2 * e / s) + r / s + 1e-7, dx = 0;
  for(int i = 0; i < n; i++) dx += (a.x[i] - b.x[i]) * (a.x[i] - b.x[i]);
  dx = sqrt(dx);
  R().maxv("distance_over_allowed", dx / tol);
  R().maxv("distance", dx);
  if(!(dx <= tol)) { R().viol(vh::fmt("%s:%s_x", prop, key).c_str(), "%s: the solutions are %.4g apart (allowed %.4g)", w.c_str(), dx, tol); return; }
  VD ga(n), gb(n);
  p.grad(a.x.data(), ga.data()); p.grad(b.x.data(), gb.data());
  double gn = 0;
  for(int i = 0; i < n; i++) gn += std::max(ga[i] * ga[i], gb[i] * gb[i]);
  if(fabs(a.obj - b.obj) > 1.5 * sqrt(gn) * dx + 1e-9 * (1 + fabs(a.obj))) R().viol(vh::fmt("%s:%s_obj", prop, key).c_str(), "%s: objective %.12g against %.12g at points %.3g apart", w.c_str(), b.obj, a.obj, dx);
  // multipliers: where the active constraints are clearly independent
  std::vector<VD> J;
  double inact = 0;
  bool clear = true;
  for(int j = 0; j < m; j++) {
    double c = p.con(j, a.x.data());
    double sl = p.is_eq(j) ? 0 : std::min(p.cl[j] > -INFB ? c - p.cl[j] : 1e300, p.cu[j] < INFB ? p.cu[j] - c : 1e300) / p.cs[j];
    if(sl < 0.01) { VD t(n); for(int i = 0; i < n; i++) t[i] = p.jac(j, i, a.x.data()) / p.cs[j]; J.push_back(t); }
    else inact += 2 * 1.1e-8 / sf / sl;
    if(sl > 2e-3 && sl < 0.01) clear = false;
  }
  for(int i = 0; i < n; i++) {
    double sl = std::min(p.xl[i] > -INFB ? a.x[i] - p.xl[i] : 1e300, p.xu[i] < INFB ? p.xu[i] - a.x[i] : 1e300);
    if(sl < 0.01) { VD t(n, 0.); t[i] = 1; J.push_back(t); }
    else inact += 2 * 1.1e-8 / sf / sl;
  }
  double sm = sigma_min(J);
  sm = std::min(sm, 1.);
  if(!clear || sm < 0.1) { R().count("multipliers_not_unique"); return; }
  double dg = 0, jn = 0;
  for(int i = 0; i < n; i++) { double t = fabs(ga[i] - gb[i]); for(int j = 0; j < m; j++) { t += fabs(p.jac(j, i, a.x.data()) - p.jac(j, i, b.x.data())) * std::max(fabs(a.lam[j]), fabs(b.lam[j])); jn = std::max(jn, fabs(p.jac(j, i, a.x.data())) / p.cs[j]); } dg += t * t; }
  double tl = 2 * (sqrt(dg) + r + inact * (1 + jn) * n) / sm + 1e-7;
  double worst = 0; int wj = -1;
  for(int j = 0; j < m; j++) { double t = fabs(a.lam[j] - b.lam[j]) * p.cs[j]; if(!(t <= worst)) { worst = t; wj = j; } }
  R().maxv("multiplier_distance_over_allowed", worst / tl);
  if(!(worst <= tl)) R().viol(vh::fmt("%s:%s_lambda", prop, key).c_str(), "%s: multiplier of constraint %d is %.10g against %.10g (allowed difference %.4g)", w.c_str(), wj, b.lam[wj], a.lam[wj], tl / p.cs[wj]);
  for(int i = 0; i < n; i++) if(!(fabs((a.zl[i] - a.zu[i]) - (b.zl[i] - b.zu[i])) <= tl)) { R().viol(vh::fmt("%s:%s_z", prop, key).c_str(), "%s: multiplier of the bounds of variable %d is %.10g against %.10g (allowed difference %.4g)", w.c_str(), i, b.zl[i] - b.zu[i], a.zl[i] - a.zu[i], tl); break; }
  R().count("multipliers_compared");
}
static void same_path(const Res& a, const Res& b, int K, double rt, const char* key, const std::string& w, const std::function<VD(const VD&)>& back)
{
  for(int k = 0; k < K && k < (int)a.tr.size() && k < (int)b.tr.size(); k++) {
    VD t = back ? back(b.tr[k]) : b.tr[k];
    for(size_t i = 0; i < t.size(); i++) if(!vh::close(a.tr[k][i], t[i], rt, rt * (i < 8 ? 1 : 10))) { R().viol(vh::fmt("P08:%s_path", key).c_str(), "%s: iteration %d, item %d: %.12g against %.12g", w.c_str(), k, (int)i, t[i], a.tr[k][i]); return; }
    R().count("path_points_compared");
  }
}
static void body_equiv(Rng& g, bool qn)
{
  Prob p = gen(g, CONVEX, g.b(0.2) ? 14 : 7, true);
  if(!p.fullrank) return;
  Opts o;
  if(g.b(0.3)) o.d.push_back({"mu0", pow(10, g.u(-2, 0.5))});
  o.s.push_back({"duals_init", g.b(0.3) ? "zero" : "lsq"});
  if(qn && g.b(0.3)) o.s.push_back({"duals_update_type", "linear"});
  o.d.push_back({"tolerance", 1e-8}); o.d.push_back({"comp_tol", 1e-8}); o.d.push_back({"dual_tol", 1e-6}); o.d.push_back({"cons_tol", 1e-8});
  o.i.push_back({"max_iter", 300});
  int sm = g.i(-1, 1);
  auto solve = [&](Prob& q, bool asqn, const Opts& oo, bool one) {
    SessionBase* s = mk(q, asqn);
    s->o = oo; s->u.start_mode = sm; s->u.keep_trace = true; s->u.one_call = one;
    s->build(); s->run();
    return s;
  };
  bool one0 = g.b(0.5);
  SP A(solve(p, qn, o, one0));
  Res a = result(*A);
  double sfa = A->nlp()->get_obj_scale();
  std::string w0 = "[" + A->tag + "] ";
  if(!is_success(a.st)) { R().count("base_not_solved"); }
  int nv = 4;
  for(int v = 0; v < nv; v++) {
    int k = g.i(0, 9);
    if(k == 0) {  // together or separately
      SP B(solve(p, qn, o, !one0));
      Res b = result(*B);
      std::string why;
      if(a.st != b.st) R().viol("P08:onecall_status", "%sconstraints together/separately: status %d against %d", w0.c_str(), a.st, b.st);
      else if(!same_trace(a.tr, b.tr, why, 1e-9)) R().viol("P08:onecall_path", "%sconstraints together/separately: %s", w0.c_str(), why.c_str());
      same_solution(p, *A, a, b, sfa, B->nlp()->get_obj_scale(), "onecall", w0 + "constraints together/separately");
      R().count("variant_onecall");
    } else if(k == 1) {  // explicit zeros in the pattern of the Jacobian
      Prob q = p;
      for(auto& r : q.pat) for(auto& c : r) if(g.b(0.5)) c = 1;
      SP B(solve(q, qn, o, one0));
      Res b = result(*B);
      std::string why;
      if(a.st != b.st) R().viol("P08:zeros_status", "%sexplicit zeros: status %d against %d", w0.c_str(), a.st, b.st);
      else if(!same_trace(a.tr, b.tr, why, 1e-9)) R().viol("P08:zeros_path", "%sexplicit zeros in the Jacobian: %s", w0.c_str(), why.c_str());
      R().count("variant_zeros");
    } else if(k == 2) {  // order of the constraints
      VI pi = rand_perm(g, p.m);
      Prob q = perm_cons(p, pi);
      SP B(solve(q, qn, o, one0));
      Res b = result(*B);
      VD l(p.m);
      for(int j = 0; j < p.m; j++) if((int)b.lam.size() == p.m) l[pi[j]] = b.lam[j];
      b.lam = l;
      same_path(a, b, 4, 1e-5, "order", w0 + "permuted constraints", [&](const VD& t) { VD r = t; for(int j = 0; j < p.m; j++) r[8 + p.n + pi[j]] = t[8 + p.n + j]; return r; });
      same_solution(p, *A, a, b, sfa, B->nlp()->get_obj_scale(), "order", w0 + "permuted constraints");
      R().count("variant_order");
    } else if(k == 3) {  // another split into sparse and dense variables, or dense altogether
      if(qn) {
        VI pi = rand_perm(g, p.n);
        Prob q = perm_vars(p, pi);
        SP B(solve(q, true, o, one0));
        Res b = result(*B);
        auto bk = [&](const VD& t, int off) { VD r = t; for(int i = 0; i < p.n; i++) r[off + pi[i]] = t[off + i]; return r; };
        if((int)b.x.size() == p.n) { b.x = bk(b.x, 0); b.zl = bk(b.zl, 0); b.zu = bk(b.zu, 0); }
        same_path(a, b, 4, 1e-5, "varorder", w0 + "permuted variables", [&](const VD& t) { return bk(t, 8); });
        same_solution(p, *A, a, b, sfa, B->nlp()->get_obj_scale(), "varorder", w0 + "permuted variables");
        R().count("variant_varorder");
      } else {
        Prob q = p;
        q.ns = g.i(0, p.ns);
        SP B(solve(q, false, o, one0));
        Res b = result(*B);
        same_path(a, b, 4, 1e-5, "split", w0 + vh::fmt("ns=%d", q.ns), nullptr);
        same_solution(p, *A, a, b, sfa, B->nlp()->get_obj_scale(), "split", w0 + vh::fmt("ns=%d", q.ns));
        R().count("variant_split");
      }
    } else if(k == 4) {  // automatic scaling off, or stronger
      Opts o2 = o;
      if(g.b()) o2.s.push_back({"scaling_type", "none"});
      else o2.d.push_back({"scaling_max_grad", g.u(1, 20)});
      SP B(solve(p, qn, o2, one0));
      same_solution(p, *A, a, result(*B), sfa, B->nlp()->get_obj_scale(), "scaling", "[" + B->tag + "] scaling");
      R().count("variant_scaling");
    } else if(k == 5) {  // rows multiplied by the user
      Prob q = p;
      VD f(p.m);
      for(int j = 0; j < p.m; j++) { f[j] = pow(10, g.u(-0.5, 1)); q.cs[j] *= f[j]; if(q.cl[j] > -INFB) q.cl[j] *= f[j]; if(q.cu[j] < INFB) q.cu[j] *= f[j]; }
      SP B(solve(q, qn, o, one0));
      Res b = result(*B);
      for(size_t j = 0; j < b.lam.size(); j++) b.lam[j] *= f[j];
      same_solution(p, *A, a, b, sfa, B->nlp()->get_obj_scale(), "rowscale", w0 + "rows multiplied");
      R().count("variant_rowscale");
    } else if(k == 6) {  // objective multiplied by the user
      Prob q = p;
      double f = pow(10, g.u(-0.5, 1));
      q.fs *= f;
      SP B(solve(q, qn, o, one0));
      Res b = result(*B);
      for(auto* v : {&b.lam, &b.zl, &b.zu}) for(double& t : *v) t /= f;
      b.obj /= f;
      same_solution(p, *A, a, b, sfa, B->nlp()->get_obj_scale() * std::min(1., f), "objscale", w0 + vh::fmt("objective times %g", f));
      R().count("variant_objscale");
    } else if(k == 7) {  // the other formulation
      SP B;
      if(qn) B.reset(solve(p, false, o, one0));
      else { B.reset(solve(p, true, o, one0)); }
      same_solution(p, *A, a, result(*B), sfa, B->nlp()->get_obj_scale(), "formulation", w0 + (qn ? "as mixed dense-sparse" : "as dense"));
      R().count("variant_formulation");
    } else if(k == 8 && !qn) {  // the other linear system, the other factorisation test
      Opts o1 = o, o2 = o;
      o1.s.push_back({"KKTLinsys", "xycyd"}); o2.s.push_back({"KKTLinsys", "xdycyd"});
      SP B(solve(p, false, o1, one0)), C(solve(p, false, o2, one0));
      Res b = result(*B), c = result(*C);
      same_path(b, c, 4, 1e-5, "kkt", w0 + "xycyd against xdycyd", nullptr);
      same_solution(p, *A, a, b, sfa, B->nlp()->get_obj_scale(), "kkt", w0 + "xycyd");
      same_solution(p, *A, a, c, sfa, C->nlp()->get_obj_scale(), "kkt", w0 + "xdycyd");
      R().count("variant_kkt");
    } else if(k == 9) {  // bounds as constraints of one variable: a row e_i x with the bounds of x_i
      Prob q = p;
      std::vector<int> cand;
      for(int i = 0; i < p.n; i++) if(p.xl[i] > -INFB || p.xu[i] < INFB) cand.push_back(i);
      if(cand.empty()) continue;
      int i = g.pick(cand);
      VD row(p.n, 0.); std::vector<char> pt(p.n, 0);
      row[i] = 1; pt[i] = 1;
      q.m++; q.A.push_back(row); row[i] = 0; q.E.push_back(row); q.S.push_back(row); q.cs.push_back(1); q.cc.push_back(0); q.cl.push_back(p.xl[i]); q.cu.push_back(p.xu[i]); q.pat.push_back(pt);
      q.xl[i] = -INFB; q.xu[i] = INFB;
      SP B(solve(q, qn, o, one0));
      Res b = result(*B);
      if((int)b.lam.size() == q.m) {
        double l = b.lam.back();
        b.lam.pop_back();
        b.zl[i] = std::max(0., -l); b.zu[i] = std::max(0., l);
      }
      same_solution(p, *A, a, b, sfa, B->nlp()->get_obj_scale(), "boundrow", w0 + vh::fmt("bounds of variable %d as a constraint", i));
      R().count("variant_boundrow");
    }
    R().eval(vh::mix(vh::hash_s(w0), (uint64_t)k * 31 + v));
  }
}

// ------------------------------------------------------------------ fixed variables
static Prob substitute(const Prob& p, const std::vector<char>& fx, VI& keep)
{
  keep.clear();
  for(int i = 0; i < p.n; i++) if(!fx[i]) keep.push_back(i);
  Prob r;
  r.n = keep.size(); r.m = p.m; r.ns = 0; r.fs = p.fs; r.convex = p.convex; r.feasible = p.feasible; r.fullrank = p.fullrank; r.type = p.type; r.family = p.family;
  r.resize();
  r.cs = p.cs; r.cc = p.cc; r.cl = p.cl; r.cu = p.cu; r.c0 = p.c0;
  std::vector<VD> Qfull = p.Q;
  VD v(p.n, 0.);
  for(int i = 0; i < p.n; i++) if(fx[i]) v[i] = p.xl[i];
  for(int i = 0; i < p.n; i++) {
    if(!fx[i]) continue;
    r.c0 += p.q[i] * v[i] + p.quart[i] * v[i] * v[i] * v[i] * v[i] + (p.ca[i] != 0 ? p.ca[i] * cos(p.cf[i] * v[i]) : 0.);
    for(int k = 0; k < p.n; k++) if(fx[k]) r.c0 += 0.5 * v[i] * p.Q[i][k] * v[k];
    for(int j = 0; j < p.m; j++) r.cc[j] += p.A[j][i] * v[i] + 0.5 * p.E[j][i] * v[i] * v[i] + (p.S[j][i] != 0 ? p.S[j][i] * sin(v[i]) : 0.);
  }
  for(int a = 0; a < r.n; a++) {
    int i = keep[a];
    r.q[a] = p.q[i]; r.quart[a] = p.quart[i]; r.ca[a] = p.ca[i]; r.cf[a] = p.cf[i]; r.xl[a] = p.xl[i]; r.xu[a] = p.xu[i]; r.xref[a] = p.xref[i]; r.x0[a] = p.x0[i];
    for(int k = 0; k < p.n; k++) if(fx[k]) r.q[a] += p.Q[i][k] * v[k];
    for(int b = 0; b < r.n; b++) r.Q[a][b] = p.Q[i][keep[b]];
    for(int j = 0; j < p.m; j++) { r.A[j][a] = p.A[j][i]; r.E[j][a] = p.E[j][i]; r.S[j][a] = p.S[j][i]; r.pat[j][a] = 1; }
  }
  r.desc = p.desc + " substituted";
  return r;
}
static void body_fixed(Rng& g, bool qn)
{
  Prob p = gen(g, g.b(0.7) ? CONVEX : NONCONVEX, g.b(0.2) ? 15 : 8, !qn);
  if(p.n < 2) return;
  bool remove = qn && g.b(0.6);
  double relax = remove ? (g.b(0.7) ? 1e-8 : 0.) : g.b(0.5) ? 0. : pow(10, g.u(-8, -5));
  double pert = pow(10, g.u(-9, -6)), tolf = g.b(0.5) ? 1e-15 : pow(10, g.u(-9, -4));
  std::vector<char> fx(p.n, 0);
  int nf = g.b(0.3) ? 1 : g.i(1, p.n - 1);
  VI pi = rand_perm(g, p.n);
  bool ranges = tolf > 1e-10 && g.b(0.5);  // bounds that differ by less than the tolerance for fixedness
  for(int q = 0; q < nf; q++) {
    int i = pi[q];
    double v = g.b(0.2) ? 0. : g.b(0.2) ? p.xref[i] * 100 : p.xref[i];
    if(v != p.xref[i] && p.m) v = p.xref[i];
    fx[i] = 1;
    p.xl[i] = p.xu[i] = v;
    if(ranges && g.b(0.5)) p.xu[i] = v + tolf * 0.5 * std::max(1., fabs(v));
  }
  int unfixed = -1;
  if(ranges && nf < p.n) {  // just outside the tolerance: not fixed
    unfixed = pi[nf];
    p.xl[unfixed] = p.xref[unfixed]; p.xu[unfixed] = p.xl[unfixed] + 3 * tolf * std::max(1., fabs(p.xl[unfixed]));
  }
  bool meq_too_many = p.meq() > p.n - nf;
  Opts o;
  mild_opts(g, qn, o);
  o.s.push_back({"fixed_var", remove ? "remove" : "relax"});
  o.d.push_back({"fixed_var_tolerance", tolf}); o.d.push_back({"fixed_var_perturb", pert}); o.d.push_back({"bound_relax_perturb", relax});
  o.d.push_back({"tolerance", 1e-8}); o.d.push_back({"comp_tol", 1e-8}); o.d.push_back({"dual_tol", 1e-6}); o.d.push_back({"cons_tol", 1e-8});
  o.i.push_back({"max_iter", 200});
  SP A(mk(p, qn));
  A->o = o; A->u.start_mode = g.i(-1, 1); A->u.one_call = g.b(0.3);
  A->u.check_bounds = true;
  std::string tag = p.desc + o.str() + vh::fmt(" fixed=%d%s", nf, ranges ? " ranges" : "");
  double allow = remove ? 0 : relax > 0 ? relax : pert;
  long seen = 0;
  VD first(p.n, NAN);
  VD x0 = p.x0;
  bool bad = false;
  double mxdev = 0;
  A->u.on_x = [&](int kind, const VD& x) {
    if(bad) return;
    bool start = true;  // the user's own starting point may be evaluated as it is
    for(int i = 0; i < p.n; i++) if(!fx[i] && x[i] != (A->u.start_mode >= 0 ? p.x0[i] : 0.)) start = false;
    for(int i = 0; i < p.n; i++) {
      if(!fx[i]) continue;
      double d = std::max(p.xl[i] - x[i], x[i] - p.xu[i]);
      if(remove) {
        if(std::isnan(first[i])) first[i] = x[i];
        if(x[i] != first[i] || !(d <= 0)) { bad = true; R().viol("P11:value", "[%s] %s evaluated with the removed variable %d at %.17g, fixed at %.17g", tag.c_str(), callname(kind), i, x[i], p.xl[i]); return; }
        seen++;
      } else if(!start) {
        mxdev = std::max(mxdev, d / std::max(1., fabs(p.xu[i])));
        if(!(d <= (allow + 1e-10) * std::max(1., std::max(fabs(p.xl[i]), fabs(p.xu[i]))) * (1 + 1e-6))) { bad = true; R().viol("P11:value", "[%s] %s evaluated with the fixed variable %d at %.17g, fixed at %.17g (relaxation %g)", tag.c_str(), callname(kind), i, x[i], p.xl[i], allow); return; }
        seen++;
      }
    }
  };
  A->build();
  int st = A->run();
  Res a = result(*A);
  if(!A->u.fin.called) { R().count("no_solution"); return; }
  a.x = A->u.fin.x; a.zl = A->u.fin.zl; a.zu = A->u.fin.zu; a.lam = A->u.fin.lam; a.obj = A->u.fin.obj;
  R().count(vh::fmt("fixed_status_%d", st));
  R().count("fixed_values_seen", seen);
  if((int)a.x.size() != p.n) { R().viol("P11:dims", "[%s] solution of dimension %d", tag.c_str(), (int)a.x.size()); return; }
  for(int i = 0; i < p.n; i++) {
    if(!fx[i]) continue;
    double d = std::max(p.xl[i] - a.x[i], a.x[i] - p.xu[i]);
    if(!(d <= (allow > 0 ? allow + 1e-10 : 0) * std::max(1., fabs(p.xu[i])) * (1 + 1e-6))) { R().viol("P11:solution", "[%s] fixed variable %d is %.17g in the solution, fixed at %.17g", tag.c_str(), i, a.x[i], p.xl[i]); break; }
  }
  R().eval(vh::mix(vh::hash_s(tag), vh::hash_d(st, a.x.data(), a.x.size())), seen > 0);
  if(!p.convex || !p.fullrank || ranges || meq_too_many) return;
  // the problem without these variables
  VI keep;
  Prob q = substitute(p, fx, keep);
  {  // is it well posed? rank of the equalities in the remaining variables
    std::vector<VD> J;
    for(int j = 0; j < q.m; j++) if(q.is_eq(j)) { VD t(q.n); for(int i = 0; i < q.n; i++) t[i] = q.jac(j, i, q.xref.data()) / q.cs[j]; J.push_back(t); }
    if(J.size() && sigma_min(J) < 0.05) { R().count("substituted_not_fullrank"); return; }
  }
  q.fullrank = true;
  Opts o2;
  for(auto& e : o.s) if(e.first != "fixed_var") o2.s.push_back(e);
  for(auto& e : o.d) if(e.first != "fixed_var_tolerance" && e.first != "fixed_var_perturb") o2.d.push_back(e);
  o2.i = o.i;
  SP B(mk(q, true));
  {
    Opts ob;  // dense whichever formulation was used above
    for(auto& e : o2.s) if(e.first != "KKTLinsys" && e.first != "fact_acceptor" && e.first != "linsol_mode") ob.s.push_back(e);
    ob.d = o2.d; ob.i = o2.i;
    B->o = ob;
  }
  B->u.start_mode = A->u.start_mode; B->u.one_call = g.b();
  B->build(); B->run();
  Res b = result(*B);
  if(remove && is_success(b.st) != is_success(a.st)) R().count("substituted_other_status");
  if(b.st == hiop::Solve_Success && st != hiop::Solve_Success && A->best_err > 1e-3) R().count("fixed_unsolved");
  if(st == hiop::Solve_Success && b.st == hiop::Solve_Success) {
    Res ar = a;
    ar.x.clear(); ar.zl.clear(); ar.zu.clear();
    for(int i : keep) { ar.x.push_back(a.x[i]); ar.zl.push_back(a.zl[i]); ar.zu.push_back(a.zu[i]); }
    if(!remove) {  // the relaxation moves the optimum
      double mv = 0;
      for(int i = 0; i < p.n; i++) if(fx[i]) mv += (fabs(a.zl[i] - a.zu[i]) + 10) * allow * std::max(1., fabs(p.xl[i]));
      if(mv > 1e-8) { R().count("relaxation_too_large_to_compare"); return; }
      ar.obj = q.f(ar.x.data());
      if(fabs(a.obj - ar.obj) > 2e-6 * (1 + fabs(a.obj))) R().viol("P11:objective", "[%s] objective %.12g, with the variables at their fixed values %.12g", tag.c_str(), a.obj, ar.obj);
    }
    same_solution(q, *B, b, ar, B->nlp()->get_obj_scale(), A->nlp()->get_obj_scale(), "fixed", "[" + tag + "] against the substituted problem", "P11");
    R().count("substituted_compared");
  }
}
// refusal without treatment; the library ends the process then
#include <sys/wait.h>
static void body_refuse(Rng& g, bool qn)
{
  Prob p = gen(g, CONVEX, 6, !qn);
  int i = g.i(0, p.n - 1);
  p.xl[i] = p.xu[i] = p.xref[i];
  Opts o;
  o.s.push_back({"fixed_var", "none"});
  o.d.push_back({"bound_relax_perturb", 0.});
  int fd[2];
  if(pipe(fd)) return;
  fflush(0);
  pid_t c = fork();
  if(c == 0) {
    close(fd[0]);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1); dup2(nul, 2);
    SP A(mk(p, qn));
    A->o = o;
    A->monitored = false;
    A->build();
    int st = A->run();
    char m[2] = {(char)('0' + (is_success(st) ? 1 : 0)), (char)('0' + (A->u.fin.called ? 1 : 0))};
    if(write(fd[1], m, 2) < 0) {}
    _exit(0);
  }
  close(fd[1]);
  char m[2] = {'?', '?'};
  int got = read(fd[0], m, 2);
  close(fd[0]);
  int ws = 0;
  waitpid(c, &ws, 0);
  std::string w = vh::fmt("[%s%s]", p.desc.c_str(), o.str().c_str());
  if(got == 2 && m[0] == '1') R().viol("P11:not_refused", "%s a problem with a fixed variable was solved although no treatment of fixed variables is chosen", w.c_str());
  else if(got == 0 && WIFSIGNALED(ws)) R().viol("P11:refusal_crash", "%s ended by signal %d", w.c_str(), WTERMSIG(ws));
  else if(got == 0 && WIFEXITED(ws) && WEXITSTATUS(ws) == 0) R().viol("P11:refusal_silent", "%s the process ended with 0", w.c_str());
  R().count(got == 0 ? "refused_exit" : "refused_status");
  R().eval(vh::hash_s(w + vh::fmt("%d", i)));
}

// ------------------------------------------------------------------ warm starts at the optimum
static void body_warm(Rng& g, bool qn)
{
  Prob p = gen(g, CONVEX, g.b(0.2) ? 14 : 7, !qn);
  if(g.b(0.3)) p.fs = pow(10, g.u(-1, 3));
  if(g.b(0.3)) for(int j = 0; j < p.m; j++) { double f = pow(10, g.u(-1, 3)); p.cs[j] = f; if(p.cl[j] > -INFB) p.cl[j] *= f; if(p.cu[j] < INFB) p.cu[j] *= f; }
  Opts o;
  mild_opts(g, qn, o);
  o.d.push_back({"tolerance", 1e-8}); o.d.push_back({"comp_tol", 1e-8}); o.d.push_back({"dual_tol", 1e-6}); o.d.push_back({"cons_tol", 1e-8});
  o.i.push_back({"max_iter", 300});
  SP A(mk(p, qn));
  A->o = o; A->u.start_mode = g.i(-1, 1); A->u.one_call = g.b(0.3);
  A->build();
  int st = A->run();
  if(st != hiop::Solve_Success || !A->u.fin.called) { R().count("base_not_solved"); return; }
  Res a = result(*A);
  const Final F = A->u.fin;
  Prob p2 = p;
  p2.x0 = F.x;
  // a point of the central path for a small barrier parameter: slacks and multipliers made consistent with it
  double mu = pow(10, g.u(-8, -4));
  SP B(mk(p2, qn));
  User& u = B->u;
  u.start_mode = 3; u.warm = true; u.one_call = A->u.one_call;
  u.zl0 = F.zl; u.zu0 = F.zu; u.lam0 = F.lam; u.s0.clear(); u.vl0.clear(); u.vu0.clear();
  for(int j = 0; j < p.m; j++) {
    if(p.is_eq(j)) continue;
    double s = F.g[j], sc = 1e-9 * std::max(1., fabs(s));
    if(p.cl[j] > -INFB) s = std::max(s, p.cl[j] + sc * 0);
    if(p.cu[j] < INFB) s = std::min(s, p.cu[j] - sc * 0);
    u.s0.push_back(s);
    u.vl0.push_back(p.cl[j] > -INFB ? std::max(0., -F.lam[j]) + 1e-10 : 0.);
    u.vu0.push_back(p.cu[j] < INFB ? std::max(0., F.lam[j]) + 1e-10 : 0.);
  }
  Opts o2;
  o2.s = o.s; o2.i = o.i;
  for(auto& e : o.d) if(e.first != "mu0") o2.d.push_back(e);
  o2.d.push_back({"mu0", mu});
  o2.s.push_back({"warm_start", "yes"});
  B->o = o2;
  B->build();
  int st2 = B->run();
  std::string w = "[" + B->tag + "]";
  R().count(vh::fmt("warm_status_%d", st2));
  R().maxv("warm_iterations", B->out.iters);
  R().eval(vh::mix(vh::hash_s(w), vh::hash_d(st2, F.x.data(), F.x.size())));
  if(!is_success(st2)) {
    if(B->best_err <= 1e-3 * std::max(1., p.fs)) R().count("stalled_at_optimum");
    else R().viol("P12:warm_unsolved", "%s restart from the optimum ended with status %d after %d iterations (best error %g)", w.c_str(), st2, B->out.iters, B->best_err);
    return;
  }
  same_solution(p, *A, a, result(*B), A->nlp()->get_obj_scale(), B->nlp()->get_obj_scale(), "warm", w + " restart from the optimum", "P12");
}

struct TmpDir {
  std::string d, old;
  TmpDir() { char t[] = "/tmp/hsessXXXXXX"; char* r = mkdtemp(t); d = r ? r : ""; char b[4096]; old = getcwd(b, sizeof(b)) ? b : "/"; if(chdir(d.c_str())) {} }
  ~TmpDir()
  {
    if(chdir(old.c_str())) {}
    if(d.rfind("/tmp/hsess", 0) == 0) {
      if(DIR* D = opendir(d.c_str())) { while(dirent* e = readdir(D)) { std::string n = e->d_name; if(n != "." && n != "..") unlink((d + "/" + n).c_str()); } closedir(D); }
      rmdir(d.c_str());
    }
  }
};
// ------------------------------------------------------------------ moving limits, elastic mode, restoration
static void body_limits(Rng& g, bool qn)
{
  int fam = g.b(0.35) ? CONVEX : g.b(0.55) ? NONCONVEX : g.b(0.5) ? INFEASIBLE : DEGENERATE;
  Prob p = gen(g, fam, g.b(0.15) ? 16 : 7, !qn);
  Opts o;
  mild_opts(g, qn, o);
  int what = g.i(0, 3);
  if(what == 0 || g.b(0.15)) {
    if(g.b(0.7)) o.d.push_back({"moving_lim_abs", pow(10, g.u(-1.5, 1))});
    else o.d.push_back({"moving_lim_rel", pow(10, g.u(-1.5, 0))});
  }
  if(what == 1 || what == 2 || g.b(0.1)) {
    static const std::vector<std::string> v = {"tighten_bound", "correct_it", "correct_it_adjust_bound"};
    o.s.push_back({"elastic_mode", g.pick(v)});
    if(g.b()) o.s.push_back({"elastic_bound_strategy", g.b() ? "mu_scaled" : "mu_projected"});
    double ini = pow(10, g.u(-6, -1.2)), fin = pow(10, g.u(-15, -2));
    if(g.b(0.7)) { o.d.push_back({"elastic_mode_bound_relax_initial", ini}); o.d.push_back({"elastic_mode_bound_relax_final", g.b(0.9) ? std::min(fin, ini) : fin}); }
  }
  if(what == 3) {
    if(g.b()) o.s.push_back({"force_resto", "yes"});
    else for(int i = 0; i < p.n; i++) p.x0[i] = g.u(-50, 50);
  }
  if(g.b(0.1)) o.s.push_back({"accept_every_trial_step", "yes"});
  if(g.b(0.3)) o.d.push_back({"theta_max_fact", pow(10, g.u(1, 4))});
  o.i.push_back({"max_iter", g.i(20, 120)});
  if(g.b(0.5)) extra_opts(g, qn, o);
  // options of the restoration's own solver; a large smallest step makes it fall back on a restoration of its own
  TmpDir td;
  if(what == 3 && g.b(0.5)) {
    std::ofstream f("fr.options");
    f << "min_step_size " << pow(10, g.u(-3, -0.1)) << "\nmax_soc_iter 0\n";
    if(g.b(0.3)) f << "kappa_eps " << g.u(5, 50) << "\n";
    o.s.push_back({"options_file_fr_prob", td.d + "/fr.options"});
    R().count("restoration_option_files");
  }
  SP A(mk(p, qn));
  A->o = o; A->u.start_mode = g.i(-1, 1); A->u.one_call = g.b(0.3);
  A->build();
  int st = A->run();
  R().count(std::string("limits_") + famname(fam));
  R().sample(A->tag + vh::fmt(" -> %d after %d", st, A->out.iters));
}

// ------------------------------------------------------------------ the iteration log
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
struct Capture {  // standard output into a file while alive
  int keep, fd;
  std::string path;
  explicit Capture(const std::string& p) : path(p) { fflush(stdout); keep = dup(1); fd = open(p.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 1); }
  std::string stop() { if(keep < 0) return ""; fflush(stdout); dup2(keep, 1); close(keep); close(fd); keep = -1; std::string s = slurp(path); unlink(path.c_str()); return s; }
  ~Capture() { stop(); }
};
static void body_itlog(Rng& g, bool qn)
{
  int fam = g.b(0.4) ? CONVEX : g.b(0.7) ? NONCONVEX : INFEASIBLE;
  Prob p = gen(g, fam, 7, !qn);
  if(g.b(0.3)) p.fs = pow(10, g.u(-2, 3));
  Opts o;
  mild_opts(g, qn, o);
  if(g.b(0.1)) o.s.push_back({"force_resto", "yes"});
  o.i.push_back({"max_iter", g.i(3, 60)});
  int verb = g.b(0.6) ? 3 : g.i(0, 7);
  TmpDir td;
  SP A(mk(p, qn));
  A->o = o; A->u.start_mode = g.i(-1, 1); A->u.keep_trace = true;
  if(g.b(0.1)) A->u.stop_at = g.i(0, 10);
  A->build();
  A->nlp()->options->SetIntegerValue("verbosity_level", verb);
  Capture cap(td.d + "/out");
  int st = A->run();
  std::string out = cap.stop();
  if(getenv("HKEEP")) fprintf(stderr, "%s", out.c_str());
  std::string w = "[" + A->tag + vh::fmt(" verbosity %d]", verb);
  std::istringstream in(out);
  std::string line;
  size_t rows = 0;
  long head = 0;
  auto& T = A->u.trace;
  std::vector<double> lastrow;
  while(std::getline(in, line)) {
    if(line.find("iter    objective") != std::string::npos) { head++; continue; }
    int it, n = 0; double ob, pr, du, lm, ad, ap; char ls[64];
    if(sscanf(line.c_str(), "%d %lf %lf %lf %lf %lf %lf %60s%n", &it, &ob, &pr, &du, &lm, &ad, &ap, ls, &n) != 8 || !strchr(ls, '(') || n != (int)line.size()) continue;
    if(verb < 3) { R().viol("P31:log_verbosity", "%s iteration row printed below the summary level: %s", w.c_str(), line.c_str()); return; }
    if(rows >= T.size()) { R().viol("P31:log_rows", "%s row %d of the log without an iterate: %s", w.c_str(), (int)rows, line.c_str()); return; }
    const VD& t = T[rows++];
    if(it != (int)t[0]) { R().viol("P31:log_iter", "%s row %d of the log shows iteration %d, the iterate is %d", w.c_str(), (int)rows - 1, it, (int)t[0]); return; }
    auto cmp = [&](const char* nm, double shown, double v, double rt, double at) { if(!vh::close(shown, v, rt, at)) { R().viol(vh::fmt("P31:log_%s", nm).c_str(), "%s iteration %d shows %s=%g, the iterate's is %.10g (%s)", w.c_str(), it, nm, shown, v, line.c_str()); } };
    if(std::isfinite(t[1])) cmp("objective", ob, t[1], 6e-8, 1e-300);
    cmp("inf_pr", pr, t[2], 6e-4, 1e-300);
    cmp("inf_du", du, t[3], 6e-4, 1e-300);
    cmp("mu", lm, log10(t[4]), 0, 0.00501);
    if(it > 0) { cmp("alpha_du", ad, t[5], 6e-4, 1e-300); cmp("alpha_pr", ap, t[6], 6e-4, 1e-300); }
    if(it > 0 && ls[0] != '-' && t[7] >= 0 && !strstr(ls, "(R)") && atoi(ls) != (int)t[7]) R().viol("P31:log_linesearch", "%s iteration %d shows %s line-search trials, the iterate has %d", w.c_str(), it, ls, (int)t[7]);
    {
      const std::string ri = A->row_info();
      const char* q = strchr(ls, '(');
      if(rows <= ri.size() && q[1] != ri[rows - 1]) R().viol("P31:log_steptype", "%s iteration %d shows a step of type %s, it was '%c'", w.c_str(), it, ls, ri[rows - 1]);
      R().count(vh::fmt("steptype_%c", q[1]));
    }
    R().count("log_rows");
  }
  if(verb >= 3 && rows != T.size()) R().viol("P31:log_missing", "%s %d rows for %d iterates", w.c_str(), (int)rows, (int)T.size());
  // errors are printed at any level
  if(verb == 0 && !out.empty() && out.find("[Error]") == std::string::npos && is_success(st) && A->row_info().find('R') == std::string::npos) R().viol("P31:log_silent", "%s output at verbosity 0: %.100s", w.c_str(), out.c_str());
  if(verb < 1 && out.find("[Warning]") != std::string::npos) R().viol("P31:log_warning", "%s a warning below the warning level", w.c_str());
  R().count(vh::fmt("verbosity_%d", verb));
  R().eval(vh::mix(vh::hash_s(w), vh::hash_s(out)), rows > 0);
  (void)st;
}

// ------------------------------------------------------------------ linear systems written to files
static void body_kktfile(Rng& g, bool)
{
  Prob p = gen(g, g.b(0.5) ? CONVEX : NONCONVEX, 8, true);
  Opts o;
  mild_opts(g, false, o);
  o.s.push_back({"write_kkt", "yes"});
  o.i.push_back({"max_iter", g.i(1, 12)});
  TmpDir td;
  SP A(mk(p, false));
  A->o = o;
  A->u.start_mode = 0;
  A->build();
  A->run();
  std::string w = "[" + A->tag + "]";
  int files = 0;
  for(;; files++) {
    std::ifstream f(vh::fmt("kkt_linsys_%d.iajaaa", files));
    if(!f) break;
    int m, nx, me, mi, nnz;
    f >> m >> nx >> me >> mi >> nnz;
    if(!f) { R().viol("P31:kkt_header", "%s file %d has no header", w.c_str(), files); return; }
    int em = p.n - p.ns + p.m;
    if(nx != p.n || me != p.meq() || mi != p.m - p.meq() || m != em) { R().viol("P31:kkt_header", "%s file %d: dimensions %d %d %d %d, expected %d %d %d %d", w.c_str(), files, m, nx, me, mi, em, p.n, p.meq(), p.m - p.meq()); return; }
    VI ia(m + 1), ja(nnz);
    VD a(nnz);
    for(auto& v : ia) f >> v;
    for(auto& v : ja) f >> v;
    for(auto& v : a) f >> v;
    if(!f || ia[0] != 1 || ia[m] != nnz + 1) { R().viol("P31:kkt_rows", "%s file %d: malformed matrix", w.c_str(), files); return; }
    std::vector<VD> M(m, VD(m, 0.));
    for(int i = 0; i < m; i++)
      for(int k = ia[i] - 1; k < ia[i + 1] - 1; k++) {
        if(k < 0 || k >= nnz || ja[k] - 1 < i || ja[k] > m) { R().viol("P31:kkt_columns", "%s file %d: row %d has column %d", w.c_str(), files, i, k >= 0 && k < nnz ? ja[k] : -1); return; }
        M[i][ja[k] - 1] = M[ja[k] - 1][i] = a[k];
      }
    VD r(m), s(m);
    int sys = 0;
    while(m > 0) {
      bool ok = true;
      for(auto& v : r) ok = ok && (bool)(f >> v);
      if(!ok) break;
      for(auto& v : s) ok = ok && (bool)(f >> v);
      if(!ok) { R().count("kkt_without_solution"); break; }
      double worst = 0, sm = 0, lost = 0;
      for(int i = 0; i < m; i++) {
        double t = -r[i], mg = fabs(r[i]) + 1e-20;
        for(int k = 0; k < m; k++) { t += M[i][k] * s[k]; mg += fabs(M[i][k] * s[k]); lost += 1e-20 * (fabs(M[i][k]) + fabs(s[k])); }  // 20 decimals are written
        worst = std::max(worst, fabs(t)); sm = std::max(sm, mg);
      }
      R().maxv("kkt_residual", worst / sm);
      if(!(worst <= 1e-8 * sm + lost + 1e-19)) { R().viol("P31:kkt_solution", "%s file %d, system %d: the solution written does not solve the system written (residual %g, terms of size %g)", w.c_str(), files, sys, worst, sm); return; }
      sys++;
      R().count("kkt_systems");
    }
    R().eval(vh::mix(vh::hash_s(w), vh::hash_d(files, a.data(), a.size())), nnz > 0);
  }
  if(files < A->out.iters) R().viol("P31:kkt_missing", "%s %d systems written in %d iterations", w.c_str(), files, A->out.iters);
  R().count("kkt_files", files);
}

// ------------------------------------------------------------------ options through files
static void body_optfile(Rng& g, bool qn)
{
  Prob p = gen(g, g.b(0.6) ? CONVEX : NONCONVEX, 6, !qn);
  Opts o;
  full_opts(g, qn, o);
  if(g.b(0.5)) o.d.push_back({"theta_mu", g.u(1.1, 1.8)});
  if(g.b(0.5)) o.d.push_back({"tau_min", g.u(0.9, 0.999)});
  o.i.push_back({"max_iter", g.i(3, 50)});
  TmpDir td;
  bool dflt = g.b(0.4);
  std::string name = dflt ? "hiop.options" : "my.options";
  SP A(mk(p, qn));
  A->o = o; A->u.start_mode = 0; A->u.keep_trace = true; A->monitored = false;
  A->build(); A->run();
  {
    std::ofstream f(name);
    if(g.b(0.5)) f << "# options of the test\n\n";
    for(auto& e : o.s) f << e.first << " " << e.second << "\n";
    for(auto& e : o.d) f << e.first << (g.b(0.3) ? "   \t " : " ") << vh::fmt("%.17g", e.second) << (g.b(0.2) ? "  # with a comment" : "") << "\n";
    for(auto& e : o.i) f << e.first << " " << e.second << "\n";
  }
  SP B(mk(p, qn));
  // what the program sets is overridden by the file
  if(g.b(0.5)) { B->o = o; for(auto& e : B->o.d) if(e.first == "mu0") e.second = 0.123; for(auto& e : B->o.i) if(e.first == "max_iter") e.second = 1; }
  B->runtime_opts = true; B->optfile = dflt ? "" : name; B->u.start_mode = 0; B->u.keep_trace = true; B->monitored = false;
  B->build(); B->run();
  std::string why, w = "[" + A->tag + "] options from " + name;
  if(A->out.status != B->out.status) R().viol("P14:file_status", "%s: status %d against %d", w.c_str(), B->out.status, A->out.status);
  else if(!same_trace(A->u.trace, B->u.trace, why)) R().viol("P14:file_effect", "%s: the iterates differ from those with the same options set by the program: %s", w.c_str(), why.c_str());
  R().count(dflt ? "default_file" : "named_file");
  R().eval(vh::hash_s(w), true);
}

static void body(Rng& g, long k, const std::string& mode)
{
  bool qn = mode.find("qn") != std::string::npos;
  auto is = [&](const char* m) { return mode.rfind(m, 0) == 0; };
  if(is("fault")) body_fault(g, qn);
  else if(is("rerun")) body_rerun(g, qn);
  else if(is("equiv")) body_equiv(g, qn);
  else if(is("fixed")) body_fixed(g, qn);
  else if(is("refuse")) body_refuse(g, qn);
  else if(is("warm")) body_warm(g, qn);
  else if(is("limits")) body_limits(g, qn);
  else if(is("itlog")) body_itlog(g, qn);
  else if(is("kktfile")) body_kktfile(g, qn);
  else if(is("optfile")) body_optfile(g, qn);
}
int main(int argc, char** argv) { return vh::run(argc, argv, body); }
