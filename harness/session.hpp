// One solve of one problem under the monitor, with the checks at its end.
#pragma once
#include "ipmmon.hpp"
#include <memory>

struct Opts {
  std::vector<std::pair<std::string, std::string>> s;
  std::vector<std::pair<std::string, double>> d;
  std::vector<std::pair<std::string, int>> i;
  void apply(hiop::hiopOptions* o) const
  {
    for(auto& e : s) o->SetStringValue(e.first.c_str(), e.second.c_str());
    for(auto& e : d) o->SetNumericValue(e.first.c_str(), e.second);
    for(auto& e : i) o->SetIntegerValue(e.first.c_str(), e.second);
  }
  std::string str() const
  {
    std::string r;
    for(auto& e : s) r += " " + e.first + "=" + e.second;
    for(auto& e : d) r += vh::fmt(" %s=%g", e.first.c_str(), e.second);
    for(auto& e : i) r += vh::fmt(" %s=%d", e.first.c_str(), e.second);
    return r;
  }
};

// multipliers and slacks for the start; interior=true: an admissible complete warm start
inline void rand_duals(vh::Rng& g, Prob& p, User& u, bool interior)
{
  u.zl0.assign(p.n, 0.); u.zu0 = u.zl0; u.lam0.assign(p.m, 0.); u.s0.clear(); u.vl0.clear(); u.vu0.clear();
  auto z = [&]() { return g.b(0.2) ? pow(10, g.u(-6, 3)) : pow(10, g.u(-1, 1)); };
  for(int i = 0; i < p.n; i++) { if(p.xl[i] > -INFB) u.zl0[i] = z(); if(p.xu[i] < INFB) u.zu0[i] = z(); }
  for(auto& a : u.lam0) a = g.gauss() * (g.b(0.1) ? 100 : 1);
  auto inside = [&](double l, double h) {
    bool L = l > -INFB, H = h < INFB;
    return L && H ? l + (h - l) * g.u(0.1, 0.9) : L ? l + g.u(0.1, 2) : H ? h - g.u(0.1, 2) : g.gauss();
  };
  if(interior) for(int i = 0; i < p.n; i++) p.x0[i] = inside(p.xl[i], p.xu[i]);
  for(int j = 0; j < p.m; j++) {
    if(p.is_eq(j)) continue;
    u.s0.push_back(interior || g.b(0.5) ? inside(p.cl[j], p.cu[j]) : p.xref.size() ? p.con(j, p.x0.data()) + g.gauss() : g.gauss());
    u.vl0.push_back(p.cl[j] > -INFB ? z() : 0); u.vu0.push_back(p.cu[j] < INFB ? z() : 0);
  }
}
// further documented options; none changes what a solve promises.  Returns true if one of them may keep a well-posed
// problem from converging within its tolerances
inline bool extra_opts(vh::Rng& g, bool qn, Opts& o)
{
  bool risky = false;
  auto D = [&](const char* k, double v) { o.d.push_back({k, v}); };
  auto I = [&](const char* k, int v) { o.i.push_back({k, v}); };
  if(g.b(0.2)) D("rel_tolerance", pow(10, g.u(-8, -1.1)));
  if(g.b(0.2)) { D("acceptable_tolerance", pow(10, g.u(-8, -1.1))); if(g.b()) I("acceptable_iterations", g.i(1, 12)); }
  if(g.b(0.15)) D("cons_tol", pow(10, g.u(-9, -2)));
  if(g.b(0.15)) D("dual_tol", pow(10, g.u(-8, 1)));
  if(g.b(0.15)) D("comp_tol", pow(10, g.u(-9, -2)));
  if(g.b(0.2)) D("scaling_max_grad", pow(10, g.u(-1, 3)));
  if(g.b(0.2)) D("scaling_max_obj_grad", pow(10, g.u(-1, 3)));
  if(g.b(0.2)) D("scaling_max_con_grad", pow(10, g.u(-1, 3)));
  if(g.b(0.15)) D("scaling_min_grad", g.b(0.3) ? 0. : pow(10, g.u(-8, -0.5)));
  if(g.b(0.15)) D("eta_phi", pow(10, g.u(-10, -2)));
  if(g.b(0.1)) { D("theta_max_fact", pow(10, g.u(0.3, 6))); risky = true; }
  if(g.b(0.1)) D("theta_min_fact", pow(10, g.u(-7, -2)));
  if(g.b(0.1)) { D("kappa_resto", g.u(0.1, 1.)); risky = true; }
  if(g.b(0.2)) D("kappa_soc", g.u(0.1, 3));
  if(g.b(0.1)) { D("min_step_size", pow(10, g.u(-14, -3))); risky = true; }
  if(qn) {
    if(g.b(0.2)) D("recalc_lsq_duals_tol", pow(10, g.u(-8, 2)));
  } else {
    if(g.b(0.15)) { D("delta_0_bar", pow(10, g.u(-6, 0))); }
    if(g.b(0.15)) { D("delta_w_min_bar", pow(10, g.u(-14, -6))); }
    if(g.b(0.15)) { D("delta_c_bar", pow(10, g.u(-10, -5))); }
    if(g.b(0.1)) { D("kappa_w_plus", g.u(2, 20)); D("kappa_w_plus_bar", g.u(5, 200)); D("kappa_w_minus", g.u(0.1, 0.9)); }
    if(g.b(0.1)) D("kappa_c", g.u(0, 1));
    if(g.b(0.1)) D("neg_curv_test_fact", pow(10, g.u(-14, -6)));
    if(g.b(0.15)) I("ir_outer_maxit", g.i(0, 10));
    if(g.b(0.1)) D("ir_outer_tol_factor", pow(10, g.u(-6, 0)));
    if(g.b(0.1)) D("ir_outer_tol_min", pow(10, g.u(-12, -4)));
  }
  if(g.b(0.15)) D("duals_lsq_ini_max", pow(10, g.u(-2, 4)));
  if(g.b(0.1)) o.s.push_back({"time_kkt", "on"});
  return risky;
}
inline bool is_success(int st) { return st == hiop::Solve_Success || st == hiop::Solve_Success_RelTol || st == hiop::Solve_Acceptable_Level; }

struct Outcome {
  int status = -99999;
  int iters = 0;
  VD x, zl, zu, lam;
  double obj = 0;
  bool have = false;
  double inf_pr = 1e300, inf_du = 1e300, mu = 1e300;  // last reported
};

static double sigma_min(std::vector<VD> J)
{
  int m = J.size();
  if(!m) return 1e300;
  int n = J[0].size();
  if(m > n) return 0;
  // Gram-Schmidt with pivoting gives a lower estimate within a modest factor
  double smin = 1e300;
  std::vector<char> done(m, 0);
  for(int s = 0; s < m; s++) {
    int b = -1; double bn = -1;
    for(int r = 0; r < m; r++) if(!done[r]) { double t = 0; for(double v : J[r]) t += v * v; if(t > bn) { bn = t; b = r; } }
    bn = sqrt(bn);
    smin = std::min(smin, bn);
    if(bn < 1e-12) return 0;
    done[b] = 1;
    for(int r = 0; r < m; r++) if(!done[r]) { double t = 0; for(int i = 0; i < n; i++) t += J[r][i] * J[b][i]; t /= bn * bn; for(int i = 0; i < n; i++) J[r][i] -= t * J[b][i]; }
  }
  return smin / std::max(1., sqrt((double)m));
}
// the equalities in the variables that are not removed
inline void judge_rank(Prob& p)
{
  std::vector<VD> J;
  int nf = 0;
  for(int i = 0; i < p.n; i++) nf += p.is_fixed(i);
  if(!nf) return;
  for(int j = 0; j < p.m; j++)
    if(p.is_eq(j)) {
      VD t;
      for(int i = 0; i < p.n; i++) if(!p.is_fixed(i)) t.push_back(p.jac(j, i, p.xref.data()) / p.cs[j]);
      J.push_back(t);
    }
  if((int)J.size() > p.n - nf || (J.size() && sigma_min(J) < 0.05)) { p.fullrank = p.convex = false; p.family = DEGENERATE; R().count("fixed_not_fullrank"); }
}
struct SessionBase {
  virtual std::string row_info() const { return std::string(); }
  Prob& p;
  User u;
  MonCfg cfg;
  Opts o;
  Outcome out;
  double best_err = 1e300, last_obj = 1e300;
  int still = 0;  // last iterations over which the objective did not change beyond rounding
  bool monitored = true;  // run the end-of-solve checks
  long c0_calls[C_NCALL] = {0};
  std::string tag, optfile;
  bool runtime_opts = true;  // options set by the program (or by the file only)
  std::function<bool(int)> extra_iter;
  SessionBase(Prob& p_) : p(p_), u(p_) {}
  virtual ~SessionBase() {}
  virtual void build() = 0;
  virtual int run() = 0;
  virtual hiop::hiopNlpFormulation* nlp() = 0;
  virtual hiop::hiopAlgFilterIPMBase* alg() = 0;
};

template <class Base>
struct Session : SessionBase {
  std::unique_ptr<DenseProb> dp;
  std::unique_ptr<MDSProb> mp;
  std::unique_ptr<hiop::hiopNlpDenseConstraints> nd;
  std::unique_ptr<hiop::hiopNlpMDS> nm;
  std::unique_ptr<Mon<Base>> mon;
  static const bool QN = std::is_same<Base, hiop::hiopAlgFilterIPMQuasiNewton>::value;
  Session(Prob& p_) : SessionBase(p_) {}
  ~Session() { mon.reset(); nd.reset(); nm.reset(); }
  hiop::hiopNlpFormulation* nlp() override { if(nd) return nd.get(); return nm.get(); }
  hiop::hiopAlgFilterIPMBase* alg() override { return mon.get(); }
  std::string row_info() const override { return mon ? mon->rowinfo : std::string(); }
  double num(const char* k) { return nlp()->options->GetNumeric(k); }
  int integer(const char* k) { return nlp()->options->GetInteger(k); }
  void make_nlp()
  {
    if(QN) {
      dp.reset(new DenseProb(u));
      nd.reset(optfile.empty() ? new hiop::hiopNlpDenseConstraints(*dp) : new hiop::hiopNlpDenseConstraints(*dp, optfile.c_str()));
    } else {
      mp.reset(new MDSProb(u));
      nm.reset(optfile.empty() ? new hiop::hiopNlpMDS(*mp) : new hiop::hiopNlpMDS(*mp, optfile.c_str()));
    }
    nlp()->options->SetIntegerValue("verbosity_level", getenv("HVERB") ? atoi(getenv("HVERB")) : 0);
    if(!QN) {
      nlp()->options->SetStringValue("Hessian", "analytical_exact");
      nlp()->options->SetStringValue("duals_update_type", "linear");
      nlp()->options->SetStringValue("compute_mode", "cpu");
    }
    if(runtime_opts) o.apply(nlp()->options);
    auto* op = nlp()->options;
    cfg.newton = !QN;
    cfg.lsq_duals = op->GetString("duals_update_type") == "lsq";
    cfg.soc = op->GetInteger("max_soc_iter") > 0;
    cfg.elastic = op->GetString("elastic_mode") != "none";
    cfg.randomized = op->GetString("regularization_method") == "randomized";
    cfg.inertia_free = op->GetString("fact_acceptor") == "inertia_free";
    cfg.moving_abs = op->GetNumeric("moving_lim_abs");
    cfg.moving_rel = op->GetNumeric("moving_lim_rel");
    cfg.fixed_removed = op->GetString("fixed_var") == "remove";
    cfg.accept_all = op->GetString("accept_every_trial_step") == "yes";
    cfg.force_fr = op->GetString("force_resto") == "yes";
    cfg.odd_sigma = op->GetString("sigma_update_strategy") == "snrm_ynrm";
    cfg.forcequick = op->GetString("linsol_mode") == "forcequick";
    cfg.relax = op->GetNumeric("bound_relax_perturb");
    p.fixtol = op->GetNumeric("fixed_var_tolerance");
    if(cfg.fixed_removed) judge_rank(p);
    if(cfg.elastic) {
      cfg.relax = op->GetNumeric("elastic_mode_bound_relax_initial");
      if(op->GetNumeric("elastic_mode_bound_relax_final") > cfg.relax) cfg.relax = 1e-2;  // both take their default values
    }
    if(op->GetString("fixed_var") == "relax" && cfg.relax == 0) u.relax_fixed = std::max(op->GetNumeric("fixed_var_perturb"), 0.) + 1e-10;
    cfg.scaling = op->GetString("scaling_type") != "none";
    cfg.scaling_default = op->GetNumeric("scaling_max_con_grad") == 0 && op->GetNumeric("scaling_min_grad") <= 1;
    u.singular_ok = !cfg.newton && ((p.family != CONVEX && p.family != LP) || cfg.odd_sigma);
    u.relax = cfg.relax + 1e-10;  // plus what the adjustment of too small slacks may add
  }
  void make_alg()
  {
    mon.reset(new Mon<Base>(nlp(), u, cfg, nd.get()));
    mon->tag = tag = p.desc + o.str();
    u.on_iter = [this](int it, double obj, double lb, int n, const double* x, const double* zl, const double* zu, int mi, const double* s, int m, const double* g, const double* lam, double ip, double id, double on, double mu, double ad, double ap, int ls) {
      iter_cb(it, obj, lb, n, x, zl, zu, mi, s, m, g, lam, ip, id, on, mu, ad, ap, ls);
      return extra_iter ? extra_iter(it) : true;
    };
  }
  void build() override { make_nlp(); make_alg(); }
  VD cbx, cbzl, cbzu, cbg, cblam; double cbobj = 0; int cbit = -1;
  // what the user is told at each iteration against the user's functions and the solver's iterate
  void iter_cb(int it, double obj, double lb, int n, const double* x, const double* zl, const double* zu, int mi, const double* s, int m, const double* g, const double* lam, double ip, double id, double on, double mu, double ad, double ap, int ls)
  {
    auto& M = *mon;
    out.inf_pr = ip; out.inf_du = id; out.mu = mu;
    still = fabs(obj - last_obj) <= 1e-13 * (1 + fabs(obj)) ? still + 1 : 0;
    last_obj = obj;
    best_err = std::min(best_err, std::max(std::max(ip, id), mu));
    R().count("iterate_callbacks");
    if(it != M.last_it) R().viol("P05:cb_number", "[%s] callback says iteration %d, the log says %d", tag.c_str(), it, M.last_it);
    if(n != p.n) return;  // reported by the adapter
    cbx.assign(x, x + n); cbzl.assign(zl, zl + n); cbzu.assign(zu, zu + n); cbg.assign(g, g + m); cblam.assign(lam, lam + m); cbobj = obj; cbit = it;
    if(m != p.m || mi != (int)M.in.size()) { R().viol("P09:dims_iter", "[%s] callback with m=%d, %d slacks", tag.c_str(), m, mi); return; }
    if(M.wild || M.fault_seen()) return;
    double fu = p.f(x);
    if(!vh::close(obj, fu, 1e-9, 1e-9 * (1 + ninf(cbx)))) R().viol("P09:iter_obj", "[%s] iteration %d: objective reported %.15g, at the reported point it is %.15g", tag.c_str(), it, obj, fu);
    for(int i = 0; i < n; i++) {
      if(!cfg.elastic) {
        double rl = cfg.relax * std::max(1., fabs(p.xl[i])), ru = cfg.relax * std::max(1., fabs(p.xu[i]));
        if((p.xl[i] > -INFB && x[i] < p.xl[i] - rl - 1e-11 * std::max(1., fabs(p.xl[i]))) || (p.xu[i] < INFB && x[i] > p.xu[i] + ru + 1e-11 * std::max(1., fabs(p.xu[i]))))
          { if(!p.is_fixed(i)) R().viol("P02:iterate_outside", "[%s] iteration %d: x[%d]=%.17g outside [%.17g,%.17g]", tag.c_str(), it, i, x[i], p.xl[i], p.xu[i]); break; }
      }
    }
    // constraint values and multipliers in the user's order and units
    double sf = M.sf;
    for(int j = 0; j < m; j++) {
      double c = p.con(j, x), mag = 1;
      for(int i = 0; i < n; i++) mag += fabs(p.cs[j] * p.A[j][i] * x[i]) + fabs(p.cs[j] * p.E[j][i] * x[i] * x[i]);
      if(!vh::close(g[j], c, 1e-9, 1e-9 * mag)) { R().viol("P09:iter_cons", "[%s] iteration %d: value of constraint %d reported %.15g, at the reported point it is %.15g", tag.c_str(), it, j, g[j], c); break; }
    }
    auto chk = [&](const char* nm, int j, double got, double held, double scale) {
      double e = held * scale;
      if(!vh::close(got, e, 1e-9, 1e-12)) { R().viol("P09:iter_duals", "[%s] iteration %d: %s %d reported %.12g, in the user's units it is %.12g", tag.c_str(), it, nm, j, got, e); return false; }
      return true;
    };
    for(size_t a = 0; a < M.eq.size(); a++) if(M.sknown[M.eq[a]] && !chk("multiplier of equality", M.eq[a], lam[M.eq[a]], M.cur.yc[a], M.s[M.eq[a]] / sf)) break;
    for(size_t a = 0; a < M.in.size(); a++) if(M.sknown[M.in[a]] && !chk("multiplier of inequality", M.in[a], lam[M.in[a]], M.cur.yd[a], M.s[M.in[a]] / sf)) break;
    for(int k = 0; k < M.N(); k++) {
      if(!chk("multiplier of lower bound", M.kept[k], zl[M.kept[k]], M.cur.zl[k], 1 / sf)) break;
      if(!chk("multiplier of upper bound", M.kept[k], zu[M.kept[k]], M.cur.zu[k], 1 / sf)) break;
    }
    // measures
    double ps = 1e-10 * M.pr_scale();
    if(!vh::close(ip, M.e_pr, 1e-6, ps)) R().viol("P05:cb_inf_pr", "[%s] iteration %d: primal infeasibility reported %.12g, recomputed %.12g", tag.c_str(), it, ip, M.e_pr);
    if(!vh::close(id, M.e_du, 1e-6, 1e-10 * M.e_du_scale())) R().viol("P05:cb_inf_du", "[%s] iteration %d: dual infeasibility reported %.12g, recomputed %.12g", tag.c_str(), it, id, M.e_du);
    if(!vh::close(on, M.theta_ref, 1e-6, ps * (1 + p.m))) R().viol("P05:cb_onenorm", "[%s] iteration %d: one-norm infeasibility reported %.12g, recomputed %.12g", tag.c_str(), it, on, M.theta_ref);
    if(mu != M.mu_prev && mu != M.mus.back()) R().viol("P05:cb_mu", "[%s] iteration %d: mu reported %.12g", tag.c_str(), it, mu);
    R().maxv("iterations", it);
    R().count("iterate_callbacks_checked");
  }
  int maxit = 0;
  void reset_counts() { for(int c = 0; c < C_NCALL; c++) c0_calls[c] = u.ncall[c]; u.fin = Final(); u.n_iter_cb = 0; n_stop = 0; }
  int n_stop = 0;
  int run() override
  {
    reset_counts();
    maxit = integer("max_iter");
    long nf0 = u.nfault;
    out = Outcome();
    int st = mon->run();
    out.status = st;
    out.iters = mon->last_it;
    R().count(vh::fmt("status_%d", st));
    if(mon->getSolveStatus() != st) R().viol("P03:status_getter", "[%s] run returned %d, getSolveStatus %d", tag.c_str(), st, (int)mon->getSolveStatus());
    bool faulted = u.nfault > nf0;
    if(st == hiop::NlpSolve_Pending || st == hiop::NlpSolve_IncompleteInit || st == hiop::NlpSolve_SolveNotCalled) R().viol("P03:status_pending", "[%s] the solve ended with status %d", tag.c_str(), st);
    if(u.fin.called && u.fin.ncalls != 1) R().viol("P09:final_once", "[%s] the solution callback was called %d times", tag.c_str(), u.fin.ncalls);
    if(!u.fin.called && !faulted && (is_success(st) || st == hiop::User_Stopped || st == hiop::Max_Iter_Exceeded)) R().viol("P09:final_missing", "[%s] status %d without a solution callback", tag.c_str(), st);
    if(u.fin.called && u.fin.status != st) R().viol("P09:final_status", "[%s] run returned %d, the solution callback %d", tag.c_str(), st, u.fin.status);
    if(faulted) return st;
    if(monitored) {
      status_truth(st);
      if(is_success(st) && u.fin.called && u.fin.n == p.n && u.fin.m == p.m) certificate(st);
      agreement(st);
      counts();
    }
    return st;
  }
  void status_truth(int st)
  {
    auto& M = *mon;
    int k = M.last_it;
    if(st == hiop::Max_Iter_Exceeded && k != maxit) R().viol("P03:max_iter", "[%s] iteration limit %d reported at iteration %d", tag.c_str(), maxit, k);
    if(k > maxit) R().viol("P03:max_iter_exceeded", "[%s] iteration %d with limit %d", tag.c_str(), k, maxit);
    if(mon->getNumIterations() != k && st != hiop::Error_In_User_Function && !M.fr_count) R().viol("P03:num_iterations", "[%s] %d iterations reported, the last was %d", tag.c_str(), mon->getNumIterations(), k);
    bool stopped = u.stop_at >= 0 && u.n_iter_cb > 0 && k >= u.stop_at;
    if(st == hiop::User_Stopped && !stopped && !u.stopped_in_cb) R().viol("P03:user_stop", "[%s] user stop reported though the user did not stop", tag.c_str());
    if((stopped || u.stopped_in_cb) && st != hiop::User_Stopped) R().viol("P03:user_stop_ignored", "[%s] user asked to stop at iteration %d, status %d", tag.c_str(), u.stop_at, st);
    if(M.errs.empty() || M.wild) return;
    double tol = num("tolerance"), e = M.errs.back(), slop = 1e-11 * std::max(M.e_du_scale(), M.pr_scale());
    if(st == hiop::Solve_Success) {
      if(e > tol * (1 + 1e-6) + slop) R().viol("P03:success_untrue", "[%s] success with overall error %.6g above the tolerance %.3g", tag.c_str(), e, tol);
      if(M.e_du > num("dual_tol") * (1 + 1e-6) + slop) R().viol("P03:success_dual_tol", "[%s] success with dual infeasibility %.6g above dual_tol %.3g", tag.c_str(), M.e_du, num("dual_tol"));
      if(M.e_cv > num("cons_tol") * (1 + 1e-6) + slop) R().viol("P03:success_cons_tol", "[%s] success with constraint violation %.6g above cons_tol %.3g", tag.c_str(), M.e_cv, num("cons_tol"));
      if(M.e_co > num("comp_tol") * (1 + 1e-6) + slop) R().viol("P03:success_comp_tol", "[%s] success with complementarity %.6g above comp_tol %.3g", tag.c_str(), M.e_co, num("comp_tol"));
    }
    // not stopping although converged
    for(size_t q = 0; q + 1 < M.errs.size(); q++)
      if(M.full_ok[q] && M.errs[q] < 0.99 * tol) { R().viol("P03:missed_success", "[%s] all tolerances were met at iteration %d (overall error %.6g), the solve went on", tag.c_str(), (int)q, M.errs[q]); break; }
    if(st == hiop::Solve_Acceptable_Level) {
      int w = integer("acceptable_iterations");
      double at = num("acceptable_tolerance");
      if((int)M.errs.size() < w) R().viol("P03:acceptable_short", "[%s] acceptable level after %d iterations, %d required", tag.c_str(), (int)M.errs.size(), w);
      else for(int q = 0; q < w; q++) { double ee = M.errs[M.errs.size() - 1 - q]; if(ee > at * (1 + 1e-6) + slop) { R().viol("P03:acceptable_untrue", "[%s] acceptable level reported, but the error %d iterations back is %.6g > %.3g", tag.c_str(), q, ee, at); break; } }
    }
    if(st == hiop::Solve_Success_RelTol) {
      double rt = num("rel_tolerance");
      if(!(rt > 0)) R().viol("P03:reltol_unset", "[%s] relative success without rel_tolerance", tag.c_str());
      else if(M.e_du > rt * M.err0_du * (1 + 1e-6) + slop || M.e_pr > rt * M.err0_pr * (1 + 1e-6) + slop || M.e_co > std::max(rt, 1e-6) * std::min(1., M.err0_co) * (1 + 1e-6) + slop)
        R().viol("P03:reltol_untrue", "[%s] relative success with errors %.4g/%.4g/%.4g, initially %.4g/%.4g/%.4g", tag.c_str(), M.e_du, M.e_pr, M.e_co, M.err0_du, M.err0_pr, M.err0_co);
    }
    if(!p.feasible && is_success(st)) R().viol("P03:infeasible_solved", "[%s] a problem without feasible points is reported as solved (%d)", tag.c_str(), st);
  }
  // optimality conditions of the user's problem at what the user was given
  void certificate(int st)
  {
    auto& M = *mon;
    const Final& F = u.fin;
    double tol = st == hiop::Solve_Success ? num("tolerance") : st == hiop::Solve_Acceptable_Level ? num("acceptable_tolerance") : -1;
    if(tol < 0 || M.wild) return;
    double sf = M.sf, smin = 1;
    for(int j = 0; j < p.m; j++) smin = std::min(smin, M.row(j));
    const VD &x = F.x, &zl = F.zl, &zu = F.zu, &lam = F.lam;
    VD g(p.n);
    p.grad(x.data(), g.data());
    double mx = 0;
    // constraints and bounds
    double relax = cfg.relax;
    if(cfg.elastic) relax = cfg.relax;
    for(int i = 0; i < p.n; i++) {
      double rl = std::max(relax, u.relax_fixed) * std::max(1., fabs(p.xl[i])) * 1.01 + 1e-11 * std::max(1., fabs(p.xl[i])), ru = std::max(relax, u.relax_fixed) * std::max(1., fabs(p.xu[i])) * 1.01 + 1e-11 * std::max(1., fabs(p.xu[i]));
      if(p.xl[i] > -INFB && x[i] < p.xl[i] - rl) { R().viol("P01:bounds", "[%s] x[%d]=%.15g below its lower bound %.15g", tag.c_str(), i, x[i], p.xl[i]); break; }
      if(p.xu[i] < INFB && x[i] > p.xu[i] + ru) { R().viol("P01:bounds", "[%s] x[%d]=%.15g above its upper bound %.15g", tag.c_str(), i, x[i], p.xu[i]); break; }
    }
    for(int j = 0; j < p.m; j++) {
      double c = p.con(j, x.data()), v = std::max(p.cl[j] > -INFB ? p.cl[j] - c : 0, p.cu[j] < INFB ? c - p.cu[j] : 0);
      double mag = 1;
      for(int i = 0; i < p.n; i++) mag += fabs(p.cs[j] * p.A[j][i] * x[i]) + fabs(p.cs[j] * p.E[j][i] * x[i] * x[i]);
      double al = tol / M.row(j) * 1.01 + (p.is_eq(j) ? 0 : relax * std::max(1., std::max(p.cl[j] > -INFB ? fabs(p.cl[j]) : 0., p.cu[j] < INFB ? fabs(p.cu[j]) : 0.))) * 1.01 + 1e-11 * std::max(mag, 1 / M.row(j));
      if(v > al) { R().viol("P01:feasibility", "[%s] constraint %d = %.15g violates [%.15g,%.15g] by %.4g (allowed %.4g)", tag.c_str(), j, c, p.cl[j], p.cu[j], v, al); break; }
      mx = std::max(mx, v);
    }
    // stationarity, in the user's units
    double dt = st == hiop::Solve_Success ? std::min(num("dual_tol"), tol * M.sd_ref) : tol * M.sd_ref;
    double wr = 0, wa = 0; int wi = -1;
    for(int i = 0; i < p.n; i++) {
      if(cfg.fixed_removed && p.is_fixed(i)) continue;
      double r = g[i] - zl[i] + zu[i], mag = fabs(g[i]) + fabs(zl[i]) + fabs(zu[i]);
      for(int j = 0; j < p.m; j++) { double t = p.jac(j, i, x.data()) * lam[j]; r += t; mag += fabs(t); }
      double al = dt / sf * 1.02 + 1e-11 * (1 + mag);
      if(fabs(r) - al > wr - wa || wi < 0) { wr = fabs(r); wa = al; wi = i; }
    }
    if(wi >= 0 && wr > wa) R().viol("P01:stationarity", "[%s] the gradient of the Lagrangian with the returned multipliers is %.6g in variable %d (allowed %.4g)", tag.c_str(), wr, wi, wa);
    // signs and complementarity
    double ct = std::max(st == hiop::Solve_Success ? num("comp_tol") : 0, tol * M.sc_ref) / sf * 1.02;
    for(int i = 0; i < p.n; i++) {
      if(cfg.fixed_removed && p.is_fixed(i)) continue;
      if(zl[i] < 0 || zu[i] < 0) { R().viol("P01:sign_bounds", "[%s] bound multipliers of variable %d are %g and %g", tag.c_str(), i, zl[i], zu[i]); break; }
      if((p.xl[i] <= -INFB && zl[i] != 0) || (p.xu[i] >= INFB && zu[i] != 0)) { R().viol("P01:mult_without_bound", "[%s] multiplier of the absent bound of variable %d is %g/%g", tag.c_str(), i, zl[i], zu[i]); break; }
      double rl = relax * std::max(1., fabs(p.xl[i])) * 1.01 + 1e-11, ru = relax * std::max(1., fabs(p.xu[i])) * 1.01 + 1e-11;
      if(p.xl[i] > -INFB && !p.is_fixed(i) && zl[i] * (x[i] - p.xl[i]) > ct + zl[i] * rl) { R().viol("P01:complementarity", "[%s] lower bound of variable %d: distance %.4g, multiplier %.4g", tag.c_str(), i, x[i] - p.xl[i], zl[i]); break; }
      if(p.xu[i] < INFB && !p.is_fixed(i) && zu[i] * (p.xu[i] - x[i]) > ct + zu[i] * ru) { R().viol("P01:complementarity", "[%s] upper bound of variable %d: distance %.4g, multiplier %.4g", tag.c_str(), i, p.xu[i] - x[i], zu[i]); break; }
    }
    for(int j = 0; j < p.m; j++) {
      if(p.is_eq(j)) continue;
      double c = p.con(j, x.data()), sj = M.row(j);
      // lam = vu - vl up to the dual tolerance; the constraint value agrees with the slack up to the feasibility tolerance
      double dl = dt / sf * sj * 1.02 + 1e-11;
      double fe = tol / sj * 1.02 + relax * std::max(1 / sj, fabs(p.cl[j] > -INFB ? p.cl[j] : 0) + fabs(p.cu[j] < INFB ? p.cu[j] : 0)) * 1.02 + 1e-11 * (1 + fabs(c));
      // with two-sided bounds each multiplier may be up to ct/slack on the other side
      double lp = std::max(0., lam[j] - dl), lm = std::max(0., -lam[j] - dl);
      double du = p.cu[j] - c, dlw = c - p.cl[j];
      if(p.cu[j] >= INFB && lp > 1e-9) { R().viol("P01:sign_ineq", "[%s] constraint %d has no upper bound but multiplier %.6g", tag.c_str(), j, lam[j]); break; }
      if(p.cl[j] <= -INFB && lm > 1e-9) { R().viol("P01:sign_ineq", "[%s] constraint %d has no lower bound but multiplier %.6g", tag.c_str(), j, lam[j]); break; }
      if(p.cu[j] < INFB && lp > 0 && lp * std::max(0., du - fe) > ct * 1.01 + 1e-12) { R().viol("P01:complementarity_ineq", "[%s] constraint %d: distance to upper bound %.4g, multiplier %.4g", tag.c_str(), j, du, lam[j]); break; }
      if(p.cl[j] > -INFB && lm > 0 && lm * std::max(0., dlw - fe) > ct * 1.01 + 1e-12) { R().viol("P01:complementarity_ineq", "[%s] constraint %d: distance to lower bound %.4g, multiplier %.4g", tag.c_str(), j, dlw, lam[j]); break; }
    }
    double fu = p.f(x.data());
    if(!vh::close(F.obj, fu, 1e-9, 1e-9 * (1 + ninf(x)))) R().viol("P01:objective", "[%s] objective returned %.15g, at the returned point it is %.15g", tag.c_str(), F.obj, fu);
    R().count("certificates");
    R().maxv("certificate_feasibility", mx);
  }
  void agreement(int st)
  {
    auto& M = *mon;
    const Final& F = u.fin;
    int n = p.n, m = p.m;
    // getters, twice
    if(st == hiop::Error_In_User_Function) return;
    VD x(n + 2, 7e77), zl = x, zu = x, lam(m + 2, 7e77), x2 = x, zl2 = x, zu2 = x, lam2 = lam;
    M.getSolution(x.data());
    if(!(x[n] == 7e77 && x[n + 1] == 7e77)) R().viol("P09:getter_overrun", "[%s] getSolution wrote past the user's dimension", tag.c_str());
    M.getDualSolutions(zl.data(), zu.data(), lam.data());
    double f1 = M.getObjective();
    M.getSolution(x2.data());
    M.getDualSolutions(zl2.data(), zu2.data(), lam2.data());
    double f2 = M.getObjective();
    x.resize(n); zl.resize(n); zu.resize(n); lam.resize(m); x2.resize(n); zl2.resize(n); zu2.resize(n); lam2.resize(m);
    if(x != x2 || zl != zl2 || zu != zu2 || lam != lam2 || f1 != f2) R().viol("P09:getter_repeat", "[%s] asking twice for the solution gives two answers", tag.c_str());
    out.x = x; out.zl = zl; out.zu = zu; out.lam = lam; out.obj = f1; out.have = true;
    if(!F.called || F.n != n || F.m != m) return;
    auto same = [&](const char* nm, const VD& a, const VD& b, double rt) {
      for(size_t i = 0; i < a.size(); i++) if(!vh::close(a[i], b[i], rt, 1e-300)) { R().viol(vh::fmt("P09:%s_differs", nm).c_str(), "[%s] status %d: %s[%d] is %.15g from the getter and %.15g in the solution callback", tag.c_str(), st, nm, (int)i, a[i], b[i]); return; }
    };
    same("x", x, F.x, 0); same("zl", zl, F.zl, 1e-12); same("zu", zu, F.zu, 1e-12); same("lambda", lam, F.lam, 1e-12);
    if(!vh::close(f1, F.obj, 1e-14)) R().viol("P09:obj_differs", "[%s] objective %.15g from the getter, %.15g in the callback", tag.c_str(), f1, F.obj);
    if(M.wild) return;
    for(int j = 0; j < m; j++) {
      double c = p.con(j, F.x.data()), mag = 1;
      for(int i = 0; i < n; i++) mag += fabs(p.cs[j] * p.A[j][i] * F.x[i]) + fabs(p.cs[j] * p.E[j][i] * F.x[i] * F.x[i]);
      if(!vh::close(F.g[j], c, 1e-9, 1e-9 * mag)) { R().viol("P09:final_cons", "[%s] value of constraint %d delivered %.15g, at the delivered point it is %.15g", tag.c_str(), j, F.g[j], c); break; }
    }
    if(!vh::close(F.obj, p.f(F.x.data()), 1e-9, 1e-9 * (1 + ninf(F.x)))) R().viol("P09:final_obj", "[%s] objective delivered %.15g, at the delivered point it is %.15g", tag.c_str(), F.obj, p.f(F.x.data()));
    // last iterate callback
    if(cbit == M.last_it && (is_success(st) || st == hiop::Max_Iter_Exceeded || st == hiop::User_Stopped) && (int)cbx.size() == n) {
      if(cbx != F.x) R().viol("P09:last_iterate_x", "[%s] the solution delivered differs from the last iterate reported", tag.c_str());
      auto s2 = [&](const char* nm, const VD& a, const VD& b) {
        for(size_t i = 0; i < a.size(); i++) if(!vh::close(a[i], b[i], 1e-11, 1e-300)) { R().viol("P09:last_iterate", "[%s] %s[%d] is %.15g in the last iterate callback, %.15g in the solution callback", tag.c_str(), nm, (int)i, a[i], b[i]); return; }
      };
      s2("zl", cbzl, F.zl); s2("zu", cbzu, F.zu); s2("lambda", cblam, F.lam); s2("constraint", cbg, F.g);
      if(!vh::close(cbobj, F.obj, 1e-13)) R().viol("P09:last_iterate", "[%s] objective %.15g in the last iterate callback, %.15g in the solution callback", tag.c_str(), cbobj, F.obj);
    }
    R().count("agreements");
  }
  void counts()
  {
    auto& r = nlp()->runStats;
    // restoration solves call the user's functions through the same formulation
    auto c = [&](int k) { return (long)(u.ncall[k] - c0_calls[k]); };
    auto cmp = [&](const char* nm, long rep, long made) { if(rep != made) R().viol(vh::fmt("P10:count_%s", nm).c_str(), "[%s] %ld calls of %s reported, %ld made", tag.c_str(), rep, nm, made); };
    cmp("eval_f", r.nEvalObj, c(C_F));
    cmp("eval_grad_f", r.nEvalGrad_f, c(C_GRAD));
    if(!u.one_call && M_eqs() && M_ins()) {
      cmp("eval_cons(eq)", r.nEvalCons_eq, c(C_CONS_EQ));
      cmp("eval_cons(ineq)", r.nEvalCons_ineq, c(C_CONS_INEQ));
      cmp("eval_Jac(eq)", r.nEvalJac_con_eq, c(C_JAC_EQ));
      cmp("eval_Jac(ineq)", r.nEvalJac_con_ineq, c(C_JAC_INEQ));
    }
    if(!QN) cmp("eval_Hess", r.nEvalHessL, c(C_HESS));
    R().count("count_checks");
  }
  bool M_eqs() { return p.meq() > 0; }
  bool M_ins() { return p.meq() < p.m; }
};
typedef Session<hiop::hiopAlgFilterIPMQuasiNewton> SesQN;
typedef Session<hiop::hiopAlgFilterIPMNewton> SesNW;
