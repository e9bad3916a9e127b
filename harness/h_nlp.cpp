// Whole solves of random problems under the monitor.
#include "session.hpp"
using vh::Rng;

// random options of the algorithm, none of which may change what a solve promises
static void rand_opts(Rng& g, bool qn, Opts& o, const std::string& mode)
{
  if(g.b(0.3)) o.s.push_back({"scaling_type", "none"});
  if(g.b(0.3)) o.d.push_back({"mu0", pow(10, g.u(-3, 1))});
  if(g.b(0.2)) o.d.push_back({"kappa_mu", g.u(0.1, 0.6)});
  if(g.b(0.2)) o.d.push_back({"theta_mu", g.u(1.1, 1.8)});
  if(g.b(0.2)) o.d.push_back({"kappa_eps", g.u(3, 30)});
  if(g.b(0.2)) o.d.push_back({"tau_min", g.u(0.9, 0.999)});
  if(g.b(0.3)) o.d.push_back({"tolerance", pow(10, g.u(-9, -5))});
  if(g.b(0.2)) o.d.push_back({"bound_relax_perturb", g.b(0.3) ? 0. : pow(10, g.u(-9, -5))});
  if(g.b(0.2)) o.i.push_back({"max_soc_iter", g.i(0, 5)});
  if(g.b(0.2)) o.d.push_back({"smax", g.u(1, 200)});
  if(g.b(0.15)) o.d.push_back({"kappa1", pow(10, g.u(-6, -1.5))});
  if(g.b(0.15)) o.d.push_back({"kappa2", pow(10, g.u(-6, -1.0))});
  if(qn) {
    if(g.b(0.3)) o.i.push_back({"secant_memory_len", g.i(0, 12)});
    if(g.b(0.3)) { static const std::vector<std::string> v = {"sigma0", "sty", "sty_inv", "snrm_ynrm", "sty_srnm_ynrm"}; o.s.push_back({"sigma_update_strategy", g.pick(v)}); }
    if(g.b(0.3)) o.s.push_back({"duals_update_type", "linear"});
    if(g.b(0.3)) o.s.push_back({"duals_init", "zero"});
  } else {
    if(g.b(0.4)) { static const std::vector<std::string> v = {"xycyd", "xdycyd", "auto"}; o.s.push_back({"KKTLinsys", g.pick(v)}); }
    if(g.b(0.2)) o.s.push_back({"fact_acceptor", "inertia_free"});
    if(g.b(0.3)) { static const std::vector<std::string> v = {"stable", "speculative", "forcequick"}; o.s.push_back({"linsol_mode", g.pick(v)}); }
    if(g.b(0.2)) o.s.push_back({"duals_init", "zero"});
    if(g.b(0.1)) o.s.push_back({"regularization_method", "randomized"});
  }
}

static SessionBase* mk(Rng& g, Prob& p, bool qn) { if(qn) return new SesQN(p); return new SesNW(p); }

static void body(Rng& g, long k, const std::string& mode)
{
  bool qn = mode.find("qn") != std::string::npos;
  if(mode.rfind("conv", 0) == 0 || mode.rfind("gen", 0) == 0 || mode.rfind("wild", 0) == 0) {
    int fam = mode.rfind("conv", 0) == 0 ? (g.b(0.8) ? CONVEX : LP) : (g.b(0.55) ? NONCONVEX : g.b(qn ? 0.15 : 0.4) ? INFEASIBLE : DEGENERATE);
    const bool wild = mode.rfind("wild", 0) == 0;
    if(wild) fam = NONCONVEX;
    Prob p = wild ? gen_wild(g, !qn) : gen(g, fam, g.b(0.2) ? 25 : 8, !qn);
    if(g.b(wild ? 0.1 : 0.3)) for(int j = 0; j < p.m; j++) {  // badly scaled rows
      double f = pow(10, g.u(-1, 3));
      p.cs[j] = f;
      if(p.cl[j] > -INFB) p.cl[j] *= f;
      if(p.cu[j] < INFB) p.cu[j] *= f;
    }
    if(g.b(0.3)) p.fs = pow(10, g.u(-1, 3));
    if(getenv("HDUMP")) for(int j = 0; j < p.m; j++) { fprintf(stderr, "row %d [%g,%g] cs %g:", j, p.cl[j], p.cu[j], p.cs[j]); for(int i = 0; i < p.n; i++) fprintf(stderr, " %g(%g,%g)", p.A[j][i], p.E[j][i], p.S[j][i]); fprintf(stderr, "\n"); }
    std::unique_ptr<SessionBase> s(mk(g, p, qn));
    rand_opts(g, qn, s->o, mode);
    bool risky = mode.find("_x") != std::string::npos && extra_opts(g, qn, s->o);
    s->o.i.push_back({"max_iter", fam == CONVEX || fam == LP ? 400 : g.b(0.2) ? g.i(0, 12) : 150});
    if(fam > CONVEX && g.b(0.1)) s->u.stop_at = g.i(0, 15);
    s->u.one_call = g.b(0.25);
    s->u.start_mode = g.i(-1, 1);
    if(g.b(0.25)) {
      bool fx = false;
      for(int i = 0; i < p.n; i++) fx = fx || p.xl[i] == p.xu[i];
      bool warm = g.b(0.4) && !fx;
      rand_duals(g, p, s->u, warm);
      s->u.start_mode = g.i(2, 3);
      if(warm) { s->u.warm = true; s->u.start_mode = 3; s->o.s.push_back({"warm_start", "yes"}); }
    }
    s->build();
    int st = s->run();
    R().count(std::string("family_") + famname(fam));
    R().sample(vh::fmt("%s -> status %d in %d iterations", s->tag.c_str(), st, s->out.iters));
    if((fam == CONVEX || fam == LP) && st == hiop::Infeasible_Problem && s->out.inf_pr <= 1e-6) R().viol("P03:infeasible_feasible", "[%s] reported infeasible at a point of infeasibility %g", s->tag.c_str(), s->out.inf_pr);
    // well-scaled: left to the automatic scaling for Newton, by itself for quasi-Newton (with some memory)
    bool noscal = false, nomem = false;
    for(auto& o : s->o.s) noscal = noscal || (o.first == "scaling_type" && o.second == "none");
    for(auto& o : s->o.i) nomem = nomem || (o.first == "secant_memory_len" && o.second < 3);
    double big = p.fs;
    for(double c : p.cs) big = std::max(big, c);
    bool scaled = qn ? big <= 1 && !nomem && !s->cfg.odd_sigma : !noscal || big <= 10;
    if(fam == CONVEX && p.fullrank && scaled && s->u.start_mode < 2 && !risky && mode.find("_x") == std::string::npos) {
      R().maxv("convex_iterations", s->out.iters);
      // at the limit of rounding the line search may find no further decrease
      // (the restoration phase then called resets the multipliers)
      bool stalled = !is_success(st) && s->best_err <= 1e-3 * std::max(1., p.fs);
      stalled = stalled || !is_success(st) && s->out.inf_pr <= 1e-4 && s->out.inf_du <= 1e-3 * std::max(1., p.fs) && s->out.mu <= 1e-3;
      // the point stands still, at working precision, on the constraints: no step can be told to reduce anything
      stalled = stalled || (st == hiop::Steplength_Too_Small && s->out.inf_pr <= 1e-8 && s->still >= 2);
      if(stalled && !is_success(st)) R().count("stalled_at_optimum");
      else if(!stalled && !is_success(st)) R().viol("P03:convex_unsolved", "[%s] strictly convex feasible problem ended with status %d after %d iterations (infeasibilities %g, %g, mu %g)", s->tag.c_str(), st, s->out.iters, s->out.inf_pr, s->out.inf_du, s->out.mu);
    }
  }
}
int main(int argc, char** argv) { return vh::run(argc, argv, body); }
