// Distributed dense solves (any partition over any number of ranks, any communicator) against the same solve on one rank.
#include "session.hpp"
using vh::Rng;

struct Run {
  int status = -99999, iters = -1;
  std::vector<VD> ex;  // measures of the iterate (logarithmic barrier, damping, norms, largest steps)
  std::vector<VD> tr;  // it,obj,ip,id,mu,ad,ap,ls, x (all), lam
  VD x, zl, zu, lam;
  double obj = 0;
  long ncall[C_NCALL] = {0};
};

static Run solve(Prob& p, const Opts& o, MPI_Comm c, const VI& part, int mode, int stop_at)
{
  User u(p);
  u.start_mode = mode;
  u.keep_trace = true;
  u.check_bounds = false;
  u.stop_at = stop_at;
  u.singular_ok = p.family != CONVEX;
  int rank, np;
  MPI_Comm_rank(c, &rank);
  MPI_Comm_size(c, &np);
  bool dist = part.size() > 0;
  if(dist) { u.comm = c; u.part = part; u.col0 = part[rank]; u.nloc = part[rank + 1] - part[rank]; }
  Run r;
  {
    DenseProb itf(u);
    hiop::hiopNlpDenseConstraints nlp(itf);
    nlp.options->SetIntegerValue("verbosity_level", getenv("HVERB") ? atoi(getenv("HVERB")) : 0);
    o.apply(nlp.options);
    hiop::hiopAlgFilterIPMQuasiNewton alg(&nlp);
    u.on_iter = [&](int it, double, double, int, const double*, const double*, const double*, int, const double*, int, const double*, const double*, double, double, double, double, double, double, int) {
      const hiop::hiopIterate& c0 = *alg.it_curr;
      VD e = {c0.evalLogBarrier(), c0.linearDampingTerm(1., 1.), c0.normOneOfBoundDuals(), c0.normOneOfEqualityDuals()};
      double q1, q2;
      c0.normOneOfDuals(q1, q2);
      e.push_back(q1); e.push_back(q2);
      e.push_back(it > 0 ? alg.logbar->f_logbar : 0.);
      if(it > 0) {
        double ap = 0, ad = 0;
        c0.fractionToTheBdry(*alg.dir, 0.99, ap, ad);
        e.push_back(ap); e.push_back(ad);
      }
      r.ex.push_back(e);
      return true;
    };
    r.status = alg.run();
    r.iters = alg.getNumIterations();
    r.obj = alg.getObjective();
  }
  for(int k = 0; k < C_NCALL; k++) r.ncall[k] = u.ncall[k];
  VI cnt(np), dis(np);
  auto gather = [&](const double* v) {
    VD a(p.n);
    if(!dist) { a.assign(v, v + p.n); return a; }
    for(int i = 0; i < np; i++) { dis[i] = part[i]; cnt[i] = part[i + 1] - part[i]; }
    MPI_Allgatherv(v, u.nloc, MPI_DOUBLE, a.data(), cnt.data(), dis.data(), MPI_DOUBLE, c);
    return a;
  };
  // the same number of reported iterates on every rank, else the gathers below would not match
  int nt = u.trace.size(), mn = nt, mx = nt;
  if(dist) { MPI_Allreduce(&nt, &mn, 1, MPI_INT, MPI_MIN, c); MPI_Allreduce(&nt, &mx, 1, MPI_INT, MPI_MAX, c); }
  if(mn != mx) R().viol("P25:iterates_per_rank", "[%s] some rank saw %d iterates, another %d", p.desc.c_str(), mn, mx);
  for(int k = 0; k < mn; k++) {
    const VD& t = u.trace[k];
    VD q(t.begin(), t.begin() + 8), x = gather(t.data() + 8);
    q.insert(q.end(), x.begin(), x.end());
    q.insert(q.end(), t.end() - p.m, t.end());
    r.tr.push_back(q);
  }
  int called = u.fin.called, any = called;
  if(dist) MPI_Allreduce(&called, &any, 1, MPI_INT, MPI_MAX, c);
  if(any != called) R().viol("P25:solution_per_rank", "[%s] the solution is delivered on some ranks only", p.desc.c_str());
  int all = called;
  if(dist) MPI_Allreduce(&called, &all, 1, MPI_INT, MPI_MIN, c);
  if(all && (int)u.fin.x.size() == u.NL()) { r.x = gather(u.fin.x.data()); r.zl = gather(u.fin.zl.data()); r.zu = gather(u.fin.zu.data()); r.lam = u.fin.lam; }
  return r;
}

static double reld(double a, double b, double s) { if(a == b || (std::isnan(a) && std::isnan(b))) return 0; double d = fabs(a - b) / (s + fabs(a) + fabs(b)); return std::isnan(d) ? 1e300 : d; }

static void body(Rng& g, long, const std::string& mode)
{
  int np, rank;
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  // several groups of ranks may solve different problems at the same time
  MPI_Comm c = MPI_COMM_WORLD;
  bool split = np >= 2 && g.b(0.3);
  uint64_t salt = 0;
  if(split) {
    int ng = g.i(2, std::min(3, np));
    int color = (rank * 7 + (int)g.i(0, 5)) % ng;
    MPI_Comm_split(MPI_COMM_WORLD, color, g.b() ? rank : -rank, &c);
    salt = color + 1;
    R().count("split_communicators");
  }
  Rng h(((uint64_t)g.i(1, 1 << 30)) * 1315423911u + salt);
  int cr, cs;
  MPI_Comm_rank(c, &cr);
  MPI_Comm_size(c, &cs);

  int fam = h.b(0.6) ? CONVEX : h.b(0.6) ? NONCONVEX : h.b(0.3) ? LP : INFEASIBLE;
  Prob p = gen(h, fam, h.b(0.3) ? 25 : 9, false);
  Opts o;
  if(h.b(0.2)) { int i = h.i(0, p.n - 1); p.xl[i] = p.xu[i] = p.xref[i]; }
  bool fx = false;
  for(int i = 0; i < p.n; i++) fx = fx || p.xl[i] == p.xu[i];
  if(fx) o.s.push_back({"fixed_var", h.b(0.5) ? "remove" : "relax"});
  if(fx) judge_rank(p);
  if(h.b(0.2)) o.s.push_back({"scaling_type", "none"});
  else if(h.b(0.3)) { p.fs = pow(10, h.u(0, 3)); }
  if(h.b(0.4)) o.s.push_back({"duals_update_type", "linear"});
  if(h.b(0.3)) o.s.push_back({"duals_init", "zero"});
  if(h.b(0.3)) o.i.push_back({"secant_memory_len", h.i(0, 10)});
  if(h.b(0.2)) { static const std::vector<std::string> v = {"sigma0", "sty", "sty_inv", "sty_srnm_ynrm"}; o.s.push_back({"sigma_update_strategy", h.pick(v)}); }
  if(h.b(0.2)) o.d.push_back({"mu0", pow(10, h.u(-2, 1))});
  if(h.b(0.1)) o.s.push_back({"force_resto", "yes"});
  if(h.b(0.1)) { o.s.push_back({"elastic_mode", h.b() ? "tighten_bound" : "correct_it"}); }
  if(h.b(0.15)) o.i.push_back({"max_soc_iter", h.i(0, 4)});
  if(h.b(0.2)) o.d.push_back({"bound_relax_perturb", h.b(0.3) && !fx ? 0. : pow(10, h.u(-9, -5))});
  if(h.b(0.15)) o.d.push_back({"moving_lim_abs", h.u(0.05, 2)});
  o.i.push_back({"max_iter", h.b(0.2) ? h.i(0, 10) : 120});
  int start = h.i(-1, 1), stop_at = h.b(0.08) ? h.i(0, 8) : -1;

  VI part(cs + 1, 0);
  part[cs] = p.n;
  int pk = h.i(0, 3);
  for(int r = 1; r < cs; r++) part[r] = pk == 0 ? (int)((long)p.n * r / cs) : h.i(0, p.n);
  std::sort(part.begin(), part.end());
  if(mode == "noempty" || h.b(0.5)) for(int r = 0; r < cs && p.n >= cs; r++) if(part[r] == part[r + 1]) { for(int t = 0; t <= cs; t++) part[t] = (int)((long)p.n * t / cs); break; }
  std::string tag = p.desc + o.str() + " partition";
  bool empty = false;
  for(int r = 0; r <= cs; r++) { tag += vh::fmt(" %d", part[r]); if(r) empty = empty || part[r] == part[r - 1]; }
  if(empty) R().count("empty_parts");
  R().count(vh::fmt("ranks_%d", cs));

  Run a = solve(p, o, c, part, start, stop_at);
  Run b = solve(p, o, MPI_COMM_SELF, VI(), start, stop_at);
  R().count(vh::fmt("status_%d", b.status));
  if(getenv("HDUMP") && cr == 0) for(size_t k = 0; k < std::max(a.tr.size(), b.tr.size()); k++) {
    for(auto* r : {&a, &b}) { if(k < r->tr.size()) { for(int q = 0; q < 8; q++) fprintf(stderr, " %.14g", r->tr[k][q]); } fprintf(stderr, "\n"); }
  }

  // every rank says the same
  {
    VD mine = {(double)a.status, (double)a.iters, (double)a.tr.size()};
    for(int k = 0; k < C_NCALL; k++) mine.push_back(a.ncall[k]);
    VD root = mine;
    MPI_Bcast(root.data(), root.size(), MPI_DOUBLE, 0, c);
    if(memcmp(root.data(), mine.data(), sizeof(double) * mine.size()))
      R().viol("P25:rank_status", "[%s] rank %d: status %d after %d iterations (%ld function calls); rank 0: status %g after %g iterations (%g)", tag.c_str(), cr, a.status, a.iters, a.ncall[C_F], root[0], root[1], root[3 + C_F]);
    VD s = {a.obj};
    for(auto& t : a.tr) { s.insert(s.end(), t.begin(), t.begin() + 8); s.insert(s.end(), t.end() - p.m, t.end()); }
    s.insert(s.end(), a.lam.begin(), a.lam.end());
    int sz = s.size(), rs = sz;
    MPI_Bcast(&rs, 1, MPI_INT, 0, c);
    VD q(rs);
    if(cr == 0) q = s;
    MPI_Bcast(q.data(), rs, MPI_DOUBLE, 0, c);
    if(rs == sz) for(int i = 0; i < sz; i++) if(reld(q[i], s[i], 1e-12) > 1e-9) { R().viol("P25:rank_values", "[%s] rank %d reports %.17g where rank 0 reports %.17g (value %d)", tag.c_str(), cr, s[i], q[i], i); break; }
    R().count("rank_agreements");
  }
  // the same path as on one rank: rounding differences grow gradually, a wrong computation jumps
  double prev = 1e-15;
  size_t k = 0;
  bool tracked = true;
  double sx = 1, sl = 1;
  for(; k < a.tr.size() && k < b.tr.size(); k++) {
    const VD &s = a.tr[k], &t = b.tr[k];
    for(int i = 0; i < p.n; i++) sx = std::max(sx, fabs(t[8 + i]));
    for(int j = 0; j < p.m; j++) sl = std::max(sl, fabs(t[8 + p.n + j]));
    double d = 0, od = fabs(s[1] - t[1]) / (1 + fabs(t[1]) + p.fs * (1 + sx) * (1 + sx));
    if(s[0] != t[0] || s[7] != t[7]) d = 1;
    d = std::max(d, od);
    // measures below the level of rounding carry no information
    for(int q : {2, 3}) d = std::max(d, fabs(s[q] - t[q]) / (1e-4 * (1 + sl) * (1 + sx) * std::max(1., p.fs) + fabs(t[q])));
    d = std::max(d, reld(s[4], t[4], 1e-30));
    for(int q : {5, 6}) d = std::max(d, fabs(s[q] - t[q]));
    for(int i = 0; i < p.n; i++) d = std::max(d, fabs(s[8 + i] - t[8 + i]) / sx);
    for(int j = 0; j < p.m; j++) d = std::max(d, fabs(s[8 + p.n + j] - t[8 + p.n + j]) / sl);
    if(std::isnan(d)) d = 1e300;
    if(getenv("HDUMP") && cr == 0) fprintf(stderr, "iter %d d %g\n", (int)k, d);
    bool near = t[2] < 1e-6 && t[3] < 1e-5;  // decisions are down to rounding
    // (feasible with the objective standing still: so is the line search)
    if(k && t[2] < 1e-6 && fabs(t[1] - b.tr[k - 1][1]) < 1e-9 * (1 + fabs(t[1]))) near = true;
    bool broken = false;
    for(double v : t) broken = broken || !(fabs(v) < 1e8);
    if(broken) { tracked = false; R().count("paths_wild"); break; }
    if(d > 1e-6) {
      // (the gradient changes of a linear problem are pure rounding: so are its secant pairs)
      if(prev < 1e-11 && !near && d > 1e-5 && fam != LP) {
        R().viol("P25:path", "[%s] iterate %d differs by %.3g from the one on one rank (before: %.3g): obj %.12g/%.12g inf %.6g,%.6g/%.6g,%.6g mu %.6g/%.6g steps %.6g,%.6g,%g/%.6g,%.6g,%g", tag.c_str(), (int)t[0], d, prev, s[1], t[1], s[2], s[3], t[2], t[3], s[4], t[4], s[5], s[6], s[7], t[5], t[6], t[7]);
      } else R().count("paths_diverged_by_rounding");
      tracked = false;
      break;
    }
    if(d < 1e-11 && k < a.ex.size() && k < b.ex.size() && !near) {
      static const char* nm[] = {"logarithmic barrier", "damping term", "norm of the bound multipliers", "norm of the equality multipliers", "norm of the multipliers (1)", "norm of the multipliers (2)", "barrier function", "largest primal step", "largest dual step"};
      for(size_t q = 0; q < a.ex[k].size(); q++) {
        double e = fabs(a.ex[k][q] - b.ex[k][q]) / (sx + sl + p.fs * (1 + sx) * (1 + sx) + fabs(b.ex[k][q]));
        R().maxv("measure_difference", e);
        if(!(e < 1e-7)) { R().viol("P25:measures", "[%s] iterate %d: %s %.12g, on one rank %.12g", tag.c_str(), (int)t[0], nm[q], a.ex[k][q], b.ex[k][q]); break; }
      }
      R().count("measures_compared", a.ex[k].size());
    }
    R().maxv("path_difference", d);
    R().count("iterates_compared");
    prev = std::max(prev, d);
  }
  if(tracked && prev < 1e-9 && a.tr.size() == b.tr.size() && a.status != b.status && b.status != hiop::Infeasible_Problem && b.status != hiop::Error_In_FR && b.status != hiop::Steplength_Too_Small) R().viol("P25:status", "[%s] status %d, on one rank %d", tag.c_str(), a.status, b.status);
  if(p.family == CONVEX && p.fullrank && is_success(b.status) && is_success(a.status) && b.x.size() && a.x.size()) {
    double w = 0;
    for(int i = 0; i < p.n; i++) w = std::max(w, fabs(a.x[i] - b.x[i]) / (1 + fabs(b.x[i])));
    if(w > 1e-3) R().viol("P25:solution", "[%s] solution differs by %.4g from the one on one rank", tag.c_str(), w);
    R().count("solutions_compared");
  }
  if(tracked && prev < 1e-9 && a.x.size() && b.x.size()) {
    for(int i = 0; i < p.n; i++)
      if(fabs(a.x[i] - b.x[i]) > 1e-5 * sx || fabs(a.zl[i] - b.zl[i]) > 1e-4 * (sl + fabs(b.zl[i])) || fabs(a.zu[i] - b.zu[i]) > 1e-4 * (sl + fabs(b.zu[i])))
        { R().viol("P25:delivered", "[%s] delivered variable %d: x %.10g/%.10g zl %.10g/%.10g zu %.10g/%.10g", tag.c_str(), i, a.x[i], b.x[i], a.zl[i], b.zl[i], a.zu[i], b.zu[i]); break; }
    R().count("delivered_compared");
  }
  R().count(tracked ? "paths_tracked" : "paths_left");
  R().sample(vh::fmt("%s: %d ranks, status %d, %d iterates compared, largest difference %.2g", tag.c_str(), cs, a.status, (int)k, prev));
  R().eval(vh::mix(vh::hash_s(tag), cs), cs > 1 && k > 2);
  if(split) MPI_Comm_free(&c);
}
int main(int argc, char** argv) { return vh::run(argc, argv, body); }
