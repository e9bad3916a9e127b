// Primal decomposition: every recourse term exactly once per master iterate at that iterate, the approximation handed to
// the master equal to the average of what was evaluated, a run that depends neither on the ranks nor on the schedule,
// and a status that says how the run ended.
#include "vh.hpp"
#include "hiopAlgPrimalDecomp.hpp"
#include "hiopInterfacePrimalDecomp.hpp"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace hiop;
using vh::Rng;
using vh::R;
using VD = std::vector<double>;
using VI = std::vector<int>;

struct TmpDir {
  char old[4096], dir[64];
  TmpDir() { if(!getcwd(old, sizeof old)) abort(); strcpy(dir, "/tmp/hpd.XXXXXX"); if(!mkdtemp(dir) || chdir(dir)) abort(); }
  ~TmpDir()
  {
    for(const char* f : {"hiop_pridec.options"}) unlink((std::string(dir) + "/" + f).c_str());
    if(chdir(old)) abort();
    rmdir(dir);
  }
};

/// one recourse term r(y) = w * ( c0 + 1/2 sum h (y-c)^2  [+ sqrt(1+|y-c|^2)] [+ amp*cos(y_0)] )
struct Term { double w, c0, amp; VD h, c; bool lip; };

struct Inst {
  int n, nc, S;
  VI idx;            // coupled variables
  bool list;         // constructor with the index list
  VD d, t, lo, hi;   // base case: 1/2 sum d (x-t)^2 over a box
  double fc;
  std::vector<Term> r;
  double rf(int i, const double* y) const
  {
    const Term& q = r[i];
    double s = 0, l = 0;
    for(int j = 0; j < nc; j++) { s += 0.5 * q.h[j] * (y[j] - q.c[j]) * (y[j] - q.c[j]); l += (y[j] - q.c[j]) * (y[j] - q.c[j]); }
    return q.w * (q.c0 + s + (q.lip ? std::sqrt(1 + l) : 0.) + q.amp * std::cos(y[0]));
  }
  void rg(int i, const double* y, double* g) const
  {
    const Term& q = r[i];
    double l = 0;
    for(int j = 0; j < nc; j++) l += (y[j] - q.c[j]) * (y[j] - q.c[j]);
    for(int j = 0; j < nc; j++)
      g[j] = q.w * (q.h[j] * (y[j] - q.c[j]) + (q.lip ? (y[j] - q.c[j]) / std::sqrt(1 + l) : 0.) - (j == 0 ? q.amp * std::sin(y[0]) : 0.));
  }
  double base(const double* x) const
  {
    double s = fc;
    for(int i = 0; i < n; i++) s += 0.5 * d[i] * (x[i] - t[i]) * (x[i] - t[i]);
    return s;
  }
  VD pick(const double* x) const { VD y(nc); for(int j = 0; j < nc; j++) y[j] = x[idx[j]]; return y; }
};

static Inst make(Rng& g, int np)
{
  Inst p;
  p.n = g.i(1, 7);
  int kind = g.i(0, 3);  // all coupled (no list) / all coupled with a list / a subset
  p.nc = kind <= 1 ? p.n : g.i(1, p.n);
  p.list = kind >= 1;
  for(int i = 0; i < p.n; i++) p.idx.push_back(i);
  if(p.list) {
    for(int i = p.n - 1; i > 0; i--) std::swap(p.idx[i], p.idx[g.i(0, i)]);
    p.idx.resize(p.nc);
    if(g.b(0.5)) std::sort(p.idx.begin(), p.idx.end());
  }
  int lo = std::max(1, np - 1);
  p.S = g.b(0.35) ? lo + g.i(0, 2) : g.i(lo, lo + 14);
  p.fc = g.b(0.3) ? g.u(-5, 5) : 0.;
  for(int i = 0; i < p.n; i++) {
    p.d.push_back(g.u(0.2, 4));
    p.t.push_back(g.u(-2, 2));
    bool bx = g.b(0.5);
    double a = g.u(-2, 1), b = a + g.u(0.2, 3);
    p.lo.push_back(bx ? a : -1e20);
    p.hi.push_back(bx ? b : 1e20);
  }
  bool cosy = g.b(0.2), lip = g.b(0.3);
  for(int i = 0; i < p.S; i++) {
    Term q;
    q.w = g.u(0.5, 2) * (g.b(0.1) ? 10 : 1);
    q.c0 = g.b(0.5) ? g.u(0.1, 3) : 0.05;
    q.amp = cosy ? g.u(0, 0.5) : 0.;
    q.c0 += q.amp;
    q.lip = lip && g.b(0.7);
    for(int j = 0; j < p.nc; j++) { q.h.push_back(g.b(0.15) ? 0. : g.u(0.05, 3)); q.c.push_back(g.u(-2, 2)); }
    p.r.push_back(q);
  }
  return p;
}

enum { EV_F, EV_G, EV_APPROX, EV_MASTER };
struct Rec { int kind, it, idx; VD v; };  // F/G: the point; APPROX: rval, rgrad, rhess, x0; MASTER: include, x (out), objective

struct Prob : hiopInterfacePriDecProblem {
  const Inst& p;
  Rng g;
  MPI_Comm comm;
  hiopAlgPrimalDecomposition* alg = nullptr;
  RecourseApproxEvaluator* ev = nullptr;
  std::vector<Rec> log;
  VD x;
  double obj = 0;
  int slow = 0;      // microseconds a term takes at most
  int fail_it = -1, fail_idx = -1, fail_kind = 0;
  int master_fail_it = -1;
  int nmaster = 0, nfail = 0;
  hiopSolveStatus ret = Solve_Success;
  std::string optfile;
  bool bad_opt = false;
  Prob(const Inst& q, unsigned long seed) : p(q), g(seed), x(q.n, 0.) {}
  void nap() { if(slow) usleep(g.i(0, slow)); }
  hiopSolveStatus solve_master(hiopVector& xo, const bool& inc, const double&, const double*, const double*, const char* f) override
  {
    if(f == nullptr || optfile != f) bad_opt = true;
    VD q = p.d, b(p.n, 0.);  // 1/2 q x^2 - b x
    for(int i = 0; i < p.n; i++) b[i] = p.d[i] * p.t[i];
    if(inc) {
      // what the approximation adds, measured through its own callbacks: gradient at zero and the diagonal
      VD z(p.n, 0.), gr(p.n, 0.);
      ev->eval_grad(p.n, z.data(), true, gr.data());
      hiopVector* h = ev->get_rhess()->alloc_clone();
      h->setToZero();
      hiopVector* xz = LinearAlgebraFactory::create_vector("DEFAULT", p.n);
      xz->setToZero();
      ev->eval_hess(p.n, *xz, true, *h);
      for(int i = 0; i < p.n; i++) b[i] -= gr[i];
      for(int j = 0; j < p.nc; j++) q[p.idx[j]] += h->local_data()[j];
      delete h;
      delete xz;
    }
    for(int i = 0; i < p.n; i++) x[i] = std::min(std::max(b[i] / q[i], p.lo[i]), p.hi[i]);
    obj = p.base(x.data());
    if(inc) ev->eval_f(p.n, x.data(), true, obj);
    for(int i = 0; i < p.n; i++) xo.local_data()[i] = x[i];
    Rec r{EV_MASTER, alg->getNumIterations(), (int)inc, x};
    r.v.push_back(obj);
    log.push_back(r);
    nmaster++;
    if(slow) nap();
    return alg->getNumIterations() == master_fail_it && inc ? Max_Iter_Exceeded : ret;
  }
  bool eval_f_rterm(size_type i, const int& n, const double* y, double& v) override
  {
    log.push_back({EV_F, alg->getNumIterations(), (int)i, VD(y, y + n)});
    nap();
    v = i >= 0 && i < p.S && n == p.nc ? p.rf(i, y) : 0.;
    if(alg->getNumIterations() == fail_it && i == fail_idx && fail_kind == 0) { nfail++; return false; }
    return true;
  }
  bool eval_grad_rterm(size_type i, const int& n, double* y, hiopVector& gr) override
  {
    log.push_back({EV_G, alg->getNumIterations(), (int)i, VD(y, y + n)});
    nap();
    if(i >= 0 && i < p.S && n == p.nc) p.rg(i, y, gr.local_data());
    if(alg->getNumIterations() == fail_it && i == fail_idx && fail_kind == 1) { nfail++; return false; }
    return true;
  }
  size_type get_num_rterms() const override { return p.S; }
  size_type get_num_vars() const override { return p.n; }
  void get_solution(double* o) const override { memcpy(o, x.data(), p.n * sizeof(double)); }
  double get_objective() override { return obj; }
  bool set_recourse_approx_evaluator(const int n, RecourseApproxEvaluator* e) override
  {
    ev = e;
    Rec r{EV_APPROX, alg->getNumIterations(), n, {e->get_rval()}};
    for(hiopVector* v : {e->get_rgrad(), e->get_rhess(), e->get_x0()}) r.v.insert(r.v.end(), v->local_data(), v->local_data() + p.nc);
    log.push_back(r);
    return true;
  }
};

struct Cfg {
  double tol = 1e-5, atol = 1e-3, amin = 1e-5, amax = 1e6;
  int aiter = 25, maxit = 60;
  bool local = false, file = true;
};

struct Out { int status, iters; VD x; double obj; std::vector<std::vector<Rec>> logs; bool bad_opt = false; int nfail = 0; };

/// a whole run on communicator c; the logs of all ranks are complete on its rank 0
static Out run(const Inst& p, const Cfg& o, MPI_Comm c, unsigned long seed, int slow, std::function<void(Prob&)> tweak = nullptr)
{
  int rank, np;
  MPI_Comm_rank(c, &rank);
  MPI_Comm_size(c, &np);
  TmpDir td;
  {
    std::ofstream f("hiop_pridec.options");
    f.precision(17);
    f << "verbosity_level 0\n";
    if(o.local) f << "accum_local yes\n";
    if(o.file)
      f << "tolerance " << o.tol << "\nacceptable_tolerance " << o.atol << "\nacceptable_iterations " << o.aiter << "\nalpha_min " << o.amin
        << "\nalpha_max " << o.amax << "\nmax_iter " << o.maxit << "\noptions_file_master_prob some_master.opt\n";
  }
  Prob u(p, seed + 77 * rank);
  u.slow = slow;
  u.comm = c;
  u.optfile = o.file ? "some_master.opt" : "hiop_pridec_master.options";
  if(tweak) tweak(u);
  Out r;
  {
    std::unique_ptr<hiopAlgPrimalDecomposition> alg(p.list ? new hiopAlgPrimalDecomposition(&u, p.nc, p.idx.data(), c)
                                                           : new hiopAlgPrimalDecomposition(&u, c));
    u.alg = alg.get();
    if(!o.file) {
      alg->set_tolerance(o.tol);
      alg->set_acceptable_tolerance(o.atol);
      alg->set_acceptable_count(o.aiter);
      alg->set_alpha_min(o.amin);
      alg->set_alpha_max(o.amax);
      alg->set_max_iteration(o.maxit);
    }
    r.status = alg->run();
    r.iters = alg->getNumIterations();
    if(alg->getSolveStatus() != r.status)
      R().viol("P26:status_query", "run() returned %d, getSolveStatus() says %d", r.status, alg->getSolveStatus());
    hiopVector* xs = LinearAlgebraFactory::create_vector("DEFAULT", p.n);
    alg->getSolution(*xs);
    r.x.assign(xs->local_data(), xs->local_data() + p.n);
    delete xs;
    r.obj = alg->getObjective();
  }
  r.bad_opt = u.bad_opt;
  MPI_Allreduce(&u.nfail, &r.nfail, 1, MPI_INT, MPI_SUM, c);
  // everything every rank saw, on rank 0
  VD fl;
  for(auto& e : u.log) { fl.push_back(e.kind); fl.push_back(e.it); fl.push_back(e.idx); fl.push_back(e.v.size()); fl.insert(fl.end(), e.v.begin(), e.v.end()); }
  int len = fl.size();
  VI cnt(np), dis(np);
  MPI_Gather(&len, 1, MPI_INT, cnt.data(), 1, MPI_INT, 0, c);
  int tot = 0;
  for(int i = 0; i < np; i++) { dis[i] = tot; tot += cnt[i]; }
  VD all(tot + 1);
  MPI_Gatherv(fl.data(), len, MPI_DOUBLE, all.data(), cnt.data(), dis.data(), MPI_DOUBLE, 0, c);
  if(rank == 0)
    for(int i = 0; i < np; i++) {
      std::vector<Rec> l;
      for(int k = dis[i]; k < dis[i] + cnt[i];) {
        Rec e{(int)all[k], (int)all[k + 1], (int)all[k + 2], {}};
        int sz = all[k + 3];
        e.v.assign(all.begin() + k + 4, all.begin() + k + 4 + sz);
        k += 4 + sz;
        l.push_back(e);
      }
      r.logs.push_back(l);
    }
  // all ranks end the run in the same way
  int a[2] = {r.status, r.iters}, mn[2], mx[2];
  MPI_Allreduce(a, mn, 2, MPI_INT, MPI_MIN, c);
  MPI_Allreduce(a, mx, 2, MPI_INT, MPI_MAX, c);
  if(rank == 0 && mn[0] != mx[0]) R().viol("P26:status_per_rank", "statuses between %d and %d over the ranks", mn[0], mx[0]);
  if(rank == 0 && mn[1] != mx[1]) R().viol("P26:iters_per_rank", "iteration counts between %d and %d over the ranks", mn[1], mx[1]);
  return r;
}

static double nrm(const VD& a) { double s = 0; for(double v : a) s += v * v; return std::sqrt(s); }

struct Judged { bool near = false; std::vector<VD> approx; double res = 1e20; long nev = 0; };

/// offline check of the complete history; only rank 0 of the communicator has one
static Judged judge(const Inst& p, const Cfg& o, const Out& r, int np, bool faulted, const char* tag)
{
  Judged J;
  auto& L0 = r.logs[0];
  std::vector<VD> X;  // the master solutions in order: X[0] without the recourse, X[k+1] after iteration k
  VD OBJ;
  int nrun = r.iters + 1;
  std::vector<VD> A(nrun);
  VI na(nrun, 0), nm(nrun + 1, 0);
  int seq = 0;  // master events must alternate: solve(0), then approx(k), solve(k)
  for(auto& e : L0) {
    if(e.kind == EV_MASTER) {
      bool first = X.empty();
      if(first ? (e.idx != 0 || e.it != 0) : (e.idx != 1 || e.it != (int)X.size() - 1 || seq != (int)X.size()))
        R().viol("P26:master_order", "%s master solve number %d: include=%d at iteration %d after %d approximations", tag, (int)X.size(), e.idx, e.it, seq);
      X.push_back(VD(e.v.begin(), e.v.end() - 1));
      OBJ.push_back(e.v.back());
    } else if(e.kind == EV_APPROX) {
      if(e.it != seq || e.idx != p.nc) R().viol("P26:master_order", "%s approximation number %d given at iteration %d for %d variables", tag, seq, e.it, e.idx);
      if(seq < nrun) A[seq] = e.v;
      seq++;
    }
  }
  for(int k = 1; k < np; k++)
    for(auto& e : r.logs[k])
      if(e.kind == EV_MASTER || e.kind == EV_APPROX) { R().viol("P26:master_rank", "%s rank %d solves the master problem", tag, k); return J; }
  if(!faulted && ((int)X.size() != r.iters + 2 || seq != r.iters + 1)) {
    R().viol("P26:master_order", "%s %d iterations: %d master solves and %d approximations", tag, r.iters + 1, (int)X.size(), seq);
    return J;
  }
  // exactly once, at the current master solution
  std::vector<VI> cf(nrun, VI(p.S, 0)), cg = cf;
  for(int k = 0; k < np; k++) {
    int last = -1;
    for(auto& e : r.logs[k]) {
      if(e.kind != EV_F && e.kind != EV_G) continue;
      J.nev++;
      if(np > 1 && k == 0) R().viol("P26:worker_rank", "%s the master rank evaluates term %d", tag, e.idx);
      if(e.it < last || e.it < 0 || e.it >= nrun) { R().viol("P26:order", "%s rank %d evaluates at iteration %d after %d (%d run)", tag, k, e.it, last, nrun); continue; }
      last = e.it;
      if(e.idx < 0 || e.idx >= p.S) { R().viol("P26:index", "%s term %d of %d evaluated", tag, e.idx, p.S); continue; }
      (e.kind == EV_F ? cf : cg)[e.it][e.idx]++;
      if(e.it < (int)X.size()) {
        VD y = p.pick(X[e.it].data());
        if(y != e.v) R().viol("P26:point", "%s iteration %d term %d: evaluated at a point that is not the master solution", tag, e.it, e.idx);
      }
    }
  }
  for(int it = 0; it < nrun; it++)
    for(int i = 0; i < p.S; i++) {
      if(faulted && it == nrun - 1) { if(cf[it][i] > 1 || cg[it][i] > 1) R().viol("P26:once", "%s iteration %d term %d evaluated %d/%d times", tag, it, i, cf[it][i], cg[it][i]); continue; }
      if(cf[it][i] != 1 || cg[it][i] != 1)
        R().viol("P26:once", "%s iteration %d of %d: term %d of %d had %d values and %d gradients computed (np %d)", tag, it, nrun, i, p.S, cf[it][i], cg[it][i], np);
    }
  // the approximation
  double base_prev = OBJ.empty() ? 0 : OBJ[0], base = base_prev;
  int acc = 0;
  bool ended = false;
  for(int it = 0; it < nrun && it < (int)X.size() && (int)A[it].size() == 1 + 3 * p.nc; it++) {
    VD y = p.pick(X[it].data()), G(p.nc, 0.), q(p.nc);
    double f = 0, sc = 0, gs = 0;
    for(int i = 0; i < p.S; i++) {
      double v = p.rf(i, y.data());
      f += v;
      sc += std::fabs(v);
      p.rg(i, y.data(), q.data());
      for(int j = 0; j < p.nc; j++) { G[j] += q[j]; gs = std::max(gs, std::fabs(q[j])); }
    }
    f /= p.S;
    for(double& v : G) v /= p.S;
    if(!vh::close(A[it][0], f, 1e-11, 1e-12 * (1 + sc))) R().viol("P26:value", "%s iteration %d: value %.17g given to the master, the terms average %.17g", tag, it, A[it][0], f);
    const double* a = A[it].data() + 1;
    for(int j = 0; j < p.nc; j++) {
      if(!vh::close(a[j], G[j], 1e-11, 1e-12 * (1 + gs * p.S))) R().viol("P26:gradient", "%s iteration %d: gradient[%d]=%.17g given to the master, the terms average %.17g", tag, it, j, a[j], G[j]);
      if(a[2 * p.nc + j] != y[j]) R().viol("P26:expansion", "%s iteration %d: expansion point[%d]=%.17g, master solution %.17g", tag, it, j, a[2 * p.nc + j], y[j]);
      double al = a[p.nc + j];
      if(!(al >= o.amin && al <= o.amax)) R().viol("P26:alpha_range", "%s iteration %d: quadratic coefficient %g outside [%g,%g]", tag, it, al, o.amin, o.amax);
      if(al != a[p.nc]) R().viol("P26:alpha_range", "%s iteration %d: quadratic coefficients differ", tag, it);
    }
    J.approx.push_back(A[it]);
    if(it > 0) {
      // progress measure of the model that produced this iterate
      const double* b = A[it - 1].data() + 1;
      double al = b[p.nc], lin = 0, s2 = 0;
      VD e(p.nc);
      for(int j = 0; j < p.nc; j++) {
        double s = y[j] - b[2 * p.nc + j];
        lin += b[j] * s;
        s2 += s * s;
        e[j] = a[j] - b[j] - al * s;
      }
      double model = A[it - 1][0] + lin + 0.5 * al * s2;
      base_prev = base;
      base = OBJ[it] - model;
      double pred = std::fabs(lin + 0.5 * al * s2 + base - base_prev), res = nrm(e) / nrm(VD(a, a + p.nc));
      double cv = std::isnan(res) ? pred : std::min(pred, res);
      double rho = (base_prev + A[it - 1][0] - A[it][0] - base) / (A[it - 1][0] + base_prev - model - base);
      double noise = 1e-12 * (1 + std::fabs(base) + std::fabs(model) + sc);
      for(double th : {0.25, 0.75}) if(!(std::fabs(rho - th) > 1e-7 + 1e3 * noise / std::max(pred, 1e-300))) J.near = true;
      bool t1 = cv < o.tol, t2 = false;
      bool marg = std::fabs(cv - o.tol) <= 1e-6 * o.tol + noise, marga = std::fabs(cv - o.atol) <= 1e-6 * o.atol + noise;
      if(marg || marga) J.near = true;
      if(cv <= o.atol) acc++; else acc = 0;
      t2 = acc == o.aiter;
      if(!J.near) {
        if(it < r.iters && (t1 || t2)) { R().viol("P26:stop", "%s goes on after iteration %d: measure %g, tolerance %g, acceptable %g (%d of %d)", tag, it, cv, o.tol, o.atol, acc, o.aiter); ended = true; }
        if(it == r.iters && !t1 && !t2 && it < o.maxit - 1) R().viol("P26:stop", "%s stops after iteration %d: measure %g, tolerance %g, acceptable %g (%d of %d)", tag, it, cv, o.tol, o.atol, acc, o.aiter);
        if(it == r.iters && r.status == Solve_Success && !t1 && !t2) R().viol("P26:success", "%s reports success after %d iterations with measure %g (tolerance %g, acceptable %g: %d of %d)", tag, it, cv, o.tol, o.atol, acc, o.aiter);
        if(it == r.iters && r.status == Max_Iter_Exceeded && (t1 || t2)) R().viol("P26:success", "%s reports the iteration limit although measure %g is below %g", tag, cv, o.tol);
      }
      J.res = cv;
      if(ended) break;
    }
  }
  if(!faulted && r.iters == 0 && o.maxit > 1) R().viol("P26:stop", "%s ends in its first iteration", tag);
  if(!faulted && r.iters >= o.maxit) R().viol("P26:stop", "%s runs %d iterations, limit %d", tag, r.iters + 1, o.maxit);
  if(!faulted && o.maxit == 1 && r.status == Solve_Success) R().viol("P26:success", "%s reports success with one iteration allowed", tag);
  if(!faulted && (X.empty() || X.back() != r.x || OBJ.back() != r.obj)) R().viol("P26:solution", "%s the solution returned is not the last master solution", tag);
  return J;
}

static Cfg cfg(Rng& g)
{
  Cfg o;
  o.file = g.b(0.5);
  o.tol = std::pow(10, g.u(-8, -3));
  o.atol = o.tol * std::pow(10, g.u(0, 2));
  o.aiter = g.b(0.5) ? 25 : g.i(1, 6);
  o.maxit = g.b(0.3) ? g.i(1, 6) : g.i(20, 80);
  o.amin = std::pow(10, g.u(-7, 0));
  o.amax = std::pow(10, g.u(0.5, 6));
  return o;
}

static void pridec(Rng& g, long)
{
  int W, np;
  MPI_Comm_rank(MPI_COMM_WORLD, &W);
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  Inst p = make(g, np);
  Cfg o = cfg(g);
  unsigned long sd = g.i(1, 1000000);
  bool split = np >= 3 && g.b(0.3);
  int cut = split ? g.i(1, np - 1) : np, slow = g.pick(VI{0, 0, 200, 1500});
  MPI_Comm c = MPI_COMM_WORLD;
  if(split) MPI_Comm_split(MPI_COMM_WORLD, W < cut ? 0 : 1, W, &c);
  int rank, cn;
  MPI_Comm_rank(c, &rank);
  MPI_Comm_size(c, &cn);
  // one run alone, then on all the ranks, with either accumulation and two schedules
  Out ref = run(p, o, MPI_COMM_SELF, sd, 0);
  Judged jr = judge(p, o, ref, 1, false, "alone");
  for(int v = 0; v < 3; v++) {
    Cfg q = o;
    q.local = v == 1 || (v == 2 && g.b(0.5));
    int s = v == 2 ? slow * 2 : slow;
    Out r = run(p, q, c, sd + 1000 * v, s, [&](Prob& u) { if(v == 2 && rank == 1) u.slow = 4000; });
    if(rank) continue;
    char tag[64];
    snprintf(tag, sizeof tag, "np=%d %s v%d:", cn, q.local ? "local" : "async", v);
    Judged j = judge(p, q, r, cn, false, tag);
    if(r.bad_opt) R().viol("P26:options_file", "%s the master is solved with another options file than the option says", tag);
    R().count("terms evaluated", j.nev);
    R().count("iterations", r.iters + 1);
    R().count(vh::fmt("status %d", r.status));
    R().count(vh::fmt("ranks %d%s", cn, q.local ? " local" : ""));
    uint64_t h = 0;
    for(int k = 1; k < cn; k++) for(auto& e : r.logs[k]) h = vh::mix(h, vh::mix(e.idx + 1000 * k, e.it));
    R().eval(h, cn > 1 && r.iters > 0);
    R().sample(vh::fmt("S=%d n=%d nc=%d np=%d iters=%d status=%d measure=%g", p.S, p.n, p.nc, cn, r.iters, r.status, j.res));
    // a threshold decided by rounding anywhere: the two runs may part
    if(jr.near || j.near) { R().count("threshold within rounding"); continue; }
    // each step maps rounding differences into larger ones: compare while the two histories are still close
    bool apart = false;
    for(size_t k = 0; k < std::min(j.approx.size(), jr.approx.size()) && !apart; k++) {
      double worst = 0;
      size_t at = 0;
      for(size_t i = 0; i < j.approx[k].size(); i++) {
        double a = j.approx[k][i], b = jr.approx[k][i], e = std::fabs(a - b) / (1e-2 + std::max(std::fabs(a), std::fabs(b)));
        if(!(e <= worst)) { worst = e; at = i; }
      }
      if(!(worst <= 1e-6)) { R().viol("P26:path", "%s iteration %d entry %d of the approximation: %.17g, alone %.17g", tag, (int)k, (int)at, j.approx[k][at], jr.approx[k][at]); apart = true; }
      else if(worst > 1e-9) apart = true;
    }
    if(apart) { R().count("rounding grew"); continue; }
    if(r.status != ref.status || r.iters != ref.iters) R().viol("P26:path", "%s status %d after %d iterations, alone %d after %d", tag, r.status, r.iters, ref.status, ref.iters);
    for(int i = 0; i < p.n; i++)
      if(!vh::close(r.x[i], ref.x[i], 1e-6, 1e-8)) { R().viol("P26:path", "%s x[%d]=%.17g, alone %.17g", tag, i, r.x[i], ref.x[i]); break; }
  }
  if(split) MPI_Comm_free(&c);
}

/// a term that cannot be evaluated, a master that is not solved: the run must not claim success
static void fault(Rng& g, long)
{
  int W, np;
  MPI_Comm_rank(MPI_COMM_WORLD, &W);
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  Inst p = make(g, np);
  Cfg o = cfg(g);
  o.maxit = g.i(3, 30);
  o.tol = 1e-8;
  o.local = np > 1 && g.b(0.5);
  unsigned long sd = g.i(1, 1000000);
  int slow = g.pick(VI{0, 300}), fit = g.i(0, 2), fidx = g.i(0, p.S - 1), fk = g.i(0, 2);
  Out r = run(p, o, MPI_COMM_WORLD, sd, slow, [&](Prob& u) {
    if(fk < 2) { u.fail_it = fit; u.fail_idx = fidx; u.fail_kind = fk; }
    else u.ret = g.b(0.5) ? Err_Step_Computation : Steplength_Too_Small;
  });
  if(W) return;
  char tag[64];
  snprintf(tag, sizeof tag, "fault np=%d %s:", np, o.local ? "local" : "async");
  if(fk < 2 && r.nfail) {
    if(r.status != Error_In_User_Function) R().viol("P26:fault_status", "%s term %d fails at iteration %d, the run ends with status %d", tag, fidx, fit, r.status);
    if(r.iters != fit) R().viol("P26:fault_status", "%s term %d fails at iteration %d, the run goes on to iteration %d", tag, fidx, fit, r.iters);
    judge(p, o, r, np, true, tag);
    R().count("failed terms", r.nfail);
  } else if(fk == 2) {
    if(r.status >= 0) R().viol("P26:master_status", "%s every master solve fails, the run ends with status %d", tag, r.status);
    R().count("failed masters");
  } else {
    judge(p, o, r, np, false, tag);
  }
  R().eval(vh::mix(sd, fk * 100 + fit), r.nfail || fk == 2);
}

/// the quadratic model itself
static void evalr(Rng& g, long)
{
  int n = g.i(1, 9), nc = g.b(0.3) ? n : g.i(1, n), S = nc + g.i(0, 5);
  VI idx(n);
  for(int i = 0; i < n; i++) idx[i] = i;
  bool list = g.b(0.6);
  if(list) for(int i = n - 1; i > 0; i--) std::swap(idx[i], idx[g.i(0, i)]);
  auto vec = [&](int k) { hiopVector* v = LinearAlgebraFactory::create_vector("DEFAULT", k); for(int i = 0; i < k; i++) v->local_data()[i] = g.u(-2, 2); return v; };
  int extra = g.i(0, 2);  // the vectors given may be longer than nc
  std::unique_ptr<hiopVector> gr(vec(nc + extra)), he(vec(nc + extra)), x0(vec(nc + extra));
  double rv = g.u(-3, 3);
  using E = hiopInterfacePriDecProblem::RecourseApproxEvaluator;
  std::unique_ptr<E> ev;
  int ctor = g.i(0, 2);
  if(ctor == 0) ev.reset(list ? new E(nc, S, idx.data(), rv, *gr, *he, *x0, "DEFAULT") : new E(nc, S, rv, *gr, *he, *x0, "DEFAULT"));
  else if(ctor == 1) ev.reset(list ? new E(nc, S, idx.data(), "DEFAULT") : new E(nc, S, "DEFAULT"));
  else { ev.reset(list ? new E(nc, S, idx.data(), "DEFAULT") : new E(nc, "DEFAULT")); if(!list) S = nc; }
  if(ctor) { ev->set_rval(rv); ev->set_rgrad(nc, *gr); ev->set_rhess(nc, *he); ev->set_x0(nc, *x0); }
  if(ev->get_S() != S || ev->get_rval() != rv) R().viol("P26:model_get", "get_S/get_rval");
  for(int rep = 0; rep < 3; rep++) {
    VD x(n), grad(n), ref(n);
    for(int i = 0; i < n; i++) { x[i] = g.u(-2, 2); ref[i] = grad[i] = g.u(-2, 2); }
    double f = g.u(-2, 2), fr = f + rv;
    ev->eval_f(n, x.data(), g.b(0.5), f);
    ev->eval_grad(n, x.data(), g.b(0.5), grad.data());
    std::unique_ptr<hiopVector> h(vec(nc)), xv(vec(n));
    VD hr(h->local_data(), h->local_data() + nc);
    ev->eval_hess(n, *xv, g.b(0.5), *h);
    for(int j = 0; j < nc; j++) {
      double s = x[idx[j]] - x0->local_data()[j], gj = gr->local_data()[j], hj = he->local_data()[j];
      fr += gj * s + 0.5 * hj * s * s;
      ref[idx[j]] += gj + hj * s;
      hr[j] += hj;
      if(!vh::close(h->local_data()[j], hr[j], 1e-13, 1e-13)) R().viol("P26:model_hess", "entry %d of %d: %.17g, expected %.17g", j, nc, h->local_data()[j], hr[j]);
    }
    if(!vh::close(f, fr, 1e-12, 1e-12)) R().viol("P26:model_f", "model value %.17g, expected %.17g (n %d nc %d list %d ctor %d)", f, fr, n, nc, list, ctor);
    for(int i = 0; i < n; i++)
      if(!vh::close(grad[i], ref[i], 1e-12, 1e-12)) { R().viol("P26:model_grad", "model gradient[%d]=%.17g, expected %.17g (n %d nc %d list %d ctor %d)", i, grad[i], ref[i], n, nc, list, ctor); break; }
    R().eval(vh::mix(vh::hash_d(0, x.data(), n), nc), true);
    if(g.b(0.5)) {  // a new model in the same object
      std::unique_ptr<hiopVector> a(vec(nc)), b(vec(nc)), c(vec(nc));
      gr.swap(a); he.swap(b); x0.swap(c);
      rv = g.u(-3, 3);
      ev->set_rval(rv); ev->set_rgrad(nc, *gr); ev->set_rhess(nc, *he); ev->set_x0(nc, *x0);
    }
  }
}

int main(int argc, char** argv)
{
  return vh::run(argc, argv, [](Rng& g, long k, const std::string& mode) {
    if(mode == "pridec") pridec(g, k);
    else if(mode == "fault") fault(g, k);
    else evalr(g, k);
  });
}
