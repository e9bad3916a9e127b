// Random nonlinear programs with known structure, and the adapters that pose them to the solver.
#pragma once
#include <csignal>
#include "vh.hpp"
#include "hiop_defs.hpp"
#include "hiopInterface.hpp"
#include "hiopNlpFormulation.hpp"
#include "hiopAlgFilterIPM.hpp"
#include "hiopOptions.hpp"

typedef std::vector<double> VD;
typedef std::vector<int> VI;
const double INFB = 1e20;

// f(x) = fs * ( c0 + q'x + 1/2 x'Qx + sum quart_i x_i^4 + sum ca_i cos(cf_i x_i) )
// g_j(x) = cs_j * ( A_j x + 1/2 sum E_ji x_i^2 + sum S_ji sin(x_i) + cc_j )
struct Prob {
  int n = 0, m = 0, ns = 0;
  double fs = 1, c0 = 0;
  VD q, quart, ca, cf, cs, cc;
  std::vector<VD> Q, A, E, S;
  std::vector<std::vector<char>> pat;  // structural nonzeros of the sparse part of the Jacobian
  VD xl, xu, cl, cu, xref, x0;
  bool convex = false, feasible = true, fullrank = true;
  int type = 2;  // NonlinearityType
  std::string desc; int family = 0;
  double f(const double* x) const
  {
    double r = c0;
    for(int i = 0; i < n; i++) {
      r += q[i] * x[i] + quart[i] * x[i] * x[i] * x[i] * x[i];
      if(ca[i] != 0) r += ca[i] * cos(cf[i] * x[i]);
      double t = 0;
      for(int j = 0; j < n; j++) t += Q[i][j] * x[j];
      r += 0.5 * x[i] * t;
    }
    return fs * r;
  }
  void grad(const double* x, double* g) const
  {
    for(int i = 0; i < n; i++) {
      double t = q[i] + 4 * quart[i] * x[i] * x[i] * x[i];
      if(ca[i] != 0) t -= ca[i] * cf[i] * sin(cf[i] * x[i]);
      for(int j = 0; j < n; j++) t += Q[i][j] * x[j];
      g[i] = fs * t;
    }
  }
  double con(int j, const double* x) const
  {
    double r = cc[j];
    for(int i = 0; i < n; i++) {
      r += A[j][i] * x[i];
      if(E[j][i] != 0) r += 0.5 * E[j][i] * x[i] * x[i];
      if(S[j][i] != 0) r += S[j][i] * sin(x[i]);
    }
    return cs[j] * r;
  }
  double jac(int j, int i, const double* x) const { return cs[j] * (A[j][i] + E[j][i] * x[i] + (S[j][i] != 0 ? S[j][i] * cos(x[i]) : 0.)); }
  // Hessian of obj_factor*f + sum lam_j g_j
  double hess(int i, int k, const double* x, double of, const double* lam) const
  {
    double r = of * fs * Q[i][k];
    if(i == k) {
      double t = 12 * quart[i] * x[i] * x[i];
      if(ca[i] != 0) t -= ca[i] * cf[i] * cf[i] * cos(cf[i] * x[i]);
      r += of * fs * t;
      for(int j = 0; j < m; j++) r += lam[j] * cs[j] * (E[j][i] - (S[j][i] != 0 ? S[j][i] * sin(x[i]) : 0.));
    }
    return r;
  }
  double fixtol = 1e-15;  // tolerance for fixedness
  bool is_fixed(int i) const { return xl[i] > -INFB && xu[i] < INFB && fabs(xl[i] - xu[i]) <= fixtol * std::max(1., fabs(xu[i])); }
  bool is_eq(int j) const { return cl[j] == cu[j]; }
  int meq() const { int k = 0; for(int j = 0; j < m; j++) k += is_eq(j); return k; }
  void resize()
  {
    q.assign(n, 0); quart.assign(n, 0); ca.assign(n, 0); cf.assign(n, 1);
    Q.assign(n, VD(n, 0.));
    A.assign(m, VD(n, 0.)); E = A; S = A;
    cs.assign(m, 1); cc.assign(m, 0);
    xl.assign(n, -INFB); xu.assign(n, INFB); cl.assign(m, -INFB); cu.assign(m, INFB);
    xref.assign(n, 0); x0.assign(n, 0);
    pat.assign(m, std::vector<char>(n, 1));
  }
  uint64_t hash() const
  {
    uint64_t h = vh::mix(n, m * 1000 + ns);
    h = vh::hash_d(h, q.data(), n); h = vh::hash_d(h, xl.data(), n); h = vh::hash_d(h, xu.data(), n);
    h = vh::hash_d(h, cl.data(), m); h = vh::hash_d(h, cu.data(), m);
    for(auto& r : A) h = vh::hash_d(h, r.data(), n);
    return h;
  }
};

enum Family { CONVEX = 0, NONCONVEX, INFEASIBLE, DEGENERATE, LP, NFAM };
inline const char* famname(int f) { static const char* s[] = {"convex", "nonconvex", "infeasible", "degenerate", "lp"}; return s[f]; }

// mixed dense/sparse-compatible problem: the first ns variables only couple through constraints
inline Prob gen(vh::Rng& g, int fam, int nmax = 10, bool mds = true, int allow_ineq_free = 0)
{
  Prob p;
  p.n = g.i(1, nmax);
  if(g.b(0.7)) p.n = g.i(std::min(2, nmax), nmax);
  p.ns = mds ? g.i(0, p.n) : 0;
  if(mds && p.n >= 2 && g.b(0.7)) p.ns = g.i(1, p.n - 1);
  int meq, mineq;
  meq = g.b(0.3) ? 0 : g.i(0, (p.n) / 2);
  mineq = g.b(0.3) ? 0 : g.i(0, p.n + 2);
  p.m = meq + mineq;
  p.resize();
  const int n = p.n, ns = p.ns;
  for(int i = 0; i < n; i++) p.xref[i] = g.u(-3, 3);
  // objective
  for(int i = 0; i < n; i++) {
    p.q[i] = g.u(-5, 5);
    if(i < ns) p.Q[i][i] = g.u(0.3, 3);
    if(g.b(0.3)) p.quart[i] = g.u(0.01, 0.5);
  }
  {
    int nd = n - ns;
    std::vector<VD> B(nd, VD(nd));
    for(auto& r : B) for(auto& v : r) v = g.b(0.6) ? g.gauss() : 0;
    for(int i = 0; i < nd; i++)
      for(int j = 0; j < nd; j++) {
        double t = (i == j) ? g.u(0.3, 2) : 0;
        for(int k = 0; k < nd; k++) t += B[k][i] * B[k][j] / (nd + 1.);
        p.Q[ns + i][ns + j] = t;
      }
    for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) p.Q[j][i] = p.Q[i][j];
  }
  p.c0 = g.u(-10, 10);
  // variable bounds around xref
  for(int i = 0; i < n; i++) {
    int k = g.i(0, 3);
    if(k == 1 || k == 3) p.xl[i] = p.xref[i] - g.u(0.2, 3);
    if(k == 2 || k == 3) p.xu[i] = p.xref[i] + g.u(0.2, 3);
  }
  p.convex = true;
  // constraints, in random order
  std::vector<char> eq(p.m, 0);
  for(int j = 0; j < meq; j++) eq[j] = 1;
  for(int j = p.m - 1; j > 0; j--) std::swap(eq[j], eq[g.i(0, j)]);
  std::vector<int> piv(n);  // a column of its own for each equality: full rank
  for(int i = 0; i < n; i++) piv[i] = i;
  for(int i = n - 1; i > 0; i--) std::swap(piv[i], piv[g.i(0, i)]);
  int npiv = 0;
  for(int j = 0; j < p.m; j++) {
    double dens = g.b(0.5) ? 1.0 : 0.5;
    for(int i = 0; i < n; i++) {
      if(g.b(dens)) p.A[j][i] = g.gauss();
    }
    if(eq[j]) p.A[j][piv[npiv++]] += g.b() ? 2 : -2;
    int k = eq[j] ? 0 : g.i(0, 3);
    if(k == 1) {
      for(int i = 0; i < n; i++) if(p.A[j][i] != 0 && g.b()) p.E[j][i] = g.u(0.1, 2);
    }
    double c = p.con(j, p.xref.data());
    if(eq[j]) p.cl[j] = p.cu[j] = c;
    else if(k == 1) p.cu[j] = c + g.u(0.2, 3);
    else {
      int t = g.i(0, 2);
      if(t != 1) p.cl[j] = c - g.u(0.2, 3);
      if(t != 0) p.cu[j] = c + g.u(0.2, 3);
    }
  }
  for(int i = 0; i < n; i++) p.x0[i] = g.b(0.5) ? p.xref[i] + g.u(-1, 1) : g.u(-5, 5);
  if(g.b(0.2)) for(int i = 0; i < n; i++) p.x0[i] = 0;
  if(fam == LP) {
    for(int i = 0; i < n; i++) {
      for(int j = 0; j < n; j++) p.Q[i][j] = 0;
      p.quart[i] = 0;
      p.xl[i] = p.xref[i] - g.u(0.2, 3);
      p.xu[i] = p.xref[i] + g.u(0.2, 3);
    }
  }
  if(fam == NONCONVEX || fam == INFEASIBLE || (fam == DEGENERATE && g.b())) {
    p.convex = false;
    for(int i = 0; i < n; i++) {
      if(g.b(0.5)) { p.ca[i] = g.u(-4, 4); p.cf[i] = g.u(0.5, 3); }
      if(g.b(0.4)) p.Q[i][i] -= g.u(0, 4);
      p.quart[i] = std::max(p.quart[i], 0.05);
    }
    for(int j = 0; j < p.m; j++) {
      for(int i = 0; i < n; i++) {
        if(p.A[j][i] != 0 && g.b(0.3)) p.E[j][i] = g.u(-2, 2);
        if(p.A[j][i] != 0 && g.b(0.3)) p.S[j][i] = g.u(-2, 2);
      }
      double c = p.con(j, p.xref.data());
      if(eq[j]) p.cl[j] = p.cu[j] = c;
      else {
        if(p.cl[j] > -INFB) p.cl[j] = c - g.u(0.2, 3);
        if(p.cu[j] < INFB) p.cu[j] = c + g.u(0.2, 3);
      }
    }
  }
  if(fam == INFEASIBLE) {
    // contradictory: bounds exclude a constraint
    p.feasible = false;
    if(p.m == 0) { p.m = 1; VD row(n, 0.); p.A.push_back(row); p.E.push_back(row); p.S.push_back(row); p.cs.push_back(1); p.cc.push_back(0); p.cl.push_back(0); p.cu.push_back(0); p.pat.push_back(std::vector<char>(n, 1)); eq.push_back(1); }
    int j = g.i(0, p.m - 1);
    for(int i = 0; i < n; i++) { p.A[j][i] = 0; p.E[j][i] = g.u(0.5, 2); p.S[j][i] = 0; }
    // 1/2 sum E x^2 <= negative
    double v = -g.u(0.5, 3);
    p.cl[j] = g.b() ? v : -INFB;
    p.cu[j] = v;
  }
  if(fam == DEGENERATE) {
    p.fullrank = false;
    int k = g.i(0, 3);
    if(k == 0 && p.m >= 1) {  // duplicated constraint
      int j = g.i(0, p.m - 1), l = g.i(0, p.m - 1);
      p.A[l] = p.A[j]; p.E[l] = p.E[j]; p.S[l] = p.S[j]; p.cl[l] = p.cl[j]; p.cu[l] = p.cu[j];
    } else if(k == 1) {  // no interior: bound active at the only feasible value
      int i = g.i(0, n - 1);
      p.xl[i] = p.xref[i]; p.xu[i] = p.xref[i] + 1e-6;
    } else if(k == 2 && p.m >= 1) {  // vanishing gradient
      int j = g.i(0, p.m - 1);
      for(int i = 0; i < n; i++) { p.A[j][i] = 0; p.S[j][i] = 0; p.E[j][i] = g.b() ? 1 : 0; }
      double c = p.con(j, p.xref.data());
      if(p.is_eq(j)) p.cl[j] = p.cu[j] = c;
      else { p.cl[j] = -INFB; p.cu[j] = c; }
    } else if(p.m >= 1) {
      int j = g.i(0, p.m - 1);
      if(!p.is_eq(j)) { double c = p.con(j, p.xref.data()); p.cl[j] = c - 1e-7; p.cu[j] = c + 1e-7; }
    }
  }
  for(int j = 0; j < p.m; j++)
    for(int i = 0; i < n; i++) p.pat[j][i] = (p.A[j][i] != 0 || p.E[j][i] != 0 || p.S[j][i] != 0) || g.b(0.15);
  p.family = fam;
  p.desc = vh::fmt("%s n=%d(ns=%d) m=%d(eq=%d)", famname(fam), p.n, p.ns, p.m, p.meq());
  return p;
}

// narrow boxes, steep objective, strongly curved constraints: second-order corrections, restorations and iterates
// that run into several bounds are frequent
inline Prob gen_wild(vh::Rng& g, bool mds)
{
  Prob p;
  p.n = g.i(2, g.b(0.2) ? 8 : 4);
  p.ns = mds ? g.i(0, p.n) : 0;
  int meq = g.i(0, std::min(2, p.n - 1)), mineq = g.i(meq ? 0 : 1, 2);
  p.m = meq + mineq;
  p.resize();
  double steep = g.pick(std::vector<double>{1, 5, 15, 60});
  for(int i = 0; i < p.n; i++) {
    p.q[i] = steep * g.u(-1, 1);
    p.ca[i] = g.u(-2, 2); p.cf[i] = g.u(1, 4);
    p.Q[i][i] = g.u(0, 3);
    p.xl[i] = g.u(-1, 1); p.xu[i] = p.xl[i] + 0.2 + g.u(0, 2);
    p.xref[i] = 0.5 * (p.xl[i] + p.xu[i]);
    p.x0[i] = g.b(0.5) ? p.xl[i] + 0.1 : g.u(-2, 2);
    if(g.b(0.1)) p.xl[i] = -INFB;
    if(g.b(0.1)) p.xu[i] = INFB;
  }
  for(int j = 0; j < p.m; j++) {
    bool eq = j < meq;
    for(int i = 0; i < p.n; i++) {
      p.A[j][i] = g.u(-3, 3);
      if(g.b(eq ? 0.9 : 0.4)) p.E[j][i] = g.u(-6, 6);
      if(g.b(0.4)) p.S[j][i] = g.u(-4, 4);
    }
    double c = p.con(j, p.xref.data());
    double w = eq ? 0 : pow(10, g.u(-3, 0.5));
    p.cl[j] = c - w; p.cu[j] = c + w;
    if(!eq && g.b(0.3)) { if(g.b()) p.cl[j] = -INFB; else p.cu[j] = INFB; }
  }
  p.convex = false;
  p.family = NONCONVEX;
  p.desc = vh::fmt("wild n=%d(ns=%d) m=%d(eq=%d)", p.n, p.ns, p.m, p.meq());
  return p;
}

// Calls of the user's functions, in the order of the protocol
enum Call { C_F = 0, C_GRAD, C_CONS_EQ, C_CONS_INEQ, C_CONS_ALL, C_JAC_EQ, C_JAC_INEQ, C_JAC_ALL, C_HESS, C_NCALL };
inline const char* callname(int c) { static const char* s[] = {"f", "grad", "cons_eq", "cons_ineq", "cons_all", "jac_eq", "jac_ineq", "jac_all", "hess"}; return s[c]; }

struct Final { bool called = false; int ncalls = 0; int status = 0, n = 0, m = 0; VD x, zl, zu, g, lam; double obj = 0; };

// Behaviour of the user's code and monitors shared by the two adapters
struct User {
  Prob& p;
  bool one_call = false;
  bool singular_ok = false;  // linear systems may be singular, with nothing to regularise them
  // what the user supplies as start
  int start_mode = 0;  // 0: x0 by the short call; 1: long call x0 only; 2: duals; 3: duals and slacks; -1: none
  VD zl0, zu0, lam0, s0, vl0, vu0;
  bool warm = false;
  int stop_at = -1;
  // faults: call kind -> index of invocation that fails
  std::map<int, std::set<long>> fault;
  bool fault_poison = false;
  VD grad0;  // where the gradient was first evaluated
  long ncall[C_NCALL] = {0};
  long nfault = 0;
  // protocol monitor
  bool have_x = false;
  VD lastx;
  long neval = 0;
  bool first_eval = true;
  double relax = 1e-8;   // allowed relative enlargement of the bounds
  double relax_fixed = 0;  // the same for fixed variables
  bool stopped_in_cb = false;
  bool check_bounds = true;
  bool in_resto = false;
  bool unmonitored_qn = false;
  bool check_newx = true;
  double maxviol_bounds = 0;
  std::function<bool(int, double, double, int, const double*, const double*, const double*, int, const double*, int, const double*, const double*, double, double, double, double, double, double, int)> on_iter;
  std::function<void(int, int)> on_call;
  std::function<void(int, const VD&)> on_x;
  Final fin;
  int n_iter_cb = 0;
  std::vector<VD> trace;  // per iteration: iter,obj,inf_pr,inf_du,mu,ad,ap,ls, x...
  bool keep_trace = false;
  std::set<int> newx_seen;
  int col0 = 0, nloc = -1;  // distributed dense: local columns
  MPI_Comm comm = MPI_COMM_SELF;
  VI part;

  explicit User(Prob& p_) : p(p_) {}
  int NL() const { return nloc < 0 ? p.n : nloc; }
  // gather x over ranks if distributed
  VD full(const double* x)
  {
    VD r(p.n);
    if(nloc < 0) { r.assign(x, x + p.n); return r; }
    int sz; MPI_Comm_size(comm, &sz);
    VI cnt(sz), dis(sz);
    for(int i = 0; i < sz; i++) { dis[i] = part[i]; cnt[i] = part[i + 1] - part[i]; }
    MPI_Allgatherv(x, nloc, MPI_DOUBLE, r.data(), cnt.data(), dis.data(), MPI_DOUBLE, comm);
    return r;
  }
  // returns false if this call must fail; xf = full x
  bool enter(int kind, hiop::size_type n, const double* x, bool new_x, VD& xf)
  {
    long idx = ncall[kind]++;
    neval++;
    if(on_call) on_call(kind, new_x);
    if(n != p.n) { vh::R().viol("P10:dims", "%s called with n=%d instead of %d", callname(kind), (int)n, p.n); }
    xf = full(x);
    for(int i = 0; i < p.n; i++) {
      if(!std::isfinite(xf[i]) && singular_ok) { if(!vh::R().mute) vh::R().count("singular_breakdowns"); vh::R().mute = true; break; }
      if(!std::isfinite(xf[i]) && unmonitored_qn) { vh::R().count("restoration_breakdowns"); vh::R().mute = true; break; }
      if(!std::isfinite(xf[i])) { vh::R().viol("P02:nonfinite_x", "%s called at x[%d]=%g", callname(kind), i, xf[i]); break; }
    }
    // new_x truth
    if(check_newx) {
      if(!new_x) {
        if(!have_x) vh::R().viol("P10:newx_first", "first evaluation (%s) declared the point as old", callname(kind));
        else if(memcmp(lastx.data(), xf.data(), sizeof(double) * p.n) != 0) {
          int w = 0;
          while(w < p.n && lastx[w] == xf[w]) w++;
          if(w < p.n) vh::R().viol(vh::fmt("P10:newx_stale:%s", callname(kind)), "%s (invocation %ld) declared the point as old, but x[%d]=%.17g differs from the last evaluated %.17g", callname(kind), idx, w, xf[w], lastx[w]);
        }
      }
    }
    lastx = xf;
    have_x = true;
    if(on_x) on_x(kind, xf);
    // inside bounds
    // the user's own starting point (or zero without one) may be evaluated as it is
    bool isx0 = true;
    if(start_mode >= 0) for(int i = 0; i < p.n; i++) isx0 = isx0 && (xf[i] == p.x0[i] || (p.is_fixed(i) && xf[i] == p.xl[i]));
    if(start_mode < 0) for(int i = 0; i < p.n; i++) isx0 = isx0 && (xf[i] == 0 || (p.is_fixed(i) && xf[i] == p.xl[i]));
    if(check_bounds && !isx0) {
      for(int i = 0; i < p.n; i++) {
        double rr = p.is_fixed(i) ? std::max(relax, relax_fixed) : relax;
        double lo = p.xl[i] - rr * std::max(1., fabs(p.xl[i])), hi = p.xu[i] + rr * std::max(1., fabs(p.xu[i]));
        double slop = 1e-14 * std::max(1., fabs(xf[i]));
        if((p.xl[i] > -INFB && xf[i] < lo - slop) || (p.xu[i] < INFB && xf[i] > hi + slop)) {
          vh::R().viol("P02:eval_outside", "%s evaluated at x[%d]=%.17g outside [%.17g,%.17g] (relaxation %g, invocation %ld)", callname(kind), i, xf[i], p.xl[i], p.xu[i], relax, idx);
          break;
        }
      }
      vh::R().count("bounds_checked");
    }
    vh::R().count(std::string("call:") + callname(kind));
    auto it = fault.find(kind);
    if(it != fault.end() && it->second.count(idx)) { nfault++; if(getenv("HTRAP")) raise(SIGUSR1); return false; }
    return true;
  }
  bool start(double* x0)
  {
    if(start_mode < 0) return false;
    for(int i = 0; i < NL(); i++) x0[i] = p.x0[col0 + i];
    return true;
  }
  bool start_long(hiop::size_type n, hiop::size_type m, double* x0, bool& da, double* zl, double* zu, double* lam, bool& sa, double* s)
  {
    if(n != p.n || m != p.m) vh::R().viol("P10:dims_start", "starting point requested for n=%d m=%d", (int)n, (int)m);
    da = sa = false;
    if(start_mode < 1) return false;
    for(int i = 0; i < NL(); i++) x0[i] = p.x0[col0 + i];
    if(start_mode >= 2) {
      da = true;
      for(int i = 0; i < NL(); i++) { zl[i] = zl0[col0 + i]; zu[i] = zu0[col0 + i]; }
      for(int j = 0; j < p.m; j++) lam[j] = lam0[j];
    }
    if(start_mode >= 3) {
      sa = true;
      int k = 0;
      for(int j = 0; j < p.m; j++) if(!p.is_eq(j)) s[k] = s0[k], k++;
    }
    return true;
  }
  bool warmstart(hiop::size_type n, hiop::size_type m, double* x0, double* zl, double* zu, double* lam, double* s, double* vl, double* vu)
  {
    if(!warm) return false;
    for(int i = 0; i < NL(); i++) { x0[i] = p.x0[col0 + i]; zl[i] = zl0[col0 + i]; zu[i] = zu0[col0 + i]; }
    for(int j = 0; j < p.m; j++) lam[j] = lam0[j];
    int k = 0;
    for(int j = 0; j < p.m; j++) if(!p.is_eq(j)) { s[k] = s0[k]; vl[k] = vl0[k]; vu[k] = vu0[k]; k++; }
    return true;
  }
  bool vars(hiop::size_type n, double* xl, double* xu, hiop::hiopInterfaceBase::NonlinearityType* t)
  {
    if(n != p.n) vh::R().viol("P10:dims_vars", "bounds requested for n=%d", (int)n);
    for(int i = 0; i < NL(); i++) { xl[i] = p.xl[col0 + i]; xu[i] = p.xu[col0 + i]; t[i] = hiop::hiopInterfaceBase::hiopNonlinear; }
    return true;
  }
  bool cons_info(hiop::size_type m, double* cl, double* cu, hiop::hiopInterfaceBase::NonlinearityType* t)
  {
    for(int j = 0; j < p.m; j++) { cl[j] = p.cl[j]; cu[j] = p.cu[j]; t[j] = hiop::hiopInterfaceBase::hiopNonlinear; }
    return true;
  }
  bool f(hiop::size_type n, const double* x, bool nx, double& v)
  {
    VD xf;
    if(!enter(C_F, n, x, nx, xf)) { if(fault_poison) v = NAN; return false; }
    v = p.f(xf.data());
    return true;
  }
  bool grad(hiop::size_type n, const double* x, bool nx, double* g)
  {
    VD xf;
    if(!enter(C_GRAD, n, x, nx, xf)) { if(fault_poison) for(int i = 0; i < NL(); i++) g[i] = NAN; return false; }
    if(grad0.empty()) grad0 = xf;
    VD gf(p.n);
    p.grad(xf.data(), gf.data());
    for(int i = 0; i < NL(); i++) g[i] = gf[col0 + i];
    return true;
  }
  // which block do these indices denote?  checks that they are exactly the equalities or the inequalities
  int block(hiop::size_type nc, const hiop::index_type* idx, const char* who)
  {
    bool e = true, q = true;
    VI ei, qi;
    for(int j = 0; j < p.m; j++) (p.is_eq(j) ? ei : qi).push_back(j);
    if((int)ei.size() != nc) e = false;
    else for(int k = 0; k < nc; k++) if(idx[k] != ei[k]) e = false;
    if((int)qi.size() != nc) q = false;
    else for(int k = 0; k < nc; k++) if(idx[k] != qi[k]) q = false;
    if(!e && !q) vh::R().viol("P10:index_set", "%s called with %d constraint indices that are neither the equalities nor the inequalities", who, (int)nc);
    if(e && q) return -1;  // both empty
    return e ? 0 : 1;
  }
  bool cons(hiop::size_type n, hiop::size_type m, hiop::size_type nc, const hiop::index_type* idx, const double* x, bool nx, double* c)
  {
    if(one_call) return false;
    int b = block(nc, idx, "eval_cons");
    static int alt = 0;
    if(b < 0) b = alt++ & 1;
    VD xf;
    if(!enter(b == 0 ? C_CONS_EQ : C_CONS_INEQ, n, x, nx, xf)) { if(fault_poison) for(int k = 0; k < nc; k++) c[k] = NAN; return false; }
    for(int k = 0; k < nc; k++) c[k] = p.con(idx[k], xf.data());
    return true;
  }
  bool cons_all(hiop::size_type n, hiop::size_type m, const double* x, bool nx, double* c)
  {
    if(!one_call) return false;
    VD xf;
    if(!enter(C_CONS_ALL, n, x, nx, xf)) return false;
    if(m != p.m) vh::R().viol("P10:dims", "eval_cons called with m=%d", (int)m);
    for(int k = 0; k < p.m; k++) c[k] = p.con(k, xf.data());
    return true;
  }
  void solution(int st, hiop::size_type n, const double* x, const double* zl, const double* zu, hiop::size_type m, const double* g, const double* lam, double obj)
  {
    fin.called = true;
    fin.ncalls++;
    fin.status = st; fin.n = n; fin.m = m; fin.obj = obj;
    int N = (n == p.n) ? NL() : (int)n;
    fin.x.assign(x, x + N); fin.zl.assign(zl, zl + N); fin.zu.assign(zu, zu + N);
    fin.g.assign(g, g + m); fin.lam.assign(lam, lam + m);
    if(n != p.n) vh::R().viol("P09:dims_final", "solution callback delivers n=%d instead of the user's %d", (int)n, p.n);
    if(m != p.m) vh::R().viol("P09:dims_final", "solution callback delivers m=%d instead of the user's %d", (int)m, p.m);
  }
  bool iterate(int it, double obj, double lb, int n, const double* x, const double* zl, const double* zu, int mi, const double* s, int m, const double* g, const double* lam, double ip, double id, double on, double mu, double ad, double ap, int ls)
  {
    n_iter_cb++;
    if(n != p.n) vh::R().viol("P09:dims_iter", "iterate callback delivers n=%d instead of the user's %d", n, p.n);
    if(keep_trace) {
      VD t = {(double)it, obj, ip, id, mu, ad, ap, (double)ls};
      int N = (n == p.n) ? NL() : n;
      t.insert(t.end(), x, x + N);
      t.insert(t.end(), lam, lam + m);
      trace.push_back(t);
    }
    bool r = true;
    if(on_iter) r = on_iter(it, obj, lb, n, x, zl, zu, mi, s, m, g, lam, ip, id, on, mu, ad, ap, ls);
    if(stop_at >= 0 && it >= stop_at) r = false;
    else if(!r) stopped_in_cb = true;
    return r;
  }
};

#define COMMON_USER_METHODS \
  bool get_prob_sizes(hiop::size_type& n, hiop::size_type& m) override { n = u.p.n; m = u.p.m; return true; } \
  bool get_vars_info(const hiop::size_type& n, double* xl, double* xu, NonlinearityType* t) override { return u.vars(n, xl, xu, t); } \
  bool get_cons_info(const hiop::size_type& m, double* cl, double* cu, NonlinearityType* t) override { return u.cons_info(m, cl, cu, t); } \
  bool eval_f(const hiop::size_type& n, const double* x, bool nx, double& v) override { return u.f(n, x, nx, v); } \
  bool eval_grad_f(const hiop::size_type& n, const double* x, bool nx, double* g) override { return u.grad(n, x, nx, g); } \
  bool eval_cons(const hiop::size_type& n, const hiop::size_type& m, const hiop::size_type& nc, const hiop::index_type* idx, const double* x, bool nx, double* c) override { return u.cons(n, m, nc, idx, x, nx, c); } \
  bool eval_cons(const hiop::size_type& n, const hiop::size_type& m, const double* x, bool nx, double* c) override { return u.cons_all(n, m, x, nx, c); } \
  bool get_MPI_comm(MPI_Comm& c) override { c = u.comm; return true; } \
  bool get_starting_point(const hiop::size_type& n, double* x0) override { return u.start(x0); } \
  bool get_starting_point(const hiop::size_type& n, const hiop::size_type& m, double* x0, bool& da, double* zl, double* zu, double* lam, bool& sa, double* s) override { return u.start_long(n, m, x0, da, zl, zu, lam, sa, s); } \
  bool get_warmstart_point(const hiop::size_type& n, const hiop::size_type& m, double* x0, double* zl, double* zu, double* lam, double* s, double* vl, double* vu) override { return u.warmstart(n, m, x0, zl, zu, lam, s, vl, vu); } \
  void solution_callback(hiop::hiopSolveStatus st, hiop::size_type n, const double* x, const double* zl, const double* zu, hiop::size_type m, const double* g, const double* lam, double obj) override { u.solution(st, n, x, zl, zu, m, g, lam, obj); } \
  bool iterate_callback(int it, double obj, double lb, int n, const double* x, const double* zl, const double* zu, int mi, const double* s, int m, const double* g, const double* lam, double ip, double id, double on, double mu, double ad, double ap, int ls) override { return u.iterate(it, obj, lb, n, x, zl, zu, mi, s, m, g, lam, ip, id, on, mu, ad, ap, ls); }

class DenseProb : public hiop::hiopInterfaceDenseConstraints {
public:
  User& u;
  explicit DenseProb(User& u_) : u(u_) {}
  COMMON_USER_METHODS
  bool get_vecdistrib_info(hiop::size_type N, hiop::index_type* cols) override
  {
    if(u.nloc < 0) return false;
    for(size_t i = 0; i < u.part.size(); i++) cols[i] = u.part[i];
    return true;
  }
  bool eval_Jac_cons(const hiop::size_type& n, const hiop::size_type& m, const hiop::size_type& nc, const hiop::index_type* idx, const double* x, bool nx, double* J) override
  {
    if(u.one_call) return false;
    int b = u.block(nc, idx, "eval_Jac_cons");
    static int alt = 0;
    if(b < 0) b = alt++ & 1;
    VD xf;
    int N = u.NL();
    if(!u.enter(b == 0 ? C_JAC_EQ : C_JAC_INEQ, n, x, nx, xf)) { if(u.fault_poison) for(int k = 0; k < nc * N; k++) J[k] = NAN; return false; }
    for(int k = 0; k < nc; k++)
      for(int i = 0; i < N; i++) J[k * N + i] = u.p.jac(idx[k], u.col0 + i, xf.data());
    return true;
  }
  bool eval_Jac_cons(const hiop::size_type& n, const hiop::size_type& m, const double* x, bool nx, double* J) override
  {
    if(!u.one_call) return false;
    VD xf;
    int N = u.NL();
    if(!u.enter(C_JAC_ALL, n, x, nx, xf)) return false;
    for(int k = 0; k < u.p.m; k++)
      for(int i = 0; i < N; i++) J[k * N + i] = u.p.jac(k, u.col0 + i, xf.data());
    return true;
  }
};

class MDSProb : public hiop::hiopInterfaceMDS {
public:
  User& u;
  explicit MDSProb(User& u_) : u(u_) {}
  COMMON_USER_METHODS
  int nnz(int which)  // 0 eq, 1 ineq, 2 all
  {
    int c = 0;
    for(int j = 0; j < u.p.m; j++)
      if(which == 2 || u.p.is_eq(j) == (which == 0))
        for(int i = 0; i < u.p.ns; i++) c += u.p.pat[j][i];
    return c;
  }
  bool get_sparse_dense_blocks_info(int& nxs, int& nxd, int& ne, int& ni, int& hss, int& hsd) override
  {
    nxs = u.p.ns; nxd = u.p.n - u.p.ns;
    ne = nnz(0); ni = nnz(1); hss = u.p.ns; hsd = 0;
    return true;
  }
  bool jac(const VI& rows, const double* xf, hiop::size_type ns, hiop::size_type nd, hiop::size_type nz, hiop::index_type* iJ, hiop::index_type* jJ, double* MJ, double* JD)
  {
    int want = 0;
    for(int j : rows) for(int i = 0; i < u.p.ns; i++) want += u.p.pat[j][i];
    if(ns != u.p.ns || nd != u.p.n - u.p.ns) vh::R().viol("P10:dims_jac", "Jacobian requested with %d sparse and %d dense variables", (int)ns, (int)nd);
    if(nz != want) { vh::R().viol("P10:nnz_jac", "Jacobian requested with %d nonzeros, the problem has %d", (int)nz, want); return false; }
    if((iJ == nullptr) != (jJ == nullptr) ) vh::R().viol("P10:pattern_request", "row and column arrays of the Jacobian are not requested together");
    if(iJ && jJ) {
      int k = 0;
      for(size_t r = 0; r < rows.size(); r++)
        for(int i = 0; i < u.p.ns; i++) if(u.p.pat[rows[r]][i]) { iJ[k] = r; jJ[k] = i; k++; }
      vh::R().count("jac_pattern_requests");
    }
    if(MJ) {
      int k = 0;
      for(size_t r = 0; r < rows.size(); r++)
        for(int i = 0; i < u.p.ns; i++) if(u.p.pat[rows[r]][i]) MJ[k++] = u.p.jac(rows[r], i, xf);
    }
    if(JD) {
      for(size_t r = 0; r < rows.size(); r++)
        for(int i = 0; i < (int)nd; i++) JD[r * nd + i] = u.p.jac(rows[r], u.p.ns + i, xf);
    }
    return true;
  }
  bool eval_Jac_cons(const hiop::size_type& n, const hiop::size_type& m, const hiop::size_type& nc, const hiop::index_type* idx, const double* x, bool nx, const hiop::size_type& ns, const hiop::size_type& nd, const hiop::size_type& nz, hiop::index_type* iJ, hiop::index_type* jJ, double* MJ, double* JD) override
  {
    if(u.one_call) return false;
    int b = u.block(nc, idx, "eval_Jac_cons");
    static int alt = 0;
    if(b < 0) b = alt++ & 1;
    VD xf;
    if(!u.enter(b == 0 ? C_JAC_EQ : C_JAC_INEQ, n, x, nx, xf)) {
      if(u.fault_poison) {
        if(MJ) for(int k = 0; k < nz; k++) MJ[k] = NAN;
        if(JD) for(int k = 0; k < nc * nd; k++) JD[k] = NAN;
      }
      return false;
    }
    return jac(VI(idx, idx + nc), xf.data(), ns, nd, nz, iJ, jJ, MJ, JD);
  }
  bool eval_Jac_cons(const hiop::size_type& n, const hiop::size_type& m, const double* x, bool nx, const hiop::size_type& ns, const hiop::size_type& nd, const hiop::size_type& nz, hiop::index_type* iJ, hiop::index_type* jJ, double* MJ, double* JD) override
  {
    if(!u.one_call) return false;
    VD xf;
    if(!u.enter(C_JAC_ALL, n, x, nx, xf)) return false;
    VI rows;
    for(int j = 0; j < u.p.m; j++) rows.push_back(j);
    return jac(rows, xf.data(), ns, nd, nz, iJ, jJ, MJ, JD);
  }
  bool eval_Hess_Lagr(const hiop::size_type& n, const hiop::size_type& m, const double* x, bool nx, const double& of, const double* lambda, bool nl, const hiop::size_type& ns, const hiop::size_type& nd, const hiop::size_type& nss, hiop::index_type* iH, hiop::index_type* jH, double* MH, double* HD, hiop::size_type& nsd, hiop::index_type* iSD, hiop::index_type* jSD, double* MSD) override
  {
    VD xf;
    if(!u.enter(C_HESS, n, x, nx, xf)) {
      if(u.fault_poison) { if(MH) for(int k = 0; k < nss; k++) MH[k] = NAN; if(HD) for(int k = 0; k < nd * nd; k++) HD[k] = NAN; }
      return false;
    }
    if(nss != u.p.ns || nsd != 0) vh::R().viol("P10:nnz_hess", "Hessian requested with %d sparse nonzeros (problem has %d), %d mixed", (int)nss, u.p.ns, (int)nsd);
    if(nss != u.p.ns) return false;
    if(m != u.p.m) vh::R().viol("P10:dims_hess", "Hessian requested with m=%d", (int)m);
    // multipliers come as equalities first, then inequalities
    VD lam(u.p.m);
    int ke = 0, ki = u.p.meq();
    for(int j = 0; j < u.p.m; j++) lam[j] = u.p.is_eq(j) ? lambda[ke++] : lambda[ki++];
    if(iH && jH) for(int i = 0; i < u.p.ns; i++) iH[i] = jH[i] = i;
    if(MH) for(int i = 0; i < u.p.ns; i++) MH[i] = u.p.hess(i, i, xf.data(), of, lam.data());
    if(HD) for(int i = 0; i < nd; i++) for(int k = 0; k < nd; k++) HD[i * nd + k] = u.p.hess(u.p.ns + i, u.p.ns + k, xf.data(), of, lam.data());
    return true;
  }
};
