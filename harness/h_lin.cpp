// Linear solvers, quasi-Newton matrix and regularisation, driven directly.
#include "session.hpp"
#include "hiopKrylovSolver.hpp"
#include "hiopLinSolverSymDenseLapack.hpp"
#include "hiopPDPerturbation.hpp"
#include "hiopFactAcceptor.hpp"
#include "hiopHessianLowRank.hpp"
#include "hiopMatrixDenseRowMajor.hpp"
#include "LinAlgFactory.hpp"
using vh::Rng;
using vh::close;
using vh::fmt;
using namespace hiop;
typedef std::vector<VD> MD;

static MD zeros(int m, int n) { return MD(m, VD(n, 0.)); }
static MD mul(const MD& A, const MD& B)
{
  int m = A.size(), k = B.size(), n = k ? B[0].size() : 0;
  MD C = zeros(m, n);
  for(int i = 0; i < m; i++) for(int l = 0; l < k; l++) for(int j = 0; j < n; j++) C[i][j] += A[i][l] * B[l][j];
  return C;
}
static VD mv(const MD& A, const VD& x)
{
  VD y(A.size(), 0.);
  for(size_t i = 0; i < A.size(); i++) for(size_t j = 0; j < x.size(); j++) y[i] += A[i][j] * x[j];
  return y;
}
static double dot(const VD& a, const VD& b) { double s = 0; for(size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static double n2(const VD& a) { return sqrt(dot(a, a)); }
static double fro(const MD& A) { double s = 0; for(auto& r : A) s += dot(r, r); return sqrt(s); }
static MD orth(Rng& g, int n)
{
  MD Q = zeros(n, n);
  for(int i = 0; i < n; i++) {
    for(int t = 0; t < 3; t++) {
      if(t == 0) for(int j = 0; j < n; j++) Q[i][j] = g.gauss();
      for(int k = 0; k < i; k++) { double d = dot(Q[i], Q[k]); for(int j = 0; j < n; j++) Q[i][j] -= d * Q[k][j]; }
    }
    double nn = n2(Q[i]);
    for(int j = 0; j < n; j++) Q[i][j] /= nn;
  }
  return Q;
}
static MD withspec(Rng& g, const VD& ev)
{
  int n = ev.size();
  MD Q = orth(g, n), A = zeros(n, n);
  for(int k = 0; k < n; k++) for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) A[i][j] += ev[k] * Q[k][i] * Q[k][j];
  for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) A[i][j] = A[j][i];
  return A;
}
// eigenvalues of a symmetric matrix (Jacobi)
static VD eigs(MD A)
{
  int n = A.size();
  for(int sweep = 0; sweep < 60; sweep++) {
    double off = 0, tot = 0;
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { tot += A[i][j] * A[i][j]; if(i != j) off += A[i][j] * A[i][j]; }
    if(off <= 1e-30 * tot) break;
    for(int p = 0; p < n; p++) for(int q = p + 1; q < n; q++) {
      if(A[p][q] == 0) continue;
      double th = (A[q][q] - A[p][p]) / (2 * A[p][q]);
      double t = (th >= 0 ? 1 : -1) / (fabs(th) + sqrt(th * th + 1)), c = 1 / sqrt(t * t + 1), s = t * c;
      for(int k = 0; k < n; k++) { double a = A[k][p], b = A[k][q]; A[k][p] = c * a - s * b; A[k][q] = s * a + c * b; }
      for(int k = 0; k < n; k++) { double a = A[p][k], b = A[q][k]; A[p][k] = c * a - s * b; A[q][k] = s * a + c * b; }
    }
  }
  VD e(n);
  for(int i = 0; i < n; i++) e[i] = A[i][i];
  return e;
}

////////////////////////////////////////////////////////////////////////////////////////////////////
struct CountOp : hiopLinearOperator {
  hiopLinearOperator* o; long n = 0, nanat = -1; bool aliased = false;
  CountOp(hiopLinearOperator* o_) : o(o_) {}
  bool times_vec(hiopVector& y, const hiopVector& x) override
  {
    n++;
    if(&y == &x) aliased = true;
    bool r = o->times_vec(y, x);
    if(nanat >= 0 && n > nanat) y.setToConstant(NAN);
    return r;
  }
  bool trans_times_vec(hiopVector& y, const hiopVector& x) override { return o->trans_times_vec(y, x); }
};
struct KSys {
  std::unique_ptr<hiopMatrixDense> A, L, Rm;
  std::unique_ptr<hiopMatVecOpr> oA, oL, oR;
  std::unique_ptr<CountOp> a, l, r;
  static hiopMatrixDense* mk(const MD& M)
  {
    int n = M.size();
    auto* m = LinearAlgebraFactory::create_matrix_dense("DEFAULT", n, n);
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) m->local_data()[i * n + j] = M[i][j];
    return m;
  }
  void set(const MD& MA, const MD* ML, const MD* MR)
  {
    A.reset(mk(MA)); oA.reset(new hiopMatVecOpr(A.get())); a.reset(new CountOp(oA.get()));
    if(ML) { L.reset(mk(*ML)); oL.reset(new hiopMatVecOpr(L.get())); l.reset(new CountOp(oL.get())); }
    if(MR) { Rm.reset(mk(*MR)); oR.reset(new hiopMatVecOpr(Rm.get())); r.reset(new CountOp(oR.get())); }
  }
};
static hiopVector* mkv(const VD& v)
{
  hiopVector* r = LinearAlgebraFactory::create_vector("DEFAULT", v.size());
  for(size_t i = 0; i < v.size(); i++) r->local_data()[i] = v[i];
  return r;
}

static void krylov(Rng& g)
{
  bool pcg = g.b();
  int n = g.b(0.1) ? 1 : g.i(1, g.b(0.2) ? 40 : 12);
  enum { WELL, ILL, INDEF, SING, NAN_ };
  int kind = g.b(0.55) ? WELL : g.pick(std::vector<int>{ILL, INDEF, SING, SING, NAN_});
  double scaleA = g.b(0.3) ? pow(10, g.u(-6, 6)) : 1;
  MD A, L, Rm;
  bool hl = g.b(0.4), hr = g.b(0.4);
  VD ev(n);
  double kappa = kind == ILL ? pow(10, g.u(4, 12)) : pow(10, g.u(0, 2.5));
  for(int i = 0; i < n; i++) ev[i] = pow(kappa, -g.u());
  if(kind == INDEF) for(int i = 0; i < n; i++) if(g.b(0.4)) ev[i] = -ev[i];
  if(kind == SING) ev[0] = 0;
  if(pcg) A = withspec(g, ev);
  else if(kind == WELL) {
    A = zeros(n, n);
    for(auto& r : A) for(auto& v : r) v = g.gauss();
    double f = fro(A);
    double th = g.u(0, 0.6);
    for(int i = 0; i < n; i++) { for(int j = 0; j < n; j++) A[i][j] *= th / f; A[i][i] += 1; }
  } else { A = withspec(g, ev); if(kind != SING) { MD Q = orth(g, n); A = mul(Q, A); } }
  for(auto& r : A) for(auto& v : r) v *= scaleA;
  double kp = 1;
  if(pcg) {
    // the product of the two preconditioners has to be symmetric positive definite
    VD e1(n), e2(n);
    if(hl && hr) { for(int i = 0; i < n; i++) e1[i] = pow(4, -g.u()); kp = 16;
      MD Q = orth(g, n);  // both with the same eigenvectors
      auto m = [&](const VD& e) { MD M = zeros(n, n); for(int k = 0; k < n; k++) for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) M[i][j] += e[k] * Q[k][i] * Q[k][j]; return M; };
      for(int i = 0; i < n; i++) e2[i] = pow(4, -g.u());
      L = m(e1); Rm = m(e2);
    } else { kp = 10; for(int i = 0; i < n; i++) e1[i] = pow(kp, -g.u()); L = withspec(g, e1); for(int i = 0; i < n; i++) e2[i] = pow(kp, -g.u()); Rm = withspec(g, e2); }
  } else {
    // close to the identity, not symmetric
    auto m = [&]() { MD M = zeros(n, n); for(auto& r : M) for(auto& v : r) v = g.gauss(); double f = fro(M), th = g.u(0, 0.25); for(int i = 0; i < n; i++) { for(int j = 0; j < n; j++) M[i][j] *= th / f; M[i][i] += 1; } return M; };
    L = m(); Rm = m();
  }
  KSys S;
  S.set(A, hl ? &L : nullptr, hr ? &Rm : nullptr);
  VD x0(n, 0.);
  bool hx0 = g.b(0.4);
  if(hx0) for(auto& v : x0) v = g.gauss();
  std::unique_ptr<hiopVector> vx0(mkv(x0));
  auto make = [&]() -> hiopKrylovSolver* {
    if(pcg) return new hiopPCGSolver(n, S.a.get(), S.l.get(), S.r.get(), hx0 ? vx0.get() : nullptr);
    return new hiopBiCGStabSolver(n, S.a.get(), S.l.get(), S.r.get(), hx0 ? vx0.get() : nullptr);
  };
  auto solve = [&](hiopKrylovSolver* s, hiopVector* b) { return pcg ? static_cast<hiopPCGSolver*>(s)->solve(b) : static_cast<hiopBiCGStabSolver*>(s)->solve(b); };
  std::unique_ptr<hiopKrylovSolver> s(make());
  if(kind == NAN_) S.a->nanat = g.i(1, 6);
  int nsolve = g.i(1, 4);
  VD start = x0;  // where the next solve starts
  bool known = true, havex0 = hx0;
  const char* nm = pcg ? "pcg" : "bicgstab";
  double fA = fro(A);
  for(int q = 0; q < nsolve; q++) {
    VD b(n), xt(n);
    for(auto& v : xt) v = g.gauss();
    int bk = g.i(0, 5);
    if(bk == 0) b.assign(n, 0.);
    else if(bk == 1 && kind == SING) b = mv(A, xt);
    else if(bk == 2 && known && kind != NAN_) b = mv(A, start);
    else for(auto& v : b) v = g.gauss() * scaleA;
    if(g.b(0.1)) for(auto& v : b) v *= 1e-9;
    double tol = pow(10, g.u(-12, -1));
    if(g.b(0.1)) tol = g.b() ? 1e-16 : 0.;
    int maxit = g.b(0.5) ? 10 * n + 100 : g.i(0, 12);
    s->set_tol(tol);
    s->set_max_num_iter(maxit);
    if(havex0 && g.b(0.5)) { double c = g.b() ? 0. : g.gauss(); s->set_x0(c); start.assign(n, c); known = true; }
    std::unique_ptr<hiopVector> vb(mkv(b));
    S.a->n = 0; if(S.l) S.l->n = 0; if(S.r) S.r->n = 0;
    bool ok = solve(s.get(), vb.get());
    havex0 = havex0 || n2(b) > 0;
    VD x = vget(vb.get());
    double nb = n2(b), nx = n2(x);
    VD Ax = mv(A, x), r(n);
    for(int i = 0; i < n; i++) r[i] = b[i] - Ax[i];
    double nr = n2(r), ro = 1e-14 * (n + 3) * (fA * (nx + (known ? n2(start) : 0)) + nb);
    double it = s->get_sol_num_iter(), ra = s->get_sol_abs_resid(), rr = s->get_sol_rel_resid();
    uint64_t h = vh::hash_d(vh::mix(pcg, kind), x.data(), n);
    R().eval(h, nb > 0);
    R().count(std::string(nm) + (ok ? "_ok" : "_fail"));
    std::string ds = fmt("%s n=%d kind=%d kappa=%.2g precond=%d%d x0=%d tol=%g maxit=%d |b|=%g solve %d", nm, n, kind, kappa, hl, hr, hx0, tol, maxit, nb, q);
    R().sample(ds + fmt(" -> %d flag %d it %g resid %g", ok, s->get_convergence_flag(), it, nr));
    auto K = [&](const char* k) { return fmt("P22:%s_%s", nm, k); };
    if(S.a->aliased || (S.l && S.l->aliased) || (S.r && S.r->aliased)) R().viol(K("alias").c_str(), "[%s] an operator was applied in place", ds.c_str());
    if(ok != (s->get_convergence_flag() == 0)) R().viol(K("flag").c_str(), "[%s] returned %d with flag %d", ds.c_str(), ok, s->get_convergence_flag());
    if(nb == 0) {
      if(!ok || nx != 0 || it != 0 || ra != 0 || rr != 0) R().viol(K("zero_rhs").c_str(), "[%s] zero rhs: returned %d, |x|=%g, %g iterations, residuals %g %g", ds.c_str(), ok, nx, it, ra, rr);
      continue;
    }
    if(kind == NAN_ && S.a->n > S.a->nanat) {
      if(ok) R().viol(K("nan_success").c_str(), "[%s] success although the operator gave NaN", ds.c_str());
      R().count("nan_operator");
      break;
    }
    if(it < 0 || it > maxit) R().viol(K("iterations_limit").c_str(), "[%s] %g iterations reported with limit %d", ds.c_str(), it, maxit);
    double calls = S.l ? S.l->n : S.r ? S.r->n : -1;
    if(calls >= 0 && !pcg) calls /= 2;
    if(ok) {
      if(!(nr <= tol * nb * (1 + 1e-9) + ro)) R().viol(K("untrue").c_str(), "[%s] success with residual %.6g, allowed %.6g", ds.c_str(), nr, tol * nb);
      if(!close(ra, nr, 1e-6, 10 * ro)) R().viol(K("abs_resid").c_str(), "[%s] residual reported %.9g, it is %.9g", ds.c_str(), ra, nr);
      if(calls >= 0 && it != calls) R().viol(K("iterations").c_str(), "[%s] %g iterations reported, %g made", ds.c_str(), it, calls);
      if(calls < 0 && it > S.a->n) R().viol(K("iterations").c_str(), "[%s] %g iterations reported, %ld products made", ds.c_str(), it, S.a->n);
    } else {
      R().maxv("failed_resid_dev", fabs(ra - nr) / (nr + 1e3 * ro + 1e-300));
      if(!close(ra, nr, 0.05, 1e6 * ro + 1e-6 * nb)) R().viol(K("fail_resid").c_str(), "[%s] failed with residual reported %.9g, of the returned vector it is %.9g", ds.c_str(), ra, nr);
      if(known) {
        VD r0 = mv(A, start);
        for(int i = 0; i < n; i++) r0[i] = b[i] - r0[i];
        if(!(nr <= n2(r0) * (1 + 1e-6) + 1e3 * ro + 1e-14 * fA * n2(start))) R().viol(K("worse_than_start").c_str(), "[%s] failed with a vector of residual %.9g, the starting point has %.9g", ds.c_str(), nr, n2(r0));
      }
      if(calls >= 0 && it > calls + 1) R().viol(K("iterations").c_str(), "[%s] %g iterations reported, %g made", ds.c_str(), it, calls);
    }
    if(!close(rr, ra / nb, 1e-12, 0)) R().viol(K("rel_resid").c_str(), "[%s] relative residual %.12g, absolute %.12g", ds.c_str(), rr, ra);
    if(ok && nr <= tol * nb && known) {
      VD r0 = mv(A, start);
      for(int i = 0; i < n; i++) r0[i] = b[i] - r0[i];
      if(n2(r0) <= 0.5 * tol * nb && (it != 0 || x != start)) R().viol(K("x0_ignored").c_str(), "[%s] the starting point is good enough, %g iterations made", ds.c_str(), it);
      // convergence rate of the conjugate gradient method
      double kt = kappa * kp * (hl && !hr ? 1 : hr && !hl ? 1 : 1), rt = tol * nb / std::max(n2(r0), 1e-300);
      if(pcg && kind == WELL && !hl && !hr && rt < 1 && fA * n2(start) < 1e3 * nb) {
        double kk = kappa, rho = (sqrt(kk) - 1) / (sqrt(kk) + 1);
        double bound = rho < 1e-6 ? 1 : log(rt / (2 * sqrt(kk))) / log(rho);
        bound = bound * 1.2 + 4;
        R().maxv("cg_iterations_over_bound", it / bound);
        if(it > bound) R().viol("P22:pcg_rate", "[%s] %g iterations, the theory of the method allows %.1f", ds.c_str(), it, bound);
        if(n <= 6 && tol >= 1e-8 && it > n + 2) R().viol("P22:pcg_rate", "[%s] %g iterations in dimension %d", ds.c_str(), it, n);
      }
      (void)kt;
    }
    if(kind == WELL && maxit >= 10 * n + 100 && tol >= 1e-9 && !ok) {
      // relative to the scale of the starting residual the tolerance may be below rounding
      double big = fA * n2(start);
      if(known && big < 1e3 * nb && fA * kp * nb < 1e4) R().viol(K("no_convergence").c_str(), "[%s] no convergence on a well-conditioned system, flag %d residual %g", ds.c_str(), s->get_convergence_flag(), nr);
      else R().count("no_convergence_bad_start");
    }
    // the iterations up to the reported one give the returned vector
    if(known && kind != NAN_ && !ok && it <= maxit) {
      std::unique_ptr<hiopVector> st(mkv(start)), b2(mkv(b));
      std::unique_ptr<hiopKrylovSolver> s2;
      if(pcg) s2.reset(new hiopPCGSolver(n, S.a.get(), S.l.get(), S.r.get(), st.get()));
      else s2.reset(new hiopBiCGStabSolver(n, S.a.get(), S.l.get(), S.r.get(), st.get()));
      s2->set_tol(tol); s2->set_max_num_iter((int)ceil(it));
      solve(s2.get(), b2.get());
      VD y = vget(b2.get());
      // for half iterations the second run also makes the other half, whose result may be the better one
      VD r2 = mv(A, y);
      for(int i = 0; i < n; i++) r2[i] = b[i] - r2[i];
      bool better = it != ceil(it) && n2(r2) <= nr;
      if(y != x && !std::isnan(nx) && !better) R().viol(K("iteration_of_vector").c_str(), "[%s] failed, said to return iteration %g; stopping there gives another vector", ds.c_str(), it);
      R().count("iteration_replays");
    }
    // where the next solve starts from is not promised; known after success
    known = ok;
    if(ok) start = x;
  }
}

////////////////////////////////////////////////////////////////////////////////////////////////////
static Prob& somep()
{
  static Rng g(7);
  static Prob p = gen(g, CONVEX, 6, true);
  return p;
}
static hiopNlpFormulation* somenlp()
{
  static SesNW* s = nullptr;
  if(!s) { s = new SesNW(somep()); s->build(); s->nlp()->finalizeInitialization(); }
  return s->nlp();
}

static void lapack(Rng& g)
{
  hiopNlpFormulation* nlp = somenlp();
  int n = g.b(0.1) ? g.i(0, 2) : g.i(1, g.b(0.2) ? 30 : 10);
  hiopLinSolverSymDenseLapack S(n, nlp);
  int reps = g.i(1, 5);
  for(int q = 0; q < reps; q++) {
    int kind = g.i(0, 5);
    MD A = zeros(n, n);
    bool singular = false;
    if(kind <= 1) {
      VD ev(n);
      double lo = g.u(-3, 0), hi = g.u(0, 3), pn = g.pick(std::vector<double>{0., 0.2, 0.5, 1.});
      for(auto& e : ev) e = pow(10, g.u(lo, hi)) * (g.b(pn) ? -1 : 1);
      if(n) A = withspec(g, ev);
    } else if(kind == 2) {  // saddle point with zero block: pivots of order two
      int m = n / 2, k = n - m;
      for(int i = 0; i < k; i++) for(int j = 0; j <= i; j++) A[i][j] = A[j][i] = (i == j ? g.u(0.5, 3) * (g.b(0.8) ? 1 : -1) : g.b(0.3) ? 0.3 * g.gauss() : 0);
      for(int a = 0; a < m; a++) for(int j = 0; j < k; j++) A[k + a][j] = A[j][k + a] = (j == a ? 1. + g.u() : g.b(0.4) ? g.gauss() * 0.3 : 0.);
    } else if(kind == 3) {  // zero diagonal
      for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) A[i][j] = A[j][i] = g.gauss();
    } else if(kind == 4) {  // exactly singular
      for(int i = 0; i < n; i++) for(int j = 0; j <= i; j++) A[i][j] = A[j][i] = g.gauss();
      if(n > 0) {
        int z = g.i(0, n - 1);
        for(int i = 0; i < n; i++) A[i][z] = A[z][i] = 0;
        singular = true;
      }
    } else {  // block diagonal, small integers
      for(int i = 0; i < n; i++) {
        if(i + 1 < n && g.b()) { A[i][i + 1] = A[i + 1][i] = g.i(1, 3) * (g.b() ? 1 : -1); A[i][i] = g.i(-2, 2); A[i + 1][i + 1] = g.i(-2, 2); if(A[i][i] * A[i + 1][i + 1] == A[i][i + 1] * A[i][i + 1]) A[i][i] = 0; i++; }
        else A[i][i] = g.i(1, 4) * (g.b() ? 1 : -1);
      }
    }
    double f = fro(A);
    if(g.b(0.2)) { double sc = pow(10, g.u(-3, 4)); for(auto& r : A) for(auto& v : r) v *= sc; f *= sc; }
    VD ev = eigs(A);
    int neg = 0;
    double mn = 1e300, mxe = 0;
    for(double e : ev) { if(e < 0) neg++; mn = std::min(mn, fabs(e)); mxe = std::max(mxe, fabs(e)); }
    if(!singular && n && (mn < 1e-5 * mxe || mn < 1e-8)) { R().count("skipped_ill_conditioned"); continue; }
    hiopMatrixDense& M = S.sysMatrix();
    bool junk = g.b();
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) M.local_data()[i * n + j] = j >= i ? A[i][j] : junk ? 0. : A[i][j];
    int r = S.matrixChanged();
    std::string ds = fmt("n=%d kind=%d factorisation %d", n, kind, q);
    VD fl; for(auto& rr : A) fl.insert(fl.end(), rr.begin(), rr.end());
    R().eval(vh::hash_d(n, fl.data(), fl.size()), n > 0);
    R().count(singular ? "singular" : fmt("kind_%d", kind));
    if(singular) {
      if(r != -1) R().viol("P23:singular_missed", "[%s] singular matrix, matrixChanged returned %d", ds.c_str(), r);
      continue;
    }
    if(r != neg) R().viol("P23:inertia", "[%s] %d negative eigenvalues reported, there are %d (smallest magnitude %g)", ds.c_str(), r, neg, mn);
    for(int t = 0, nt = g.i(1, 3); t < nt; t++) {
      VD b(n);
      for(auto& v : b) v = g.gauss();
      std::unique_ptr<hiopVector> x(mkv(b));
      bool ok = S.solve(*x);
      VD xs = vget(x.get()), Ax = mv(A, xs);
      double e = 0;
      for(int i = 0; i < n; i++) e = std::max(e, fabs(Ax[i] - b[i]));
      double sc = f * n2(xs) + n2(b);
      if(!ok) R().viol("P23:solve_failed", "[%s] solve failed", ds.c_str());
      if(!(e <= 1e-10 * sc + 1e-300)) R().viol("P23:solution", "[%s] residual %g, scale %g", ds.c_str(), e, sc);
      R().maxv("backward_error", n ? e / sc : 0);
      R().count("solves");
    }
  }
}

////////////////////////////////////////////////////////////////////////////////////////////////////
// defining quasi-Newton update, dense
struct BFGS {
  int n, lmax;
  double sigma;
  std::vector<std::pair<VD, VD>> P;
  MD B() const
  {
    MD M = zeros(n, n);
    for(int i = 0; i < n; i++) M[i][i] = sigma;
    for(auto& p : P) {
      VD Bs = mv(M, p.first);
      double sBs = dot(p.first, Bs), sy = dot(p.first, p.second);
      for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) M[i][j] += -Bs[i] * Bs[j] / sBs + p.second[i] * p.second[j] / sy;
    }
    return M;
  }
};
static void lowrank(Rng& g)
{
  int rank, np;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  Prob p = gen(g, g.b() ? CONVEX : NONCONVEX, g.b(0.2) ? 25 : 9, false);
  int n = p.n;
  SesQN s(p);
  if(np > 1) {
    s.u.comm = MPI_COMM_WORLD;
    s.u.part.assign(np + 1, 0);
    for(int r = 1; r < np; r++) s.u.part[r] = g.i(0, n);
    s.u.part[np] = n;
    std::sort(s.u.part.begin(), s.u.part.end());
    // a rank without variables is not supported by the formulation
    for(int r = 0; r < np; r++) if(s.u.part[r] == s.u.part[r + 1]) { for(int t = 0; t <= np; t++) s.u.part[t] = (int)((long)n * t / np); break; }
    if(n < np) return;
    s.u.col0 = s.u.part[rank];
    s.u.nloc = s.u.part[rank + 1] - s.u.part[rank];
  }
  static const std::vector<std::string> strat = {"sty", "sty_inv", "snrm_ynrm", "sty_srnm_ynrm", "sigma0"};
  std::string st = g.pick(strat);
  double sigma0 = g.b() ? 1. : pow(10, g.u(-3, 3));
  s.o.s.push_back({"sigma_update_strategy", st});
  s.o.d.push_back({"sigma0", sigma0});
  s.o.s.push_back({"fixed_var", "relax"});
  s.build();
  auto* nlp = s.nd.get();
  nlp->finalizeInitialization();
  int c0 = s.u.col0, nl = s.u.NL();
  int me = nlp->m_eq(), mi = nlp->m_ineq();
  int lmax = g.pick(std::vector<int>{0, 1, 2, 3, 6, 6, 10});
  hiopHessianLowRank H(nlp, lmax);
  BFGS ref{n, lmax, sigma0, {}};
  hiopIterate it(nlp);
  it.setBoundsDualsToConstant(0.);
  it.get_x()->setToZero(); it.get_d()->setToZero(); it.get_sxl()->setToZero(); it.get_sxu()->setToZero(); it.get_sdl()->setToZero(); it.get_sdu()->setToZero();
  std::unique_ptr<hiopVector> gr(nlp->alloc_primal_vec()), v(nlp->alloc_primal_vec()), w(nlp->alloc_primal_vec());
  std::unique_ptr<hiopMatrixDense> Jc(dynamic_cast<hiopMatrixDense*>(nlp->alloc_Jac_c())), Jd(dynamic_cast<hiopMatrixDense*>(nlp->alloc_Jac_d()));
  int K = g.i(0, 1) ? me + mi : g.i(1, 3);
  K = me + mi;  // the buffers of the class are sized for this many rows
  std::unique_ptr<hiopMatrixDense> X(nlp->alloc_multivector_primal(K)), W(LinearAlgebraFactory::create_matrix_dense("DEFAULT", K, K));
  // the "function": quadratic with well-conditioned curvature, sometimes indefinite
  VD ev(n);
  double cond = pow(10, g.u(0, 3)), mag = g.b(0.3) ? pow(10, g.u(-5, 5)) : 1;
  bool indef = g.b(0.3);
  for(auto& e : ev) e = mag * pow(cond, -g.u()) * (indef && g.b(0.3) ? -1 : 1);
  MD Q = withspec(g, ev);
  VD xc(n, 0.), xp(n), gp, gc(n), ycc(me), ydc(mi);
  MD Jcc = zeros(me, n), Jdc = zeros(mi, n), Jcp, Jdp;
  auto put = [&](hiopVector* t, const VD& a) { for(int i = 0; i < nl; i++) t->local_data()[i] = a[c0 + i]; };
  int steps = g.i(1, 16), kept = 0;
  bool first = true;
  double steplen = g.b(0.15) ? pow(10, g.u(-13, -4)) : 1;
  std::string ds = fmt("n=%d np=%d lmax=%d %s sigma0=%.3g cond=%.2g mag=%.2g step=%.2g", n, np, lmax, st.c_str(), sigma0, cond, mag, steplen);
  VD fixdir(n); for(auto& a : fixdir) a = g.gauss();
  int dirmode = g.i(0, 3);
  auto gather = [&](const hiopVector& a) {
    VD r(n);
    if(np == 1) { for(int i = 0; i < n; i++) r[i] = a.local_data_const()[i]; return r; }
    VI cnt(np), dis(np);
    for(int q = 0; q < np; q++) { dis[q] = s.u.part[q]; cnt[q] = s.u.part[q + 1] - s.u.part[q]; }
    MPI_Allgatherv(a.local_data_const(), nl, MPI_DOUBLE, r.data(), cnt.data(), dis.data(), MPI_DOUBLE, MPI_COMM_WORLD);
    return r;
  };
  for(int q = 0; q < steps; q++) {
    if(!first) {
      VD d(n);
      int sm = g.i(0, 11);
      for(int i = 0; i < n; i++) d[i] = dirmode == 0 ? fixdir[i] + 0.3 * g.gauss() : g.gauss();
      if(sm == 0) d.assign(n, 0.);
      else if(sm == 1) for(auto& a : d) a *= 1e-15;
      else for(auto& a : d) a *= steplen;
      for(int i = 0; i < n; i++) xc[i] = xp[i] + d[i];
    } else for(auto& a : xc) a = g.b(0.5) ? 0 : g.gauss();
    gc = mv(Q, xc);
    if(g.b(0.1)) for(auto& a : gc) a += mag * 0.3 * steplen * g.gauss();
    for(auto& a : ycc) a = g.gauss();
    for(auto& a : ydc) a = g.gauss();
    bool jacchg = g.b(0.5);
    for(auto* J : {&Jcc, &Jdc}) for(auto& r : *J) for(auto& a : r) if(first || jacchg) a = (first ? 0 : a) + 0.1 * mag * steplen * g.gauss();
    put(it.get_x(), xc); put(gr.get(), gc);
    for(int a = 0; a < me; a++) it.get_yc()->local_data()[a] = ycc[a];
    for(int a = 0; a < mi; a++) it.get_yd()->local_data()[a] = ydc[a];
    for(int a = 0; a < me; a++) for(int i = 0; i < nl; i++) Jc->local_data()[a * nl + i] = Jcc[a][c0 + i];
    for(int a = 0; a < mi; a++) for(int i = 0; i < nl; i++) Jd->local_data()[a * nl + i] = Jdc[a][c0 + i];
    H.update(it, *gr, *Jc, *Jd);
    bool tight = false;
    if(!first) {
      VD sv(n), yv(n);
      double sinf = 0;
      for(int i = 0; i < n; i++) {
        sv[i] = xc[i] - xp[i]; yv[i] = gc[i] - gp[i];
        for(int a = 0; a < me; a++) yv[i] += (Jcc[a][i] - Jcp[a][i]) * ycc[a];
        for(int a = 0; a < mi; a++) yv[i] += (Jdc[a][i] - Jdp[a][i]) * ydc[a];
        sinf = std::max(sinf, fabs(sv[i]));
      }
      double eps = 2.220446049250313e-16, sy = dot(sv, yv), sn = n2(sv), yn = n2(yv), th = sn * yn * sqrt(eps);
      if(fabs(sinf - 100 * eps) < 1e-3 * 100 * eps || (sinf >= 100 * eps && fabs(sy - th) < 1e-6 * (fabs(sy) + th) + 1e-13 * sn * yn)) { R().count("threshold_ambiguous"); return; }
      tight = sy < 1e-4 * sn * yn;
      if(sinf >= 100 * eps && sy > th) {
        kept++;
        if(lmax > 0) { ref.P.push_back({sv, yv}); if((int)ref.P.size() > lmax) ref.P.erase(ref.P.begin()); }
        double sg = st == "sty" ? sy / (sn * sn) : st == "sty_inv" ? yn * yn / sy : st == "snrm_ynrm" ? sn / yn : st == "sty_srnm_ynrm" ? 0.5 * (sy / (sn * sn) + yn * yn / sy) : sigma0;
        ref.sigma = std::min(1e8, std::max(1e-8, sg));
        R().count("pairs_kept");
      } else R().count("pairs_skipped");
      (void)tight;
    }
    first = false;
    xp = xc; gp = gc; Jcp = Jcc; Jdp = Jdc;
    MD B = ref.B();
    double fB = fro(B);
    VD be = eigs(B);
    double bmin = 1e300, bmax = 0;
    for(double e : be) { bmin = std::min(bmin, e); bmax = std::max(bmax, e); }
    double cB = bmin > 0 ? bmax / bmin : 1e300;
    R().maxv("cond_B", cB);
    // products
    VD xv(n), y0(n);
    for(auto& a : xv) a = g.gauss();
    for(auto& a : y0) a = g.gauss();
    double al = g.pick(std::vector<double>{1, -1, 0, 0.7}), bt = g.pick(std::vector<double>{0, 1, -0.4});
    put(v.get(), xv); put(w.get(), y0);
    H.timesVec(bt, *w, al, *v);
    VD got = gather(*w), ex = mv(B, xv);
    R().eval(vh::hash_d(vh::mix(np, lmax), got.data(), n), n > 0 && kept > 0);
    if(!std::isfinite(fB) || fB > 1e12 * std::max(mag, ref.sigma)) { R().count("extreme_matrix"); continue; }
    double sc = fabs(al) * fB * n2(xv) + fabs(bt) * n2(y0);
    double loose = ref.sigma > 1e4 * mag || ref.sigma < 1e-4 * mag ? 1e-5 : 1e-8;
    for(int i = 0; i < n; i++) {
      double e = bt * y0[i] + al * ex[i];
      if(!(fabs(got[i] - e) <= loose * sc + 1e-13 * ref.sigma * n2(xv))) { R().viol("P24:product", "[%s] step %d: product %.12g in component %d, the defining update gives %.12g (scale %g, sigma %g)", ds.c_str(), q, got[i], i, e, sc, ref.sigma); break; }
    }
    double xBx = dot(xv, ex);
    if(al == 1 && bt == 0 && !(dot(got, xv) > 0) && xBx > 1e-10 * fB * dot(xv, xv)) R().viol("P24:definite", "[%s] step %d: negative curvature %g", ds.c_str(), q, dot(got, xv));
    R().count("products");
    // solves with an added diagonal
    int nsol = g.i(0, 2);
    for(int t = 0; t < nsol; t++) {
      VD D(n);
      double dm = pow(10, g.u(-2, 2)) * std::max(bmin, 1e-300);
      for(auto& a : D) a = g.b(0.3) ? 0 : dm * g.u(0, 2);
      put(v.get(), D);
      H.updateLogBarrierDiagonal(*v);
      MD BD = B;
      for(int i = 0; i < n; i++) BD[i][i] += D[i];
      double fBD = fro(BD);
      VD rhs(n);
      for(auto& a : rhs) a = g.gauss();
      put(v.get(), rhs); w->setToConstant(3.);
      H.solve(*v, *w);
      VD sol = gather(*w), r = mv(BD, sol);
      double e = 0;
      for(int i = 0; i < n; i++) e = std::max(e, fabs(r[i] - rhs[i]));
      double ss = fBD * n2(sol) + n2(rhs);
      double rel = e / ss;
      double lim = 1e-7 * std::max(1., std::max(cB, std::max(ref.sigma / std::max(bmin, 1e-300), bmax / ref.sigma)) * 1e-6);
      R().maxv("solve_backward_error_over_limit", rel / lim);
      if(!(rel <= lim)) R().viol("P24:solve", "[%s] step %d: solve leaves a residual %.4g relative to the terms (allowed %.4g, condition %.3g, sigma %.3g)", ds.c_str(), q, rel, lim, cB, ref.sigma);
      // with the diagonal
      VD z(n, 0.);
      put(v.get(), xv); w->setToZero();
      H.timesVecCmn(0., *w, 1., *v, true);
      VD gd = gather(*w);
      VD exd = mv(BD, xv);
      for(int i = 0; i < n; i++) if(!(fabs(gd[i] - exd[i]) <= loose * fBD * n2(xv) + 1e-13 * ref.sigma * n2(xv))) { R().viol("P24:product_diag", "[%s] step %d: product with the diagonal %.12g in component %d, expected %.12g", ds.c_str(), q, gd[i], i, exd[i]); break; }
      // reduced system X (B+D)^{-1} X'
      if(K > 0) {
        MD Xr = zeros(K, n), W0 = zeros(K, K);
        for(auto& rr : Xr) for(auto& a : rr) a = g.b(0.2) ? 0 : g.gauss();
        for(int i = 0; i < K; i++) for(int j = 0; j <= i; j++) W0[i][j] = W0[j][i] = g.gauss();
        for(int i = 0; i < K; i++) for(int j = 0; j < nl; j++) X->local_data()[i * nl + j] = Xr[i][c0 + j];
        for(int i = 0; i < K; i++) for(int j = 0; j < K; j++) W->local_data()[i * K + j] = W0[i][j];
        double a2 = g.pick(std::vector<double>{1, -1, 0.3}), b2 = g.pick(std::vector<double>{0, 1, -0.5});
        H.symMatTimesInverseTimesMatTrans(b2, *W, a2, *X);
        // reference by Gaussian elimination of the dense matrix
        MD LU = BD, Z = zeros(n, K);
        for(int i = 0; i < n; i++) for(int j = 0; j < K; j++) Z[i][j] = Xr[j][i];
        for(int c = 0; c < n; c++) {
          int pv = c;
          for(int i = c + 1; i < n; i++) if(fabs(LU[i][c]) > fabs(LU[pv][c])) pv = i;
          std::swap(LU[c], LU[pv]); std::swap(Z[c], Z[pv]);
          for(int i = c + 1; i < n; i++) { double f = LU[i][c] / LU[c][c]; for(int j = c; j < n; j++) LU[i][j] -= f * LU[c][j]; for(int j = 0; j < K; j++) Z[i][j] -= f * Z[c][j]; }
        }
        for(int c = n - 1; c >= 0; c--) for(int j = 0; j < K; j++) { for(int i = c + 1; i < n; i++) Z[c][j] -= LU[c][i] * Z[i][j]; Z[c][j] /= LU[c][c]; }
        MD XZ = mul(Xr, Z);
        double xm = fro(Xr);
        VD de = eigs(BD);
        double dmin = 1e300; for(double ee : de) dmin = std::min(dmin, ee);
        double lim2 = lim * (kept > n ? 1e4 : 10) * (xm * xm / std::max(dmin, 1e-300) + 10);
        bool bad = false;
        for(int i = 0; i < K && !bad; i++) for(int j = 0; j < K; j++) {
          double e2 = b2 * W0[i][j] + a2 * XZ[i][j], gt = W->local_data()[i * K + j];
          if(!(fabs(e2 - gt) <= lim2)) { R().viol("P24:reduced", "[%s] step %d: entry (%d,%d) of the reduced matrix %.12g, expected %.12g (allowed %g)", ds.c_str(), q, i, j, gt, e2, lim2); bad = true; break; }
        }
        R().count("reduced_products");
      }
      R().count("solves");
    }
  }
  R().sample(ds + fmt(" steps=%d kept=%d", steps, kept));
}

////////////////////////////////////////////////////////////////////////////////////////////////////
// documented regularisation schedule (inertia correction as in Ipopt), scalars
struct RegRef {
  double wmin, wmax, w0, kminus, kpb, kp, cbar, kc, mu = 1e-8;
  double w = 0, c = 0, wl = 0, cl = 0;
  enum Deg { NO, NOT, YES } hess = NO, jac = NO;
  enum Test { NONE, C0W0, CPW0, C0WP, CPWP } test = NONE;
  int cnt = 0;
  bool wprev_reset = false;
  double deltac() { return cbar * pow(mu, kc); }
  void conclude()
  {
    switch(test) {
    case NONE: break;
    case C0W0: if(hess == NO) hess = NOT; if(jac == NO) jac = NOT; break;
    case CPW0: if(hess == NO) hess = NOT; if(jac == NO && ++cnt >= 3) jac = YES; break;
    case C0WP: if(jac == NO) jac = NOT; if(hess == NO && ++cnt >= 3) hess = YES; break;
    case CPWP: if(++cnt >= 3) hess = jac = YES; break;
    }
  }
  bool grow()
  {
    if(w == 0) w = wl == 0 ? w0 : std::max(wmin, wl * kminus);
    else w = (wl == 0 || 1e5 * wl < w) ? kpb * w : kp * w;
    if(w > wmax) { wl = 0; return false; }
    return true;
  }
  bool initial()
  {
    conclude();
    if(w > 0) wl = w;
    if(c > 0) cl = c;
    test = hess == NO || jac == NO ? C0W0 : NONE;
    c = jac == YES ? deltac() : 0;
    w = 0;
    return hess == YES ? grow() : true;
  }
  bool wrong()
  {
    conclude();
    if(grow()) return true;
    if(c != 0) return false;
    w = 0; c = deltac(); test = NONE;
    if(hess == YES) hess = NO;
    return grow();
  }
  bool singular()
  {
    if(hess == NO || jac == NO) {
      switch(test) {
      case C0W0: if(jac == NO) { c = deltac(); test = CPW0; return true; } if(!grow()) return false; test = C0WP; return true;
      case CPW0: c = 0; if(!grow()) return false; test = C0WP; return true;
      case C0WP: c = deltac(); if(!grow()) return false; test = CPWP; return true;
      default: return grow();
      }
    }
    if(c > 0) return grow();
    c = deltac();
    return true;
  }
};
struct RegDual {  // dual regularisation first
  RegRef r;
  double cmin = 1e-20, kcp = 10;
  bool growc()
  {
    if(r.c == 0) r.c = r.cl == 0 ? std::max(cmin, r.deltac()) : std::max(cmin, r.cl * r.kminus);
    else r.c = (r.cl == 0 || 1e5 * r.cl < r.c) ? r.kpb * r.c : kcp * r.c;
    if(r.c > r.wmax) { r.cl = 0; return false; }
    return true;
  }
  bool initial()
  {
    if(r.w > 0) r.wl = r.w;
    if(r.c > 0) r.cl = r.c;
    r.w = r.c = 0;
    return true;
  }
  bool wrong()
  {
    if(growc()) return true;
    if(r.w != 0) return false;
    r.c = 0;
    if(!r.grow()) return false;
    return growc();
  }
};
static void pdreg(Rng& g)
{
  int np;
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  Prob& p = somep();
  SesNW s(p);
  auto& o = s.o;
  if(g.b(0.7)) {
    o.d.push_back({"delta_w_min_bar", g.b() ? 1e-20 : pow(10, g.u(-12, -5))});
    o.d.push_back({"delta_w_max_bar", g.b(0.3) ? 1e40 : pow(10, g.u(-3, 8))});
    o.d.push_back({"delta_0_bar", pow(10, g.u(-6, 1))});
    o.d.push_back({"kappa_w_minus", g.u(0.05, 0.9)});
    o.d.push_back({"kappa_w_plus_bar", g.u(5, 200)});
    o.d.push_back({"kappa_w_plus", g.u(2, 20)});
    o.d.push_back({"delta_c_bar", pow(10, g.u(-12, -3))});
    o.d.push_back({"kappa_c", g.u(0, 2)});
  }
  s.build();
  s.nlp()->finalizeInitialization();
  auto* nlp = s.nlp();
  int variant = g.i(0, 3);
  std::unique_ptr<hiopPDPerturbation> pd;
  if(variant == 0) pd.reset(new hiopPDPerturbationPrimalFirstScalar());
  else if(variant == 1) pd.reset(new hiopPDPerturbationPrimalFirstRand());
  else if(variant == 2) pd.reset(new hiopPDPerturbationDualFirstScalar());
  else pd.reset(new hiopPDPerturbationDualFirstRand());
  bool dual = variant >= 2, rnd = variant & 1;
  pd->initialize(nlp);
  RegRef r;
  auto N = [&](const char* k) { return nlp->options->GetNumeric(k); };
  r.wmin = N("delta_w_min_bar"); r.wmax = N("delta_w_max_bar"); r.w0 = N("delta_0_bar"); r.kminus = N("kappa_w_minus");
  r.kpb = N("kappa_w_plus_bar"); r.kp = N("kappa_w_plus"); r.cbar = N("delta_c_bar"); r.kc = N("kappa_c");
  RegDual rd; rd.r = r;
  int m = p.m;
  hiopFactAcceptorIC ic(pd.get(), m), ic0(pd.get(), 0);
  hiopFactAcceptorInertiaFreeDWD fr(pd.get(), m), fr0(pd.get(), 0);
  double mu = 1;
  pd->set_mu(mu); r.mu = rd.r.mu = mu;
  std::string tr;
  // tendencies, so that all states of degeneracy are reached
  double ps = g.pick(std::vector<double>{0., 0.2, 0.6, 1.}), pw = g.pick(std::vector<double>{0.1, 0.5, 0.9});
  int viamode = g.i(0, 2);  // calls directly, by the inertia rule, by the curvature rule
  bool failed = false;
  auto check = [&](const char* where) {
    double w = dual ? rd.r.w : r.w, c = dual ? rd.r.c : r.c;
    auto cmp = [&](const char* nm, const hiopVector* v, double e) {
      VD a = vget(v);
      for(size_t i = 0; i < a.size(); i++) {
        bool ok = rnd ? (a[i] >= 0.9 * e * (1 - 1e-12) && a[i] <= e * (1 + 1e-12)) : close(a[i], e, 1e-12, 1e-300);
        if(!ok) { R().viol(fmt("P30:%s", nm).c_str(), "[variant %d%s] after %s: %s[%d]=%.15g, the schedule says %.15g (%s)", variant, o.str().c_str(), where, nm, (int)i, a[i], e, tr.c_str()); return false; }
      }
      return true;
    };
    bool ok = cmp("delta_wx", pd->get_curr_delta_wx(), w);
    ok = cmp("delta_wd", pd->get_curr_delta_wd(), w) && ok;
    ok = cmp("delta_cc", pd->get_curr_delta_cc(), c) && ok;
    ok = cmp("delta_cd", pd->get_curr_delta_cd(), c) && ok;
    if(!pd->check_consistency()) R().viol("P30:consistency", "[variant %d] after %s the regularisation is said to be inconsistent (%s)", variant, where, tr.c_str());
    double st[2] = {w, c};
    R().eval(vh::hash_d(vh::mix(vh::hash_s(tr), variant), st, 2), w > 0 || c > 0);
    R().maxv("delta_w", w);
    return ok;
  };
  for(int it = 0; it < 12; it++) {
    if(g.b(0.3)) { mu *= g.u(0.01, 0.5); pd->set_mu(mu); r.mu = rd.r.mu = mu; tr += fmt(" mu=%g", mu); }
    bool e = dual ? rd.initial() : r.initial(), got = pd->compute_initial_deltas();
    tr += " I";
    if(e != got) { R().viol("P30:initial_result", "[variant %d%s] initial regularisation returned %d, expected %d (%s)", variant, o.str().c_str(), got, e, tr.c_str()); return; }
    if(e && !check("the initial regularisation")) return;
    if(!e) { R().count("initial_failed"); continue; }
    for(int k = 0; k < 15; k++) {
      // outcome of a factorisation
      int outcome = g.b(pw) ? (g.b(ps) ? 2 : 1) : 0;  // 0 right, 1 wrong inertia, 2 singular
      int res_e, res;
      bool ee = true;
      bool none = viamode && g.b(0.15);  // system without constraints
      bool force = viamode == 2 && g.b(0.4);
      if(viamode == 0) {
        if(outcome == 0) break;
        ee = outcome == 1 ? (dual ? rd.wrong() : r.wrong()) : (dual ? rd.wrong() : r.singular());
        bool gg = outcome == 1 ? pd->compute_perturb_wrong_inertia() : pd->compute_perturb_singularity();
        tr += outcome == 1 ? "W" : "S";
        res_e = ee ? 1 : -1; res = gg ? 1 : -1;
      } else if(viamode == 1) {
        int req = none ? 0 : m;
        int neg = outcome == 0 ? req : outcome == 2 ? -1 : req + (g.b() && req > 0 ? -1 : 1) * g.i(1, std::max(1, req > 0 ? req : 1));
        tr += fmt(" ic%d/%d", neg, req);
        if(neg == req) res_e = 0;
        else { bool sing = req > 0 && neg < 0; ee = dual ? rd.wrong() : sing ? r.singular() : r.wrong(); res_e = ee ? 1 : -1; }
        res = (none ? ic0 : ic).requireReFactorization(*nlp, neg, g.b());
      } else {
        int req = none ? 0 : m;
        int neg = outcome == 2 ? -1 : g.i(0, 3);
        tr += fmt(" if%d/%d%s", neg, req, force ? "f" : "");
        if(neg >= 0 && !force) res_e = 0;
        else { bool sing = req > 0 && neg < 0; ee = dual ? rd.wrong() : sing ? r.singular() : r.wrong(); res_e = ee ? 1 : -1; }
        res = (none ? fr0 : fr).requireReFactorization(*nlp, neg, force);
      }
      R().count(fmt("outcome_%d", outcome));
      if(res != res_e) { R().viol("P30:decision", "[variant %d%s] decision %d, expected %d (%s)", variant, o.str().c_str(), res, res_e, tr.c_str()); return; }
      if(res == 1 && !check("a correction")) return;
      if(res == 0) { if(!check("acceptance")) return; break; }
      if(res == -1) { R().count("limit_reached"); failed = true; break; }
    }
    if(failed && g.b(0.5)) break;
    failed = false;
  }
  if(!dual) { R().count(fmt("hess_degenerate_%d", (int)r.hess)); R().count(fmt("jac_degenerate_%d", (int)r.jac)); }
  R().sample(fmt("variant %d: %s", variant, tr.substr(0, 300).c_str()));
}

static void body(Rng& g, long k, const std::string& mode)
{
  if(mode == "krylov") krylov(g);
  else if(mode == "lapack") lapack(g);
  else if(mode == "lowrank") lowrank(g);
  else if(mode == "pdreg") pdreg(g);
}
int main(int argc, char** argv) { return vh::run(argc, argv, body); }
