// Matrix monitors: random programs on the real matrices, checked against a plain dense reference.
#include "vh.hpp"
#include "hiopMatrixDenseRowMajor.hpp"
#include "hiopMatrixSparseTriplet.hpp"
#include "hiopMatrixSparseCSRSeq.hpp"
#include "hiopMatrixMDS.hpp"
#include "hiopVectorPar.hpp"
#include "hiopLinSolver.hpp"
#include <memory>
#include <unordered_map>
using namespace hiop;
using namespace vh;

typedef std::vector<double> VD;
struct D {
  int m = 0, n = 0;
  VD a;
  D() {}
  D(int m_, int n_) : m(m_), n(n_), a((size_t)m_ * n_, 0.0) {}
  double& operator()(int i, int j) { return a[(size_t)i * n + j]; }
  double operator()(int i, int j) const { return a[(size_t)i * n + j]; }
};
static int gsize(Rng& g)
{
  int r = g.i(0, 19);
  return r == 0 ? 0 : r <= 2 ? 1 : r <= 15 ? g.i(2, 7) : g.i(8, 24);
}
static double gval(Rng& g)
{
  switch(g.i(0, 9)) {
    case 0: return 0;
    case 1: return g.i(-3, 3);
    case 2: return g.gauss() * pow(10., g.i(-6, 6));
    default: return g.gauss();
  }
}
static double gcoef(Rng& g)
{
  switch(g.i(0, 6)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return -1;
    default: return g.gauss() * 2;
  }
}
static D gmat(Rng& g, int m, int n)
{
  D d(m, n);
  for(auto& v : d.a) v = gval(g);
  return d;
}
static VD gvec(Rng& g, int n)
{
  VD v(n);
  for(auto& x : v) x = gval(g);
  return v;
}
static std::unique_ptr<hiopVectorPar> mkv(const VD& v)
{
  std::unique_ptr<hiopVectorPar> p(new hiopVectorPar((int)v.size()));
  for(size_t i = 0; i < v.size(); i++) p->local_data()[i] = v[i];
  return p;
}
static bool same(const double* a, const double* b, size_t n) { return n == 0 || memcmp(a, b, n * sizeof(double)) == 0; }

static std::string opname;
static uint64_t ph;
static void cmpa(const char* prop, const double* got, const VD& want, const VD& mag, const char* what)
{
  for(size_t i = 0; i < want.size(); i++) {
    double tol = 1e-12 * mag[i] + 1e-300;
    if(!(fabs(got[i] - want[i]) <= tol)) {
      R().viol(fmt("%s:%s", prop, opname.c_str()), "%s: element %zu of %s is %.17g, expected %.17g (of %zu)", opname.c_str(), i, what,
               got[i], want[i], want.size());
      return;
    }
  }
}
static void untouched(const char* prop, const double* got, const VD& want, const char* what)
{
  for(size_t i = 0; i < want.size(); i++)
    if(memcmp(&got[i], &want[i], 8)) {
      R().viol(fmt("%s:%s_input", prop, opname.c_str()), "%s changed element %zu of %s from %.17g to %.17g", opname.c_str(), i, what, want[i],
               got[i]);
      return;
    }
}
static VD absv(const VD& v)
{
  VD r(v);
  for(auto& x : r) x = fabs(x);
  return r;
}
static void beginop(const std::string& n, int m, int k)
{
  opname = n;
  ph = mix(ph, mix(hash_s(n), mix(m, k)));
  R().count("op:" + n);
}
static void endop(const double* got, size_t n, bool nt = true)
{
  ph = hash_d(ph, got, (int)n);
  R().eval(ph, nt && n > 0);
}

// ---------------------------------------------------------------------------------------------------- dense
typedef hiopMatrixDenseRowMajor DR;
static std::unique_ptr<DR> mkd(const D& d)
{
  std::unique_ptr<DR> p(new DR(d.m, d.n));
  if(d.m * d.n > 0) memcpy(p->local_data(), d.a.data(), d.a.size() * 8);
  return p;
}
static void dense_op(Rng& g)
{
  static const char* P = "P17";
  int m = gsize(g), n = gsize(g);
  D A = gmat(g, m, n);
  auto a = mkd(A);
  double al = gcoef(g), be = gcoef(g);
  int op = g.i(0, 33);
  switch(op) {
    case 0: case 1: {  // timesVec / transTimesVec
      bool t = op == 1;
      bool raw = g.b(0.3);
      beginop(std::string(t ? "transTimesVec" : "timesVec") + (raw ? "_raw" : ""), m, n);
      VD x = gvec(g, t ? m : n), y = gvec(g, t ? n : m), y0 = y, mag;
      auto vx = mkv(x), vy = mkv(y);
      if(raw) {
        if(t) a->transTimesVec(be, vy->local_data(), al, vx->local_data_const());
        else a->timesVec(be, vy->local_data(), al, vx->local_data_const());
      } else {
        if(t) a->transTimesVec(be, *vy, al, *vx);
        else a->timesVec(be, *vy, al, *vx);
      }
      mag.resize(y.size());
      for(size_t i = 0; i < y.size(); i++) {
        double s = be * y0[i], q = fabs(s);
        for(size_t j = 0; j < x.size(); j++) {
          double e = al * (t ? A(j, i) : A(i, j)) * x[j];
          s += e;
          q += fabs(e);
        }
        y[i] = s;
        mag[i] = q;
      }
      cmpa(P, vy->local_data(), y, mag, "y");
      untouched(P, vx->local_data(), x, "x");
      endop(vy->local_data(), y.size());
      break;
    }
    case 2: case 3: case 4: case 5: {  // matrix products
      int k = gsize(g);
      D X = op <= 3 ? gmat(g, op == 2 ? n : m, k) : gmat(g, k, n);
      D W = gmat(g, op == 3 ? n : m, k), W0 = W, Mg(W.m, W.n);
      beginop(op == 2 ? "timesMat" : op == 3 ? "transTimesMat" : op == 4 ? "timesMatTrans" : "timesMatTrans_local", m, n);
      auto x = mkd(X), w = mkd(W);
      if(op == 2) a->timesMat(be, *w, al, *x);
      else if(op == 3) a->transTimesMat(be, *w, al, *x);
      else if(op == 4) a->timesMatTrans(be, *w, al, *x);
      else a->timesMatTrans_local(be, *w, al, *x);
      int K = op == 3 ? m : n;
      for(int i = 0; i < W.m; i++)
        for(int j = 0; j < k; j++) {
          double s = be * W0(i, j), q = fabs(s);
          for(int l = 0; l < K; l++) {
            double e = al * (op == 3 ? A(l, i) : A(i, l)) * (op <= 3 ? X(l, j) : X(j, l));
            s += e;
            q += fabs(e);
          }
          W(i, j) = s;
          Mg(i, j) = q;
        }
      cmpa(P, w->local_data(), W.a, Mg.a, "W");
      untouched(P, x->local_data(), X.a, "X");
      endop(w->local_data(), W.a.size());
      break;
    }
    case 6: case 7: case 8: case 9: case 10: {  // diagonals, square
      n = m;
      A = gmat(g, m, m);
      a = mkd(A);
      D B = A;
      if(op == 6) {
        beginop("addDiagonal_vec", m, n);
        VD d = gvec(g, m);
        auto v = mkv(d);
        a->addDiagonal(al, *v);
        for(int i = 0; i < m; i++) B(i, i) += al * d[i];
      } else if(op == 7) {
        beginop("addDiagonal_val", m, n);
        a->addDiagonal(al);
        for(int i = 0; i < m; i++) B(i, i) += al;
      } else if(op == 8) {
        beginop("addSubDiagonal_vec", m, n);
        int st = g.i(0, m), len = g.i(0, m - st);
        VD d = gvec(g, len);
        auto v = mkv(d);
        a->addSubDiagonal(al, st, *v);
        for(int i = 0; i < len; i++) B(st + i, st + i) += al * d[i];
      } else if(op == 9) {
        beginop("addSubDiagonal_subvec", m, n);
        int st = g.i(0, m), ss = g.i(0, 5), len = g.i(0, m - st);
        bool rest = g.b(0.4);
        VD d = gvec(g, ss + len + (rest ? 0 : g.i(0, 4)));
        auto v = mkv(d);
        a->addSubDiagonal(st, al, *v, ss, rest ? -1 : len);
        for(int i = 0; i < len; i++) B(st + i, st + i) += al * d[ss + i];
        untouched(P, v->local_data(), d, "d");
      } else {
        beginop("addSubDiagonal_const", m, n);
        int st = g.i(0, m), len = g.i(0, m - st);
        a->addSubDiagonal(st, len, al);
        for(int i = 0; i < len; i++) B(st + i, st + i) += al;
      }
      VD mg = absv(A.a);
      for(size_t i = 0; i < mg.size(); i++) mg[i] += fabs(B.a[i]) + (B.a[i] != A.a[i] ? 1e3 : 0) * 1e-3;
      cmpa(P, a->local_data(), B.a, mg, "this");
      A = B;
      if(A.a.size()) memcpy(A.a.data(), a->local_data(), A.a.size() * 8);
      endop(a->local_data(), A.a.size());
      break;
    }
    case 11: {
      beginop("addMatrix", m, n);
      D X = gmat(g, m, n);
      auto x = mkd(X);
      a->addMatrix(al, *x);
      VD mg(A.a.size());
      for(size_t i = 0; i < A.a.size(); i++) {
        mg[i] = fabs(A.a[i]) + fabs(al * X.a[i]);
        A.a[i] += al * X.a[i];
      }
      cmpa(P, a->local_data(), A.a, mg, "this");
      untouched(P, x->local_data(), X.a, "X");
      endop(a->local_data(), A.a.size());
      A.a.assign(a->local_data(), a->local_data() + A.a.size());
      break;
    }
    case 12: case 13: {  // symmetric assembly
      if(op == 13) { n = m; A = gmat(g, m, m); a = mkd(A); }
      int nw, r0, c0;
      if(op == 12) {  // transpose occupies rows r0..r0+n-1, cols c0..c0+m-1 of the upper triangle
        r0 = g.i(0, 3);
        c0 = r0 + std::max(n - 1, 0) + g.i(0, 3);
        nw = std::max(c0 + m, r0 + n) + g.i(0, 3);
      } else {
        r0 = c0 = g.i(0, 4);
        nw = r0 + m + g.i(0, 3);
      }
      beginop(op == 12 ? "transAddToSymDenseMatrixUpperTriangle" : "addUpperTriangleToSymDenseMatrixUpperTriangle", m, n);
      D W = gmat(g, nw, nw), W0 = W;
      VD mg = absv(W.a);
      auto w = mkd(W);
      if(op == 12) a->transAddToSymDenseMatrixUpperTriangle(r0, c0, al, *w);
      else a->addUpperTriangleToSymDenseMatrixUpperTriangle(r0, al, *w);
      for(int i = 0; i < m; i++)
        for(int j = op == 13 ? i : 0; j < n; j++) {
          int I = op == 12 ? j + r0 : i + r0, J = op == 12 ? i + c0 : j + r0;
          W(I, J) += al * A(i, j);
          mg[I * nw + J] += fabs(al * A(i, j));
        }
      cmpa(P, w->local_data(), W.a, mg, "W");
      endop(w->local_data(), W.a.size());
      break;
    }
    case 14: {
      beginop("max_abs_value", m, n);
      double e = 0;
      for(double v : A.a) e = std::max(e, fabs(v));
      double r = a->max_abs_value();
      if(r != e) R().viol("P17:max_abs_value", "max_abs_value returns %.17g, expected %.17g", r, e);
      endop(&r, 1, A.a.size() > 0);
      break;
    }
    case 15: {
      beginop("row_max_abs_value", m, n);
      auto v = mkv(gvec(g, m));
      a->row_max_abs_value(*v);
      VD e(m, 0.0);
      for(int i = 0; i < m; i++)
        for(int j = 0; j < n; j++) e[i] = std::max(e[i], fabs(A(i, j)));
      cmpa(P, v->local_data(), e, VD(m, 0.0), "the row maxima");
      endop(v->local_data(), m);
      break;
    }
    case 16: {
      beginop("scale_row", m, n);
      VD s = gvec(g, m);
      bool inv = g.b();
      for(auto& x : s)
        if(x == 0) x = 2.5;
      auto v = mkv(s);
      a->scale_row(*v, inv);
      for(int i = 0; i < m; i++)
        for(int j = 0; j < n; j++) A(i, j) = inv ? A(i, j) / s[i] : A(i, j) * s[i];
      cmpa(P, a->local_data(), A.a, absv(A.a), "this");
      untouched(P, v->local_data(), s, "the scaling vector");
      endop(a->local_data(), A.a.size());
      A.a.assign(a->local_data(), a->local_data() + A.a.size());
      break;
    }
    case 17: {
      beginop("isfinite", m, n);
      bool e = true;
      if(A.a.size() && g.b()) {
        static const double bad[] = {NAN, INFINITY, -INFINITY};
        a->local_data()[g.i(0, (int)A.a.size() - 1)] = bad[g.i(0, 2)];
        e = false;
      }
      bool r = a->isfinite();
      if(r != e) R().viol("P17:isfinite", "isfinite returns %d, expected %d", r, e);
      R().eval(mix(ph, e), A.a.size() > 0);
      return;
    }
    case 18: {
      bool cl = g.b();
      beginop(cl ? "alloc_clone" : "new_copy", m, n);
      std::unique_ptr<hiopMatrixDense> c(cl ? a->alloc_clone() : a->new_copy());
      if(c->m() != m || c->n() != n || c->get_local_size_n() != n || c->get_local_size_m() != m)
        R().viol("P17:new_copy", "copy of a %dx%d matrix is %dx%d", m, n, (int)c->m(), (int)c->n());
      if(cl) c->copyFrom(*a);
      if(A.a.size()) {
        untouched(P, c->local_data(), A.a, "the copy");
        // independence
        c->setToConstant(3.25);
        for(size_t i = 0; i < A.a.size(); i++)
          if(c->local_data()[i] != 3.25) { R().viol("P17:setToConstant", "element %zu is %g after setToConstant(3.25)", i, c->local_data()[i]); break; }
        c->setToZero();
        for(size_t i = 0; i < A.a.size(); i++)
          if(c->local_data()[i] != 0) { R().viol("P17:setToZero", "element %zu is %g after setToZero", i, c->local_data()[i]); break; }
      }
      endop(A.a.data(), A.a.size());
      break;
    }
    case 19: {
      beginop("appendRow", m, n);
      int extra = g.i(1, 4);
      DR c(m, n, nullptr, MPI_COMM_SELF, m + extra);
      if(A.a.size()) c.copyFrom(A.a.data());
      D B = A;
      for(int r = 0; r < extra; r++) {
        VD x = gvec(g, n);
        auto v = mkv(x);
        c.appendRow(*v);
        B.a.insert(B.a.end(), x.begin(), x.end());
        B.m++;
        if(c.m() != B.m) R().viol("P17:appendRow", "%d rows after appending to %d", (int)c.m(), B.m - 1);
        if(B.a.size()) untouched(P, c.local_data(), B.a, "the matrix with the new row");
      }
      // a clone has the same content and room
      std::unique_ptr<hiopMatrixDense> k(c.new_copy());
      if(B.a.size()) untouched(P, k->local_data(), B.a, "a copy of it");
      endop(B.a.data(), B.a.size());
      break;
    }
    case 20: {
      beginop("copyRowsFrom_block", m, n);
      int ms = gsize(g), nr = g.i(0, std::min(ms, m)), dst = g.i(0, m - nr);
      D X = gmat(g, ms, n);
      auto x = mkd(X);
      a->copyRowsFrom(*x, nr, dst);
      for(int i = 0; i < nr; i++)
        for(int j = 0; j < n; j++) A(dst + i, j) = X(i, j);
      if(A.a.size()) untouched(P, a->local_data(), A.a, "this");
      endop(A.a.data(), A.a.size());
      break;
    }
    case 21: {
      beginop("copyRowsFrom_idx", m, n);
      int ms = m + g.i(0, 4);
      D X = gmat(g, ms, n);
      auto x = mkd(X);
      std::vector<int> idx(m + 1);
      for(int i = 0; i < m; i++) idx[i] = g.i(0, ms - 1);
      a->copyRowsFrom(*x, idx.data(), m);
      for(int i = 0; i < m; i++)
        for(int j = 0; j < n; j++) A(i, j) = X(idx[i], j);
      if(A.a.size()) untouched(P, a->local_data(), A.a, "this");
      endop(A.a.data(), A.a.size());
      break;
    }
    case 22: {
      beginop("copyBlockFromMatrix", m, n);
      int bm = g.i(0, m), bn = g.i(0, n), i0 = g.i(0, m - bm), j0 = g.i(0, n - bn);
      D X = gmat(g, bm, bn);
      auto x = mkd(X);
      a->copyBlockFromMatrix(i0, j0, *x);
      for(int i = 0; i < bm; i++)
        for(int j = 0; j < bn; j++) A(i0 + i, j0 + j) = X(i, j);
      if(A.a.size()) untouched(P, a->local_data(), A.a, "this");
      endop(A.a.data(), A.a.size());
      break;
    }
    case 23: {
      beginop("copyFromMatrixBlock", m, n);
      int i0 = g.i(0, 3), j0 = g.b(0.3) ? 0 : g.i(0, 3);
      D X = gmat(g, m + i0 + g.i(0, 3), n + j0 + (g.b(0.3) ? 0 : g.i(0, 3)));
      auto x = mkd(X);
      if(m == 0 || n == 0) break;
      a->copyFromMatrixBlock(*x, i0, j0);
      for(int i = 0; i < m; i++)
        for(int j = 0; j < n; j++) A(i, j) = X(i0 + i, j0 + j);
      untouched(P, a->local_data(), A.a, "this");
      untouched(P, x->local_data(), X.a, "the source");
      endop(A.a.data(), A.a.size());
      break;
    }
    case 24: {
      beginop("shiftRows", m, n);
      if(m < 1) break;
      int s = g.i(-m, m);
      a->shiftRows(s);
      D B = A;
      // rows shifted out are lost, rows vacated are unspecified
      for(int i = 0; i < m; i++) {
        int src = i - s;
        if(std::abs(s) == m) src = i;
        if(src < 0 || src >= m) {
          for(int j = 0; j < n; j++) B(i, j) = a->local_data()[i * n + j];
        } else
          for(int j = 0; j < n; j++) B(i, j) = A(src, j);
      }
      if(B.a.size()) untouched(P, a->local_data(), B.a, "the shifted matrix");
      A = B;
      endop(A.a.data(), A.a.size());
      break;
    }
    case 25: {
      beginop("replaceRow_getRow", m, n);
      if(m < 1) break;
      int r = g.i(0, m - 1);
      VD x = gvec(g, n);
      auto v = mkv(x);
      a->replaceRow(r, *v);
      for(int j = 0; j < n; j++) A(r, j) = x[j];
      if(A.a.size()) untouched(P, a->local_data(), A.a, "this");
      int q = g.i(0, m - 1);
      auto w = mkv(gvec(g, n));
      a->getRow(q, *w);
      VD e(n);
      for(int j = 0; j < n; j++) e[j] = A(q, j);
      untouched(P, w->local_data(), e, "the row read");
      endop(A.a.data(), A.a.size());
      break;
    }
    case 26: {
      beginop("symmetrize", m, n);
      n = m;
      A = gmat(g, m, m);
      a = mkd(A);
      a->symmetrize();
      for(int i = 0; i < m; i++)
        for(int j = 0; j < i; j++) A(i, j) = A(j, i);
      if(A.a.size()) untouched(P, a->local_data(), A.a, "this");
      endop(A.a.data(), A.a.size());
      break;
    }
    case 27: {
      beginop("set_Jac_FR", m, n);
      int mc = gsize(g), md = gsize(g);
      D C = gmat(g, mc, n), E = gmat(g, md, n);
      auto c = mkd(C), e = mkd(E);
      int N = n + 2 * mc + 2 * md;
      D B = gmat(g, mc + md, N);
      auto b = mkd(B);
      std::unique_ptr<hiopMatrixDense> keep;
      hiopMatrixDense* t = b.get();
      if(g.b()) { keep.reset(b->alloc_clone()); t = keep.get(); }
      if(mc + md == 0) break;
      t->set_Jac_FR(*c, *e);
      B = D(mc + md, N);
      for(int i = 0; i < mc; i++) {
        for(int j = 0; j < n; j++) B(i, j) = C(i, j);
        B(i, n + i) = -1;
        B(i, n + mc + i) = 1;
      }
      for(int i = 0; i < md; i++) {
        for(int j = 0; j < n; j++) B(mc + i, j) = E(i, j);
        B(mc + i, n + 2 * mc + i) = -1;
        B(mc + i, n + 2 * mc + md + i) = 1;
      }
      cmpa(P, t->local_data(), B.a, absv(B.a), "the extended Jacobian");
      endop(B.a.data(), B.a.size());
      break;
    }
    case 28: {
      beginop("set_Hess_FR", m, n);
      D H = gmat(g, m, m);
      VD d = gvec(g, m);
      auto h = mkd(H);
      auto v = mkv(d);
      auto b = mkd(gmat(g, m, m));
      b->set_Hess_FR(*h, *v);
      VD mg = absv(H.a);
      D H0 = H;
      for(int i = 0; i < m; i++) { H(i, i) += d[i]; mg[i * m + i] += fabs(d[i]); }
      cmpa(P, b->local_data(), H.a, mg, "the Hessian");
      if(H0.a.size()) untouched(P, h->local_data(), H0.a, "the source");
      endop(H.a.data(), H.a.size());
      break;
    }
    case 29: {
      beginop("copyFrom_copy_to_buffer", m, n);
      D X = gmat(g, m, n);
      if(X.a.empty()) break;
      a->copyFrom(X.a.data());
      A = X;
      untouched(P, a->local_data(), X.a, "this");
      VD o(X.a.size() + 1, 7.0);
      a->copy_to(o.data());
      VD e = X.a;
      e.push_back(7.0);
      untouched(P, o.data(), e, "the buffer");
      endop(A.a.data(), A.a.size());
      break;
    }
    default: {  // secant-matrix style program on one object: append until full, then shift and replace
      beginop("append_shift_program", m, n);
      int cap = g.i(1, 5);
      DR c(0, n, nullptr, MPI_COMM_SELF, cap);
      D B(0, n);
      int steps = g.i(1, 12);
      for(int s = 0; s < steps; s++) {
        VD x = gvec(g, n);
        auto v = mkv(x);
        if(B.m < cap) {
          c.appendRow(*v);
          B.a.insert(B.a.end(), x.begin(), x.end());
          B.m++;
        } else {
          c.shiftRows(-1);
          c.replaceRow(B.m - 1, *v);
          for(int i = 0; i + 1 < B.m; i++)
            for(int j = 0; j < n; j++) B(i, j) = B(i + 1, j);
          for(int j = 0; j < n; j++) B(B.m - 1, j) = x[j];
        }
        if(c.m() != B.m) R().viol("P17:append_shift_program", "%d rows instead of %d", (int)c.m(), B.m);
        if(B.a.size()) untouched(P, c.local_data(), B.a, "the rows");
      }
      endop(B.a.data(), B.a.size());
      return;
    }
  }
  if(A.a.size()) untouched(P, a->local_data(), A.a, "this");
  if(a->m() != m || a->n() != n) R().viol("P17:dims", "%s changed the dimensions", opname.c_str());
}

// ---------------------------------------------------------------------------------------------------- distributed dense
static void dist_op(Rng& g)
{
  static const char* P = "P16";
  int np = R().nranks, rk = R().rank;
  int n = g.b(0.1) ? g.i(0, 2) : g.i(1, 20);
  std::vector<int> part(np + 1, 0);
  {
    std::vector<int> cut;
    for(int i = 0; i < np - 1; i++) cut.push_back(g.i(0, n));
    std::sort(cut.begin(), cut.end());
    for(int i = 1; i < np; i++) part[i] = cut[i - 1];
    part[np] = n;
  }
  int jl = part[rk], ju = part[rk + 1], nl = ju - jl;
  int m = g.b(0.1) ? 0 : g.i(1, 8);
  auto mk = [&](const D& d, int extra = 0) {
    std::unique_ptr<DR> p(new DR(d.m, d.n, part.data(), MPI_COMM_WORLD, d.m + extra));
    for(int i = 0; i < d.m; i++)
      for(int j = 0; j < nl; j++) p->local_data()[i * nl + j] = d(i, jl + j);
    return p;
  };
  auto mkdv = [&](const VD& v) {
    std::unique_ptr<hiopVectorPar> p(new hiopVectorPar(n, part.data(), MPI_COMM_WORLD));
    for(int j = 0; j < nl; j++) p->local_data()[j] = v[jl + j];
    return p;
  };
  auto loc = [&](const D& d) {
    VD r;
    for(int i = 0; i < d.m; i++)
      for(int j = 0; j < nl; j++) r.push_back(d(i, jl + j));
    return r;
  };
  auto locv = [&](const VD& v) { return VD(v.begin() + jl, v.begin() + ju); };
  D A = gmat(g, m, n);
  auto a = mk(A);
  double al = gcoef(g), be = gcoef(g);
  int op = g.i(0, 13);
  switch(op) {
    case 0: case 1: {
      bool t = op == 1;
      beginop(t ? "dist_transTimesVec" : "dist_timesVec", m, n);
      VD x = gvec(g, t ? m : n), y = gvec(g, t ? n : m), mag(y.size());
      auto vx = t ? mkv(x) : mkdv(x);
      auto vy = t ? mkdv(y) : mkv(y);
      if(t) a->transTimesVec(be, *vy, al, *vx);
      else a->timesVec(be, *vy, al, *vx);
      for(size_t i = 0; i < y.size(); i++) {
        double s = be * y[i], q = fabs(s);
        for(size_t j = 0; j < x.size(); j++) {
          double e = al * (t ? A(j, i) : A(i, j)) * x[j];
          s += e;
          q += fabs(e);
        }
        y[i] = s;
        mag[i] = q;
      }
      if(t) cmpa(P, vy->local_data(), locv(y), locv(mag), "the local part of y");
      else {
        cmpa(P, vy->local_data(), y, mag, "y");
        VD all(m * np + 1);
        MPI_Allgather(vy->local_data(), m, MPI_DOUBLE, all.data(), m, MPI_DOUBLE, MPI_COMM_WORLD);
        for(int r = 0; r < np; r++)
          if(!same(&all[r * m], vy->local_data(), m)) R().viol("P16:dist_timesVec", "ranks hold different results");
      }
      endop(y.data(), y.size());
      break;
    }
    case 2: {
      beginop("dist_timesMatTrans", m, n);
      int k = g.i(0, 6);
      D X = gmat(g, k, n), W = gmat(g, m, k), Mg(m, k);
      auto x = mk(X);
      auto w = mkd(W);
      a->timesMatTrans(be, *w, al, *x);
      for(int i = 0; i < m; i++)
        for(int j = 0; j < k; j++) {
          double s = be * W(i, j), q = fabs(s);
          for(int l = 0; l < n; l++) {
            double e = al * A(i, l) * X(j, l);
            s += e;
            q += fabs(e);
          }
          W(i, j) = s;
          Mg(i, j) = q;
        }
      cmpa(P, w->local_data(), W.a, Mg.a, "W");
      endop(W.a.data(), W.a.size());
      break;
    }
    case 3: {
      beginop("dist_transTimesMat", m, n);
      int k = g.i(1, 6), q2 = g.i(1, 6);
      D L = gmat(g, k, q2), X = gmat(g, k, n), W = gmat(g, q2, n), Mg(q2, n);
      auto l = mkd(L);
      auto x = mk(X), w = mk(W);
      if(nl == 0 && np > 0) { /* local block without columns */ }
      l->transTimesMat(be, *w, al, *x);
      for(int i = 0; i < q2; i++)
        for(int j = 0; j < n; j++) {
          double s = be * W(i, j), q = fabs(s);
          for(int r = 0; r < k; r++) {
            double e = al * L(r, i) * X(r, j);
            s += e;
            q += fabs(e);
          }
          W(i, j) = s;
          Mg(i, j) = q;
        }
      cmpa(P, w->local_data(), loc(W), loc(Mg), "the local part of W");
      endop(W.a.data(), W.a.size());
      break;
    }
    case 4: {
      beginop("dist_max_abs_value", m, n);
      double e = 0;
      for(double v : A.a) e = std::max(e, fabs(v));
      double r = a->max_abs_value();
      if(r != e) R().viol("P16:dist_max_abs_value", "max_abs_value returns %.17g, expected %.17g", r, e);
      endop(&r, 1, n > 0);
      break;
    }
    case 5: {
      beginop("dist_row_max_abs_value", m, n);
      auto v = mkv(gvec(g, m));
      a->row_max_abs_value(*v);
      VD e(m, 0.0);
      for(int i = 0; i < m; i++)
        for(int j = 0; j < n; j++) e[i] = std::max(e[i], fabs(A(i, j)));
      cmpa(P, v->local_data(), e, VD(m, 0.0), "the row maxima");
      endop(e.data(), m);
      break;
    }
    case 6: {
      beginop("dist_scale_row", m, n);
      VD s = gvec(g, m);
      bool inv = g.b();
      for(auto& x : s)
        if(x == 0) x = 2.5;
      auto v = mkv(s);
      a->scale_row(*v, inv);
      for(int i = 0; i < m; i++)
        for(int j = 0; j < n; j++) A(i, j) = inv ? A(i, j) / s[i] : A(i, j) * s[i];
      cmpa(P, a->local_data(), loc(A), absv(loc(A)), "this");
      endop(A.a.data(), A.a.size());
      break;
    }
    case 7: {
      beginop("dist_addMatrix", m, n);
      D X = gmat(g, m, n);
      auto x = mk(X);
      a->addMatrix(al, *x);
      D Mg(m, n);
      for(size_t i = 0; i < A.a.size(); i++) {
        Mg.a[i] = fabs(A.a[i]) + fabs(al * X.a[i]);
        A.a[i] += al * X.a[i];
      }
      cmpa(P, a->local_data(), loc(A), loc(Mg), "this");
      endop(A.a.data(), A.a.size());
      break;
    }
    case 8: {
      beginop("dist_append_shift_replace", m, n);
      int extra = g.i(1, 3);
      auto c = mk(A, extra);
      D B = A;
      for(int s = 0; s < extra + 3; s++) {
        VD x = gvec(g, n);
        auto v = mkdv(x);
        if(s < extra) {
          c->appendRow(*v);
          B.a.insert(B.a.end(), x.begin(), x.end());
          B.m++;
        } else if(B.m > 1) {
          c->shiftRows(-1);
          c->replaceRow(B.m - 1, *v);
          for(int i = 0; i + 1 < B.m; i++)
            for(int j = 0; j < n; j++) B(i, j) = B(i + 1, j);
          for(int j = 0; j < n; j++) B(B.m - 1, j) = x[j];
        }
        untouched(P, c->local_data(), loc(B), "the local rows");
      }
      if(B.m > 0) {
        auto w = mkdv(VD(n, 0.5));
        int q = g.i(0, B.m - 1);
        c->getRow(q, *w);
        VD e(n);
        for(int j = 0; j < n; j++) e[j] = B(q, j);
        untouched(P, w->local_data(), locv(e), "the row read");
      }
      endop(B.a.data(), B.a.size());
      break;
    }
    case 9: {
      beginop("dist_copyRowsFrom", m, n);
      int ms = m + g.i(0, 4);
      D X = gmat(g, ms, n);
      auto x = mk(X);
      if(g.b()) {
        std::vector<int> idx(m + 1);
        for(int i = 0; i < m; i++) idx[i] = g.i(0, ms - 1);
        a->copyRowsFrom(*x, idx.data(), m);
        for(int i = 0; i < m; i++)
          for(int j = 0; j < n; j++) A(i, j) = X(idx[i], j);
      } else {
        int nr = g.i(0, m), dst = g.i(0, m - nr);
        a->copyRowsFrom(*x, nr, dst);
        for(int i = 0; i < nr; i++)
          for(int j = 0; j < n; j++) A(dst + i, j) = X(i, j);
      }
      untouched(P, a->local_data(), loc(A), "this");
      endop(A.a.data(), A.a.size());
      break;
    }
    case 10: {
      beginop("dist_clone_copy", m, n);
      std::unique_ptr<hiopMatrixDense> c(g.b() ? a->alloc_clone() : a->new_copy());
      c->copyFrom(*a);
      if(c->m() != m || c->n() != n || c->get_local_size_n() != nl) R().viol("P16:dist_clone", "dimensions of a copy differ");
      untouched(P, c->local_data(), loc(A), "the copy");
      VD x = gvec(g, n), y(m, 0.0), mg(m, 0.0);
      auto vx = mkdv(x);
      auto vy = mkv(y);
      c->timesVec(0.0, *vy, 1.0, *vx);
      for(int i = 0; i < m; i++)
        for(int j = 0; j < n; j++) { y[i] += A(i, j) * x[j]; mg[i] += fabs(A(i, j) * x[j]); }
      cmpa(P, vy->local_data(), y, mg, "the product with the copy");
      endop(A.a.data(), A.a.size());
      break;
    }
    case 11: {
      beginop("dist_set", m, n);
      double c = g.gauss();
      a->setToConstant(c);
      untouched(P, a->local_data(), VD((size_t)m * nl, c), "the matrix set to a constant");
      a->setToZero();
      untouched(P, a->local_data(), VD((size_t)m * nl, 0.0), "the matrix set to zero");
      endop(A.a.data(), A.a.size());
      break;
    }
    default: {  // restoration Jacobian: the extra columns live on the last rank
      beginop("dist_set_Jac_FR", m, n);
      int mc = g.i(0, 4), md = g.i(0, 4);
      if(mc + md == 0) mc = 1;
      D C = gmat(g, mc, n), E = gmat(g, md, n);
      auto c = mk(C), e = mk(E);
      int N = n + 2 * mc + 2 * md;
      std::vector<int> p2 = part;
      p2[np] = N;
      DR b0(mc + md, N, p2.data(), MPI_COMM_WORLD);
      std::unique_ptr<hiopMatrixDense> keep;
      hiopMatrixDense* t = &b0;
      if(g.b()) { keep.reset(b0.alloc_clone()); t = keep.get(); }
      t->set_Jac_FR(*c, *e);
      D B(mc + md, N);
      for(int i = 0; i < mc; i++) {
        for(int j = 0; j < n; j++) B(i, j) = C(i, j);
        B(i, n + i) = -1;
        B(i, n + mc + i) = 1;
      }
      for(int i = 0; i < md; i++) {
        for(int j = 0; j < n; j++) B(mc + i, j) = E(i, j);
        B(mc + i, n + 2 * mc + i) = -1;
        B(mc + i, n + 2 * mc + md + i) = 1;
      }
      VD el;
      for(int i = 0; i < mc + md; i++)
        for(int j = p2[rk]; j < p2[rk + 1]; j++) el.push_back(B(i, j));
      if(el.size()) cmpa(P, t->local_data(), el, absv(el), "the local part of the extended Jacobian");
      endop(B.a.data(), B.a.size());
      break;
    }
  }
}

// ---------------------------------------------------------------------------------------------------- triplet
typedef hiopMatrixSparseTriplet TR;
struct Sp {
  int m = 0, n = 0;
  std::vector<int> r, c;
  VD v;
  int nnz() const { return (int)r.size(); }
  D dense() const
  {
    D d(m, n);
    for(int k = 0; k < nnz(); k++) d(r[k], c[k]) += v[k];
    return d;
  }
  D symdense() const
  {
    D d(n, n);
    for(int k = 0; k < nnz(); k++) {
      d(r[k], c[k]) += v[k];
      if(r[k] != c[k]) d(c[k], r[k]) += v[k];
    }
    return d;
  }
};
static Sp gsp(Rng& g, int m, int n, bool upper = false, int kind = -1)
{
  Sp s;
  s.m = m;
  s.n = n;
  double dens = g.b(0.1) ? 0 : g.b(0.1) ? 1 : g.u(0.05, 0.7);
  double pdiag = g.b(0.3) ? 0.0 : g.b() ? 1.0 : 0.5;
  std::vector<char> er(m, 0), ec(n, 0);
  for(auto& e : er) e = g.b(0.15);
  for(auto& e : ec) e = g.b(0.15);
  for(int i = 0; i < m; i++)
    for(int j = 0; j < n; j++) {
      if(upper && j < i) continue;
      if(kind == 1 && j > i) continue;
      bool in = er[i] || ec[j] ? false : g.b(dens);
      if(i == j && (upper || kind == 1)) in = g.b(pdiag);
      if(in) {
        s.r.push_back(i);
        s.c.push_back(j);
        s.v.push_back(gval(g));
      }
    }
  return s;
}
template <class M>
static void fill(M& t, const Sp& s)
{
  for(int k = 0; k < s.nnz(); k++) {
    t.i_row()[k] = s.r[k];
    t.j_col()[k] = s.c[k];
    t.M()[k] = s.v[k];
  }
}
static std::unique_ptr<TR> mkt(const Sp& s)
{
  std::unique_ptr<TR> t(new TR(s.m, s.n, s.nnz()));
  fill(*t, s);
  return t;
}
static std::unique_ptr<hiopMatrixSymSparseTriplet> mks(const Sp& s)
{
  std::unique_ptr<hiopMatrixSymSparseTriplet> t(new hiopMatrixSymSparseTriplet(s.n, s.nnz()));
  fill(*t, s);
  return t;
}
static void tsame(const char* P, const hiopMatrixSparse& t, const Sp& s, const char* what)
{
  if(t.m() != s.m || t.n() != s.n || t.numberOfNonzeros() != s.nnz()) {
    R().viol(fmt("%s:%s", P, opname.c_str()), "%s: %s has the wrong dimensions or number of nonzeros", opname.c_str(), what);
    return;
  }
  for(int k = 0; k < s.nnz(); k++)
    if(t.i_row()[k] != s.r[k] || t.j_col()[k] != s.c[k] || memcmp(&t.M()[k], &s.v[k], 8)) {
      R().viol(fmt("%s:%s", P, opname.c_str()), "%s: nonzero %d of %s is (%d,%d,%.17g), expected (%d,%d,%.17g)", opname.c_str(), k, what,
               t.i_row()[k], t.j_col()[k], t.M()[k], s.r[k], s.c[k], s.v[k]);
      return;
    }
}
static VD posd(Rng& g, int n)
{
  VD d(n);
  for(auto& x : d) x = g.u(0.1, 3) * (g.b(0.1) ? 1e5 : 1) * (g.b(0.1) ? 1e-5 : 1) * (g.b(0.2) ? -1 : 1);
  return d;
}
static void trip_op(Rng& g)
{
  static const char* P = "P18";
  int m = gsize(g), n = gsize(g);
  Sp S = gsp(g, m, n);
  auto t = mkt(S);
  D A = S.dense();
  double al = gcoef(g), be = gcoef(g);
  int op = g.i(0, 27);
  switch(op) {
    case 0: case 1: {
      bool tr = op == 1, raw = g.b(0.3);
      beginop(tr ? "transTimesVec" : "timesVec", m, n);
      VD x = gvec(g, tr ? m : n), y = gvec(g, tr ? n : m), mg(y.size());
      auto vx = mkv(x), vy = mkv(y);
      if(raw) tr ? t->transTimesVec(be, vy->local_data(), al, vx->local_data_const()) : t->timesVec(be, vy->local_data(), al, vx->local_data_const());
      else tr ? t->transTimesVec(be, *vy, al, *vx) : t->timesVec(be, *vy, al, *vx);
      for(size_t i = 0; i < y.size(); i++) {
        y[i] *= be;
        mg[i] = fabs(y[i]);
        for(size_t j = 0; j < x.size(); j++) {
          double e = al * (tr ? A(j, i) : A(i, j)) * x[j];
          y[i] += e;
          mg[i] += fabs(e);
        }
      }
      cmpa(P, vy->local_data(), y, mg, "y");
      untouched(P, vx->local_data(), x, "x");
      endop(y.data(), y.size());
      break;
    }
    case 2: case 3: case 4: {  // timesMatTrans, M D^-1 N'
      int k = gsize(g);
      Sp X = gsp(g, k, n);
      auto x = mkt(X);
      D B = X.dense();
      VD d = posd(g, n);
      auto vd = mkv(d);
      if(op == 2) {
        beginop("timesMatTrans", m, n);
        D W = gmat(g, m, k), Mg(m, k);
        auto w = mkd(W);
        int rep = g.i(1, 2);
        for(int r = 0; r < rep; r++) {
          t->timesMatTrans(be, *w, al, *x);
          for(int i = 0; i < m; i++)
            for(int j = 0; j < k; j++) {
              double s = be * W(i, j), q = fabs(s) + fabs(be) * Mg(i, j);
              for(int l = 0; l < n; l++) { double e = al * A(i, l) * B(j, l); s += e; q += fabs(e); }
              W(i, j) = s;
              Mg(i, j) = q;
            }
          cmpa(P, w->local_data(), W.a, Mg.a, "W");
        }
        tsame(P, *x, X, "the second factor");
        endop(W.a.data(), W.a.size());
      } else {
        int r0, c0, nw;
        if(op == 3) { r0 = c0 = g.i(0, 4); nw = r0 + m + g.i(0, 3); k = m; B = A; }
        else { r0 = g.i(0, 3); c0 = r0 + std::max(m - 1, 0) + g.i(0, 3); nw = std::max(r0 + m, c0 + k) + g.i(0, 3); }
        beginop(op == 3 ? "addMDinvMtransToDiagBlockOfSymDeMatUTri" : "addMDinvNtransToSymDeMatUTri", m, n);
        D W = gmat(g, nw, nw);
        VD mg = absv(W.a);
        auto w = mkd(W);
        for(int rep = g.i(1, 2); rep > 0; rep--) {
          if(op == 3) t->addMDinvMtransToDiagBlockOfSymDeMatUTri(r0, al, *vd, *w);
          else t->addMDinvNtransToSymDeMatUTri(r0, c0, al, *vd, *x, *w);
          for(int i = 0; i < m; i++)
            for(int j = op == 3 ? i : 0; j < k; j++)
              for(int l = 0; l < n; l++) {
                double e = al * A(i, l) / d[l] * B(j, l);
                W(r0 + i, c0 + j) += e;
                mg[(r0 + i) * nw + c0 + j] += fabs(e);
              }
          cmpa(P, w->local_data(), W.a, mg, "W");
          if(rep > 1) {  // new values, same pattern
            for(int q = 0; q < S.nnz(); q++) S.v[q] = t->M()[q] = gval(g);
            A = S.dense();
            if(op == 3) B = A;
          }
        }
        untouched(P, vd->local_data(), d, "D");
        endop(W.a.data(), W.a.size());
      }
      break;
    }
    case 5: {
      int r0 = g.i(0, 3), c0 = r0 + std::max(n - 1, 0) + g.i(0, 3), nw = std::max(c0 + m, r0 + n) + g.i(0, 3);
      beginop("transAddToSymDenseMatrixUpperTriangle", m, n);
      D W = gmat(g, nw, nw);
      VD mg = absv(W.a);
      auto w = mkd(W);
      t->transAddToSymDenseMatrixUpperTriangle(r0, c0, al, *w);
      for(int i = 0; i < m; i++)
        for(int j = 0; j < n; j++) {
          W(r0 + j, c0 + i) += al * A(i, j);
          mg[(r0 + j) * nw + c0 + i] += fabs(al * A(i, j));
        }
      cmpa(P, w->local_data(), W.a, mg, "W");
      endop(W.a.data(), W.a.size());
      break;
    }
    case 6: {
      beginop("max_abs_value", m, n);
      double e = 0;
      for(double v : S.v) e = std::max(e, fabs(v));
      double r = t->max_abs_value();
      if(r != e) R().viol("P18:max_abs_value", "max_abs_value returns %.17g, expected %.17g", r, e);
      auto v = mkv(gvec(g, m));
      t->row_max_abs_value(*v);
      VD ee(m, 0.0);
      for(int i = 0; i < m; i++)
        for(int j = 0; j < n; j++) ee[i] = std::max(ee[i], fabs(A(i, j)));
      cmpa(P, v->local_data(), ee, VD(m, 0.0), "the row maxima");
      endop(&r, 1, S.nnz() > 0);
      break;
    }
    case 7: {
      beginop("scale_row", m, n);
      VD s = posd(g, m);
      bool inv = g.b();
      auto v = mkv(s);
      t->scale_row(*v, inv);
      for(int k = 0; k < S.nnz(); k++) S.v[k] = inv ? S.v[k] / s[S.r[k]] : S.v[k] * s[S.r[k]];
      cmpa(P, t->M(), S.v, absv(S.v), "the values");
      S.v.assign(t->M(), t->M() + S.nnz());
      endop(S.v.data(), S.nnz());
      break;
    }
    case 8: {
      beginop("isfinite_set", m, n);
      if(!t->isfinite()) R().viol("P18:isfinite", "a finite matrix is declared not finite");
      if(S.nnz()) {
        int k = g.i(0, S.nnz() - 1);
        t->M()[k] = g.b() ? NAN : INFINITY;
        if(t->isfinite()) R().viol("P18:isfinite", "a matrix with nonzero %d of %d not finite is declared finite", k, S.nnz());
      }
      double c = g.gauss();
      t->setToConstant(c);
      untouched(P, t->M(), VD(S.nnz(), c), "the values");
      if(g.b()) { t->setToZero(); c = 0; untouched(P, t->M(), VD(S.nnz(), 0.0), "the values"); }
      S.v.assign(S.nnz(), c);
      endop(S.v.data(), S.nnz());
      break;
    }
    case 9: {
      beginop("copies", m, n);
      std::unique_ptr<hiopMatrixSparse> c(t->new_copy());
      tsame(P, *c, S, "the copy");
      std::unique_ptr<hiopMatrixSparse> k(t->alloc_clone());
      if(k->m() != m || k->n() != n || k->numberOfNonzeros() != S.nnz()) R().viol("P18:alloc_clone", "dimensions differ");
      std::vector<int> r(S.nnz() + 1, -7), q(S.nnz() + 1, -7);
      VD v(S.nnz() + 1, 7.5);
      t->copy_to(r.data(), q.data(), v.data());
      for(int i = 0; i < S.nnz(); i++)
        if(r[i] != S.r[i] || q[i] != S.c[i] || v[i] != S.v[i]) { R().viol("P18:copy_to", "copy_to: nonzero %d differs", i); break; }
      if(r[S.nnz()] != -7 || v[S.nnz()] != 7.5) R().viol("P18:copy_to", "copy_to wrote past the end");
      if(m > 0) {
        auto w = mkd(gmat(g, m, n));
        t->copy_to(*w);
        cmpa(P, w->local_data(), A.a, absv(A.a), "the dense copy");
      }
      endop(S.v.data(), S.nnz());
      break;
    }
    case 10: {  // copyRowsFrom with strictly increasing row indexes
      beginop("copyRowsFrom", m, n);
      std::vector<int> idx;
      for(int i = 0; i < m; i++)
        if(g.b(0.6)) idx.push_back(i);
      Sp E;
      E.m = (int)idx.size();
      E.n = n;
      for(size_t a = 0; a < idx.size(); a++)
        for(int k = 0; k < S.nnz(); k++)
          if(S.r[k] == idx[a]) { E.r.push_back((int)a); E.c.push_back(S.c[k]); E.v.push_back(S.v[k]); }
      TR d(E.m, E.n, E.nnz());
      idx.push_back(0);
      d.copyRowsFrom(*t, idx.data(), E.m);
      tsame(P, d, E, "the rows copied");
      endop(E.v.data(), E.nnz());
      break;
    }
    case 11: {  // blocks of rows put together
      beginop("copyRowsBlockFrom", m, n);
      int st = g.i(0, m), nr = g.i(0, m - st), dr = g.i(0, 3), ncx = n + g.i(0, 2);
      Sp E;
      E.m = dr + nr + g.i(0, 2);
      E.n = ncx;
      if(E.m == 0 || E.n == 0) break;
      int pre = g.i(0, 3);
      int cnt = 0;
      for(int k = 0; k < S.nnz(); k++)
        if(S.r[k] >= st && S.r[k] < st + nr) cnt++;
      int tot = std::max(pre + cnt, S.nnz()) + g.i(0, 2);
      for(int k = 0; k < tot; k++) { E.r.push_back(0); E.c.push_back(0); E.v.push_back(0.125 * k); }
      TR d(E.m, E.n, tot);
      fill(d, E);
      d.copyRowsBlockFrom(*t, st, nr, dr, pre);
      int p = pre;
      for(int k = 0; k < S.nnz(); k++)
        if(S.r[k] >= st && S.r[k] < st + nr) { E.r[p] = S.r[k] - st + dr; E.c[p] = S.c[k]; E.v[p++] = S.v[k]; }
      tsame(P, d, E, "the block");
      endop(E.v.data(), E.nnz());
      break;
    }
    case 12: case 13: case 14: case 15: case 16: case 17: case 18: {  // assembly of a larger triplet matrix at an offset
      Sp E;
      E.m = g.i(4, 14);
      E.n = g.i(4, 14);
      int tot = g.i(8, 40);
      for(int k = 0; k < tot; k++) { E.r.push_back(g.i(0, E.m - 1)); E.c.push_back(g.i(0, E.n - 1)); E.v.push_back(0.125 * k); }
      int r0 = g.i(0, 3), c0 = g.i(0, 3), st = g.i(0, 4);
      if(op == 12 || op == 13) {
        bool tr = op == 13, off = g.b();
        beginop(tr ? "copySubmatrixFromTrans" : "copySubmatrixFrom", m, n);
        Sp X = gsp(g, tr ? g.i(1, E.n - c0) : g.i(1, E.m - r0), tr ? g.i(1, E.m - r0) : g.i(1, E.n - c0));
        if(X.nnz() + st > tot) break;
        auto x = mkt(X);
        TR d(E.m, E.n, tot);
        fill(d, E);
        if(tr) d.copySubmatrixFromTrans(*x, r0, c0, st, off);
        else d.copySubmatrixFrom(*x, r0, c0, st, off);
        int p = st;
        for(int k = 0; k < X.nnz(); k++) {
          if(off && X.r[k] == X.c[k]) continue;
          E.r[p] = r0 + (tr ? X.c[k] : X.r[k]);
          E.c[p] = c0 + (tr ? X.r[k] : X.c[k]);
          E.v[p++] = X.v[k];
        }
        tsame(P, d, E, "the assembled matrix");
        tsame(P, *x, X, "the source");
      } else {
        TR d(E.m, E.n, tot);
        fill(d, E);
        int mx = std::min(std::min(E.m - r0, E.n - c0), tot - st);
        int len = g.i(0, std::max(mx, 0)), cnt = 0;
        VD pat(len), x = gvec(g, len);
        for(auto& b : pat) { b = g.b(0.6); cnt += b != 0; }
        auto vp = mkv(pat), vx = mkv(x);
        double s = g.gauss();
        int p = st;
        if(op == 14) {
          beginop("setSubmatrixToConstantDiag_w_colpattern", m, n);
          d.setSubmatrixToConstantDiag_w_colpattern(s, r0, c0, st, cnt, *vp);
          for(int i = 0, f = 0; i < len; i++)
            if(pat[i]) { E.r[p] = r0 + i; E.c[p] = c0 + f++; E.v[p++] = s; }
        } else if(op == 15) {
          beginop("setSubmatrixToConstantDiag_w_rowpattern", m, n);
          d.setSubmatrixToConstantDiag_w_rowpattern(s, r0, c0, st, cnt, *vp);
          for(int i = 0, f = 0; i < len; i++)
            if(pat[i]) { E.r[p] = r0 + f++; E.c[p] = c0 + i; E.v[p++] = s; }
        } else if(op == 16) {
          beginop("copyDiagMatrixToSubblock", m, n);
          d.copyDiagMatrixToSubblock(s, r0, c0, st, len);
          for(int i = 0; i < len; i++) { E.r[p] = r0 + i; E.c[p] = c0 + i; E.v[p++] = s; }
        } else if(op == 17) {
          beginop("copyDiagMatrixToSubblock_w_pattern", m, n);
          d.copyDiagMatrixToSubblock_w_pattern(*vx, r0, c0, st, cnt, *vp);
          for(int i = 0, f = 0; i < len; i++)
            if(pat[i]) { E.r[p] = r0 + f; E.c[p] = c0 + f; f++; E.v[p++] = x[i]; }
        } else {
          int len2 = g.i(0, std::max(0, std::min(std::min(E.m, E.n) - r0, tot - st)));
          VD y = gvec(g, len2 + g.i(0, 2));
          auto vy = mkv(y);
          if(g.b()) {
            beginop("copySubDiagonalFrom", m, n);
            d.copySubDiagonalFrom(r0, len2, *vy, st, s);
            for(int i = 0; i < len2; i++) { E.r[p] = E.c[p] = r0 + i; E.v[p++] = s * y[i]; }
          } else {
            beginop("setSubDiagonalTo", m, n);
            d.setSubDiagonalTo(r0, len2, s, st);
            for(int i = 0; i < len2; i++) { E.r[p] = E.c[p] = r0 + i; E.v[p++] = s; }
          }
        }
        tsame(P, d, E, "the assembled matrix");
      }
      endop(E.v.data(), E.nnz());
      break;
    }
    case 19: {
      beginop("sort", m, n);
      Sp Q = S;
      for(int k = Q.nnz() - 1; k > 0; k--) {
        int j = g.i(0, k);
        std::swap(Q.r[k], Q.r[j]);
        std::swap(Q.c[k], Q.c[j]);
        std::swap(Q.v[k], Q.v[j]);
      }
      auto q = mkt(Q);
      q->sort();
      tsame(P, *q, S, "the sorted matrix");
      endop(S.v.data(), S.nnz());
      break;
    }
    case 20: {
      beginop("diagonal", m, m);
      Sp Q;
      if(g.b(0.4)) {
        Q.m = Q.n = m;
        for(int i = 0; i < m; i++)
          if(g.b(0.7)) { Q.r.push_back(i); Q.c.push_back(i); Q.v.push_back(gval(g)); }
      } else
        Q = gsp(g, m, g.b(0.8) ? m : n);
      auto q = mkt(Q);
      bool e = Q.m == Q.n;
      for(int k = 0; k < Q.nnz(); k++) e = e && Q.r[k] == Q.c[k];
      if(q->is_diagonal() != e) R().viol("P18:is_diagonal", "is_diagonal returns %d, expected %d", q->is_diagonal(), e);
      if(Q.m == Q.n) {
        D B = Q.dense();
        auto v = mkv(gvec(g, Q.m));
        q->extract_diagonal(*v);
        VD ee(Q.m);
        for(int i = 0; i < Q.m; i++) ee[i] = B(i, i);
        cmpa(P, v->local_data(), ee, absv(ee), "the diagonal");
      }
      endop(Q.v.data(), Q.nnz());
      break;
    }
    case 21: {  // restoration Jacobian
      beginop("set_Jac_FR", m, n);
      int md = gsize(g);
      if(n == 0) break;
      Sp X = gsp(g, md, n);
      auto x = mkt(X);
      Sp E;
      E.m = m + md;
      E.n = n + 2 * m + 2 * md;
      auto add = [&](int r, int c, double v) { E.r.push_back(r); E.c.push_back(c); E.v.push_back(v); };
      for(int i = 0; i < m; i++) {
        for(int k = 0; k < S.nnz(); k++)
          if(S.r[k] == i) add(i, S.c[k], S.v[k]);
        add(i, n + i, -1);
        add(i, n + m + i, 1);
      }
      for(int i = 0; i < md; i++) {
        for(int k = 0; k < X.nnz(); k++)
          if(X.r[k] == i) add(m + i, X.c[k], X.v[k]);
        add(m + i, n + 2 * m + i, -1);
        add(m + i, n + 2 * m + md + i, 1);
      }
      if(E.m == 0) break;
      int N = E.nnz();
      TR d(E.m, E.n, N);
      std::vector<int> ir(N + 1, -7), jc(N + 1, -7);
      VD mv(N + 1, 7.5);
      d.set_Jac_FR(*t, *x, ir.data(), jc.data(), nullptr);
      for(int rep = 0; rep < 2; rep++) {
        d.set_Jac_FR(*t, *x, nullptr, nullptr, mv.data());
        tsame(P, d, E, "the extended Jacobian");
        for(int k = 0; k < N; k++)
          if(ir[k] != E.r[k] || jc[k] != E.c[k] || mv[k] != E.v[k]) { R().viol("P18:set_Jac_FR", "the user arrays differ at %d", k); break; }
        if(rep == 0) {
          int p = 0;
          for(int i = 0; i < S.nnz(); i++) S.v[i] = t->M()[i] = gval(g);
          for(int i = 0; i < X.nnz(); i++) X.v[i] = x->M()[i] = gval(g);
          for(int i = 0; i < m; i++) {
            for(int k = 0; k < S.nnz(); k++)
              if(S.r[k] == i) E.v[p++] = S.v[k];
            p += 2;
          }
          for(int i = 0; i < md; i++) {
            for(int k = 0; k < X.nnz(); k++)
              if(X.r[k] == i) E.v[p++] = X.v[k];
            p += 2;
          }
        }
      }
      if(ir[N] != -7 || mv[N] != 7.5) R().viol("P18:set_Jac_FR", "wrote past the user arrays");
      endop(E.v.data(), E.nnz());
      break;
    }
    case 22: {  // lower-triangular KKT in triplets with extra diagonal entries at the end -> CSR
      beginop("convert_to_csr_arrays", n, n);
      if(n == 0) break;
      Sp Q = gsp(g, n, n, false, 1);
      int ndup = 0;
      {  // random order of the first part
        for(int k = Q.nnz() - 1; k > 0; k--) {
          int j = g.i(0, k);
          std::swap(Q.r[k], Q.r[j]);
          std::swap(Q.c[k], Q.c[j]);
          std::swap(Q.v[k], Q.v[j]);
        }
        int st = g.b() ? 0 : g.i(0, n);
        for(int i = st; i < n; i++) { Q.r.push_back(i); Q.c.push_back(i); Q.v.push_back(gval(g)); }
      }
      auto q = mkt(Q);
      D B = Q.dense();
      std::set<std::pair<int, int>> pos;
      for(int k = 0; k < Q.nnz(); k++) if(!pos.insert({Q.r[k], Q.c[k]}).second) ndup++;
      int cn = -1, *rp = nullptr, *jc = nullptr, *map = nullptr, *ex = nullptr;
      double* va = nullptr;
      std::unordered_map<int, int> em;
      q->convert_to_csr_arrays(cn, &rp, &jc, &va, &map, &ex, em);
      if(cn != (int)pos.size() || rp[n] != cn || rp[0] != 0) R().viol("P18:convert_to_csr_arrays", "%d nonzeros instead of %zu", cn, pos.size());
      else {
        bool bad = false;
        for(int i = 0; i < n && !bad; i++)
          for(int p = rp[i]; p < rp[i + 1] && !bad; p++) {
            if(p > rp[i] && jc[p] <= jc[p - 1]) { R().viol("P18:convert_to_csr_arrays", "column indexes of row %d are not increasing", i); bad = true; }
            if(!pos.count({i, jc[p]})) { R().viol("P18:convert_to_csr_arrays", "(%d,%d) is not in the pattern", i, jc[p]); bad = true; }
            else if(!close(va[p], B(i, jc[p]), 1e-13, 1e-12 * (1 + fabs(B(i, jc[p]))))) {
              // cancellation: compare with the magnitude of the terms
              double mg = 0;
              for(int k = 0; k < Q.nnz(); k++)
                if(Q.r[k] == i && Q.c[k] == jc[p]) mg += fabs(Q.v[k]);
              if(!(fabs(va[p] - B(i, jc[p])) <= 1e-12 * mg)) { R().viol("P18:convert_to_csr_arrays", "value at (%d,%d) is %g, expected %g", i, jc[p], va[p], B(i, jc[p])); bad = true; }
            }
            // the maps let the caller refresh the values: value = triplet[map] (+ triplet[extra])
            if(!bad) {
              double s = Q.v[map[p]];
              if(Q.r[map[p]] != i || Q.c[map[p]] != jc[p]) { R().viol("P18:convert_to_csr_arrays", "the map sends CSR nonzero %d at (%d,%d) to the triplet (%d,%d)", p, i, jc[p], Q.r[map[p]], Q.c[map[p]]); bad = true; }
              auto it = em.find(p);
              if(it != em.end()) {
                if(jc[p] != i || Q.r[it->second] != i || Q.c[it->second] != i || it->second == map[p]) {
                  R().viol("P18:convert_to_csr_extra_map", "extra diagonal map: CSR nonzero %d at (%d,%d) refers to the triplet %d at (%d,%d)", p, i, jc[p], it->second, Q.r[it->second], Q.c[it->second]);
                  bad = true;
                } else s += Q.v[it->second];
              }
              if(!bad && !close(s, va[p], 1e-12, 1e-14)) { R().viol("P18:convert_to_csr_extra_map", "refreshing CSR nonzero %d at (%d,%d) through the maps gives %g instead of %g", p, i, jc[p], s, va[p]); bad = true; }
            }
          }
        if((int)em.size() != ndup && !bad) R().viol("P18:convert_to_csr_extra_map", "%zu extra diagonals recorded, %d present", em.size(), ndup);
        for(int i = 0; i < n && !bad; i++) {
          if(ex[i] == -1) continue;
          if(ex[i] < rp[i] || ex[i] >= rp[i + 1] || jc[ex[i]] != i) { R().viol("P18:convert_to_csr_extra_map", "the diagonal of row %d is said to be CSR nonzero %d", i, ex[i]); bad = true; }
        }
      }
      delete[] rp; delete[] jc; delete[] va; delete[] map; delete[] ex;
      endop(Q.v.data(), Q.nnz());
      break;
    }
    default: {  // symmetric
      Sp Q = gsp(g, n, n, true);
      auto q = mks(Q);
      D B = Q.symdense();
      int o2 = g.i(0, 4);
      if(o2 == 0) {
        beginop("sym_timesVec", n, n);
        VD x = gvec(g, n), y = gvec(g, n), mg(n);
        auto vx = mkv(x), vy = mkv(y);
        switch(g.i(0, 2)) {
          case 0: q->timesVec(be, *vy, al, *vx); break;
          case 1: q->transTimesVec(be, *vy, al, *vx); break;
          default: q->timesVec(be, vy->local_data(), al, vx->local_data_const());
        }
        for(int i = 0; i < n; i++) {
          y[i] *= be;
          mg[i] = fabs(y[i]);
          for(int j = 0; j < n; j++) { y[i] += al * B(i, j) * x[j]; mg[i] += fabs(al * B(i, j) * x[j]); }
        }
        cmpa(P, vy->local_data(), y, mg, "y");
        endop(y.data(), n);
      } else if(o2 == 1) {
        beginop("sym_addUpperTriangleToSymDenseMatrixUpperTriangle", n, n);
        int r0 = g.i(0, 4), nw = r0 + n + g.i(0, 3);
        D W = gmat(g, nw, nw);
        VD mg = absv(W.a);
        auto w = mkd(W);
        q->addUpperTriangleToSymDenseMatrixUpperTriangle(r0, al, *w);
        for(int i = 0; i < n; i++)
          for(int j = i; j < n; j++) { W(r0 + i, r0 + j) += al * B(i, j); mg[(r0 + i) * nw + r0 + j] += fabs(al * B(i, j)); }
        cmpa(P, w->local_data(), W.a, mg, "W");
        endop(W.a.data(), W.a.size());
      } else if(o2 == 2) {
        beginop("startingAtAddSubDiagonalToStartingAt", n, n);
        int st = g.b(0.4) ? 0 : g.i(0, n), len = g.i(0, n - st), v0 = g.i(0, 3);
        bool rest = g.b(0.3);
        VD y = gvec(g, v0 + len + (rest ? 0 : g.i(0, 2))), mg = absv(y);
        auto vy = mkv(y);
        q->startingAtAddSubDiagonalToStartingAt(st, al, *vy, v0, rest ? -1 : len);
        for(int i = 0; i < len; i++) { y[v0 + i] += al * B(st + i, st + i); mg[v0 + i] += fabs(al * B(st + i, st + i)); }
        cmpa(P, vy->local_data(), y, mg, "the destination");
        endop(y.data(), y.size());
      } else if(o2 == 3) {
        beginop("sym_copies", n, n);
        std::unique_ptr<hiopMatrixSparse> c(q->new_copy()), k(q->alloc_clone());
        tsame(P, *c, Q, "the copy");
        int off = 0;
        for(int i = 0; i < Q.nnz(); i++) off += Q.r[i] != Q.c[i];
        if(q->numberOfOffDiagNonzeros() != off || c->numberOfOffDiagNonzeros() != off || q->numberOfOffDiagNonzeros() != off)
          R().viol("P18:numberOfOffDiagNonzeros", "%d off-diagonal nonzeros reported, %d present", (int)q->numberOfOffDiagNonzeros(), off);
        fill(static_cast<hiopMatrixSymSparseTriplet&>(*k), Q);
        VD x = gvec(g, n), y(n), mg(n);
        auto vx = mkv(x), vy = mkv(y);
        k->timesVec(0.0, *vy, 1.0, *vx);
        for(int i = 0; i < n; i++)
          for(int j = 0; j < n; j++) { y[i] += B(i, j) * x[j]; mg[i] += fabs(B(i, j) * x[j]); }
        cmpa(P, vy->local_data(), y, mg, "the product with a filled clone");
        endop(Q.v.data(), Q.nnz());
      } else {  // restoration Hessian
        beginop("sym_set_Hess_FR", n, n);
        if(n == 0) break;
        bool nohess = g.b(0.1);
        Sp H = Q;
        if(nohess) { H = Sp(); }
        auto h = mks(H);
        VD d = gvec(g, n);
        auto vd = mkv(d);
        int off = 0;
        for(int i = 0; i < H.nnz(); i++) off += H.r[i] != H.c[i];
        int N = n + off, ex = g.i(0, 6);
        hiopMatrixSymSparseTriplet f(n + ex, N);
        std::vector<int> ir(N + 1, -7), jc(N + 1, -7);
        VD mv(N + 1, 7.5);
        f.set_Hess_FR(*h, ir.data(), jc.data(), nullptr, *vd);
        f.set_Hess_FR(*h, nullptr, nullptr, mv.data(), *vd);
        D E(n + ex, n + ex), G(n + ex, n + ex), U(n + ex, n + ex);
        D HB = nohess ? D(n, n) : H.symdense();
        VD mg((size_t)(n + ex) * (n + ex), 0.0);
        for(int i = 0; i < n; i++)
          for(int j = i; j < n; j++) {
            E(i, j) = HB(i, j) + (i == j ? d[i] : 0);
            mg[i * (n + ex) + j] = fabs(HB(i, j)) + (i == j ? fabs(d[i]) : 0);
          }
        bool ok = true;
        for(int k = 0; k < N; k++) {
          int a = f.i_row()[k], b = f.j_col()[k];
          if(a < 0 || b < a || b >= n + ex || ir[k] != a || jc[k] != b || mv[k] != f.M()[k]) { R().viol("P18:sym_set_Hess_FR", "nonzero %d is (%d,%d), the user arrays have (%d,%d)", k, a, b, ir[k], jc[k]); ok = false; break; }
          if(k > 0 && (f.i_row()[k - 1] > a || (f.i_row()[k - 1] == a && f.j_col()[k - 1] >= b))) { R().viol("P18:sym_set_Hess_FR", "nonzeros are not sorted at %d", k); ok = false; break; }
          G(a, b) += f.M()[k];
        }
        if(ok) cmpa(P, G.a.data(), E.a, mg, "the extended Hessian");
        if(ir[N] != -7 || mv[N] != 7.5) R().viol("P18:sym_set_Hess_FR", "wrote past the user arrays");
        endop(mv.data(), N);
      }
      tsame(P, *q, Q, "this");
      return;
    }
  }
  tsame(P, *t, S, "this");
}

// ---------------------------------------------------------------------------------------------------- CSR
typedef hiopMatrixSparseCSRSeq CS;
static bool csr_read(const char* key, hiopMatrixSparseCSR& c, int m, int n, Sp& o)
{
  o = Sp();
  o.m = m;
  o.n = n;
  if(c.m() != m || c.n() != n) { R().viol(key, "%s: the matrix is %dx%d instead of %dx%d", opname.c_str(), (int)c.m(), (int)c.n(), m, n); return false; }
  int nz = c.numberOfNonzeros();
  if(nz == 0) return true;
  const int* rp = c.i_row();
  if(rp[0] != 0 || rp[m] != nz) { R().viol(key, "%s: row pointers start at %d, end at %d with %d nonzeros", opname.c_str(), rp[0], rp[m], nz); return false; }
  for(int i = 0; i < m; i++) {
    if(rp[i + 1] < rp[i]) { R().viol(key, "%s: row pointers decrease at row %d", opname.c_str(), i); return false; }
    for(int p = rp[i]; p < rp[i + 1]; p++) {
      int j = c.j_col()[p];
      if(j < 0 || j >= n) { R().viol(key, "%s: column index %d in row %d of %dx%d", opname.c_str(), j, i, m, n); return false; }
      if(p > rp[i] && c.j_col()[p - 1] >= j) { R().viol(key, "%s: column indexes of row %d are not sorted and unique", opname.c_str(), i); return false; }
      o.r.push_back(i);
      o.c.push_back(j);
      o.v.push_back(c.M()[p]);
    }
  }
  if(!c.check_csr_is_ordered()) R().viol(key, "%s: check_csr_is_ordered denies an ordered matrix", opname.c_str());
  return true;
}
static void csr_cmp(hiopMatrixSparseCSR& c, const D& want, const D& mag, const std::set<std::pair<int, int>>* pat)
{
  std::string key = "P19:" + opname;
  Sp o;
  if(!csr_read(key.c_str(), c, want.m, want.n, o)) return;
  if(pat) {
    bool ok = (int)pat->size() == o.nnz();
    for(int k = 0; k < o.nnz() && ok; k++) ok = pat->count({o.r[k], o.c[k]});
    if(!ok) { R().viol(key, "%s: the pattern has %d nonzeros, expected %zu (or others)", opname.c_str(), o.nnz(), pat->size()); return; }
  }
  D d = o.dense();
  cmpa("P19", d.a.data(), want.a, mag.a, "the result");
}
static D dabs(const D& d) { D r = d; for(auto& x : r.a) x = fabs(x); return r; }
static std::set<std::pair<int, int>> patof(const Sp& s)
{
  std::set<std::pair<int, int>> p;
  for(int k = 0; k < s.nnz(); k++) p.insert({s.r[k], s.c[k]});
  return p;
}
static std::unique_ptr<CS> mkc(const Sp& s)
{
  std::unique_ptr<CS> c(new CS(s.m, s.n, s.nnz()));
  int* rp = c->i_row();
  int k = 0;
  rp[0] = 0;
  for(int i = 0; i < s.m; i++) {
    while(k < s.nnz() && s.r[k] == i) { c->j_col()[k] = s.c[k]; c->M()[k] = s.v[k]; k++; }
    rp[i + 1] = k;
  }
  return c;
}
static void newvals(Rng& g, Sp& s, double* M)
{
  for(int k = 0; k < s.nnz(); k++) s.v[k] = M[k] = gval(g);
}
static void csr_op(Rng& g)
{
  int m = std::max(1, gsize(g)), n = std::max(1, gsize(g));
  Sp S = gsp(g, m, n);
  double al = gcoef(g), be = gcoef(g);
  int op = g.i(0, 8);
  switch(op) {
    case 0: {  // from triplet
      beginop("form_from", m, n);
      auto t = mkt(S);
      CS c;
      if(g.b(0.3)) { Sp Z = gsp(g, n, m); auto z = mkt(Z); c.form_from_symbolic(*z); if(Z.nnz()) c.form_from_numeric(*z); }
      c.form_from_symbolic(*t);
      for(int rep = 0; rep < 3; rep++) {
        c.form_from_numeric(*t);
        D A = S.dense();
        auto p = patof(S);
        csr_cmp(c, A, dabs(A), &p);
        newvals(g, S, t->M());
      }
      // use as a factor afterwards: empty matrices must be usable as well
      {
        Sp Y = gsp(g, n, m);
        auto y = mkc(Y);
        std::unique_ptr<hiopMatrixSparseCSR> r(c.times_mat_alloc(*y));
        c.times_mat_symbolic(*r, *y);
      }
      endop(S.v.data(), S.nnz());
      break;
    }
    case 1: case 2: {  // transpose of triplet / CSR
      beginop(op == 1 ? "form_transpose_from_triplet" : "form_transpose_from_csr", m, n);
      CS c;
      int outer = g.b(0.3) ? 2 : 1;  // the same object is given another matrix
      for(int o = 0; o < outer; o++) {
        if(o) {
          if(g.b()) S = gsp(g, g.i(1, 6), g.i(1, 6));  // other sizes
          else {  // same sizes and number of nonzeros, other pattern
            Sp Z = S;
            for(int tries = 0; tries < 3; tries++) {
              std::vector<int> all;
              for(int i = 0; i < S.m * S.n; i++) all.push_back(i);
              for(int i = (int)all.size() - 1; i > 0; i--) std::swap(all[i], all[g.i(0, i)]);
              all.resize(S.nnz());
              std::sort(all.begin(), all.end());
              for(int k = 0; k < S.nnz(); k++) { Z.r[k] = all[k] / S.n; Z.c[k] = all[k] % S.n; }
            }
            S = Z;
          }
        }
        auto t = mkt(S);
        auto q = mkc(S);
        if(op == 1) c.form_transpose_from_symbolic(*t);
        else c.form_transpose_from_symbolic(*q);
        for(int rep = 0; rep < 3; rep++) {
          if(op == 1) c.form_transpose_from_numeric(*t);
          else c.form_transpose_from_numeric(*q);
          D A = S.dense(), T(S.n, S.m);
          std::set<std::pair<int, int>> p;
          for(int k = 0; k < S.nnz(); k++) p.insert({S.c[k], S.r[k]});
          for(int i = 0; i < S.m; i++)
            for(int j = 0; j < S.n; j++) T(j, i) = A(i, j);
          csr_cmp(c, T, dabs(T), &p);
          for(int k = 0; k < S.nnz(); k++) S.v[k] = t->M()[k] = q->M()[k] = gval(g);
        }
      }
      endop(S.v.data(), S.nnz());
      break;
    }
    case 3: {
      beginop("form_diag", m, m);
      VD d = gvec(g, m);
      auto v = mkv(d);
      CS c;
      if(g.b(0.3)) { auto z = mkv(gvec(g, g.i(1, 6))); c.form_diag_from_symbolic(*z); }
      c.form_diag_from_symbolic(*v);
      for(int rep = 0; rep < 2; rep++) {
        c.form_diag_from_numeric(*v);
        D A(m, m);
        std::set<std::pair<int, int>> p;
        for(int i = 0; i < m; i++) { A(i, i) = d[i]; p.insert({i, i}); }
        csr_cmp(c, A, dabs(A), &p);
        for(int i = 0; i < m; i++) d[i] = v->local_data()[i] = gval(g);
      }
      endop(d.data(), m);
      break;
    }
    case 4: {  // M = beta*M + alpha*X*D*Y
      int k = std::max(1, gsize(g));
      Sp Y = gsp(g, n, k);
      auto x = mkc(S), y = mkc(Y);
      beginop("times_mat", m, k);
      std::unique_ptr<hiopMatrixSparseCSR> r(x->times_mat_alloc(*y));
      x->times_mat_symbolic(*r, *y);
      std::set<std::pair<int, int>> p;
      for(int a = 0; a < S.nnz(); a++)
        for(int b = 0; b < Y.nnz(); b++)
          if(S.c[a] == Y.r[b]) p.insert({S.r[a], Y.c[b]});
      if(r->numberOfNonzeros() != (int)p.size()) R().viol("P19:times_mat_alloc", "%d nonzeros allocated, the product has %zu", (int)r->numberOfNonzeros(), p.size());
      D W(m, k), Mg(m, k);
      double b0 = 0;
      for(int rep = 0; rep < 4; rep++) {
        x->times_mat_numeric(b0, *r, al, *y);
        D A = S.dense(), B = Y.dense();
        for(int i = 0; i < m; i++)
          for(int j = 0; j < k; j++) {
            double s = b0 * W(i, j), q = fabs(b0) * Mg(i, j);
            for(int l = 0; l < n; l++) { double e = al * A(i, l) * B(l, j); s += e; q += fabs(e); }
            W(i, j) = s;
            Mg(i, j) = q;
          }
        csr_cmp(*r, W, Mg, &p);
        b0 = gcoef(g);
        al = gcoef(g);
        if(g.b()) newvals(g, S, x->M());
        if(g.b()) {
          VD d = posd(g, n);
          auto vd = mkv(d);
          y->scale_rows(*vd);
          for(int q = 0; q < Y.nnz(); q++) Y.v[q] = y->M()[q];
        } else newvals(g, Y, y->M());
      }
      endop(W.a.data(), W.a.size());
      break;
    }
    case 5: {  // M = beta*M + alpha*X... : sums
      Sp Y = gsp(g, m, n);
      auto x = mkc(S), y = mkc(Y);
      beginop("add_matrix", m, n);
      std::unique_ptr<hiopMatrixSparseCSR> r(x->add_matrix_alloc(*y));
      x->add_matrix_symbolic(*r, *y);
      auto p = patof(S), p2 = patof(Y);
      p.insert(p2.begin(), p2.end());
      if(r->numberOfNonzeros() != (int)p.size()) R().viol("P19:add_matrix_alloc", "%d nonzeros allocated, the sum has %zu", (int)r->numberOfNonzeros(), p.size());
      D W(m, n), Mg(m, n);
      for(int rep = 0; rep < 3; rep++) {
        x->add_matrix_numeric(*r, al, *y, be);
        D A = S.dense(), B = Y.dense();
        for(int i = 0; i < m; i++)
          for(int j = 0; j < n; j++) { W(i, j) = al * A(i, j) + be * B(i, j); Mg(i, j) = fabs(al * A(i, j)) + fabs(be * B(i, j)); }
        csr_cmp(*r, W, Mg, &p);
        al = gcoef(g);
        be = gcoef(g);
        newvals(g, S, x->M());
        newvals(g, Y, y->M());
      }
      endop(W.a.data(), W.a.size());
      break;
    }
    case 6: {  // scalings
      beginop("scale", m, n);
      auto x = mkc(S);
      VD dc = posd(g, n), dr = posd(g, m);
      auto vc = mkv(dc), vr = mkv(dr);
      D A = S.dense();
      bool c = g.b();
      if(c) x->scale_cols(*vc);
      else x->scale_rows(*vr);
      for(int i = 0; i < m; i++)
        for(int j = 0; j < n; j++) A(i, j) *= c ? dc[j] : dr[i];
      auto p = patof(S);
      csr_cmp(*x, A, dabs(A), &p);
      endop(A.a.data(), A.a.size());
      break;
    }
    case 7: {  // diagonals of a square matrix with all diagonal entries stored
      beginop("diagonals", m, m);
      Sp Q = gsp(g, m, m);
      D B = Q.dense();
      auto p = patof(Q);
      for(int i = 0; i < m; i++) p.insert({i, i});
      Sp F;
      F.m = F.n = m;
      for(auto& e : p) { F.r.push_back(e.first); F.c.push_back(e.second); F.v.push_back(B(e.first, e.second)); }
      auto x = mkc(F);
      D Mg = dabs(B);
      for(int rep = 0; rep < 3; rep++) {
        int o = g.i(0, 2);
        double a = g.gauss();
        if(o == 0) { x->addDiagonal(a); for(int i = 0; i < m; i++) { B(i, i) += a; Mg(i, i) += fabs(a); } }
        else if(o == 1) {
          VD d = gvec(g, m);
          auto v = mkv(d);
          x->addDiagonal(a, *v);
          for(int i = 0; i < m; i++) { B(i, i) += a * d[i]; Mg(i, i) += fabs(a * d[i]); }
        } else if(o == 2) { x->set_diagonal(a); for(int i = 0; i < m; i++) B(i, i) = a, Mg(i, i) = fabs(a); }
        csr_cmp(*x, B, Mg, &p);
      }
      endop(B.a.data(), B.a.size());
      break;
    }
    default: {
      beginop("copies", m, n);
      auto x = mkc(S);
      auto p = patof(S);
      D A = S.dense();
      std::unique_ptr<hiopMatrixSparse> c(x->new_copy()), k(x->alloc_clone());
      csr_cmp(dynamic_cast<hiopMatrixSparseCSR&>(*c), A, dabs(A), &p);
      k->copyFrom(*x);
      csr_cmp(dynamic_cast<hiopMatrixSparseCSR&>(*k), A, dabs(A), &p);
      std::vector<int> rp(m + 2, -7), jc(S.nnz() + 1, -7);
      VD v(S.nnz() + 1, 7.5);
      x->copy_to(rp.data(), jc.data(), v.data());
      bool ok = rp[m + 1] == -7 && jc[S.nnz()] == -7 && v[S.nnz()] == 7.5;
      for(int i = 0; i <= m; i++) ok = ok && rp[i] == x->i_row()[i];
      for(int i = 0; i < S.nnz(); i++) ok = ok && jc[i] == S.c[i] && v[i] == S.v[i];
      if(!ok) R().viol("P19:copy_to", "copy_to: the arrays differ from the matrix");
      double mx = 0;
      for(double z : S.v) mx = std::max(mx, fabs(z));
      if(x->max_abs_value() != mx) R().viol("P19:max_abs_value", "max_abs_value returns %g, expected %g", x->max_abs_value(), mx);
      if(!x->isfinite()) R().viol("P19:isfinite", "finite matrix declared not finite");
      if(S.nnz()) {
        x->M()[g.i(0, S.nnz() - 1)] = NAN;
        if(x->isfinite()) R().viol("P19:isfinite", "matrix with NaN declared finite");
        x->setToConstant(2.5);
        for(int i = 0; i < S.nnz(); i++) if(x->M()[i] != 2.5) { R().viol("P19:setToConstant", "nonzero %d is %g", i, x->M()[i]); break; }
        x->setToZero();
        for(int i = 0; i < S.nnz(); i++) if(x->M()[i] != 0) { R().viol("P19:setToZero", "nonzero %d is %g", i, x->M()[i]); break; }
        // the copies are independent of the original
        csr_cmp(dynamic_cast<hiopMatrixSparseCSR&>(*c), A, dabs(A), &p);
      }
      endop(A.a.data(), A.a.size());
    }
  }
}

// the composition used for normal equations: S = Hx + J' D J with diagonals, repeated for changing values
static void csr_chain(Rng& g)
{
  int m = g.i(1, 8), n = g.i(1, 10);
  Sp J = gsp(g, m, n);
  auto t = mkt(J);
  opname = "chain";
  CS j, jt, dg;
  j.form_from_symbolic(*t);
  jt.form_transpose_from_symbolic(*t);
  VD d = posd(g, m), h = posd(g, n);
  auto vd = mkv(d), vh_ = mkv(h);
  dg.form_diag_from_symbolic(*vh_);
  if(J.nnz() == 0) { R().eval(1, false); return; }
  j.form_from_numeric(*t);
  jt.form_transpose_from_numeric(*t);
  dg.form_diag_from_numeric(*vh_);
  std::unique_ptr<hiopMatrixSparseCSR> pr(jt.times_mat_alloc(j));
  jt.times_mat_symbolic(*pr, j);
  std::unique_ptr<hiopMatrixSparseCSR> sm(pr->add_matrix_alloc(dg));
  pr->add_matrix_symbolic(*sm, dg);
  for(int rep = 0; rep < 4; rep++) {
    beginop("chain", m, n);
    j.form_from_numeric(*t);
    j.scale_rows(*vd);
    jt.form_transpose_from_numeric(*t);
    dg.form_diag_from_numeric(*vh_);
    jt.times_mat_numeric(0.0, *pr, 1.0, j);
    double al = gcoef(g), be = gcoef(g);
    pr->add_matrix_numeric(*sm, al, dg, be);
    double ad = g.gauss();
    sm->addDiagonal(ad);
    D A = J.dense(), W(n, n), Mg(n, n);
    for(int a = 0; a < n; a++) {
      for(int b = 0; b < n; b++) {
        for(int i = 0; i < m; i++) { double e = A(i, a) * d[i] * A(i, b); W(a, b) += al * e; Mg(a, b) += fabs(al * e); }
      }
      W(a, a) += be * h[a] + ad;
      Mg(a, a) += fabs(be * h[a]) + fabs(ad);
    }
    csr_cmp(*sm, W, Mg, nullptr);
    endop(W.a.data(), W.a.size());
    newvals(g, J, t->M());
    for(int i = 0; i < m; i++) d[i] = vd->local_data()[i] = g.u(0.1, 3);
    for(int i = 0; i < n; i++) h[i] = vh_->local_data()[i] = g.u(0.1, 3);
  }
}

// ---------------------------------------------------------------------------------------------------- MDS
static void mds_op(Rng& g)
{
  static const char* P = "P20";
  int m = gsize(g), ns = gsize(g), nd = gsize(g), n = ns + nd;
  double al = gcoef(g), be = gcoef(g);
  struct Ms { int m, ns, nd; Sp s; D d; D full() const { D f(m, ns + nd); D x = s.dense(); for(int i = 0; i < m; i++) { for(int j = 0; j < ns; j++) f(i, j) = x(i, j); for(int j = 0; j < nd; j++) f(i, ns + j) = d(i, j); } return f; } };
  auto gen = [&](int mm, int a, int b) { Ms r; r.m = mm; r.ns = a; r.nd = b; r.s = gsp(g, mm, a); r.d = gmat(g, mm, b); return r; };
  auto mk = [&](const Ms& r) {
    std::unique_ptr<hiopMatrixMDS> p(new hiopMatrixMDS(r.m, r.ns, r.nd, r.s.nnz(), "DEFAULT"));
    for(int k = 0; k < r.s.nnz(); k++) { p->sp_irow()[k] = r.s.r[k]; p->sp_jcol()[k] = r.s.c[k]; p->sp_M()[k] = r.s.v[k]; }
    if(r.d.a.size()) memcpy(p->de_local_data(), r.d.a.data(), r.d.a.size() * 8);
    return p;
  };
  auto chk = [&](hiopMatrixMDS& p, const Ms& r, const char* what) {
    if(p.m() != r.m || p.n_sp() != r.ns || p.n_de() != r.nd || p.n() != r.ns + r.nd) { R().viol(fmt("P20:%s", opname.c_str()), "%s: dimensions of %s", opname.c_str(), what); return; }
    tsame(P, *p.sp_mat(), r.s, what);
    if(r.d.a.size()) untouched(P, p.de_local_data(), r.d.a, what);
  };
  int op = g.i(0, 13);
  if(op <= 8) {
    Ms M = gen(m, ns, nd);
    auto p = mk(M);
    D A = M.full();
    switch(op) {
      case 0: case 1: {
        bool tr = op == 1;
        beginop(tr ? "transTimesVec" : "timesVec", m, n);
        VD x = gvec(g, tr ? m : n), y = gvec(g, tr ? n : m), mg(y.size());
        auto vx = mkv(x), vy = mkv(y);
        tr ? p->transTimesVec(be, *vy, al, *vx) : p->timesVec(be, *vy, al, *vx);
        for(size_t i = 0; i < y.size(); i++) {
          y[i] *= be;
          mg[i] = fabs(y[i]);
          for(size_t j = 0; j < x.size(); j++) { double e = al * (tr ? A(j, i) : A(i, j)) * x[j]; y[i] += e; mg[i] += fabs(e); }
        }
        cmpa(P, vy->local_data(), y, mg, "y");
        untouched(P, vx->local_data(), x, "x");
        endop(y.data(), y.size());
        break;
      }
      case 2: {
        beginop("timesMatTrans", m, n);
        int k = gsize(g);
        Ms X = gen(k, ns, nd);
        auto x = mk(X);
        D B = X.full(), W = gmat(g, m, k), Mg(m, k);
        auto w = mkd(W);
        p->timesMatTrans(be, *w, al, *x);
        for(int i = 0; i < m; i++)
          for(int j = 0; j < k; j++) {
            double s = be * W(i, j), q = fabs(s);
            for(int l = 0; l < n; l++) { double e = al * A(i, l) * B(j, l); s += e; q += fabs(e); }
            W(i, j) = s;
            Mg(i, j) = q;
          }
        cmpa(P, w->local_data(), W.a, Mg.a, "W");
        endop(W.a.data(), W.a.size());
        break;
      }
      case 3: {
        beginop("transAddToSymDenseMatrixUpperTriangle", m, n);
        int r0 = g.i(0, 3), c0 = r0 + std::max(n - 1, 0) + g.i(0, 3), nw = std::max(c0 + m, r0 + n) + g.i(0, 3);
        D W = gmat(g, nw, nw);
        VD mg = absv(W.a);
        auto w = mkd(W);
        p->transAddToSymDenseMatrixUpperTriangle(r0, c0, al, *w);
        for(int i = 0; i < m; i++)
          for(int j = 0; j < n; j++) { W(r0 + j, c0 + i) += al * A(i, j); mg[(r0 + j) * nw + c0 + i] += fabs(al * A(i, j)); }
        cmpa(P, w->local_data(), W.a, mg, "W");
        endop(W.a.data(), W.a.size());
        break;
      }
      case 4: {
        beginop("max_abs", m, n);
        double e = 0;
        for(double v : A.a) e = std::max(e, fabs(v));
        double r = p->max_abs_value();
        if(r != e) R().viol("P20:max_abs_value", "max_abs_value returns %.17g, expected %.17g", r, e);
        auto v = mkv(gvec(g, m));
        p->row_max_abs_value(*v);
        VD ee(m, 0.0);
        for(int i = 0; i < m; i++)
          for(int j = 0; j < n; j++) ee[i] = std::max(ee[i], fabs(A(i, j)));
        cmpa(P, v->local_data(), ee, VD(m, 0.0), "the row maxima");
        endop(&r, 1, A.a.size() > 0);
        break;
      }
      case 5: {
        beginop("scale_row", m, n);
        VD s = posd(g, m);
        bool inv = g.b();
        auto v = mkv(s);
        p->scale_row(*v, inv);
        for(int k = 0; k < M.s.nnz(); k++) { double f = s[M.s.r[k]]; M.s.v[k] = inv ? M.s.v[k] / f : M.s.v[k] * f; }
        for(int i = 0; i < m; i++)
          for(int j = 0; j < nd; j++) M.d(i, j) = inv ? M.d(i, j) / s[i] : M.d(i, j) * s[i];
        cmpa(P, p->sp_M(), M.s.v, absv(M.s.v), "the sparse part");
        if(M.d.a.size()) cmpa(P, p->de_local_data(), M.d.a, absv(M.d.a), "the dense part");
        M.s.v.assign(p->sp_M(), p->sp_M() + M.s.nnz());
        if(M.d.a.size()) M.d.a.assign(p->de_local_data(), p->de_local_data() + M.d.a.size());
        endop(M.s.v.data(), M.s.nnz());
        break;
      }
      case 6: {
        beginop("copyRowsFrom", m, n);
        std::vector<int> idx;
        for(int i = 0; i < m; i++)
          if(g.b(0.6)) idx.push_back(i);
        Ms E;
        E.m = (int)idx.size();
        E.ns = ns;
        E.nd = nd;
        E.s.m = E.m;
        E.s.n = ns;
        E.d = D(E.m, nd);
        for(int a = 0; a < E.m; a++) {
          for(int k = 0; k < M.s.nnz(); k++)
            if(M.s.r[k] == idx[a]) { E.s.r.push_back(a); E.s.c.push_back(M.s.c[k]); E.s.v.push_back(M.s.v[k]); }
          for(int j = 0; j < nd; j++) E.d(a, j) = M.d(idx[a], j);
        }
        hiopMatrixMDS d(E.m, ns, nd, E.s.nnz(), "DEFAULT");
        idx.push_back(0);
        d.copyRowsFrom(*p, idx.data(), E.m);
        chk(d, E, "the rows copied");
        endop(E.d.a.data(), E.d.a.size(), E.m > 0);
        break;
      }
      case 7: {
        beginop("copies", m, n);
        std::unique_ptr<hiopMatrix> c(p->new_copy()), k(p->alloc_clone());
        chk(dynamic_cast<hiopMatrixMDS&>(*c), M, "the copy");
        if(k->m() != m || k->n() != n) R().viol("P20:alloc_clone", "dimensions differ");
        if(!p->isfinite()) R().viol("P20:isfinite", "finite matrix declared not finite");
        if(M.s.nnz() && g.b()) { c.reset(p->new_copy()); auto& cc = dynamic_cast<hiopMatrixMDS&>(*c); cc.sp_M()[g.i(0, M.s.nnz() - 1)] = NAN; if(cc.isfinite()) R().viol("P20:isfinite", "NaN in the sparse part not seen"); }
        if(M.d.a.size() && g.b()) { c.reset(p->new_copy()); auto& cc = dynamic_cast<hiopMatrixMDS&>(*c); cc.de_local_data()[g.i(0, (int)M.d.a.size() - 1)] = NAN; if(cc.isfinite()) R().viol("P20:isfinite", "NaN in the dense part not seen"); }
        c.reset(p->new_copy());
        auto& cc = dynamic_cast<hiopMatrixMDS&>(*c);
        double v = g.gauss();
        cc.setToConstant(v);
        untouched(P, cc.sp_M(), VD(M.s.nnz(), v), "the sparse part set to a constant");
        if(M.d.a.size()) untouched(P, cc.de_local_data(), VD(M.d.a.size(), v), "the dense part set to a constant");
        cc.setToZero();
        untouched(P, cc.sp_M(), VD(M.s.nnz(), 0.0), "the sparse part set to zero");
        if(M.d.a.size()) untouched(P, cc.de_local_data(), VD(M.d.a.size(), 0.0), "the dense part set to zero");
        endop(A.a.data(), A.a.size());
        break;
      }
      default: {  // restoration Jacobian
        beginop("set_Jac_FR", m, n);
        int md = gsize(g);
        if(ns == 0) break;
        Ms X = gen(md, ns, nd);
        auto x = mk(X);
        Ms E;
        E.m = m + md;
        E.ns = ns + 2 * m + 2 * md;
        E.nd = nd;
        if(E.m == 0) break;
        E.s.m = E.m;
        E.s.n = E.ns;
        E.d = D(E.m, nd);
        auto add = [&](int r, int c, double v) { E.s.r.push_back(r); E.s.c.push_back(c); E.s.v.push_back(v); };
        for(int i = 0; i < E.m; i++) {
          const Ms& Q = i < m ? M : X;
          int o = i < m ? 0 : m, k0 = i < m ? ns : ns + 2 * m, w = i < m ? m : md;
          for(int k = 0; k < Q.s.nnz(); k++)
            if(Q.s.r[k] == i - o) add(i, Q.s.c[k], Q.s.v[k]);
          add(i, k0 + i - o, -1);
          add(i, k0 + w + i - o, 1);
          for(int j = 0; j < nd; j++) E.d(i, j) = Q.d(i - o, j);
        }
        hiopMatrixMDS d(E.m, E.ns, E.nd, E.s.nnz(), "DEFAULT");
        std::vector<int> ir(E.s.nnz() + 1, -7), jc(E.s.nnz() + 1, -7);
        VD mv(E.s.nnz() + 1, 7.5), dv((size_t)E.m * nd + 1, 7.5);
        d.set_Jac_FR(*p, *x, ir.data(), jc.data(), mv.data(), dv.data());
        chk(d, E, "the extended Jacobian");
        if(nd > 0) untouched(P, dv.data(), E.d.a, "the user array of the dense part");
        if(dv.back() != 7.5 || mv.back() != 7.5) R().viol("P20:set_Jac_FR", "wrote past the user arrays");
        endop(E.s.v.data(), E.s.nnz());
      }
    }
    chk(*p, M, "this");
    return;
  }
  // symmetric block-diagonal
  Sp S = gsp(g, ns, ns, true);
  D B = gmat(g, nd, nd);
  for(int i = 0; i < nd; i++)
    for(int j = 0; j < i; j++) B(i, j) = B(j, i);
  hiopMatrixSymBlockDiagMDS p(ns, nd, S.nnz(), "DEFAULT");
  for(int k = 0; k < S.nnz(); k++) { p.sp_irow()[k] = S.r[k]; p.sp_jcol()[k] = S.c[k]; p.sp_M()[k] = S.v[k]; }
  if(B.a.size()) memcpy(p.de_local_data(), B.a.data(), B.a.size() * 8);
  D A(n, n), X = S.symdense();
  for(int i = 0; i < ns; i++)
    for(int j = 0; j < ns; j++) A(i, j) = X(i, j);
  for(int i = 0; i < nd; i++)
    for(int j = 0; j < nd; j++) A(ns + i, ns + j) = B(i, j);
  switch(op) {
    case 9: {
      beginop("sym_timesVec", n, n);
      VD x = gvec(g, n), y = gvec(g, n), mg(n);
      auto vx = mkv(x), vy = mkv(y);
      if(g.b()) p.timesVec(be, *vy, al, *vx);
      else p.transTimesVec(be, *vy, al, *vx);
      for(int i = 0; i < n; i++) {
        y[i] *= be;
        mg[i] = fabs(y[i]);
        for(int j = 0; j < n; j++) { y[i] += al * A(i, j) * x[j]; mg[i] += fabs(al * A(i, j) * x[j]); }
      }
      cmpa(P, vy->local_data(), y, mg, "y");
      endop(y.data(), n);
      break;
    }
    case 10: {
      beginop("sym_addUpperTriangleToSymDenseMatrixUpperTriangle", n, n);
      int r0 = g.i(0, 4), nw = r0 + n + g.i(0, 3);
      D W = gmat(g, nw, nw);
      VD mg = absv(W.a);
      auto w = mkd(W);
      p.addUpperTriangleToSymDenseMatrixUpperTriangle(r0, al, *w);
      for(int i = 0; i < n; i++)
        for(int j = i; j < n; j++) { W(r0 + i, r0 + j) += al * A(i, j); mg[(r0 + i) * nw + r0 + j] += fabs(al * A(i, j)); }
      cmpa(P, w->local_data(), W.a, mg, "W");
      endop(W.a.data(), W.a.size());
      break;
    }
    case 11: {
      beginop("sym_copies", n, n);
      double e = 0;
      for(double v : A.a) e = std::max(e, fabs(v));
      if(p.max_abs_value() != e) R().viol("P20:sym_max_abs_value", "max_abs_value returns %g, expected %g", p.max_abs_value(), e);
      std::unique_ptr<hiopMatrix> c(p.new_copy()), k(p.alloc_clone());
      if(k->m() != n || k->n() != n) R().viol("P20:sym_alloc_clone", "dimensions differ");
      auto& cc = dynamic_cast<hiopMatrixSymBlockDiagMDS&>(*c);
      tsame(P, *cc.sp_mat(), S, "the sparse part of the copy");
      if(B.a.size()) untouched(P, cc.de_local_data(), B.a, "the dense part of the copy");
      if(!p.isfinite()) R().viol("P20:sym_isfinite", "finite matrix declared not finite");
      cc.setToConstant(2.5);
      untouched(P, cc.sp_M(), VD(S.nnz(), 2.5), "the sparse part set to a constant");
      if(B.a.size()) untouched(P, cc.de_local_data(), VD(B.a.size(), 2.5), "the dense part set to a constant");
      cc.setToZero();
      untouched(P, cc.sp_M(), VD(S.nnz(), 0.0), "the sparse part set to zero");
      if(B.a.size()) untouched(P, cc.de_local_data(), VD(B.a.size(), 0.0), "the dense part set to zero");
      endop(A.a.data(), A.a.size());
      break;
    }
    default: {
      beginop("sym_set_Hess_FR", n, n);
      if(ns == 0) break;
      int ex = g.i(0, 6), off = 0;
      for(int k = 0; k < S.nnz(); k++) off += S.r[k] != S.c[k];
      int N = ns + off;
      VD ds = gvec(g, ns), dd = gvec(g, nd);
      auto vs = mkv(ds), vd = mkv(dd);
      hiopMatrixSymBlockDiagMDS f(ns + ex, nd, N, "DEFAULT");
      std::vector<int> ir(N + 1, -7), jc(N + 1, -7);
      VD mv(N + 1, 7.5), hd((size_t)nd * nd + 1, 7.5);
      f.set_Hess_FR(p, ir.data(), jc.data(), mv.data(), hd.data(), *vs, *vd);
      int nt = ns + ex + nd;
      D W(nt, nt), E(nt, nt), Mg(nt, nt);
      auto w = mkd(W);
      f.addUpperTriangleToSymDenseMatrixUpperTriangle(0, 1.0, *w);
      for(int i = 0; i < ns; i++)
        for(int j = i; j < ns; j++) { E(i, j) = A(i, j) + (i == j ? ds[i] : 0); Mg(i, j) = fabs(A(i, j)) + (i == j ? fabs(ds[i]) : 0); }
      for(int i = 0; i < nd; i++)
        for(int j = i; j < nd; j++) { E(ns + ex + i, ns + ex + j) = B(i, j) + (i == j ? dd[i] : 0); Mg(ns + ex + i, ns + ex + j) = fabs(B(i, j)) + (i == j ? fabs(dd[i]) : 0); }
      cmpa(P, w->local_data(), E.a, Mg.a, "the extended Hessian");
      if(hd.back() != 7.5 || mv.back() != 7.5) R().viol("P20:sym_set_Hess_FR", "wrote past the user arrays");
      for(int i = 0; i < nd; i++)
        for(int j = 0; j < nd; j++) if(hd[i * nd + j] != f.de_local_data()[i * nd + j]) { R().viol("P20:sym_set_Hess_FR", "the user array of the dense part differs"); i = nd; break; }
      endop(mv.data(), N);
    }
  }
  Sp S2 = S;
  tsame(P, *p.sp_mat(), S, "this");
  if(B.a.size()) untouched(P, p.de_local_data(), B.a, "this");
}

static void body(Rng& g, long k, const std::string& mode)
{
  ph = hash_s(mode);
  int steps = mode == "chain" ? 1 : 8;
  for(int s = 0; s < steps; s++) {
    if(mode == "dense") dense_op(g);
    else if(mode == "dist") dist_op(g);
    else if(mode == "triplet") trip_op(g);
    else if(mode == "csr") csr_op(g);
    else if(mode == "chain") csr_chain(g);
    else if(mode == "mds") mds_op(g);
  }
  if(k < 3) R().sample(fmt("%s: last operation %s", mode.c_str(), opname.c_str()));
}
int main(int argc, char** argv) { return vh::run(argc, argv, body); }
