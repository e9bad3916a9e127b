// Complex linear algebra and network reduction (P21): real objects against plain dense complex arithmetic.
#include "vh.hpp"
#include "hiopMatrixComplexDense.hpp"
#include "hiopMatrixComplexSparseTriplet.hpp"
#include "hiopLinSolverUMFPACKZ.hpp"
#include "hiopKronReduction.hpp"
#include <memory>
#include <map>
using namespace hiop;
using namespace vh;
typedef std::complex<double> C;
typedef std::complex<long double> CL;
typedef std::vector<C> VC;
struct Z {
  int m = 0, n = 0;
  VC a;
  Z() {}
  Z(int m_, int n_) : m(m_), n(n_), a((size_t)m_ * n_) {}
  C& operator()(int i, int j) { return a[(size_t)i * n + j]; }
  C operator()(int i, int j) const { return a[(size_t)i * n + j]; }
};
static C cval(Rng& g)
{
  switch(g.i(0, 7)) {
    case 0: return C(g.gauss(), 0);
    case 1: return C(0, g.gauss());
    case 2: return C(g.i(-3, 3), g.i(-3, 3));
    default: return C(g.gauss(), g.gauss());
  }
}
struct S {  // sorted triplets, unique unless stated
  int m = 0, n = 0;
  std::vector<int> r, c;
  VC v;
  int nnz() const { return (int)r.size(); }
  Z dense() const
  {
    Z d(m, n);
    for(int k = 0; k < nnz(); k++) d(r[k], c[k]) += v[k];
    return d;
  }
  Z sym() const
  {
    Z d(m, n);
    for(int k = 0; k < nnz(); k++) {
      d(r[k], c[k]) += v[k];
      if(r[k] != c[k]) d(c[k], r[k]) += v[k];
    }
    return d;
  }
};
static S gs(Rng& g, int m, int n, bool upper = false)
{
  S s;
  s.m = m;
  s.n = n;
  double p = g.pick(std::vector<double>{0, 0.1, 0.3, 0.6, 1});
  for(int i = 0; i < m; i++)
    for(int j = upper ? i : 0; j < n; j++)
      if(g.b(p)) {
        s.r.push_back(i);
        s.c.push_back(j);
        s.v.push_back(g.b(0.05) ? C(0) : cval(g));
      }
  return s;
}
typedef hiopMatrixComplexSparseTriplet T;
typedef hiopMatrixComplexDense DZ;
static std::unique_ptr<T> mk(const S& s)
{
  std::unique_ptr<T> t(new T(s.m, s.n, s.nnz()));
  if(s.nnz()) t->copyFrom(s.r.data(), s.c.data(), s.v.data());
  return t;
}
static std::unique_ptr<DZ> mkd(const Z& z)
{
  std::unique_ptr<DZ> d(new DZ(z.m, z.n));
  for(int i = 0; i < z.m; i++)
    for(int j = 0; j < z.n; j++) d->get_M()[i][j] = z(i, j);
  return d;
}
static Z gz(Rng& g, int m, int n)
{
  Z z(m, n);
  for(auto& x : z.a) x = cval(g);
  return z;
}
static std::string op;
static uint64_t ph;
static void begin(const char* n, int a, int b)
{
  op = n;
  ph = mix(ph, mix(hash_s(op), mix(a, b)));
  R().count("op:" + op);
}
static void end(const VC& v, bool nt = true)
{
  if(!v.empty()) ph = hash_d(ph, (const double*)v.data(), 2 * (int)v.size());
  R().eval(ph, nt && !v.empty());
}
static void cmp(const C* got, const VC& want, const std::vector<double>& mag, double rt, const char* what)
{
  for(size_t i = 0; i < want.size(); i++)
    if(!(std::abs(got[i] - want[i]) <= rt * mag[i] + 1e-300)) {
      R().viol("P21:" + op, "%s: element %zu of %s is (%.17g,%.17g), expected (%.17g,%.17g)", op.c_str(), i, what, got[i].real(),
               got[i].imag(), want[i].real(), want[i].imag());
      return;
    }
}
static std::vector<double> mg(const VC& v)
{
  std::vector<double> r;
  for(auto& x : v) r.push_back(std::abs(x));
  return r;
}
static void cmpd(DZ& d, const Z& w, const std::vector<double>& mag, double rt, const char* what)
{
  if(d.m() != w.m || d.n() != w.n) { R().viol("P21:" + op, "%s: %s has wrong dimensions", op.c_str(), what); return; }
  if(w.m * w.n) cmp(d.local_buffer(), w.a, mag, rt, what);
}
static void cmps(T& t, const Z& w, const char* what)
{
  if(t.m() != w.m || t.n() != w.n) { R().viol("P21:" + op, "%s: %s is %dx%d, expected %dx%d", op.c_str(), what, (int)t.m(), (int)t.n(), w.m, w.n); return; }
  Z d(w.m, w.n);
  auto* s = t.storage();
  for(int k = 0; k < t.numberOfNonzeros(); k++) {
    int i = s->i_row()[k], j = s->j_col()[k];
    if(i < 0 || i >= w.m || j < 0 || j >= w.n) { R().viol("P21:" + op, "%s: index (%d,%d) outside the %dx%d result", op.c_str(), i, j, w.m, w.n); return; }
    if(k && !(s->i_row()[k - 1] < i || (s->i_row()[k - 1] == i && s->j_col()[k - 1] < j)))
      R().viol("P21:" + op + "_order", "%s: entries not sorted or not unique", op.c_str());
    d(i, j) += s->M()[k];
  }
  if(w.m * w.n) cmp(d.a.data(), w.a, mg(w.a), 1e-14, what);
}
// long double solve with partial pivoting; returns false when (numerically) singular; cond gets an estimate
static bool inv(const Z& A, Z& X, double& cond)
{
  int n = A.m;
  std::vector<CL> a(n * n), b(n * n);
  double na = 0;
  for(int i = 0; i < n; i++) {
    double s = 0;
    for(int j = 0; j < n; j++) { a[i * n + j] = CL(A(i, j).real(), A(i, j).imag()); s += std::abs(A(i, j)); }
    b[i * n + i] = 1;
    na = std::max(na, s);
  }
  for(int k = 0; k < n; k++) {
    int p = k;
    for(int i = k; i < n; i++) if(std::abs(a[i * n + k]) > std::abs(a[p * n + k])) p = i;
    if(std::abs(a[p * n + k]) == 0) return false;
    for(int j = 0; j < n; j++) { std::swap(a[p * n + j], a[k * n + j]); std::swap(b[p * n + j], b[k * n + j]); }
    CL f = CL(1) / a[k * n + k];
    for(int j = 0; j < n; j++) { a[k * n + j] *= f; b[k * n + j] *= f; }
    for(int i = 0; i < n; i++) if(i != k && a[i * n + k] != CL(0)) {
      CL q = a[i * n + k];
      for(int j = 0; j < n; j++) { a[i * n + j] -= q * a[k * n + j]; b[i * n + j] -= q * b[k * n + j]; }
    }
  }
  X = Z(n, n);
  double ni = 0;
  for(int i = 0; i < n; i++) {
    double s = 0;
    for(int j = 0; j < n; j++) { X(i, j) = C((double)b[i * n + j].real(), (double)b[i * n + j].imag()); s += std::abs(X(i, j)); }
    ni = std::max(ni, s);
  }
  cond = na * ni;
  return cond < 1e12;
}
static Z mul(const Z& A, const Z& B)
{
  Z c(A.m, B.n);
  for(int i = 0; i < A.m; i++)
    for(int j = 0; j < B.n; j++) {
      CL s = 0;
      for(int k = 0; k < A.n; k++) s += CL(A(i, k)) * CL(B(k, j));
      c(i, j) = C((double)s.real(), (double)s.imag());
    }
  return c;
}
static int gsz(Rng& g) { int r = g.i(0, 19); return r == 0 ? 0 : r <= 2 ? 1 : r <= 15 ? g.i(2, 7) : g.i(8, 20); }
static std::vector<int> subset(Rng& g, int n)
{
  std::vector<int> r;
  double p = g.pick(std::vector<double>{0, 0.2, 0.5, 0.8, 1});
  for(int i = 0; i < n; i++) if(g.b(p)) r.push_back(i);
  return r;
}
static void dense_op(Rng& g)
{
  int m = gsz(g), n = gsz(g);
  Z A = gz(g, m, n);
  auto a = mkd(A);
  C al = g.b(0.2) ? C(0) : g.b(0.2) ? C(1) : cval(g), be = g.b(0.2) ? C(0) : g.b(0.2) ? C(1) : cval(g);
  switch(g.i(0, 8)) {
    case 0: {
      begin("dense_timesVec", m, n);
      VC x, y;
      for(int i = 0; i < n; i++) x.push_back(cval(g));
      for(int i = 0; i < m; i++) y.push_back(cval(g));
      VC w(m), x0 = x;
      std::vector<double> q(m);
      for(int i = 0; i < m; i++) {
        w[i] = be * y[i];
        q[i] = std::abs(w[i]);
        for(int j = 0; j < n; j++) { w[i] += al * A(i, j) * x[j]; q[i] += std::abs(al) * std::abs(A(i, j)) * std::abs(x[j]); }
      }
      a->timesVec(be, y.data(), al, x.data());
      cmp(y.data(), w, q, 1e-12, "y");
      if(x != x0) R().viol("P21:dense_timesVec", "timesVec changed its input");
      end(w);
      break;
    }
    case 1: {
      begin("dense_copy", m, n);
      std::unique_ptr<DZ> c(a->new_copy());
      cmpd(*c, A, mg(A.a), 0, "the copy");
      Z B = gz(g, m, n);
      auto b = mkd(B);
      b->copyFrom(*a);
      cmpd(*b, A, mg(A.a), 0, "copyFrom");
      if(m * n) { VC buf = gz(g, m, n).a; b->copyFrom(buf.data()); Z W(m, n); W.a = buf; cmpd(*b, W, mg(W.a), 0, "copyFrom buffer"); }
      cmpd(*a, A, mg(A.a), 0, "the source");
      end(A.a);
      break;
    }
    case 2: {
      begin("dense_copyRowsFrom", m, n);
      auto idx = subset(g, m);
      for(size_t i = 1; i < idx.size(); i++) std::swap(idx[i], idx[g.i(0, (int)i)]);
      Z W((int)idx.size(), n);
      for(int i = 0; i < W.m; i++) for(int j = 0; j < n; j++) W(i, j) = A(idx[i], j);
      auto d = mkd(gz(g, W.m, n));
      d->copyRowsFrom(*a, idx.data(), W.m);
      cmpd(*d, W, mg(W.a), 0, "the rows");
      end(W.a);
      break;
    }
    case 3: {
      begin("dense_set", m, n);
      Z W(m, n);
      double c = g.gauss();
      if(g.b(0.3)) a->setToZero();
      else if(g.b(0.5)) { a->setToConstant(c); for(auto& x : W.a) x = c; }
      else { C z = cval(g); a->setToConstant(z); for(auto& x : W.a) x = z; }
      cmpd(*a, W, mg(W.a), 0, "the matrix");
      a->negate();
      for(auto& x : W.a) x = -x;
      cmpd(*a, W, mg(W.a), 0, "the negated matrix");
      end(W.a);
      break;
    }
    case 4: {
      begin("dense_negate", m, n);
      a->negate();
      for(auto& x : A.a) x = -x;
      cmpd(*a, A, mg(A.a), 0, "the negated matrix");
      end(A.a);
      break;
    }
    case 5: {
      begin("dense_max_abs_value", m, n);
      double e = 0, r = a->max_abs_value();
      for(auto& x : A.a) e = std::max(e, std::abs(x));
      if(fabs(r - e) > 1e-13 * e) R().viol("P21:dense_max_abs_value", "max_abs_value is %.17g, expected %.17g", r, e);
      end(A.a);
      break;
    }
    case 6: {
      begin("dense_addMatrix", m, n);
      Z B = gz(g, m, n);
      auto b = mkd(B);
      std::vector<double> q = mg(A.a);
      if(g.b(0.5)) al = C(al.real(), 0), a->addMatrix(al.real(), (const hiopMatrix&)*b);
      else a->addMatrix(al, *b);
      for(size_t i = 0; i < q.size(); i++) { A.a[i] += al * B.a[i]; q[i] += std::abs(al) * std::abs(B.a[i]); }
      cmpd(*a, A, q, 1e-13, "the sum");
      cmpd(*b, B, mg(B.a), 0, "the operand");
      end(A.a);
      break;
    }
    case 7: {
      begin("dense_isfinite", m, n);
      bool fin = true;
      if(m * n && g.b(0.6)) {
        int k = g.i(0, m * n - 1);
        double bad = g.pick(std::vector<double>{NAN, INFINITY, -INFINITY});
        a->local_buffer()[k] = g.b(0.5) ? C(bad, 1) : C(1, bad);
        fin = false;
      }
      if(a->isfinite() != fin) R().viol("P21:dense_isfinite", "isfinite returns %d", !fin);
      end(A.a);
      break;
    }
    default: {
      bool up = g.b(0.5);
      begin(up ? "dense_addSparseSym" : "dense_addSparse", m, n);
      Z B = gz(g, n, n);
      auto b = mkd(B);
      S s = gs(g, n, n, up);
      auto t = mk(s);
      auto q = mg(B.a);
      if(up) b->addSparseSymUpperTriangleToSymDenseMatrixUpperTriangle(al, *t);
      else b->addSparseMatrix(al, *t);
      for(int k = 0; k < s.nnz(); k++) { B(s.r[k], s.c[k]) += al * s.v[k]; q[s.r[k] * n + s.c[k]] += std::abs(al) * std::abs(s.v[k]); }
      cmpd(*b, B, q, 1e-13, "the sum");
      end(B.a);
    }
  }
}
static void sparse_op(Rng& g)
{
  int m = gsz(g), n = gsz(g);
  int o = g.i(0, 7);
  if(o <= 2) {
    S s = gs(g, m, n);
    auto t = mk(s);
    Z A = s.dense();
    if(o == 0) {
      begin("sparse_timesVec", m, n);
      double al = g.b(0.2) ? 0 : g.gauss(), be = g.b(0.3) ? 0 : g.gauss();
      VC x, y, w(m);
      std::vector<double> q(m);
      for(int i = 0; i < n; i++) x.push_back(cval(g));
      for(int i = 0; i < m; i++) y.push_back(cval(g));
      for(int i = 0; i < m; i++) {
        w[i] = be * y[i];
        q[i] = std::abs(w[i]);
        for(int j = 0; j < n; j++) { w[i] += al * A(i, j) * x[j]; q[i] += fabs(al) * std::abs(A(i, j)) * std::abs(x[j]); }
      }
      t->timesVec(be, y.data(), al, x.data());
      cmp(y.data(), w, q, 1e-12, "y");
      end(w);
    } else if(o == 1) {
      begin("sparse_transTimesMat", m, n);
      int k = gsz(g);
      double al = g.b(0.2) ? 0 : g.gauss(), be = g.b(0.3) ? 0 : g.gauss();
      Z X = gz(g, m, k), W = gz(g, n, k);
      auto x = mkd(X), w = mkd(W);
      std::vector<double> q(W.a.size());
      for(int i = 0; i < n; i++)
        for(int j = 0; j < k; j++) {
          C v = be * W(i, j);
          double e = std::abs(v);
          for(int l = 0; l < m; l++) { v += al * A(l, i) * X(l, j); e += fabs(al) * std::abs(A(l, i)) * std::abs(X(l, j)); }
          W(i, j) = v;
          q[i * k + j] = e;
        }
      t->transTimesMat(be, *w, al, *x);
      cmpd(*w, W, q, 1e-12, "W");
      cmpd(*x, X, mg(X.a), 0, "X");
      end(W.a);
    } else {
      begin("sparse_new_slice", m, n);
      auto ri = subset(g, m), ci = subset(g, n);
      Z W((int)ri.size(), (int)ci.size());
      for(int i = 0; i < W.m; i++) for(int j = 0; j < W.n; j++) W(i, j) = A(ri[i], ci[j]);
      std::unique_ptr<T> q(t->new_slice(ri.data(), W.m, ci.data(), W.n));
      cmps(*q, W, "the slice");
      cmps(*t, A, "the source");
      end(W.a);
    }
  } else if(o <= 4) {
    S s = gs(g, n, n, true);
    auto t = mk(s);
    Z A = s.sym();
    if(o == 3) {
      begin("sparse_new_sliceFromSym", n, n);
      auto ri = subset(g, n), ci = subset(g, n);
      Z W((int)ri.size(), (int)ci.size());
      for(int i = 0; i < W.m; i++) for(int j = 0; j < W.n; j++) W(i, j) = A(ri[i], ci[j]);
      std::unique_ptr<T> q(t->new_sliceFromSym(ri.data(), W.m, ci.data(), W.n));
      cmps(*q, W, "the slice");
      end(W.a);
    } else {
      begin("sparse_new_sliceFromSymToSym", n, n);
      auto ri = subset(g, n);
      Z W((int)ri.size(), (int)ri.size());
      for(int i = 0; i < W.m; i++) for(int j = i; j < W.n; j++) W(i, j) = A(ri[i], ri[j]);
      std::unique_ptr<T> q(t->new_sliceFromSymToSym(ri.data(), W.m));
      cmps(*q, W, "the slice");
      end(W.a);
    }
  } else if(o == 5) {
    begin("sparse_sort_sum", m, n);
    S s = gs(g, m, n);
    int extra = s.nnz() ? g.i(0, 2 * s.nnz()) : 0;
    for(int k = 0; k < extra; k++) {
      int q = g.i(0, s.nnz() - 1);
      s.r.push_back(s.r[q]);
      s.c.push_back(s.c[q]);
      s.v.push_back(cval(g));
    }
    for(int i = 1; i < s.nnz(); i++) {
      int q = g.i(0, i);
      std::swap(s.r[i], s.r[q]);
      std::swap(s.c[i], s.c[q]);
      std::swap(s.v[i], s.v[q]);
    }
    auto t = mk(s);
    t->storage()->sort_indexes();
    auto* st = t->storage();
    for(int k = 1; k < s.nnz(); k++)
      if(std::make_pair(st->i_row()[k - 1], st->j_col()[k - 1]) > std::make_pair(st->i_row()[k], st->j_col()[k])) R().viol("P21:sort_indexes", "entries are not sorted");
    t->storage()->sum_up_duplicates();
    Z W(m, n);
    std::vector<double> q(W.a.size());
    for(int k = 0; k < s.nnz(); k++) { W(s.r[k], s.c[k]) += s.v[k]; q[s.r[k] * n + s.c[k]] += std::abs(s.v[k]); }
    Z G(m, n);
    for(int k = 0; k < t->numberOfNonzeros(); k++) {
      if(k && !(std::make_pair(st->i_row()[k - 1], st->j_col()[k - 1]) < std::make_pair(st->i_row()[k], st->j_col()[k]))) R().viol("P21:sum_up_duplicates", "entries are not unique");
      G(st->i_row()[k], st->j_col()[k]) += st->M()[k];
    }
    cmp(G.a.data(), W.a, q, 1e-13, "the summed matrix");
    end(W.a);
  } else if(o == 6) {
    begin("sparse_max_abs", m, n);
    S s = gs(g, m, n);
    auto t = mk(s);
    double e = 0;
    for(auto& x : s.v) e = std::max(e, std::abs(x));
    double r = t->max_abs_value();
    if(fabs(r - e) > 1e-13 * e) R().viol("P21:sparse_max_abs_value", "max_abs_value is %.17g, expected %.17g", r, e);
    end(s.v);
  } else {
    begin("sparse_set", m, n);
    S s = gs(g, m, n);
    auto t = mk(s);
    C c = cval(g);
    if(g.b(0.3)) t->setToZero(), c = 0;
    else if(g.b(0.5)) t->setToConstant(c.real()), c = c.real();
    else t->setToConstant(c);
    for(auto& x : s.v) x = c;
    cmps(*t, s.dense(), "the matrix");
    std::unique_ptr<hiopMatrix> q(t->alloc_clone());
    if(q->m() != m || q->n() != n) R().viol("P21:sparse_alloc_clone", "dimensions of a clone differ");
    end(s.v);
  }
}
// a square sparse matrix that is well conditioned most of the time; sing: exactly singular
static S gsq(Rng& g, int n, bool sym, bool sing)
{
  std::map<std::pair<int, int>, C> M;
  double p = g.pick(std::vector<double>{0.05, 0.2, 0.5, 1});
  std::vector<int> perm(n);
  for(int i = 0; i < n; i++) perm[i] = i;
  if(!sym && g.b(0.5)) for(int i = 1; i < n; i++) std::swap(perm[i], perm[g.i(0, i)]);
  for(int i = 0; i < n; i++)
    for(int j = 0; j < n; j++) {
      if(sym && j < i) continue;
      if(g.b(p)) { C v = cval(g); M[{i, j}] = v; if(sym) M[{j, i}] = v; }
    }
  double d = g.pick(std::vector<double>{1, 3, 10});
  for(int i = 0; i < n; i++) M[{i, perm[i]}] += C(d, g.gauss());
  if(sing && n > 0) {
    int k = g.i(0, n - 1);
    int how = g.i(0, 2);
    for(auto it = M.begin(); it != M.end();) {
      bool hit = how == 0 ? it->first.first == k : how == 1 ? it->first.second == k : it->first.first == k || it->first.second == k;
      if(hit && g.b(0.8)) it = M.erase(it);
      else { if(hit) it->second = 0; ++it; }
    }
  }
  S s;
  s.m = s.n = n;
  for(auto& e : M) { s.r.push_back(e.first.first); s.c.push_back(e.first.second); s.v.push_back(e.second); }
  return s;
}
static void solver(Rng& g)
{
  int n = std::max(1, gsz(g));
  bool sing = g.b(0.2);
  S s = gsq(g, n, g.b(0.4), sing);
  auto t = mk(s);
  hiopLinSolverUMFPACKZ ls(*t);
  int reps = g.i(1, 3);
  for(int rep = 0; rep < reps; rep++) {
    begin("umfpackz", n, rep);
    if(rep) {  // new values on the same pattern
      for(auto& x : s.v) x = cval(g);
      for(int i = 0; i < s.nnz(); i++) if(s.r[i] == s.c[i]) s.v[i] += C(n, 0);
      if(sing) for(auto& x : s.v) x = 0;
      t->copyFrom(s.r.data(), s.c.data(), s.v.data());
    }
    Z A = s.dense(), X;
    double cond = 0;
    bool ok = inv(A, X, cond);
    int st = ls.matrixChanged();
    if(!ok) {
      if(cond == 0) {  // an exactly zero row or column
        if(st >= 0) R().viol("P21:umfpackz_singular", "the factorisation of a singular matrix (n=%d) is reported as successful", n);
        R().count("singular_systems");
        R().eval(mix(ph, 7), true);
      }
      continue;
    }
    if(st < 0) { R().viol("P21:umfpackz_fails", "the factorisation of a nonsingular matrix (n=%d, condition %.3g) failed", n, cond); continue; }
    VC b(n), x(n, C(NAN, NAN));
    for(auto& v : b) v = cval(g);
    if(!ls.solve(b.data(), x.data())) R().viol("P21:umfpackz_solve", "solve failed");
    auto resid = [&](const C* xs, int st_, const C* bs, int bst, const char* what) {
      double na = 0, nx = 0, nb = 0, nr = 0;
      for(int i = 0; i < n; i++) {
        CL r = bs[i * bst];
        double ra = 0;
        for(int j = 0; j < n; j++) { r -= CL(A(i, j)) * CL(xs[j * st_]); ra += std::abs(A(i, j)); }
        na = std::max(na, ra);
        nx = std::max(nx, std::abs(xs[i * st_]));
        nb = std::max(nb, std::abs(bs[i * bst]));
        nr = std::max(nr, (double)std::abs(r));
        if(!(std::abs(xs[i * st_]) < 1e300)) nr = INFINITY;
      }
      double e = nr / (na * nx + nb + 1e-300);
      R().maxv("solve_backward_error", e);
      if(!(e <= 1e-9)) R().viol("P21:umfpackz_solve", "%s: backward error %g (n=%d, condition %.3g)", what, e, n, cond);
    };
    resid(x.data(), 1, b.data(), 1, "solve(rhs,x)");
    end(x);
    int k = gsz(g);
    S B = gs(g, n, k);
    auto tb = mk(B);
    DZ xd(n, k);
    if(!ls.solve(*tb, xd)) R().viol("P21:umfpackz_solve", "solve failed");
    Z Bd = B.dense();
    for(int j = 0; j < k; j++) resid(&xd.get_M()[0][j], k, &Bd.a[j], k, "solve(B,X)");
    begin("umfpackz_multi", n, k);
    end(VC(xd.local_buffer(), xd.local_buffer() + (size_t)n * k));
  }
}
static void kron(Rng& g)
{
  hiopKronReduction kr;
  int reps = g.i(1, 3);
  for(int rep = 0; rep < reps; rep++) {
    int n = g.i(1, 16);
    bool sym = g.b(0.7);
    S s = gsq(g, n, sym, false);
    std::vector<int> a, b;
    double p = g.pick(std::vector<double>{0.2, 0.5, 0.8});
    for(int i = 0; i < n; i++) (g.b(p) ? a : b).push_back(i);
    int na = (int)a.size(), nb = (int)b.size();
    if(g.b(0.85) && (na == 0 || nb == 0)) continue;
    if(na == 0) continue;
    // the reduction uses Yab = Yba^T, as documented for symmetric matrices
    bool sing = nb > 0 && g.b(0.15);
    if(sing) {
      int k = b[g.i(0, nb - 1)];
      for(int i = 0; i < s.nnz(); i++) {
        bool ib = std::find(b.begin(), b.end(), s.r[i]) != b.end() && std::find(b.begin(), b.end(), s.c[i]) != b.end();
        if(ib && (s.r[i] == k || s.c[i] == k)) s.v[i] = 0;
      }
    }
    Z Y = s.dense();
    Z Yaa(na, na), Yba(nb, na), Ybb(nb, nb), inv_;
    for(int i = 0; i < na; i++) for(int j = 0; j < na; j++) Yaa(i, j) = Y(a[i], a[j]);
    for(int i = 0; i < nb; i++) for(int j = 0; j < na; j++) Yba(i, j) = Y(b[i], a[j]);
    for(int i = 0; i < nb; i++) for(int j = 0; j < nb; j++) Ybb(i, j) = Y(b[i], b[j]);
    double cond = 0;
    bool ok = inv(Ybb, inv_, cond);
    begin(sing ? "kron_singular" : "kron", na, nb);
    auto t = mk(s);
    DZ red(na, na);
    VC junk = gz(g, na, na).a;
    red.copyFrom(junk.data());
    bool r = kr.go(a, b, *t, red);
    if(!ok) {
      if(cond == 0) {
        if(r) R().viol("P21:kron_singular", "a reduction with a singular block is reported as successful");
        R().count("singular_reductions");
        R().eval(ph, true);
      }
      continue;
    }
    if(!r) { R().viol("P21:kron_fails", "the reduction fails for a nonsingular block (condition %.3g)", cond); continue; }
    Z M = mul(inv_, Yba);
    for(auto& v : M.a) v = -v;
    Z W(na, na);
    std::vector<double> q(na * na), qm(nb * na);
    double im = 0, bm = 0;
    for(auto& v : inv_.a) im = std::max(im, std::abs(v));
    for(auto& v : Yba.a) bm = std::max(bm, std::abs(v));
    for(auto& e : qm) e = (im * bm + 1) * (nb + 1) * (cond + 1);
    for(int i = 0; i < na; i++)
      for(int j = 0; j < na; j++) {
        CL v = Yaa(i, j);
        for(int k = 0; k < nb; k++) v += CL(Yba(k, i)) * CL(M(k, j));
        W(i, j) = C((double)v.real(), (double)v.imag());
        q[i * na + j] = (std::abs(Yaa(i, j)) + bm * bm * im * nb * nb + 1) * (cond + 1);
      }
    cmpd(red, W, q, 1e-13, "the reduced matrix");
    if(nb) {
      auto& map = const_cast<DZ&>(kr.map_nonaux_to_aux());
      cmpd(map, M, qm, 1e-13, "the map of voltages");
      VC va(na), vb(nb, C(NAN, NAN)), w(nb);
      for(auto& v : va) v = cval(g);
      std::vector<double> qq(nb);
      for(int i = 0; i < nb; i++)
        for(int j = 0; j < na; j++) { w[i] += M(i, j) * va[j]; qq[i] += qm[i * na + j] * std::abs(va[j]); }
      for(auto& v : vb) v = 0;
      if(!kr.apply_nonaux_to_aux(va, vb)) R().viol("P21:kron_apply", "apply_nonaux_to_aux fails");
      cmp(vb.data(), w, qq, 1e-13, "the auxiliary voltages");
      // consistency: Y [va; vb] = [red va; 0]
    }
    end(red.local_buffer() ? VC(red.local_buffer(), red.local_buffer() + na * na) : VC());
  }
}
static void body(Rng& g, long k, const std::string& mode)
{
  ph = 0;
  for(int i = 0; i < 6; i++) {
    if(mode == "mat") { if(g.b(0.5)) dense_op(g); else sparse_op(g); }
    else if(mode == "solve") solver(g);
    else kron(g);
  }
  R().sample(fmt("%s: last operation %s", mode.c_str(), op.c_str()));
}
int main(int argc, char** argv) { return vh::run(argc, argv, body); }
