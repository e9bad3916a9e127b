// Reference-model monitor for hiopVector implementations (parallel/serial vector, compound vector).
// A random program of vector operations is run on the real vectors and on plain arrays holding the
// global contents; the complete state and every returned scalar are compared after each operation.
#include "vh.hpp"
#include "hiopVectorPar.hpp"
#include "hiopVectorIntSeq.hpp"
#include "hiopVectorIntCompoundPD.hpp"
#include "hiopVectorCompoundPD.hpp"
#include "LinAlgFactory.hpp"
using namespace hiop;
using namespace vh;
typedef std::vector<double> Vd;

namespace {
struct Env {
  bool compound = false;
  bool distributed = false;
  int n = 0, lo = 0, hi = 0;
  std::vector<int> part;         // MPI partition or sizes of the parts of the compound vector
  std::vector<index_type> cols;
};

hiopVector* make(const Env& e)
{
  if(e.compound) {
    hiopVectorCompoundPD* c = new hiopVectorCompoundPD(true);
    for(int s : e.part) c->addVector(LinearAlgebraFactory::create_vector("DEFAULT", s));
    return c;
  }
  if(e.distributed)
    return LinearAlgebraFactory::create_vector("DEFAULT", e.n, const_cast<index_type*>(e.cols.data()), MPI_COMM_WORLD);
  return LinearAlgebraFactory::create_vector("DEFAULT", e.n);
}
void put(const Env& e, hiopVector& v, const Vd& a)
{
  if(e.compound) {
    hiopVectorCompoundPD& c = dynamic_cast<hiopVectorCompoundPD&>(v);
    int off = 0;
    for(size_t k = 0; k < e.part.size(); k++) {
      double* p = c.getVector(k).local_data();
      for(int i = 0; i < e.part[k]; i++) p[i] = a[off++];
    }
  } else {
    double* p = v.local_data();
    for(int i = e.lo; i < e.hi; i++) p[i - e.lo] = a[i];
  }
}
Vd get(const Env& e, hiopVector& v)
{
  Vd a(e.hi - e.lo);
  if(e.compound) {
    hiopVectorCompoundPD& c = dynamic_cast<hiopVectorCompoundPD&>(v);
    int off = 0;
    for(size_t k = 0; k < e.part.size(); k++) {
      const double* p = c.getVector(k).local_data_const();
      for(int i = 0; i < e.part[k]; i++) a[off++] = p[i];
    }
  } else {
    const double* p = v.local_data_const();
    for(int i = e.lo; i < e.hi; i++) a[i - e.lo] = p[i - e.lo];
  }
  return a;
}

const double BIG = 1e150;

void body(Rng& r, long k, const std::string& mode)
{
  Env e;
  e.compound = mode == "compound";
  e.distributed = mode == "dist";
  int nv = 4;
  static const std::vector<int> sizes = {0, 1, 2, 3, 5, 7, 8, 13, 16, 17, 31, 64, 100};
  e.n = r.pick(sizes);
  if(e.compound) {
    int np = r.i(1, 5);
    e.n = 0;
    for(int q = 0; q < np; q++) { int s = r.b(0.2) ? 0 : r.i(1, 9); e.part.push_back(s); e.n += s; }
  }
  e.lo = 0; e.hi = e.n;
  if(e.distributed) {
    int P = R().nranks;
    std::vector<int> cut = {0};
    for(int p = 1; p < P; p++) cut.push_back(r.i(0, e.n));
    cut.push_back(e.n);
    std::sort(cut.begin(), cut.end());
    for(int c : cut) e.cols.push_back(c);
    e.lo = cut[R().rank]; e.hi = cut[R().rank + 1];
  }
  const int n = e.n;
  auto val = [&](int style) -> double {
    switch(style) {
      case 0: return r.u(-3, 3);
      case 1: return (double)r.i(-3, 3);
      case 2: return r.gauss() * pow(10., r.i(-8, 8));
      default: return r.u(0.1, 5);
    }
  };
  std::vector<hiopVector*> V(nv);
  std::vector<Vd> M(nv, Vd(n));
  for(int q = 0; q < nv; q++) {
    V[q] = make(e);
    int st = r.i(0, 3);
    for(int i = 0; i < n; i++) M[q][i] = val(st);
    put(e, *V[q], M[q]);
  }
  // three selection patterns
  std::vector<hiopVector*> S(3);
  std::vector<Vd> P(3, Vd(n));
  for(int q = 0; q < 3; q++) {
    S[q] = make(e);
    double pr = q == 0 ? r.u() : (q == 1 ? r.u() : (r.b() ? 0. : 1.));
    for(int i = 0; i < n; i++) P[q][i] = r.b(pr) ? 1. : 0.;
    put(e, *S[q], P[q]);
  }
  std::string hist;
  const double keps = 2.3e-16;

  auto same = [&](const char* op, int q, const Vd& ref, double rt) {
    Vd got = get(e, *V[q]);
    for(int i = e.lo; i < e.hi; i++) {
      if(!close(got[i - e.lo], ref[i], rt, 1e-300)) {
        R().viol(std::string("state:") + op, "n=%d after %s: element %d of the vector is %.17g, reference %.17g; program:%s",
                 n, op, i, got[i - e.lo], ref[i], hist.c_str());
        return;
      }
    }
    // resynchronise: the model continues from the implementation's rounding
  };
  auto scal = [&](const char* op, double got, double ref, double tol_abs) {
    if(!close(got, ref, 1e-12, tol_abs))
      R().viol(std::string("scalar:") + op, "n=%d %s returned %.17g, reference %.17g; program:%s", n, op, got, ref, hist.c_str());
  };
  auto iscal = [&](const char* op, long got, long ref) {
    if(got != ref)
      R().viol(std::string("scalar:") + op, "n=%d %s returned %ld, reference %ld; program:%s", n, op, got, ref, hist.c_str());
  };
  // elements of the pattern/operand vectors are never modified
  auto check_const = [&](const char* op, int tgt) {
    for(int q = 0; q < nv; q++) {
      if(q == tgt) continue;
      Vd got = get(e, *V[q]);
      for(int i = e.lo; i < e.hi; i++)
        if(memcmp(&got[i - e.lo], &M[q][i], 8)) {
          R().viol(std::string("operand:") + op, "n=%d %s modified an input vector (element %d)", n, op, i);
          M[q] = M[q];
          return;
        }
    }
    for(int q = 0; q < 3; q++) {
      Vd got = get(e, *S[q]);
      for(int i = e.lo; i < e.hi; i++)
        if(got[i - e.lo] != P[q][i]) {
          R().viol(std::string("operand:") + op, "n=%d %s modified a pattern vector (element %d)", n, op, i);
          return;
        }
    }
  };

  int nops = r.i(6, 30);
  uint64_t ph = mix(n, e.distributed ? 77 : 3);
  for(int o = 0; o < nops; o++) {
    int op = r.i(0, 57);
    int t = r.i(0, nv - 1), a = r.i(0, nv - 1), b = r.i(0, nv - 1), s = r.i(0, 2), s2 = r.i(0, 2);
    // keep magnitudes tame
    double mxa = 0;
    for(int i = 0; i < n; i++) mxa = std::max(mxa, fabs(M[t][i]));
    if(mxa > BIG || (n && !(mxa < BIG))) { op = 0; }
    Vd m = M[t];
    const Vd &ma = M[a], &mb = M[b], &ps = P[s], &p2 = P[s2];
    double c = r.b(0.4) ? (double)r.i(-2, 2) : val(0);
    double rt = 4 * keps;
    const char* nm = "";
    bool mut = true;
    hiopVector& v = *V[t];
    auto nz = [&](const Vd& x) { for(double q : x) if(fabs(q) < 1e-12) return false; return true; };
    auto nzs = [&](const Vd& x, const Vd& sel) { for(int i = 0; i < n; i++) if(sel[i] == 1. && fabs(x[i]) < 1e-12) return false; return true; };
    switch(op) {
      case 0: nm = "setToConstant"; for(auto& x : m) x = c; v.setToConstant(c); break;
      case 1: nm = "setToZero"; for(auto& x : m) x = 0; v.setToZero(); break;
      case 2: nm = "setToConstant_w_patternSelect"; for(int i = 0; i < n; i++) m[i] = ps[i] == 1. ? c : 0.; v.setToConstant_w_patternSelect(c, *S[s]); break;
      case 3: nm = "copyFrom"; if(a == t) continue; m = ma; v.copyFrom(*V[a]); break;
      case 4: nm = "copy_from_w_pattern"; if(a == t) continue; for(int i = 0; i < n; i++) if(ps[i] == 1.) m[i] = ma[i]; v.copy_from_w_pattern(*V[a], *S[s]); break;
      case 5: nm = "componentMult"; for(int i = 0; i < n; i++) m[i] *= ma[i]; v.componentMult(*V[a]); break;
      case 6: nm = "componentDiv"; if(!nz(ma)) continue; { Vd z = ma; for(int i = 0; i < n; i++) m[i] /= z[i]; } v.componentDiv(*V[a]); break;
      case 7: nm = "componentDiv_w_selectPattern"; if(!nzs(ma, ps)) continue; for(int i = 0; i < n; i++) m[i] = ps[i] == 0. ? 0. : m[i] / ma[i]; v.componentDiv_w_selectPattern(*V[a], *S[s]); break;
      case 8: nm = "component_min(c)"; for(auto& x : m) x = std::min(x, c); v.component_min(c); break;
      case 9: nm = "component_max(c)"; for(auto& x : m) x = std::max(x, c); v.component_max(c); break;
      case 10: nm = "component_min(v)"; for(int i = 0; i < n; i++) m[i] = std::min(m[i], ma[i]); v.component_min(*V[a]); break;
      case 11: nm = "component_max(v)"; for(int i = 0; i < n; i++) m[i] = std::max(m[i], ma[i]); v.component_max(*V[a]); break;
      case 12: nm = "component_abs"; for(auto& x : m) x = fabs(x); v.component_abs(); break;
      case 13: nm = "component_sgn"; for(auto& x : m) x = x > 0 ? 1 : (x < 0 ? -1 : 0); v.component_sgn(); break;
      case 14: nm = "component_sqrt"; { bool ok = true; for(auto x : m) ok &= x >= 0; if(!ok) { v.component_abs(); for(auto& x : m) x = fabs(x); } for(auto& x : m) x = sqrt(x); v.component_sqrt(); } break;
      case 15: nm = "scale"; for(auto& x : m) x *= c; v.scale(c); break;
      case 16: nm = "axpy"; if(a == t) continue; for(int i = 0; i < n; i++) { m[i] += c * ma[i]; } v.axpy(c, *V[a]); rt = -1; break;
      case 17: nm = "axpy_w_pattern"; if(a == t) continue; for(int i = 0; i < n; i++) if(ps[i] == 1.) m[i] += c * ma[i]; v.axpy_w_pattern(c, *V[a], *S[s]); rt = -1; break;
      case 18: nm = "axzpy"; if(a == t || b == t) continue; for(int i = 0; i < n; i++) m[i] += c * ma[i] * mb[i]; v.axzpy(c, *V[a], *V[b]); rt = -2; break;
      case 19: nm = "axdzpy"; if(a == t || b == t || !nz(mb)) continue; for(int i = 0; i < n; i++) m[i] += c * ma[i] / mb[i]; v.axdzpy(c, *V[a], *V[b]); rt = -3; break;
      case 20: nm = "axdzpy_w_pattern"; if(a == t || b == t || !nzs(mb, ps)) continue; for(int i = 0; i < n; i++) if(ps[i] == 1.) m[i] += c * ma[i] / mb[i]; v.axdzpy_w_pattern(c, *V[a], *V[b], *S[s]); rt = -3; break;
      case 21: nm = "addConstant"; for(auto& x : m) x += c; v.addConstant(c); rt = -4; break;
      case 22: nm = "addConstant_w_patternSelect"; for(int i = 0; i < n; i++) if(ps[i] == 1.) m[i] += c; v.addConstant_w_patternSelect(c, *S[s]); rt = -4; break;
      case 23: nm = "negate"; for(auto& x : m) x = -x; v.negate(); break;
      case 24: nm = "invert"; if(!nz(m)) continue; for(auto& x : m) x = 1. / x; v.invert(); break;
      case 25: nm = "addLogBarrierGrad"; if(a == t || !nz(ma)) continue; for(int i = 0; i < n; i++) if(ps[i] == 1.) m[i] += c / ma[i]; v.addLogBarrierGrad(c, *V[a], *S[s]); rt = -5; break;
      case 26: nm = "addLinearDampingTerm"; { double al = r.u(-2, 2); for(int i = 0; i < n; i++) m[i] = al * m[i] + (ps[i] - p2[i]) * c; v.addLinearDampingTerm(*S[s], *S[s2], al, c); rt = -6; } break;
      case 27: nm = "selectPattern"; for(int i = 0; i < n; i++) if(ps[i] == 0.) m[i] = 0.; v.selectPattern(*S[s]); break;
      case 28: nm = "adjustDuals_plh"; {
        if(a == t) continue;
        bool ok = true; for(int i = 0; i < n; i++) if(ps[i] == 1. && !(ma[i] > 1e-12)) ok = false;
        if(!ok) continue;
        double mu = pow(10., r.u(-9, 0)), kap = pow(10., r.u(0.5, 10));
        for(int i = 0; i < n; i++) if(ps[i] == 1.) { double q = mu / ma[i]; m[i] = std::max(std::min(m[i], kap * q), q / kap); }
        v.adjustDuals_plh(*V[a], *S[s], mu, kap); rt = 16 * keps; } break;
      case 29: nm = "projectIntoBounds_local"; {
        Vd xl(n), xu(n);
        hiopVector *vl = make(e), *vu = make(e);
        double k1 = pow(10., r.u(-6, -1)), k2 = pow(10., r.u(-6, -0.31));
        for(int i = 0; i < n; i++) {
          xl[i] = r.u(-4, 4); xu[i] = xl[i] + pow(10., r.u(-4, 3));
          // as the library does: absent bounds are represented by +-1e20
          if(ps[i] == 0.) xl[i] = -1e20;
          if(p2[i] == 0.) xu[i] = 1e20;
          if(ps[i] == 1. && p2[i] == 1.) {
            double w = std::min(k1 * std::max(1., fabs(xl[i])), k2 * (xu[i] - xl[i]));
            double w2 = std::min(k1 * std::max(1., fabs(xu[i])), k2 * (xu[i] - xl[i]));
            if(m[i] < xl[i] + w) m[i] = xl[i] + w; else if(m[i] > xu[i] - w2) m[i] = xu[i] - w2;
          } else if(ps[i] == 1.) m[i] = std::max(m[i], xl[i] + k1 * std::max(1., fabs(xl[i])));
          else if(p2[i] == 1.) m[i] = std::min(m[i], xu[i] - k1 * std::max(1., fabs(xu[i])));
        }
        put(e, *vl, xl); put(e, *vu, xu);
        bool ok = v.projectIntoBounds_local(*vl, *S[s], *vu, *S[s2], k1, k2);
        if(!ok) R().viol("projectIntoBounds:false", "projectIntoBounds_local rejected consistent bounds (n=%d)", n);
        rt = 64 * keps;
        delete vl; delete vu; } break;
      default: mut = false;
    }
    if(mut) {
      hist += fmt(" %s(%d;%d,%d,s%d,s%d,c=%.4g)", nm, t, a, b, s, s2, c);
      R().count(std::string("op:") + nm);
      ph = mix(ph, op * 64 + t * 16 + a * 4 + b);
      if(rt >= 0) same(nm, t, m, rt);
      else {
        // bound the rounding by the size of the terms
        Vd got = get(e, *V[t]);
        for(int i = e.lo; i < e.hi; i++) {
          double add = 0, div = fabs(M[t][i]);
          if(rt == -1) add = fabs(c * ma[i]);
          else if(rt == -2) add = fabs(c * ma[i] * mb[i]);
          else if(rt == -3) add = (mb[i] != 0.) ? fabs(c * ma[i] / mb[i]) : 0;
          else if(rt == -4) add = fabs(c);
          else if(rt == -5) add = (ma[i] != 0.) ? fabs(c / ma[i]) : 0;
          else if(rt == -6) { add = fabs(c); div *= 2; }
          double tol = 8 * keps * (div + add) + 1e-300;
          double g = got[i - e.lo];
          if(!(fabs(g - m[i]) <= tol) && !(std::isnan(g) && std::isnan(m[i])) && g != m[i]) {
            R().viol(std::string("state:") + nm, "n=%d after %s: element %d is %.17g, reference %.17g; program:%s", n, nm, i, g, m[i], hist.c_str());
            break;
          }
        }
      }
      check_const(nm, t);
      // continue from the implementation's own rounding (only local elements are known: exchange them)
      Vd got = get(e, *V[t]);
      if(e.distributed) {
        std::vector<int> cntv, dsp;
        for(int p = 0; p < R().nranks; p++) { cntv.push_back(e.cols[p + 1] - e.cols[p]); dsp.push_back(e.cols[p]); }
        Vd all(n);
        MPI_Allgatherv(got.data(), e.hi - e.lo, MPI_DOUBLE, all.data(), cntv.data(), dsp.data(), MPI_DOUBLE, MPI_COMM_WORLD);
        M[t] = all;
      } else M[t] = got;
      R().eval(mix(ph, hash_d(1, M[t].data(), n)), n > 0);
      continue;
    }
    // queries
    double sabs = 0, s2n = 0, mx = 0, mn = 1.7976931348623157e308;
    for(int i = 0; i < n; i++) { sabs += fabs(m[i]); s2n += m[i] * m[i]; mx = std::max(mx, fabs(m[i])); mn = std::min(mn, m[i]); }
    double labs = 0, lmx = 0, lsum = 0;
    for(int i = e.lo; i < e.hi; i++) { labs += fabs(m[i]); lmx = std::max(lmx, fabs(m[i])); lsum += m[i]; }
    bool positive = true; for(double x : m) positive &= x > 0;
    switch(op) {
      case 30: nm = "twonorm"; scal(nm, v.twonorm(), sqrt(s2n), 0); break;
      case 31: nm = "infnorm"; scal(nm, v.infnorm(), mx, 0); break;
      case 32: nm = "infnorm_local"; scal(nm, v.infnorm_local(), lmx, 0); break;
      case 33: nm = "onenorm"; scal(nm, v.onenorm(), sabs, 0); break;
      case 34: nm = "onenorm_local"; scal(nm, v.onenorm_local(), labs, 0); break;
      case 35: nm = "dotProductWith"; { double d = 0, ad = 0; for(int i = 0; i < n; i++) { d += m[i] * ma[i]; ad += fabs(m[i] * ma[i]); } scal(nm, v.dotProductWith(*V[a]), d, 1e-13 * ad + 1e-300); } break;
      case 36: nm = "min"; if(n == 0) continue; scal(nm, v.min(), mn, 0); break;
      case 37: nm = "min_w_pattern"; { double q = 1.7976931348623157e308; bool any = false; for(int i = 0; i < n; i++) if(ps[i] == 1.) { q = std::min(q, m[i]); any = true; } double g = v.min_w_pattern(*S[s]); if(any) scal(nm, g, q, 0); } break;
      case 38: nm = "allPositive"; iscal(nm, !!v.allPositive(), positive); break;
      case 39: nm = "allPositive_w_patternSelect"; { bool p = true; for(int i = 0; i < n; i++) if(ps[i] == 1. && !(m[i] > 0)) p = false; iscal(nm, !!v.allPositive_w_patternSelect(*S[s]), p); } break;
      case 40: nm = "matchesPattern"; { bool p = true; for(int i = 0; i < n; i++) if(ps[i] == 0. && m[i] != 0.) p = false; iscal(nm, v.matchesPattern(*S[s]), p); } break;
      case 41: nm = "is_zero"; { bool p = true; for(double x : m) p &= x == 0.; iscal(nm, v.is_zero(), p); } break;
      case 42: nm = "numOfElemsLessThan"; { long q = 0; for(double x : m) q += x < c; iscal(nm, v.numOfElemsLessThan(c), q); } break;
      case 43: nm = "numOfElemsAbsLessThan"; { double cc = fabs(c); long q = 0; for(double x : m) q += fabs(x) < cc; iscal(nm, v.numOfElemsAbsLessThan(cc), q); } break;
      case 44: nm = "sum_local"; scal(nm, v.sum_local(), lsum, 1e-13 * labs + 1e-300); break;
      case 45: nm = "is_equal"; { if(e.compound) continue; bool q = m == ma; iscal(nm, v.is_equal(*V[a]), q); } break;
      case 46: nm = "logBarrier_local"; {
        bool ok = true; double d = 0, ad = 0;
        for(int i = 0; i < n; i++) if(ps[i] == 1. && !(m[i] > 0)) ok = false;
        if(!ok) continue;
        for(int i = e.lo; i < e.hi; i++) if(ps[i] == 1.) { d += log(m[i]); ad += fabs(log(m[i])); }
        scal(nm, v.logBarrier_local(*S[s]), d, 1e-13 * ad + 1e-300); } break;
      case 47: nm = "linearDampingTerm_local"; {
        double mu = r.u(0, 2), kd = r.u(0, 2), d = 0, ad = 0;
        for(int i = e.lo; i < e.hi; i++) if(ps[i] == 1. && p2[i] == 0.) { d += m[i]; ad += fabs(m[i]); }
        scal(nm, v.linearDampingTerm_local(*S[s], *S[s2], mu, kd), d * mu * kd, 1e-13 * ad * mu * kd + 1e-300); } break;
      case 48: case 49: nm = op == 48 ? "fractionToTheBdry_local" : "fractionToTheBdry_w_pattern_local"; {
        double tau = r.u(0.5, 0.9999), al = 1;
        bool ok = true;
        for(int i = 0; i < n; i++) if((op == 48 || ps[i] == 1.) && !(m[i] > 0)) ok = false;
        if(!ok) continue;
        for(int i = e.lo; i < e.hi; i++) if((op == 48 || ps[i] == 1.) && ma[i] < 0) al = std::min(al, -tau * m[i] / ma[i]);
        double g = op == 48 ? v.fractionToTheBdry_local(*V[a], tau) : v.fractionToTheBdry_w_pattern_local(*V[a], tau, *S[s]);
        scal(nm, g, al, 0); } break;
      case 50: nm = "isnan/isinf/isfinite_local"; {
        if(n == 0) continue;
        int kind = r.i(0, 3), pos = r.i(0, n - 1);
        Vd w = m;
        if(kind == 1) w[pos] = NAN; else if(kind == 2) w[pos] = INFINITY; else if(kind == 3) w[pos] = -INFINITY;
        put(e, v, w);
        bool an = false, ai = false;
        for(int i = e.lo; i < e.hi; i++) { an |= std::isnan(w[i]); ai |= std::isinf(w[i]); }
        iscal("isnan_local", v.isnan_local(), an);
        iscal("isinf_local", v.isinf_local(), ai);
        iscal("isfinite_local", v.isfinite_local(), !an && !ai);
        put(e, v, m); } break;
      case 51: nm = "copyTo/copyFrom(array)"; {
        if(e.compound) continue;
        Vd buf(e.hi - e.lo + 1, 7.5);
        v.copyTo(buf.data());
        for(int i = e.lo; i < e.hi; i++) if(buf[i - e.lo] != m[i]) { R().viol("state:copyTo", "n=%d copyTo element %d", n, i); break; }
        if(buf[e.hi - e.lo] != 7.5) R().viol("state:copyTo", "n=%d copyTo wrote past the end", n);
        hiopVector* w = v.alloc_clone();
        w->copyFrom(buf.data());
        Vd g = get(e, *w);
        for(int i = e.lo; i < e.hi; i++) if(g[i - e.lo] != m[i]) { R().viol("state:copyFrom(array)", "n=%d element %d", n, i); break; }
        delete w; } break;
      case 52: nm = "new_copy"; {
        hiopVector* w = v.new_copy();
        Vd g = get(e, *w);
        for(int i = e.lo; i < e.hi; i++) if(g[i - e.lo] != m[i]) { R().viol("state:new_copy", "n=%d element %d", n, i); break; }
        if(w->get_size() != v.get_size() || (!e.compound && w->get_local_size() != v.get_local_size())) R().viol("state:new_copy", "sizes differ");
        w->setToConstant(3.25);
        check_const("new_copy(aliasing)", -1);
        delete w; } break;
      case 53: case 54: case 55: case 56: case 57: nm = "subvector copies"; {
        if(e.compound || e.distributed) continue;
        int which = r.i(0, 14);
        if(which == 0) {  // copyFromStarting(start, array, nv)
          int nvv = r.i(0, n), st = r.i(0, n - nvv);
          Vd w(nvv); for(auto& x : w) x = val(0);
          for(int i = 0; i < nvv; i++) m[st + i] = w[i];
          v.copyFromStarting(st, w.data(), nvv); nm = "copyFromStarting(array)";
        } else if(which == 1) {
          int nvv = r.i(0, n), st = r.i(0, n - nvv);
          hiopVectorPar w(nvv); for(int i = 0; i < nvv; i++) m[st + i] = (w.local_data()[i] = val(0));
          v.copyFromStarting(st, w); nm = "copyFromStarting(vec)";
        } else if(which == 2) {
          int st = r.i(0, 6); Vd w(n + st); for(auto& x : w) x = val(0);
          for(int i = 0; i < n; i++) m[i] = w[st + i];
          v.copy_from_starting_at(w.data(), st, n); nm = "copy_from_starting_at";
        } else if(which == 3) {
          int nvv = r.i(0, n), st = r.i(0, n - nvv);
          hiopVectorPar w(nvv); w.setToConstant(9.);
          v.copyToStarting(st, w); nm = "copyToStarting(start,dst)";
          for(int i = 0; i < nvv; i++) if(w.local_data()[i] != m[st + i]) { R().viol("state:copyToStarting", "n=%d st=%d i=%d", n, st, i); break; }
        } else if(which == 4) {
          int ex = r.i(0, 6), st = r.i(0, ex);
          hiopVectorPar w(n + ex); w.setToConstant(9.);
          v.copyToStarting(w, st); nm = "copyToStarting(dst,start)";
          for(int i = 0; i < n + ex; i++) { double rf = (i >= st && i < st + n) ? m[i - st] : 9.; if(w.local_data()[i] != rf) { R().viol("state:copyToStarting2", "n=%d st=%d i=%d", n, st, i); break; } }
        } else if(which == 5) {
          int cntp = 0; for(double x : ps) cntp += x == 1.;
          int st = r.i(0, 4), sz = st + cntp + r.i(0, 3);
          hiopVectorPar w(sz); w.setToConstant(9.);
          v.copyToStartingAt_w_pattern(w, st, *S[s]); nm = "copyToStartingAt_w_pattern";
          Vd rf(sz, 9.); int q = st; for(int i = 0; i < n; i++) if(ps[i] == 1.) rf[q++] = m[i];
          for(int i = 0; i < sz; i++) if(w.local_data()[i] != rf[i]) { R().viol("state:copyToStartingAt_w_pattern", "n=%d st=%d i=%d", n, st, i); break; }
        } else if(which == 6) {
          int dn = r.i(0, n + 4); hiopVectorPar w(dn); w.setToConstant(9.);
          int ss = r.i(0, n), sd = r.i(0, dn);
          int lim = std::min(n - ss, dn - sd);
          int ne = (r.b(0.4) || lim == 0) ? -1 : r.i(0, lim);
          v.startingAtCopyToStartingAt(ss, w, sd, ne); nm = "startingAtCopyToStartingAt";
          int cc = ne < 0 ? lim : ne;
          for(int i = 0; i < dn; i++) { double rf = (i >= sd && i < sd + cc) ? m[ss + i - sd] : 9.; if(w.local_data()[i] != rf) { R().viol("state:startingAtCopyToStartingAt", "n=%d dn=%d ss=%d sd=%d ne=%d i=%d", n, dn, ss, sd, ne, i); break; } }
        } else if(which == 7) {
          // split and merge through index maps
          int nc = r.i(0, n);
          std::vector<int> perm(n); for(int i = 0; i < n; i++) perm[i] = i;
          for(int i = n - 1; i > 0; i--) std::swap(perm[i], perm[r.i(0, i)]);
          hiopVectorIntSeq cm(nc), dm(n - nc);
          hiopVectorPar cv(nc), dv(n - nc);
          for(int i = 0; i < nc; i++) { cm.local_data()[i] = perm[i]; }
          for(int i = nc; i < n; i++) { dm.local_data()[i - nc] = perm[i]; }
          v.copy_to_two_vec_w_pattern(cv, cm, dv, dm); nm = "copy_to/from_two_vec_w_pattern";
          for(int i = 0; i < n; i++) { double g = i < nc ? cv.local_data()[i] : dv.local_data()[i - nc]; if(g != m[perm[i]]) { R().viol("state:copy_to_two_vec", "n=%d i=%d", n, i); break; } }
          cv.addConstant(1.); dv.scale(2.);
          for(int i = 0; i < n; i++) m[perm[i]] = i < nc ? m[perm[i]] + 1. : 2. * m[perm[i]];
          v.copy_from_two_vec_w_pattern(cv, cm, dv, dm);
        } else if(which == 8) {
          int sn = n + r.i(0, 5); if(sn == 0) continue;
          hiopVectorPar src(sn); for(int i = 0; i < sn; i++) src.local_data()[i] = val(0);
          hiopVectorIntSeq ix(n); for(int i = 0; i < n; i++) { ix.local_data()[i] = r.i(0, sn - 1); m[i] = src.local_data()[ix.local_data()[i]]; }
          if(r.b()) v.copy_from_indexes(src, ix); else v.copy_from_indexes(src.local_data_const(), ix);
          nm = "copy_from_indexes";
        } else if(which == 9) {
          if(n == 0) continue;
          int sd = r.i(0, n - 1), ss = r.i(0, 4); hiopVectorPar w(n - sd + ss + r.i(0, 3));
          for(int i = 0; i < w.get_local_size(); i++) w.local_data()[i] = val(0);
          for(int i = sd; i < n; i++) m[i] = w.local_data()[ss + i - sd];
          v.startingAtCopyFromStartingAt(sd, w, ss); nm = "startingAtCopyFromStartingAt";
        } else if(which == 10) {
          int dn = r.i(0, 2 * n + 4); hiopVectorPar w(dn), sel(dn); w.setToConstant(9.);
          int ss = r.i(0, n), sd = r.i(0, dn), lim = std::min(n - ss, dn - sd);
          double pr = r.u(); for(int i = 0; i < dn; i++) sel.local_data()[i] = r.b(pr) ? 1. : 0.;
          int ne = (r.b(0.4) || lim == 0) ? -1 : r.i(0, lim), cc = ne < 0 ? lim : ne;
          v.startingAtCopyToStartingAt_w_pattern(ss, w, sd, sel, ne); nm = "startingAtCopyToStartingAt_w_pattern";
          int q = 0;
          for(int i = 0; i < dn; i++) {
            double rf = 9.;
            if(i >= sd && q < cc && sel.local_data()[i] == 1.) rf = m[ss + q++];
            if(w.local_data()[i] != rf) { R().viol("state:startingAtCopyToStartingAt_w_pattern", "n=%d dn=%d ss=%d sd=%d ne=%d i=%d", n, dn, ss, sd, ne, i); break; }
          }
        } else if(which == 11) {
          hiopVectorPar w(n); w.setToConstant(9.);
          v.copy_to_vectorpar(w); nm = "copy_to/from_vectorpar";
          for(int i = 0; i < n; i++) if(w.local_data()[i] != m[i]) { R().viol("state:copy_to_vectorpar", "n=%d i=%d", n, i); break; }
          for(int i = 0; i < n; i++) m[i] = (w.local_data()[i] = val(0));
          v.copy_from_vectorpar(w);
        } else if(which == 12) {
          double lo = r.u(-5, 2), hi = lo + r.u(0.1, 4);
          v.set_to_random_uniform(lo, hi); nm = "set_to_random_uniform";
          Vd g = get(e, v);
          for(int i = 0; i < n; i++) if(!(g[i] >= lo && g[i] <= hi)) { R().viol("state:set_to_random_uniform", "%g outside [%g,%g]", g[i], lo, hi); break; }
          m = g;
        } else if(which == 13) {
          typedef hiopInterfaceBase::NonlinearityType NT;
          std::vector<NT> arr(n + 1, hiopInterfaceBase::hiopNonlinear), src(n + 4), ref;
          for(auto& q : src) q = r.b() ? hiopInterfaceBase::hiopLinear : hiopInterfaceBase::hiopQuadratic;
          int st = r.i(0, n), en = r.i(st, n), s0 = r.i(0, 3 + n - en + st);
          ref = arr; for(int i = st; i < en; i++) ref[i] = src[s0 + i - st];
          v.set_array_from_to(arr.data(), st, en, src.data(), s0); nm = "set_array_from_to";
          if(arr != ref) R().viol("state:set_array_from_to(array)", "n=%d [%d,%d) from %d", n, st, en, s0);
          for(int i = st; i < en; i++) ref[i] = hiopInterfaceBase::hiopLinear;
          v.set_array_from_to(arr.data(), st, en, hiopInterfaceBase::hiopLinear);
          if(arr != ref) R().viol("state:set_array_from_to(value)", "n=%d [%d,%d)", n, st, en);
        } else {
          int xn = r.i(0, n); hiopVectorPar x(xn); hiopVectorIntSeq ix(xn);
          std::vector<int> perm(n); for(int i = 0; i < n; i++) perm[i] = i;
          for(int i = n - 1; i > 0; i--) std::swap(perm[i], perm[r.i(0, i)]);
          for(int i = 0; i < xn; i++) { ix.local_data()[i] = perm[i]; x.local_data()[i] = r.i(-4, 4); m[perm[i]] += 2. * x.local_data()[i]; }
          v.axpy(2., x, ix); nm = "axpy(indexes)";
        }
        same(nm, t, m, 4 * keps + 1e-15);
        M[t] = get(e, *V[t]); } break;
      default: continue;
    }
    hist += fmt(" %s(%d)", nm, t);
    R().count(std::string("op:") + nm);
    check_const(nm, -1);
    ph = mix(ph, op * 64 + t * 16 + a * 4 + b);
    R().eval(mix(ph, hash_d(2, M[t].data(), n)), n > 0);
  }
  // integer vectors
  if(!e.compound && !e.distributed) {
    hiopVectorIntSeq iv(n), iw(n);
    int i0 = r.i(-9, 9), di = r.i(-4, 4);
    iv.linspace(i0, di);
    for(int i = 0; i < n; i++) if(iv.local_data()[i] != i0 + i * di) { R().viol("int:linspace", "n=%d i=%d got %d", n, i, iv.local_data()[i]); break; }
    iv.copy_to_vectorseq(iw);
    for(int i = 0; i < n; i++) if(iw.local_data()[i] != i0 + i * di) { R().viol("int:copy_to", "n=%d i=%d", n, i); break; }
    iw.set_to_constant(5); iv.copy_from_vectorseq(iw);
    for(int i = 0; i < n; i++) if(iv.local_data()[i] != 5) { R().viol("int:copy_from", "n=%d i=%d", n, i); break; }
    std::vector<hiop::index_type> raw(n);
    for(auto& v : raw) v = r.i(-1000, 1000);
    iv.copy_from(raw.data());
    for(int i = 0; i < n; i++) if(iv.local_data()[i] != raw[i] || iv.local_data_const()[i] != raw[i] || iv.local_data_host_const()[i] != raw[i]) { R().viol("int:copy_from_raw", "n=%d i=%d", n, i); break; }
    iv.set_to_zero();
    for(int i = 0; i < n; i++) if(iv.local_data()[i] != 0) { R().viol("int:set_to_zero", "n=%d i=%d", n, i); break; }
    if(iv.get_local_size() != n) R().viol("int:size", "n=%d", n);
    hiopVectorIntCompoundPD ci;
    std::vector<hiopVectorIntSeq*> parts;
    int np = r.i(0, 4), tot = 0;
    for(int q = 0; q < np; q++) { int l = r.i(0, 5); tot += l; auto* pv = new hiopVectorIntSeq(l); pv->linspace(q, 1); parts.push_back(pv); ci.addVector(pv); }
    if(ci.get_local_size() != tot || ci.get_num_parts() != np) R().viol("int:compound_size", "%d parts of total length %d, reported %d of %d", np, tot, ci.get_num_parts(), ci.get_local_size());
    for(int q = 0; q < np; q++) {
      if(&ci.getVector(q) != parts[q]) R().viol("int:compound_part", "part %d", q);
      for(int i = 0; i < (int)parts[q]->get_local_size(); i++) if(parts[q]->local_data()[i] != q + i) R().viol("int:compound_add", "part %d changed by being added", q);
    }
    ci.set_to_constant(7);
    for(auto* pv : parts) for(int i = 0; i < (int)pv->get_local_size(); i++) if(pv->local_data()[i] != 7) R().viol("int:compound_constant", "entry %d", i);
    ci.set_to_zero();
    for(auto* pv : parts) for(int i = 0; i < (int)pv->get_local_size(); i++) if(pv->local_data()[i] != 0) R().viol("int:compound_zero", "entry %d", i);
    R().count("op:int");
  }
  if(k < 3) R().sample(fmt("mode=%s n=%d program:%s", mode.c_str(), n, hist.substr(0, 600).c_str()));
  for(auto* p : V) delete p;
  for(auto* p : S) delete p;
}
}  // namespace

int main(int argc, char** argv) { return vh::run(argc, argv, body); }
