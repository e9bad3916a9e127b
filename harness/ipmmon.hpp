// Online monitor of one interior-point solve, attached by deriving from the solver classes.
// Everything is recomputed from the user's problem (Prob) and the solver's own iterate; the
// solver's derived quantities (residuals, merit values, filter, direction) are compared with it.
#pragma once
#include "prob.hpp"
extern "C" void dsyev_(const char*, const char*, const int*, double*, const int*, double*, double*, const int*, int*);
#include "hiopMatrixMDS.hpp"
#include "hiopFilter.hpp"
#include "hiopLogBarProblem.hpp"
#include "hiopResidual.hpp"
#include "hiopRunStats.hpp"
#include "hiopLogger.hpp"
#include "hiopFRProb.hpp"
#include <type_traits>

using vh::R;
inline VD vget(const hiop::hiopVector* v) { const double* p = v->local_data_const(); return VD(p, p + v->get_local_size()); }
inline double ninf(const VD& v) { double r = 0; for(double a : v) { if(std::isnan(a)) return NAN; r = std::max(r, fabs(a)); } return r; }
inline double none_(const VD& v) { double r = 0; for(double a : v) r += fabs(a); return r; }

struct It { VD x, d, sxl, sxu, sdl, sdu, yc, yd, zl, zu, vl, vu; };
inline It itget(const hiop::hiopIterate& i)
{
  It r;
  r.x = vget(i.get_x()); r.d = vget(i.get_d());
  r.sxl = vget(i.get_sxl()); r.sxu = vget(i.get_sxu()); r.sdl = vget(i.get_sdl()); r.sdu = vget(i.get_sdu());
  r.yc = vget(i.get_yc()); r.yd = vget(i.get_yd());
  r.zl = vget(i.get_zl()); r.zu = vget(i.get_zu()); r.vl = vget(i.get_vl()); r.vu = vget(i.get_vu());
  return r;
}

struct MonCfg {
  bool newton = false, lsq_duals = false, soc = true, elastic = false, randomized = false, inertia_free = false;
  double moving_abs = 0, moving_rel = 0;
  bool fixed_removed = false;
  bool accept_all = false, force_fr = false, forcequick = false;
  double relax = 1e-8;
  bool scaling = true;
  bool odd_sigma = false;  // initial matrix unrelated to the curvature
  bool scaling_default = true;  // default scaling options
};

template <class Base>
class Mon : public Base {
public:
  User& u; Prob& p; MonCfg cfg;
  VI kept, eq, in;   // solver variable -> user variable, equality/inequality rows
  std::string tag;
  // scaling found
  double sf = 1; VD s; std::vector<char> sknown;
  // history
  bool started = false;
  It cur, prev; double mu_prev = -1, mu_used = 0, tau_used = 0;
  int last_it = -1; bool fr = false; int fr_count = 0; int soft = 0;
  int ls = -1, lsnum = 0, soc = 0, ufr = 0; int ntrial = 0;
  std::vector<std::pair<double, double>> filt;
  bool filt_known = true;
  double th_max = 0, th_min = 0;
  double errlog_ref = 0, errnlp_ref = 0, theta_ref = 0, phi_ref = 0;
  double kktres_max = 0;
  VD dirx, dird;
  bool dir_seen = false;
  double e_pr = 0, e_du = 0, e_co = 0, e_cv = 0, sd_ref = 1, sc_ref = 1;
  double logo = 0, logc = 0;
  std::vector<double> errs;  // scaled overall error per iteration
  std::vector<char> full_ok;  // ... and all four tolerances met with a margin
  std::vector<double> mus;
  double err0_du = 0, err0_pr = 0, err0_co = 0;
  int nit_seen = 0; bool in_iter = false;
  double acc_theta = 0, acc_phi = 0; bool acc_add = false, acc_add_known = false; int acc_ls = 0;
  bool fault_seen() const { return u.nfault > 0; }
  double minslack = 1e300;
  std::string rowinfo;  // how each iterate was reached
  bool bounds_moved = false;  // elastic mode changed the bounds since the last iteration
  double erelax = -1;  // relaxation in use in elastic mode
  bool breakdown = false;  // a singular quasi-Newton system was met: nothing is promised about what follows
  bool wild = false;  // numbers out of the range in which comparisons are meaningful
  double last_obj_user = 0;
  bool first_start_checked = false;

  Mon(hiop::hiopNlpFormulation* nlp, User& u_, const MonCfg& c, hiop::hiopNlpDenseConstraints* nd = nullptr);

  VD xfull(const VD& x) const
  {
    VD r(p.n);
    for(int i = 0; i < p.n; i++) r[i] = p.xl[i];
    for(size_t k = 0; k < kept.size(); k++) r[kept[k]] = x[k];
    return r;
  }
  int N() const { return kept.size(); }
  double row(int j) const { return sknown[j] || !cfg.scaling_default ? s[j] : 1; }
  void V(const char* key, const char* fmt, ...)
  {
    char b[1200];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    R().viol(key, "[%s] iteration %d: %s", tag.c_str(), last_it, b);
  }
  void init_maps()
  {
    for(int j = 0; j < p.m; j++) (p.is_eq(j) ? eq : in).push_back(j);
    for(int i = 0; i < p.n; i++) if(!cfg.fixed_removed || !p.is_fixed(i)) kept.push_back(i);
    s.assign(p.m, 1); sknown.assign(p.m, cfg.scaling ? 0 : 1);
  }
  // column i of a solver Jacobian by a product with a unit vector
  std::vector<VD> jacmat(const hiop::hiopMatrix* J, int m)
  {
    std::vector<VD> r(m, VD(N()));
    if(m == 0) return r;
    hiop::hiopVector* e = this->nlp->alloc_primal_vec();
    hiop::hiopVector* y = (J == this->_Jac_c) ? this->nlp->alloc_dual_eq_vec() : this->nlp->alloc_dual_ineq_vec();
    for(int i = 0; i < N(); i++) {
      e->setToZero();
      e->local_data()[i] = 1;
      y->setToZero();
      J->timesVec(0., *y, 1., *e);
      for(int j = 0; j < m; j++) r[j][i] = y->local_data()[j];
    }
    delete e; delete y;
    return r;
  }
  // merit quantities of a point, in the solver's scaling
  double theta_of(const VD& x, const VD& d, double* comp = nullptr)
  {
    VD xf = xfull(x);
    double t = 0, mx = 0;
    for(int j : eq) { double r = fabs(row(j) * (p.con(j, xf.data()) - p.cl[j])); t += r; mx = std::max(mx, r); }
    for(size_t k = 0; k < in.size(); k++) { double r = fabs(row(in[k]) * p.con(in[k], xf.data()) - d[k]); t += r; mx = std::max(mx, r); }
    if(comp) *comp = mx;
    return t;
  }
  double phi_of(const It& i, double mu, double* magn = nullptr)
  {
    VD xf = xfull(i.x);
    double f = sf * p.f(xf.data()), a = fabs(f), r = f;
    auto part = [&](const VD& sl, const VD& su, const VD& il, const VD& iu) {
      for(size_t k = 0; k < sl.size(); k++) {
        bool L = il[k] == 1, U = iu[k] == 1;
        if(L) { double t = mu * log(sl[k]); r -= t; a += fabs(t); }
        if(U) { double t = mu * log(su[k]); r -= t; a += fabs(t); }
        if(L && !U) r += mu * 1e-5 * sl[k], a += fabs(mu * 1e-5 * sl[k]);
        if(U && !L) r += mu * 1e-5 * su[k], a += fabs(mu * 1e-5 * su[k]);
      }
    };
    part(i.sxl, i.sxu, ixl, ixu);
    part(i.sdl, i.sdu, idl, idu);
    if(magn) *magn = a;
    return r;
  }
  VD ixl, ixu, idl, idu, bxl, bxu, bdl, bdu, crhs;
  void bounds()
  {
    auto* n = this->nlp;
    ixl = vget(&n->get_ixl()); ixu = vget(&n->get_ixu()); idl = vget(&n->get_idl()); idu = vget(&n->get_idu());
    bxl = vget(&n->get_xl()); bxu = vget(&n->get_xu()); bdl = vget(&n->get_dl()); bdu = vget(&n->get_du());
    crhs = vget(&n->get_crhs());
  }
  bool near(double a, double b, double rt, double at) { return vh::close(a, b, rt, at); }

  // the factor by which each constraint is scaled, from the solver's Jacobian and the user's
  void learn_scales(const VD& xf)
  {
    if(!cfg.scaling) return;
    bool need = false;
    for(char k : sknown) need = need || !k;
    if(!need) return;
    auto Jc = jacmat(this->_Jac_c, eq.size()), Jd = jacmat(this->_Jac_d, in.size());
    for(int b = 0; b < 2; b++) {
      const VI& rows = b ? in : eq;
      for(size_t r = 0; r < rows.size(); r++) {
        int j = rows[r];
        int im = 0;
        double mx = 0, mj = 0;
        for(int i = 0; i < N(); i++) { double v = fabs(p.jac(j, kept[i], xf.data())); if(v > mx) { mx = v; im = i; } }
        (void)mj;
        if(!sknown[j] && N() && mx > (cfg.scaling_default ? 1e-8 : 1e-200)) {
          s[j] = (b ? Jd : Jc)[r][im] / p.jac(j, kept[im], xf.data());
          sknown[j] = 1;
          if(!cfg.scaling_default) for(int q : rows) if(!sknown[q]) s[q] = s[j];  // one factor for all
          if(!(s[j] > 0) || s[j] > 1 + 1e-9) { if(cfg.scaling_default) V("P08:scale_range", "row %d of the constraints is scaled by %g", j, s[j]); }
        }
      }
    }
  }
  //---- compare what the solver holds about the current point with the user's functions
  void check_evals(const VD& xf)
  {
    const double fu = sf * p.f(xf.data());
    // magnitude of terms for rounding
    if(!near(this->_f_nlp, fu, 1e-10, 1e-9 * (1 + ninf(xf)))) V("P05:stale_f", "objective held %.15g, at the current point it is %.15g", this->_f_nlp, fu);
    learn_scales(xf);
    VD c = vget(this->_c), d = vget(this->_d);
    VD g = vget(this->_grad_f), gu(p.n);
    p.grad(xf.data(), gu.data());
    for(int i = 0; i < N(); i++)
      if(!near(g[i], sf * gu[kept[i]], 1e-9, 1e-9 * (1 + sf * ninf(gu)))) { V("P05:stale_grad", "gradient[%d] held %.15g, at the current point it is %.15g", i, g[i], sf * gu[kept[i]]); break; }
    auto Jc = jacmat(this->_Jac_c, eq.size()), Jd = jacmat(this->_Jac_d, in.size());
    for(int b = 0; b < 2; b++) {
      auto& J = b ? Jd : Jc;
      const VI& rows = b ? in : eq;
      for(size_t r = 0; r < rows.size(); r++) {
        int j = rows[r];
        VD ju(N());
        for(int i = 0; i < N(); i++) ju[i] = p.jac(j, kept[i], xf.data());
        if(!sknown[j]) continue;
        double mj = ninf(ju);
        for(int i = 0; i < N(); i++)
          if(!near(J[r][i], s[j] * ju[i], 1e-9, 1e-9 * (1e-3 + s[j] * mj))) { V(b ? "P05:stale_jac_d" : "P05:stale_jac_c", "Jacobian of %s %d, variable %d held %.15g, at the current point it is %.15g", b ? "inequality" : "equality", j, i, J[r][i], s[j] * ju[i]); break; }
        double cu = s[j] * p.con(j, xf.data()), ch = b ? d[r] : c[r];
        if(!near(ch, cu, 1e-9, 1e-9 * (1 + s[j] * mj * (1 + ninf(xf))))) V(b ? "P05:stale_d" : "P05:stale_c", "constraint %d held %.15g, at the current point it is %.15g", j, ch, cu);
        if(!b && !near(crhs[r], s[j] * p.cl[j], 1e-10, 1e-12)) V("P08:scaled_rhs", "right-hand side of equality %d is %.15g, expected %.15g", j, crhs[r], s[j] * p.cl[j]);
      }
    }
    R().count("evals_checked");
  }
  // bounds in use: the user's, scaled, enlarged by at most the relaxation
  void check_bounds_in_use()
  {
    auto one = [&](const char* what, int k, double b, double ub, double sc, bool lower) {
      if(cfg.elastic) cfg.relax = this->nlp->options->GetNumeric("elastic_mode_bound_relax_initial");
      double r = cfg.relax * sc * std::max(1.0, fabs(ub));  // relaxed, then scaled
      double sl = 1e-10 * std::max(1., fabs(ub * sc)) + 1e-3 * r;
      double enl = lower ? ub * sc - b : b - ub * sc;
      if(cfg.elastic) {
        if(enl > r * (1 + 1e-6) + 1e-11 * std::max(1., fabs(ub * sc))) V("P29:too_loose", "%s %d in use is %.15g, the user's is %.15g (largest relaxation %g)", what, k, b, ub * sc, cfg.relax);
        if(enl < -1e-9 * std::max(1., fabs(ub * sc))) V("P29:tightened", "%s %d in use is %.15g, tighter than the user's %.15g", what, k, b, ub * sc);
        return;
      }
      if(enl < -1e-12 * std::max(1., fabs(ub * sc)) || enl > r + sl) V("P02:bound_in_use", "%s %d in use is %.15g, the user's is %.15g (relaxation %g)", what, k, b, ub * sc, cfg.relax);
    };
    for(int i = 0; i < N(); i++) {
      int k = kept[i];
      if((ixl[i] == 1) != (p.xl[k] > -INFB) || (ixu[i] == 1) != (p.xu[k] < INFB)) V("P02:bound_pattern", "variable %d has user bounds [%g,%g] but indicators %g,%g", k, p.xl[k], p.xu[k], ixl[i], ixu[i]);
      if(p.is_fixed(k)) continue;  // treated as fixed
      if(ixl[i] == 1) one("lower bound of variable", k, bxl[i], p.xl[k], 1, true);
      if(ixu[i] == 1) one("upper bound of variable", k, bxu[i], p.xu[k], 1, false);
    }
    for(size_t r = 0; r < in.size(); r++) {
      int j = in[r];
      if((idl[r] == 1) != (p.cl[j] > -INFB) || (idu[r] == 1) != (p.cu[j] < INFB)) V("P02:bound_pattern", "inequality %d has bounds [%g,%g] but indicators %g,%g", j, p.cl[j], p.cu[j], idl[r], idu[r]);
      if(!sknown[j]) continue;
      if(idl[r] == 1) one("lower bound of constraint", j, bdl[r], p.cl[j], s[j], true);
      if(idu[r] == 1) one("upper bound of constraint", j, bdu[r], p.cu[j], s[j], false);
    }
  }
  // elastic mode: the bounds right after the barrier parameter became mu
  void check_elastic(double mu)
  {
    auto* o = this->nlp->options;
    double ini = o->GetNumeric("elastic_mode_bound_relax_initial"), fin = o->GetNumeric("elastic_mode_bound_relax_final"), tol = o->GetNumeric("tolerance"), mu0 = o->GetNumeric("mu0");
    bool adj = o->GetString("elastic_mode") == "correct_it_adjust_bound";
    double e = o->GetString("elastic_bound_strategy") == "mu_scaled" ? 0.995 * mu : (mu - tol) / (mu0 - tol) * (ini - fin) + fin;
    e = std::max(std::min(e, ini), fin);
    auto one = [&](const char* what, int k, double b, double ub, double sc, bool lower) {
      double sz = sc * std::max(1., fabs(ub)), x = (lower ? ub * sc - b : b - ub * sc) / sz;
      bool ok = adj ? x > e * (1 - 1e-9) - 1e-11 && x < ini * (1 + 1e-9) + 1e-11 : fabs(x - e) < 1e-9 * e + 1e-11;
      if(!ok) V("P29:elastic_bound", "%s %d is relaxed by %.12g relative, %.12g is due at mu=%.6g", what, k, x, e, mu);
    };
    for(int i = 0; i < N(); i++) {
      if(p.is_fixed(kept[i])) continue;
      if(ixl[i] == 1) one("lower bound of variable", kept[i], bxl[i], p.xl[kept[i]], 1, true);
      if(ixu[i] == 1) one("upper bound of variable", kept[i], bxu[i], p.xu[kept[i]], 1, false);
    }
    for(size_t r = 0; r < in.size(); r++) {
      if(!sknown[in[r]]) continue;
      if(idl[r] == 1) one("lower bound of constraint", in[r], bdl[r], p.cl[in[r]], s[in[r]], true);
      if(idu[r] == 1) one("upper bound of constraint", in[r], bdu[r], p.cu[in[r]], s[in[r]], false);
    }
    if(erelax >= 0 && e > erelax * (1 + 1e-12)) V("P29:elastic_grows", "relaxation grows from %.12g to %.12g", erelax, e);
    erelax = e;
    R().count("elastic_updates");
    R().maxv("elastic_relaxation", e);
  }
  // slacks, signs and patterns of an iterate
  void check_iterate_shape(const It& i)
  {
    auto part = [&](const char* nm, const VD& sl, const VD& z, const VD& ix, const VD& v, const VD& b, double sg) {
      for(size_t k = 0; k < sl.size(); k++) {
        if(ix[k] == 1) {
          if(!(sl[k] > 0)) V("P05:slack_positive", "slack %s[%d]=%.6g", nm, (int)k, sl[k]);
          if(!(z[k] > 0)) V("P05:mult_positive", "multiplier of %s[%d]=%.6g", nm, (int)k, z[k]);
          minslack = std::min(minslack, sl[k]);
          double e = sg * (v[k] - b[k]);
          if(!near(e, sl[k], 1e-9, 1e-11 * (1 + fabs(b[k]) + fabs(v[k])))) V("P05:slack_value", "slack %s[%d]=%.15g, distance to its bound is %.15g", nm, (int)k, sl[k], e);
        } else {
          if(sl[k] != 0) V("P05:slack_zero", "slack %s[%d]=%.6g without a bound", nm, (int)k, sl[k]);
          if(z[k] != 0) V("P05:mult_zero", "multiplier of %s[%d]=%.6g without a bound", nm, (int)k, z[k]);
        }
      }
    };
    part("xl", i.sxl, i.zl, ixl, i.x, bxl, 1);
    part("xu", i.sxu, i.zu, ixu, i.x, bxu, -1);
    part("dl", i.sdl, i.vl, idl, i.d, bdl, 1);
    part("du", i.sdu, i.vu, idu, i.d, bdu, -1);
  }
  // reference values of the error measures at the current iterate for barrier parameter mu
  void ref_errors(const It& i, double mu)
  {
    VD xf = xfull(i.x), g(p.n);
    p.grad(xf.data(), g.data());
    e_du = 0; logo = 0;
    double nb = 0, ne = 0;
    for(int k = 0; k < N(); k++) {
      double r = sf * g[kept[k]];
      for(size_t a = 0; a < eq.size(); a++) r += row(eq[a]) * p.jac(eq[a], kept[k], xf.data()) * i.yc[a];
      for(size_t a = 0; a < in.size(); a++) r += row(in[a]) * p.jac(in[a], kept[k], xf.data()) * i.yd[a];
      r += -i.zl[k] + i.zu[k];
      e_du = std::max(e_du, fabs(r));
      double damp = (ixl[k] == 1 && ixu[k] != 1) ? 1e-5 * mu : (ixu[k] == 1 && ixl[k] != 1) ? -1e-5 * mu : 0;
      logo = std::max(logo, fabs(r + damp));
      nb += fabs(i.zl[k]) + fabs(i.zu[k]);
    }
    for(size_t a = 0; a < in.size(); a++) {
      double r = i.yd[a] + i.vl[a] - i.vu[a];
      double damp = (idl[a] == 1 && idu[a] != 1) ? 1e-5 * mu : (idu[a] == 1 && idl[a] != 1) ? -1e-5 * mu : 0;
      e_du = std::max(e_du, fabs(r));
      logo = std::max(logo, fabs(r - damp));
      nb += fabs(i.vl[a]) + fabs(i.vu[a]);
      ne += fabs(i.yd[a]);
    }
    for(double y : i.yc) ne += fabs(y);
    theta_ref = theta_of(i.x, i.d, &e_pr);
    e_co = 0; logc = 0;
    int nc = 0;
    auto part = [&](const VD& sl, const VD& z, const VD& ix) {
      for(size_t k = 0; k < sl.size(); k++)
        if(ix[k] == 1) { nc++; e_co = std::max(e_co, fabs(sl[k] * z[k])); logc = std::max(logc, fabs(mu - sl[k] * z[k])); }
    };
    part(i.sxl, i.zl, ixl); part(i.sxu, i.zu, ixu); part(i.sdl, i.vl, idl); part(i.sdu, i.vu, idu);
    e_cv = 0;
    for(size_t a = 0; a < eq.size(); a++) e_cv = std::max(e_cv, fabs(row(eq[a]) * p.con(eq[a], xf.data()) - crhs[a]));
    for(size_t a = 0; a < in.size(); a++) {
      double d = row(in[a]) * p.con(in[a], xf.data());
      if(idl[a] == 1) e_cv = std::max(e_cv, bdl[a] - d);
      if(idu[a] == 1) e_cv = std::max(e_cv, d - bdu[a]);
    }
    double smax = this->nlp->options->GetNumeric("smax");
    sd_ref = std::min(1e8, std::max(smax, (nb + ne) / (nc + p.m)) / smax);
    sc_ref = nc == 0 ? 0 : std::min(1e8, std::max(smax, nb / nc) / smax);
    if(nc + p.m == 0) sd_ref = 1;
    errnlp_ref = std::max(e_du / sd_ref, std::max(e_cv, nc ? e_co / sc_ref : 0.));
    errlog_ref = std::max(logo / sd_ref, std::max(e_cv, nc ? logc / sc_ref : 0.));
    if(!cfg.newton && p.family != CONVEX && p.family != LP) {
      bool bad = !std::isfinite(ninf(i.x)) || !std::isfinite(nb + ne);
      for(size_t k = 0; k < i.sxl.size(); k++) bad = bad || (ixl[k] == 1 && !(i.sxl[k] > 0)) || (ixu[k] == 1 && !(i.sxu[k] > 0));
      for(size_t k = 0; k < i.sdl.size(); k++) bad = bad || (idl[k] == 1 && !(i.sdl[k] > 0)) || (idu[k] == 1 && !(i.sdu[k] > 0));
      if(bad && !breakdown) { breakdown = R().mute = true; R().count("singular_breakdowns"); }
    }
    wild = breakdown || !(ninf(i.x) < 1e8) || !(nb + ne < 1e12) || !(theta_ref < 1e15);
  }

  //==== hooks
  int startingProcedure(hiop::hiopIterate& it, double& f, hiop::hiopVector& c, hiop::hiopVector& d, hiop::hiopVector& g, hiop::hiopMatrix& Jc, hiop::hiopMatrix& Jd) override
  {
    u.grad0.clear();
    int r = Base::startingProcedure(it, f, c, d, g, Jc, Jd);
    started = false; last_it = -1; fr = false; filt.clear(); filt_known = true; mu_prev = -1; rowinfo.clear(); erelax = -1; bounds_moved = false; errs.clear(); full_ok.clear(); mus.clear(); in_iter = false; acc_add_known = true; acc_ls = -1; dir_seen = false;
    if(cfg.scaling) { s.assign(p.m, 1); sknown.assign(p.m, 0); }  // the factors belong to this start
    if(r && !fault_seen()) { check_start(it); check_scaling(); }
    return r;
  }
  // the scaling factors are those of the documented rule, with the gradients at the point of the first evaluation
  void check_scaling()
  {
    if(u.part.size() || wild) return;
    auto* o = this->nlp->options;
    if(!cfg.scaling) {
      if(sf != 1) V("P08:scaling_factor", "objective scaled by %.15g though no scaling was asked for", sf);
      return;
    }
    if((int)u.grad0.size() != p.n) return;
    double mg = o->GetNumeric("scaling_max_grad"), mo = o->GetNumeric("scaling_max_obj_grad"), mc = o->GetNumeric("scaling_max_con_grad"), mn = o->GetNumeric("scaling_min_grad");
    const double* x = u.grad0.data();
    VD g(p.n), rn(p.m, 0.);
    p.grad(x, g.data());
    double gm = 0, ce = 0, ci = 0;
    for(int k : kept) gm = std::max(gm, fabs(g[k]));
    for(int j = 0; j < p.m; j++) {
      for(int k : kept) rn[j] = std::max(rn[j], fabs(p.jac(j, k, x)));
      double& t = p.is_eq(j) ? ce : ci;
      t = std::max(t, rn[j]);
    }
    if(!std::isfinite(gm) || !std::isfinite(ce + ci)) return;
    double to = mo > 0 ? mo : mg, tc = mc > 0 ? mc : mg;
    auto tie = [](double a, double b) { return fabs(a - b) <= 1e-9 * fabs(b); };
    if(tie(gm, to) || tie(ce, tc) || tie(ci, tc) || tie(gm, mg) || tie(ce, mg) || tie(ci, mg)) return;
    bool trig = gm >= to || ce >= tc || ci >= tc;
    auto low = [&](double f) { return mn > 0 ? std::max(f, mn) : f; };
    double e = !trig ? 1 : low(mo > 0 ? (gm > 0 ? mo / gm : 1) : gm > mg ? mg / gm : 1);
    if(!near(sf, e, 1e-9, 0)) V("P08:scaling_factor", "objective with gradient of size %.9g at the start is scaled by %.12g, expected %.12g", gm, sf, e);
    double se = 0, si = 0;
    bool ke = true, ki = true;
    for(int j = 0; j < p.m; j++) {
      bool q = p.is_eq(j);
      if(!sknown[j]) { (q ? ke : ki) = false; continue; }
      if(!trig || mc == 0) {
        double f = !trig ? 1 : low(rn[j] > mg ? mg / rn[j] : 1);
        if(!near(s[j], f, 1e-7, 0)) { V("P08:scaling_factor", "constraint %d with gradient of size %.9g at the start is scaled by %.12g, expected %.12g", j, rn[j], s[j], f); break; }
      } else (q ? se : si) = std::max(q ? se : si, s[j] * rn[j]);
    }
    if(trig && mc > 0) {  // the largest gradient gets the size asked for
      auto set = [&](const char* nm, bool known, double sc, double mx) {
        if(!known || !(mx > 1e-8) || low(mc / mx) != mc / mx) return;
        if(!near(sc, mc, 1e-7, 0)) V("P08:scaling_factor", "largest scaled gradient of the %s is %.12g, %.12g was asked for", nm, sc, mc);
      };
      set("equalities", ke, se, ce);
      set("inequalities", ki, si, ci);
    }
    R().count(trig ? "scalings_checked" : "no_scalings_checked");
  }
  // residual of the normal equations of the least-squares multipliers, relative to their terms
  double lsq_residual(const It& i, const VD& xf)
  {
    VD g(p.n), r1(N()), m1(N()), r2(in.size()), m2(in.size());
    p.grad(xf.data(), g.data());
    for(int k = 0; k < N(); k++) {
      double t = sf * g[kept[k]];
      r1[k] = t - i.zl[k] + i.zu[k]; m1[k] = fabs(t) + fabs(i.zl[k]) + fabs(i.zu[k]);
      for(size_t a = 0; a < eq.size(); a++) { t = row(eq[a]) * p.jac(eq[a], kept[k], xf.data()) * i.yc[a]; r1[k] += t; m1[k] += fabs(t); }
      for(size_t a = 0; a < in.size(); a++) { t = row(in[a]) * p.jac(in[a], kept[k], xf.data()) * i.yd[a]; r1[k] += t; m1[k] += fabs(t); }
    }
    for(size_t a = 0; a < in.size(); a++) { r2[a] = -i.yd[a] - i.vl[a] + i.vu[a]; m2[a] = fabs(i.yd[a]) + fabs(i.vl[a]) + fabs(i.vu[a]); }
    double worst = 0;
    for(int b = 0; b < 2; b++) {
      const VI& rows = b ? in : eq;
      for(size_t a = 0; a < rows.size(); a++) {
        double q = 0, m = 1e-300;
        for(int k = 0; k < N(); k++) { double J = row(rows[a]) * p.jac(rows[a], kept[k], xf.data()); q += J * r1[k]; m += fabs(J) * m1[k]; }
        if(b) { q -= r2[a]; m += m2[a]; }
        double jm = 0;
        // the scale of the whole system counts: the factorisation is backward stable for the matrix, not per row
        for(int k = 0; k < N(); k++) jm = std::max(jm, m1[k]);
        double jmax = b ? 1 : 0;
        for(int j = 0; j < p.m; j++) for(int k = 0; k < N(); k++) jmax = std::max(jmax, fabs(row(j) * p.jac(j, kept[k], xf.data())));
        m += jmax * jm;
        worst = std::max(worst, fabs(q) / m);
      }
    }
    return worst;
  }
  // the starting point against what the user gave and the documented initialisation
  void check_start(const hiop::hiopIterate& it)
  {
    auto* o = this->nlp->options;
    sf = this->nlp->get_obj_scale();
    bounds();
    It i = itget(it);
    VD xf = xfull(i.x);
    wild = !(ninf(i.x) < 1e8);
    if(wild || u.part.size()) return;
    learn_scales(xf);
    bool all = true;
    for(char k : sknown) all = all && k;
    double k1 = o->GetNumeric("kappa1"), k2 = o->GetNumeric("kappa2"), mu0 = o->GetNumeric("mu0");
    bool ws = o->GetString("warm_start") == "yes", warm = ws && u.warm;
    int given = warm ? 3 : ws ? -1 : u.start_mode;
    auto proj = [&](double v, double l, double h, bool L, bool H) {
      if(warm) return v;
      if(L && H) { double a = l + std::min(k1 * std::max(1., fabs(l)), k2 * (h - l)), b = h - std::min(k1 * std::max(1., fabs(h)), k2 * (h - l)); return v < a ? a : v > b ? b : v; }
      if(L) return std::max(v, l + k1 * std::max(1., fabs(l)));
      if(H) return std::min(v, h - k1 * std::max(1., fabs(h)));
      return v;
    };
    auto tol = [&](double v, double l, double h, bool L, bool H) { return 1e-11 * (1 + fabs(v) + (L ? fabs(l) : 0) + (H ? fabs(h) : 0)); };
    for(int k = 0; k < N(); k++) {
      double v = given < 0 ? 0 : p.x0[kept[k]], e = proj(v, bxl[k], bxu[k], ixl[k] == 1, ixu[k] == 1);
      if(!near(i.x[k], e, 0, tol(v, bxl[k], bxu[k], ixl[k] == 1, ixu[k] == 1))) { V("P12:x0", "the start has x[%d]=%.15g; %.15g given, projected %.15g", kept[k], i.x[k], v, e); break; }
    }
    for(size_t a = 0; a < in.size(); a++) {
      int j = in[a];
      if(!sknown[j]) continue;
      double v = given >= 3 ? u.s0[a] * row(j) : row(j) * p.con(j, xf.data()), e = proj(v, bdl[a], bdu[a], idl[a] == 1, idu[a] == 1);
      double mg = 1;
      for(int k = 0; k < N(); k++) mg += fabs(row(j) * p.jac(j, kept[k], xf.data()) * i.x[k]);
      if(!near(i.d[a], e, 0, tol(v, bdl[a], bdu[a], idl[a] == 1, idu[a] == 1) + 1e-11 * mg)) { V("P12:d0", "the start has slack variable %.15g of inequality %d; %s %.15g, projected %.15g", i.d[a], j, given >= 3 ? "given" : "constraint value", v, e); break; }
    }
    bool da = given >= 2;
    auto zz = [&](const char* nm, const VD& z, const VD& ix, const VD* z0, const VI* map) {
      for(size_t k = 0; k < z.size(); k++) {
        double e = ix[k] == 1 ? (da ? (*z0)[map ? (*map)[k] : k] * sf : 1) : 0;
        if(!near(z[k], e, 1e-13, 1e-300)) { V("P12:z0", "the start has multiplier %s[%d]=%.15g, expected %.15g", nm, (int)k, z[k], e); return; }
      }
    };
    zz("zl", i.zl, ixl, &u.zl0, &kept); zz("zu", i.zu, ixu, &u.zu0, &kept);
    auto vv = [&](const char* nm, const VD& v, const VD& ix, const VD& sl, const VD& v0) {
      for(size_t a = 0; a < v.size(); a++) {
        double e = ix[a] != 1 ? 0 : !da ? 1 : warm ? v0[a] * sf / row(in[a]) : mu0 / sl[a];
        if(!sknown[in[a]] && warm) continue;
        if(!near(v[a], e, 1e-9, 1e-300)) { V("P12:v0", "the start has multiplier %s[%d]=%.15g, expected %.15g", nm, (int)a, v[a], e); return; }
      }
    };
    vv("vl", i.vl, idl, i.sdl, u.vl0); vv("vu", i.vu, idu, i.sdu, u.vu0);
    if(!all) return;
    if(da) {
      for(int b = 0; b < 2; b++) {
        const VI& rows = b ? in : eq;
        const VD& y = b ? i.yd : i.yc;
        for(size_t a = 0; a < rows.size(); a++) {
          double e = u.lam0[rows[a]] * sf / row(rows[a]);
          if(!near(y[a], e, 1e-9, 1e-300)) { V("P12:lambda0", "the start has multiplier %.15g of constraint %d, expected %.15g", y[a], rows[a], e); break; }
        }
      }
      R().count(warm ? "warm_starts" : given == 3 ? "starts_duals_slacks" : "starts_duals");
    } else if(o->GetString("duals_init") == "zero") {
      if(ninf(i.yc) != 0 || ninf(i.yd) != 0) V("P12:lambda0_zero", "the start has multipliers of norm %g, zeros were asked for", std::max(ninf(i.yc), ninf(i.yd)));
      R().count("starts_zero_duals");
    } else if(p.m) {
      double mx = o->GetNumeric("duals_lsq_ini_max"), yn = std::max(ninf(i.yc), ninf(i.yd));
      if(yn > mx * (1 + 1e-12)) V("P12:lambda0_max", "least-squares multipliers of norm %g used, the limit is %g", yn, mx);
      if(yn > 0) {
        double rel = lsq_residual(i, xf);
        R().maxv("lsq_start_residual", rel);
        if(!(rel < 1e-8)) V("P12:lambda0_lsq", "initial multipliers are not the least-squares ones: relative residual of the normal equations %g", rel);
        R().count("starts_lsq");
      } else if(p.fullrank && p.m <= N() && lsq_should_be_small(i, xf, mx)) V("P12:lambda0_none", "initial multipliers are zero though the least-squares ones are below the limit %g", mx);
    }
    R().count("starts_checked");
  }
  // true if the least-squares multipliers exist, are clearly nonzero and clearly below mx
  bool lsq_should_be_small(const It& i, const VD& xf, double mx)
  {
    int me = eq.size(), m = p.m;
    std::vector<VD> J(m, VD(N()));
    for(int a = 0; a < m; a++) { int j = a < me ? eq[a] : in[a - me]; for(int k = 0; k < N(); k++) J[a][k] = row(j) * p.jac(j, kept[k], xf.data()); }
    std::vector<VD> M(m, VD(m + 1));
    VD g(p.n);
    p.grad(xf.data(), g.data());
    double mxm = 0, smallest = 1e300;
    for(int a = 0; a < m; a++) {
      for(int b = 0; b < m; b++) { double t = (a == b && a >= me) ? 1 : 0; for(int k = 0; k < N(); k++) t += J[a][k] * J[b][k]; M[a][b] = t; mxm = std::max(mxm, fabs(t)); }
      double t = 0;
      for(int k = 0; k < N(); k++) t -= J[a][k] * (sf * g[kept[k]] - i.zl[k] + i.zu[k]);
      if(a >= me) t += -i.vl[a - me] + i.vu[a - me];
      M[a][m] = t;
    }
    for(int c = 0; c < m; c++) {
      if(!(M[c][c] > 1e-10 * mxm)) return false;
      smallest = std::min(smallest, M[c][c]);
      for(int r = c + 1; r < m; r++) { double f = M[r][c] / M[c][c]; for(int q = c; q <= m; q++) M[r][q] -= f * M[c][q]; }
    }
    double yn = 0;
    for(int c = m - 1; c >= 0; c--) { double t = M[c][m]; for(int q = c + 1; q < m; q++) t -= M[c][q] * M[q][m]; M[c][m] = t / M[c][c]; yn = std::max(yn, fabs(M[c][m])); }
    return yn > 1e-6 && yn < 0.99 * mx;
  }
  bool evalNlpAndLogErrors(const hiop::hiopIterate& it, const hiop::hiopResidual& resid, const double& mu, double& a, double& b, double& c, double& o, double& la, double& lb, double& lc, double& lo, double& cv) override
  {
    bool r = Base::evalNlpAndLogErrors(it, resid, mu, a, b, c, o, la, lb, lc, lo, cv);
    sf = this->nlp->get_obj_scale();
    bounds();
    cur = itget(it);
    learn_scales(xfull(cur.x));
    if(in_iter && mu != mu_prev) {  // the barrier parameter was just updated
      double tol = this->nlp->options->GetNumeric("tolerance"), ct = this->nlp->options->GetNumeric("comp_tol") / sf;
      double km = this->nlp->options->GetNumeric("kappa_mu"), tm = this->nlp->options->GetNumeric("theta_mu");
      double e = std::max(std::min(km * mu_prev, pow(mu_prev, tm)), std::min(tol, ct) / 11.);
      if(!near(mu, e, 1e-12, 0)) V("P05:mu_update", "barrier parameter changed from %.15g to %.15g instead of %.15g", mu_prev, mu, e);
      if(!(mu < mu_prev)) V("P05:mu_monotone", "barrier parameter rose from %.15g to %.15g", mu_prev, mu);
      double ke = this->nlp->options->GetNumeric("kappa_eps");
      if(!wild && errlog_ref > ke * mu_prev * (1 + 1e-6) + 1e-13) V("P05:mu_early", "barrier parameter reduced although the barrier error %.6g exceeds %g*mu=%.6g", errlog_ref, ke, ke * mu_prev);
      filt.clear();
      filt.push_back({this->theta_max, -1e20});
      filt_known = true;
      mu_prev = mu;
      if(cfg.elastic) { prev = cur; bounds_moved = true; check_elastic(mu); }  // the bounds moved, and with them slacks and multipliers
      R().count("mu_updates");
    }
    ref_errors(cur, mu);
    if(std::isnan(e_du) || !r) return r;
    double fl = wild ? 1e300 : 0;
    if(!fl) {
      double gm = e_du_scale();
      if(!near(a, e_du, 1e-6, 1e-10 * gm)) V("P05:inf_du", "dual infeasibility reported %.12g, recomputed %.12g", a, e_du);
      if(!near(b, e_pr, 1e-6, 1e-10 * pr_scale())) V("P05:inf_pr", "primal infeasibility reported %.12g, recomputed %.12g", b, e_pr);
      if(!near(c, e_co, 1e-8, 1e-14)) V("P05:compl", "complementarity reported %.12g, recomputed %.12g", c, e_co);
      if(!near(cv, e_cv, 1e-6, 1e-10 * pr_scale())) V("P05:cons_viol", "constraint violation reported %.12g, recomputed %.12g", cv, e_cv);
      if(!near(o, errnlp_ref, 1e-5, 1e-10 * std::max(gm, pr_scale()))) V("P03:err_nlp", "overall error used for termination %.12g, recomputed %.12g", o, errnlp_ref);
      if(!near(lo, errlog_ref, 1e-5, 1e-10 * std::max(gm, pr_scale()))) V("P05:err_log", "barrier error %.12g, recomputed %.12g", lo, errlog_ref);
      if(!near(lc, logc, 1e-8, 1e-14)) V("P05:log_compl", "barrier complementarity error %.12g, recomputed %.12g", lc, logc);
      R().count("measures_checked");
    }
    return r;
  }
  double gscale_ = 1, pscale_ = 1;
  double e_du_scale()
  {
    VD xf = xfull(cur.x), g(p.n);
    p.grad(xf.data(), g.data());
    double r = 1 + sf * ninf(g) + ninf(cur.zl) + ninf(cur.zu) + ninf(cur.vl) + ninf(cur.vu);
    for(size_t a = 0; a < eq.size(); a++) for(int k = 0; k < N(); k++) r += fabs(row(eq[a]) * p.jac(eq[a], kept[k], xf.data()) * cur.yc[a]);
    for(size_t a = 0; a < in.size(); a++) for(int k = 0; k < N(); k++) r += fabs(row(in[a]) * p.jac(in[a], kept[k], xf.data()) * cur.yd[a]);
    return r;
  }
  double pr_scale()
  {
    VD xf = xfull(cur.x);
    double r = 1 + ninf(crhs) + ninf(cur.d);
    for(int j = 0; j < p.m; j++) for(int k = 0; k < p.n; k++) r += fabs(row(j)) * (fabs(p.A[j][k] * xf[k]) + fabs(p.E[j][k] * xf[k] * xf[k])) * p.cs[j];
    return r;
  }
  void outputIteration(int lsStatus, int lsNum, int use_soc, int use_fr) override
  {
    Base::outputIteration(lsStatus, lsNum, use_soc, use_fr);
    rowinfo.push_back(lsStatus == -1 ? '-' : use_fr ? 'R' : lsStatus < 1 || lsStatus > 3 ? '?' : (use_soc ? "SHF" : "shf")[lsStatus - 1]);
    ls = lsStatus; lsnum = lsNum; soc = use_soc; ufr = use_fr;
    int k = this->iter_num_;
    if(!started) {
      if(k != 0) V("P05:numbering", "first iteration has number %d", k);
    } else if(k != last_it + 1) V("P05:numbering", "iteration %d follows iteration %d", k, last_it);
    last_it = k;
    nit_seen++;
    R().count("iterations");
    cur = itget(*this->it_curr);
    bounds();
    VD xf = xfull(cur.x);
    check_evals(xf);
    ref_errors(cur, this->_mu);
    check_bounds_in_use();
    check_iterate_shape(cur);
    double mu = this->_mu;
    if(!(mu > 0)) V("P05:mu_positive", "barrier parameter %g", mu);
    if(!started) {
      double mu0 = this->nlp->options->GetNumeric("mu0");
      if(mu != mu0) V("P05:mu0", "barrier parameter starts at %.15g instead of %.15g", mu, mu0);
      th_max = this->nlp->options->GetNumeric("theta_max_fact") * std::max(1., theta_ref);
      th_min = this->nlp->options->GetNumeric("theta_min_fact") * std::max(1., theta_ref);
      if(!near(th_max, this->theta_max, 1e-6, 1e-9) || !near(th_min, this->theta_min, 1e-6, 1e-12)) V("P06:theta_limits", "filter limits %.9g/%.9g, expected %.9g/%.9g", this->theta_max, this->theta_min, th_max, th_min);
      err0_du = e_du; err0_pr = e_pr; err0_co = e_co;
    } else {
      if(mu > mu_prev * (1 + 1e-14)) V("P05:mu_monotone", "barrier parameter rose from %.15g to %.15g", mu_prev, mu);
      transition(use_fr);
    }
    // merit function of the barrier problem
    double mag;
    phi_ref = phi_of(cur, mu, &mag);
    if(!near(this->logbar->f_logbar, phi_ref, 1e-9, 1e-9 * mag)) V("P06:merit_current", "barrier objective %.15g, recomputed %.15g", this->logbar->f_logbar, phi_ref);
    prev = cur;
    bounds_moved = false;
    mu_prev = mu;
    errs.push_back(errnlp_ref);
    {
      auto* o = this->nlp->options;
      full_ok.push_back(!wild && e_du < 0.99 * o->GetNumeric("dual_tol") && e_cv < 0.99 * o->GetNumeric("cons_tol") && e_co < 0.99 * o->GetNumeric("comp_tol") && errnlp_ref < 0.99 * o->GetNumeric("tolerance") - 1e-11 * std::max(e_du_scale(), pr_scale()));
    }
    mus.push_back(mu);
    started = true;
    in_iter = true;
    fr = false;
    ntrial = 0;
    acc_ls = 0;
    acc_add_known = false;
    R().eval(vh::hash_d(vh::mix(k, p.n), cur.x.data(), cur.x.size()));
  }
  // step from prev to cur
  void transition(int use_fr)
  {
    double ap = this->_alpha_primal, ad = this->_alpha_dual;
    if(!(ap > 0 && ap <= 1) || !(ad > 0 && ad <= 1)) V("P05:alpha_range", "step lengths primal %.15g dual %.15g", ap, ad);
    if(use_fr || fr) {
      R().count("restorations");
      filt_known = filt_known && true;
      return;
    }
    VD dx = vget(this->dir->get_x()), dd = vget(this->dir->get_d());
    double sx = 1 + ninf(prev.x) + ninf(dx);
    for(int i = 0; i < N(); i++)
      if(!near(cur.x[i], prev.x[i] + ap * dx[i], 1e-13, 1e-13 * sx)) { V("P05:step_x", "x[%d] moved by %.15g instead of alpha*dx=%.15g", i, cur.x[i] - prev.x[i], ap * dx[i]); break; }
    for(size_t i = 0; i < cur.d.size(); i++)
      if(!near(cur.d[i], prev.d[i] + ap * dd[i], 1e-13, 1e-13 * (1 + ninf(prev.d) + ninf(dd)))) { V("P05:step_d", "d[%d] moved by %.15g instead of %.15g", (int)i, cur.d[i] - prev.d[i], ap * dd[i]); break; }
    // fraction to the boundary
    double tau = std::max(this->nlp->options->GetNumeric("tau_min"), 1 - mu_prev);
    double amax = 1, admax = 1;
    It di = itget(*this->dir);
    auto ftb = [&](const VD& sl, const VD& ds, const VD& ix, double& am) {
      for(size_t k = 0; k < sl.size(); k++) if(ix[k] == 1 && ds[k] < 0) am = std::min(am, -tau * sl[k] / ds[k]);
    };
    ftb(prev.sxl, di.sxl, ixl, amax); ftb(prev.sxu, di.sxu, ixu, amax); ftb(prev.sdl, di.sdl, idl, amax); ftb(prev.sdu, di.sdu, idu, amax);
    ftb(prev.zl, di.zl, ixl, admax); ftb(prev.zu, di.zu, ixu, admax); ftb(prev.vl, di.vl, idl, admax); ftb(prev.vu, di.vu, idu, admax);
    if(ap > amax * (1 + 1e-9)) V("P05:ftb_primal", "primal step %.12g exceeds the fraction-to-the-boundary step %.12g", ap, amax);
    if(ad > admax * (1 + 1e-9)) V("P05:ftb_dual", "dual step %.12g exceeds the fraction-to-the-boundary step %.12g%s", ad, admax, soc ? " (second-order correction)" : "");
    if(!soc && !near(ad, admax, 1e-9, 0)) V("P05:ftb_dual_max", "dual step %.12g is not the largest allowed %.12g", ad, admax);
    if(!cfg.moving_abs && !cfg.moving_rel && !soc) {
      double e = log2(amax / ap);
      if(fabs(e - round(e)) > 1e-6 || (int)round(e) != lsnum - 1) { V("P06:backtrack", "after %d trials the step is %.12g, the first one %.12g", lsnum, ap, amax); }
    }
    if(lsnum > 1 && !soc && !cfg.forcequick && ap < this->nlp->options->GetNumeric("min_step_size") * (1 - 1e-12)) V("P06:min_step", "step of %.12g accepted after %d trials, the smallest allowed is %g", ap, lsnum, this->nlp->options->GetNumeric("min_step_size"));
    auto sbd = [&](const char* nm, const VD& s0, const VD& s1, const VD& ix) {
      for(size_t k = 0; k < s0.size(); k++)
        if(ix[k] == 1 && s1[k] < (1 - tau) * s0[k] * (1 - 1e-4) - 1e-11 * (1 + ninf(cur.x) + ninf(cur.d))) { V("P05:ftb_slack", "slack %s[%d] shrank from %.6g to %.6g with tau=%.6g", nm, (int)k, s0[k], s1[k], tau); break; }
    };
    if(!bounds_moved) sbd("xl", prev.sxl, cur.sxl, ixl), sbd("xu", prev.sxu, cur.sxu, ixu), sbd("dl", prev.sdl, cur.sdl, idl), sbd("du", prev.sdu, cur.sdu, idu);
    // bound multipliers: damped step, then kept in the neighbourhood of mu/slack
    auto zz = [&](const char* nm, const VD& z0, const VD& z1, const VD& dz, const VD& sl, const VD& ix) {
      for(size_t k = 0; k < z0.size(); k++) {
        if(ix[k] != 1) continue;
        double t = z0[k] + ad * dz[k], lo = mu_prev / (1e10 * sl[k]), hi = 1e10 * mu_prev / sl[k];
        double e = std::max(std::min(t, hi), lo);
        if(!near(z1[k], e, 1e-9, 1e-13 * (fabs(z0[k]) + fabs(dz[k])))) { V("P05:mult_update", "multiplier %s[%d]=%.15g, the damped step safeguarded by mu/slack gives %.15g", nm, (int)k, z1[k], e); break; }
      }
    };
    zz("zl", prev.zl, cur.zl, di.zl, cur.sxl, ixl); zz("zu", prev.zu, cur.zu, di.zu, cur.sxu, ixu);
    zz("vl", prev.vl, cur.vl, di.vl, cur.sdl, idl); zz("vu", prev.vu, cur.vu, di.vu, cur.sdu, idu);
    if(!cfg.lsq_duals) {
      for(size_t k = 0; k < cur.yc.size(); k++) if(!near(cur.yc[k], prev.yc[k] + ap * di.yc[k], 1e-10, 1e-12 * (1 + fabs(prev.yc[k]) + fabs(di.yc[k])))) { V("P05:yc_update", "equality multiplier %d is %.15g instead of %.15g", (int)k, cur.yc[k], prev.yc[k] + ap * di.yc[k]); break; }
      for(size_t k = 0; k < cur.yd.size(); k++) if(!near(cur.yd[k], prev.yd[k] + ap * di.yd[k], 1e-10, 1e-12 * (1 + fabs(prev.yd[k]) + fabs(di.yd[k])))) { V("P05:yd_update", "inequality multiplier %d is %.15g instead of %.15g", (int)k, cur.yd[k], prev.yd[k] + ap * di.yd[k]); break; }
    }
    else if(p.m) {
      double rt = this->nlp->options->GetNumeric("recalc_lsq_duals_tol"), dl = 0, dmg = 1;
      for(size_t k = 0; k < cur.yc.size(); k++) { dl = std::max(dl, fabs(cur.yc[k] - prev.yc[k] - ap * di.yc[k])); dmg = std::max(dmg, fabs(prev.yc[k]) + fabs(di.yc[k])); }
      for(size_t k = 0; k < cur.yd.size(); k++) { dl = std::max(dl, fabs(cur.yd[k] - prev.yd[k] - ap * di.yd[k])); dmg = std::max(dmg, fabs(prev.yd[k]) + fabs(di.yd[k])); }
      bool linear = dl <= 1e-10 * dmg;
      // the gradient and Jacobians of the least-squares system are those of the previous iterate
      if(!linear && !wild) {
        double rel = lsq_residual(cur, xfull(prev.x));
        R().maxv("lsq_update_residual", rel);
        if(!(rel < 1e-7)) V("P05:lsq_update", "the multipliers are neither the damped step nor the least-squares ones (relative residual %g)", rel);
        if(theta_ref > rt * (1 + 1e-6) + 1e-10 * pr_scale()) V("P05:lsq_early", "least-squares multipliers used at infeasibility %g, the limit is %g", theta_ref, rt);
        R().count("lsq_updates");
      } else if(!wild && theta_ref < 0.99 * rt - 1e-10 * pr_scale() && p.fullrank && dmg < 1e6 && lsq_residual(cur, xfull(prev.x)) > 1e-5 && lsq_should_be_small(cur, xfull(prev.x), 1e10)) V("P05:lsq_missed", "multipliers not recomputed at infeasibility %g, the limit is %g", theta_ref, rt);
    }
    R().count("steps_checked");
    if(soc) R().count("soc_steps");
    // moving limits
    if(cfg.moving_abs > 0) {
      double st = 0;
      for(int i = 0; i < N(); i++) st = std::max(st, fabs(cur.x[i] - prev.x[i]));
      if(st > cfg.moving_abs * (1 + 1e-9)) V("P29:moving_abs", "a variable moved by %.12g, the limit is %.12g%s", st, cfg.moving_abs, soc ? " (second-order correction)" : "");
      R().count("moving_checked");
      if(st > 0.99 * cfg.moving_abs) R().count("moving_active");
      // the limit must not cost more than needed
      double full = amax * ninf(dx);
      if(lsnum == 1 && !soc && full > cfg.moving_abs && st < cfg.moving_abs * (1 - 1e-6)) V("P29:moving_short", "step of %.12g although %.12g is allowed and the full step is %.12g", st, cfg.moving_abs, full);
    }
    // acceptance
    if(acc_ls > 0 && ls != acc_ls) V("P06:ls_status", "line search reports %d, the accepted trial was judged %d", ls, acc_ls);
    if(ls >= 1 && ls <= 3) R().count(vh::fmt("accepted_%s%s", ls == 1 ? "s" : ls == 2 ? "h" : "f", soc ? "_soc" : ""));
    else if(!cfg.accept_all && !cfg.forcequick) V("P06:unjudged", "a step was taken although the line search reports %d", ls);
    // augment the shadow filter
    if(acc_ls > 0) {
      if(!acc_add_known) filt_known = false;
      else if(acc_add) filt.push_back({acc_theta, acc_phi});
    }
    if(filt_known) probe_filter();
  }
  bool ref_contains(double t, double f, double* margin)
  {
    bool in = false;
    double m = 1e300;
    for(auto& e : filt) {
      double a = (t - e.first), b = (f - e.second);
      double ra = fabs(a) / (1e-12 + fabs(t) + fabs(e.first)), rb = fabs(b) / (1e-12 + fabs(f) + fabs(e.second));
      if(a >= 0 && b >= 0) { in = true; }
      m = std::min(m, std::max(1e-300, std::min(ra, rb)));
    }
    if(margin) *margin = m;
    return in;
  }
  void probe_filter()
  {
    for(auto& e : filt)
      if(!this->filter.contains(e.first * (1 + 1e-9) + 1e-12, e.second + 1e-9 * (1 + fabs(e.second)))) { V("P06:filter_entry_missing", "the point (theta=%.12g, phi=%.12g) that was added to the filter is not rejected by it (%d entries expected)", e.first, e.second, (int)filt.size()); filt_known = false; return; }
    // the region the filter must leave free
    vh::Rng g(vh::mix(last_it, (uint64_t)(1e9 * (1 + theta_ref))));
    for(int k = 0; k < 6; k++) {
      double t, f;
      if(filt.empty() || k < 3) { t = theta_ref * pow(10, g.u(-3, 3)); f = phi_ref + (g.u() - 0.5) * (1 + fabs(phi_ref)); }
      else { auto& e = filt[g.next() % filt.size()]; t = e.first * (g.b() ? 0.99 : 1.01); f = e.second + (g.b() ? -1 : 1) * 0.01 * (1 + fabs(e.second)); }
      double m;
      bool r = ref_contains(t, f, &m);
      if(m < 1e-7) continue;
      if(this->filter.contains(t, f) != r) { V("P06:filter_differs", "filter %s (theta=%.9g, phi=%.9g), the rule %s it (%d entries)", r ? "accepts" : "rejects", t, f, r ? "rejects" : "accepts", (int)filt.size()); filt_known = false; return; }
      R().count("filter_probes");
    }
  }
  int accept_line_search_conditions(const double theta_curr, const double theta_trial, const double alpha, bool& comp, double& gphi) override
  {
    It t = itget(*this->it_trial);
    double a_in = alpha;
    int r = Base::accept_line_search_conditions(theta_curr, theta_trial, alpha, comp, gphi);
    bounds();
    ntrial++;
    R().count("trials");
    double psc = pr_scale();
    double th0 = theta_of(prev.x, cur.d.size() ? itget(*this->it_curr).d : prev.d);
    double tht = theta_of(t.x, t.d);
    double m0, m1;
    It c0 = itget(*this->it_curr);
    double ph0 = phi_of(c0, this->_mu, &m0), ph1 = phi_of(t, this->_mu, &m1);
    if(in_soc) soc_step(theta_trial);
    if(wild || !std::isfinite(ph1) || !(ninf(t.x) < 1e8)) { acc_ls = r; acc_add_known = false; return r; }
    if(!near(theta_curr, th0, 1e-8, 1e-9 * psc)) V("P06:theta_current", "infeasibility of the current point %.12g, recomputed %.12g", theta_curr, th0);
    if(!near(theta_trial, tht, 1e-8, 1e-9 * psc)) V("P06:theta_trial", "infeasibility of the trial point %.12g, recomputed %.12g", theta_trial, tht);
    if(!near(this->logbar->f_logbar, ph0, 1e-9, 1e-9 * m0)) V("P06:merit_current", "barrier objective of the current point %.15g, recomputed %.15g", this->logbar->f_logbar, ph0);
    if(!near(this->logbar->f_logbar_trial, ph1, 1e-9, 1e-9 * m1)) V("P06:merit_trial", "barrier objective of the trial point %.15g, recomputed %.15g", this->logbar->f_logbar_trial, ph1);
    // directional derivative of the barrier objective
    VD xf = xfull(c0.x), g(p.n);
    p.grad(xf.data(), g.data());
    VD dx = vget(this->dir->get_x()), dd = vget(this->dir->get_d());
    double gp = 0, gm = 0, mu = this->_mu;
    for(int k = 0; k < N(); k++) {
      double q = sf * g[kept[k]];
      if(ixl[k] == 1) q -= mu / c0.sxl[k];
      if(ixu[k] == 1) q += mu / c0.sxu[k];
      if(ixl[k] == 1 && ixu[k] != 1) q += 1e-5 * mu;
      if(ixu[k] == 1 && ixl[k] != 1) q -= 1e-5 * mu;
      gp += q * dx[k]; gm += fabs(q * dx[k]);
    }
    for(size_t k = 0; k < in.size(); k++) {
      double q = 0;
      if(idl[k] == 1) q -= mu / c0.sdl[k];
      if(idu[k] == 1) q += mu / c0.sdu[k];
      if(idl[k] == 1 && idu[k] != 1) q += 1e-5 * mu;
      if(idu[k] == 1 && idl[k] != 1) q -= 1e-5 * mu;
      gp += q * dd[k]; gm += fabs(q * dd[k]);
    }
    if(comp && !near(gphi, gp, 1e-7, 1e-8 * gm)) V("P06:dirderiv", "directional derivative of the barrier objective %.12g, recomputed %.12g", gphi, gp);
    // the rule, with the solver's rounding of the four numbers
    double th = theta_curr, tt = theta_trial, f0 = this->logbar->f_logbar, f1 = this->logbar->f_logbar_trial;
    double G = comp ? gphi : gp;
    double eta = this->nlp->options->GetNumeric("eta_phi");
    bool tie = false;
    auto le = [&](double a, double b) { if(fabs(a - b) <= 1e-12 * (fabs(a) + fabs(b)) ) tie = true; return a <= b; };
    bool suff = le(tt, (1 - 1e-5) * th);
    { bool t2 = tie; tie = false; bool q = le(f1, f0 - 1e-8 * th); bool qt = tie; tie = suff ? false : (t2 || qt); suff = suff || q; if(t2 && suff && !q) tie = true; }
    bool sw = false, arm = false, swtie = false;
    {
      bool keep = tie; tie = false;
      sw = G < 0 && !le(a_in * pow(-G, 2.3), pow(th, 1.1));
      swtie = tie || (!comp && fabs(G) < 1e-9 * gm);
      tie = false;
      arm = le(f1, f0 + eta * a_in * G);
      swtie = swtie || tie;
      tie = keep;
    }
    bool anytie = tie;
    int e;
    bool far = th >= this->theta_min;
    if(far) e = suff ? 1 : 0;
    else { anytie = anytie || swtie; e = sw ? (arm ? 3 : 0) : (suff ? 2 : 0); }
    double marg = 1;
    bool rej = false;
    if(e > 0 && filt_known) {
      rej = ref_contains(tt, f1, &marg);
      if(filt.empty()) marg = 1;
      if(rej) e = 0;
    }
    if(filt_known && !anytie && marg > 1e-9) {
      if(r != e) V("P06:decision", "trial %d with theta %.12g->%.12g, phi %.12g->%.12g, slope %.6g, alpha %.6g judged %d, the rules say %d%s", ntrial, th, tt, f0, f1, G, a_in, r, e, rej ? " (dominated by the filter)" : "");
      R().count("decisions_checked");
      if(rej) R().count("filter_rejections");
      R().count(vh::fmt("decision_%d", e));
    } else R().count("decision_ties");
    if(r > 0) {
      acc_ls = r; acc_theta = tt; acc_phi = f1;
      if(r == 1) { acc_add = !(sw && arm); acc_add_known = !swtie; }
      else if(r == 2) { acc_add = true; acc_add_known = true; }
      else { acc_add = false; acc_add_known = true; }
    }
    return r;
  }
  // second-order correction under way
  bool in_soc = false, soc_more = false, soc_tie = false;
  int soc_n = 0;
  double soc_theta = 0, soc_alpha = 1;
  It soc_trial;
  VD soc_c, soc_d;
  void soc_step(double theta_trial)
  {
    soc_n++;
    int mx = this->nlp->options->GetInteger("max_soc_iter");
    double ks = this->nlp->options->GetNumeric("kappa_soc");
    if(soc_n > mx) V("P06:soc_max", "%d second-order correction trials, the limit is %d", soc_n, mx);
    if(!soc_more && !soc_tie && soc_n > 1) V("P06:soc_continued", "second-order correction continued although the infeasibility did not decrease by the factor %g", ks);
    VD xt = xfull(soc_trial.x);
    for(size_t a = 0; a < eq.size(); a++) soc_c[a] = soc_alpha * soc_c[a] + crhs[a] - row(eq[a]) * p.con(eq[a], xt.data());
    for(size_t a = 0; a < in.size(); a++) soc_d[a] = soc_alpha * soc_d[a] + soc_trial.d[a] - row(in[a]) * p.con(in[a], xt.data());
    if(!wild && !u.nfault && ninf(soc_c) < 1e12 && ninf(soc_d) < 1e12) check_dir(nullptr, &soc_c, &soc_d);
    It t = itget(*this->it_trial), c = itget(*this->it_curr), D = itget(*this->soc_dir);
    double mxd = 0, al = 0;
    for(int k = 0; k < N(); k++) if(fabs(D.x[k]) > mxd) { mxd = fabs(D.x[k]); al = (t.x[k] - c.x[k]) / D.x[k]; }
    for(size_t k = 0; k < D.d.size(); k++) if(fabs(D.d[k]) > mxd) { mxd = fabs(D.d[k]); al = (t.d[k] - c.d[k]) / D.d[k]; }
    double amax = 1, tau = std::max(this->nlp->options->GetNumeric("tau_min"), 1 - this->_mu);
    auto ftb = [&](const VD& sl, const VD& ds, const VD& ix) { for(size_t k = 0; k < sl.size(); k++) if(ix[k] == 1 && ds[k] < 0) amax = std::min(amax, -tau * sl[k] / ds[k]); };
    ftb(c.sxl, D.sxl, ixl); ftb(c.sxu, D.sxu, ixu); ftb(c.sdl, D.sdl, idl); ftb(c.sdu, D.sdu, idu);
    bool clean = !wild && mxd > 1e-6 * (1 + ninf(c.x) + ninf(c.d));
    if(clean) {
      if(al > amax * (1 + 1e-6) || (!cfg.moving_abs && !cfg.moving_rel && al < amax * (1 - 1e-6))) V("P06:soc_step", "corrected step of length %.9g, the fraction-to-the-boundary step is %.9g", al, amax);
      for(int k = 0; k < N(); k++) if(!near(t.x[k], c.x[k] + al * D.x[k], 1e-9, 1e-9 * (1 + ninf(c.x) + ninf(D.x)))) { V("P06:soc_point", "trial point of the second-order correction is not a step along its direction"); break; }
    }
    soc_alpha = clean ? al : amax;
    if(!clean && (cfg.moving_abs || cfg.moving_rel)) soc_alpha = al;
    soc_more = theta_trial < ks * soc_theta;
    soc_tie = fabs(theta_trial - ks * soc_theta) <= 1e-9 * theta_trial;
    soc_theta = theta_trial;
    soc_trial = t;
    R().count("soc_trials_checked");
  }
  int apply_second_order_correction(hiop::hiopKKTLinSys* kkt, const double tc, const double tt, bool& g, double& gv, int& na) override
  {
    R().count("soc_tried");
    in_soc = true; soc_n = 0; soc_theta = tt; soc_more = true; soc_tie = false;
    soc_alpha = this->_alpha_primal;
    soc_trial = itget(*this->it_trial);
    {
      VD xf = xfull(itget(*this->it_curr).x), d0 = vget(this->it_curr->get_d());
      bounds();
      soc_c.assign(eq.size(), 0); soc_d.assign(in.size(), 0);
      for(size_t a = 0; a < eq.size(); a++) soc_c[a] = crhs[a] - row(eq[a]) * p.con(eq[a], xf.data());
      for(size_t a = 0; a < in.size(); a++) soc_d[a] = d0[a] - row(in[a]) * p.con(in[a], xf.data());
    }
    int r = Base::apply_second_order_correction(kkt, tc, tt, g, gv, na);
    in_soc = false;
    if(!wild && !fault_seen() && r == 0) {
      int mx = this->nlp->options->GetInteger("max_soc_iter");
      if(soc_n < mx && soc_more && !soc_tie) V("P06:soc_given_up", "second-order correction given up after %d of %d trials", soc_n, mx);
    }
    R().maxv("soc_trials", soc_n);
    if(r > 0) acc_add_known = acc_add_known && (r != 1);  // which direction enters the switching test is not documented
    return r;
  }
  bool soft_ok = false;
  int fr_probes = 0;
  // the restoration problem posed at the current iterate, function by function
  void check_fr_prob(const It& c0, double i0)
  {
    constexpr bool MDS = !std::is_same<Base, hiop::hiopAlgFilterIPMQuasiNewton>::value;
    bounds();
    const int nx = N(), me = eq.size(), mi = in.size(), m = me + mi, n = nx + 2 * m;
    const VD lastx = u.lastx;
    const bool havex = u.have_x;
    int ns = nx;
    typename std::conditional<MDS, hiop::hiopFRProbMDS, hiop::hiopFRProbDense>::type fr_p(*this);
    if constexpr(MDS) ns = dynamic_cast<hiop::hiopNlpMDS*>(this->nlp)->nx_sp();
    auto ix = [&](int k) { return MDS ? (k < ns ? k : k + 2 * m) : k; };
    const int P = MDS ? ns : nx;  // first of pe, ne, pi, ni
    hiop::size_type nn = 0, mm = 0;
    fr_p.get_prob_sizes(nn, mm);
    if(nn != n || mm != m) { V("P29:fr_size", "the restoration problem has %d variables and %d constraints, expected %d and %d", (int)nn, (int)mm, n, m); return; }
    const double rho = 1000, mu = std::max((double)this->_mu, i0), zeta = sqrt(mu);
    // bounds
    {
      VD lo(n), up(n), cl(m), cu(m);
      std::vector<hiop::hiopInterfaceBase::NonlinearityType> t(std::max(n, m) + 1);
      fr_p.get_vars_info(n, lo.data(), up.data(), t.data());
      VD el(n, 0.), eu(n, 1e20);
      for(int k = 0; k < nx; k++) { el[ix(k)] = bxl[k]; eu[ix(k)] = bxu[k]; }
      for(int k = 0; k < n; k++) if(lo[k] != el[k] || up[k] != eu[k]) { V("P29:fr_bounds", "variable %d of the restoration problem has bounds [%.15g,%.15g], expected [%.15g,%.15g]", k, lo[k], up[k], el[k], eu[k]); break; }
      fr_p.get_cons_info(m, cl.data(), cu.data(), t.data());
      for(int a = 0; a < m; a++) { double e = a < me ? crhs[a] : bdl[a - me], f = a < me ? crhs[a] : bdu[a - me]; if(cl[a] != e || cu[a] != f) { V("P29:fr_bounds", "constraint %d of the restoration problem has bounds [%.15g,%.15g], expected [%.15g,%.15g]", a, cl[a], cu[a], e, f); break; } }
    }
    // a point within the bounds
    vh::Rng g(vh::mix(last_it * 31 + fr_probes, (uint64_t)(1e6 * (1 + fabs(phi_ref)))));
    VD y(n), x(nx);
    for(int k = 0; k < nx; k++) {
      bool L = ixl[k] == 1, U = ixu[k] == 1;
      double v = L && U ? bxl[k] + g.u(0.05, 0.95) * (bxu[k] - bxl[k]) : L ? bxl[k] + c0.sxl[k] * g.u(0.2, 3) : U ? bxu[k] - c0.sxu[k] * g.u(0.2, 3) : c0.x[k] + g.gauss();
      if((L && v < bxl[k]) || (U && v > bxu[k]) || !std::isfinite(v)) v = c0.x[k];
      x[k] = v;
      y[ix(k)] = v;
    }
    for(int k = P; k < P + 2 * m; k++) y[k] = g.u(0, 2);
    VD xf = xfull(x), DR(nx);
    for(int k = 0; k < nx; k++) DR[k] = std::min(1., 1 / fabs(c0.x[k]));
    double f = 0, ef = 0, mg = 0;
    fr_p.eval_f(n, y.data(), true, f);
    for(int k = P; k < P + 2 * m; k++) ef += rho * y[k];
    for(int k = 0; k < nx; k++) { ef += 0.5 * zeta * DR[k] * DR[k] * (x[k] - c0.x[k]) * (x[k] - c0.x[k]); mg += rho * fabs(x[k]); }
    if(!near(f, ef, 1e-9, 1e-12 * mg)) V("P29:fr_objective", "objective of the restoration problem is %.15g, expected %.15g", f, ef);
    VD gr(n), eg(n, rho);
    fr_p.eval_grad_f(n, y.data(), true, gr.data());
    for(int k = 0; k < nx; k++) eg[ix(k)] = zeta * DR[k] * DR[k] * (x[k] - c0.x[k]);
    for(int k = 0; k < n; k++) if(!near(gr[k], eg[k], 1e-10, 1e-13)) { V("P29:fr_gradient", "gradient[%d] of the restoration problem is %.15g, expected %.15g", k, gr[k], eg[k]); break; }
    VD cv(m);
    fr_p.eval_cons(n, m, y.data(), true, cv.data());
    std::vector<VD> J(m, VD(n, 0.)), EJ = J;
    for(int a = 0; a < m; a++) {
      int j = a < me ? eq[a] : in[a - me];
      int p0 = P + (a < me ? a : 2 * me + a - me), n0 = p0 + (a < me ? me : mi);
      double e = row(j) * p.con(j, xf.data()) - y[p0] + y[n0], mag = 1;
      for(int k = 0; k < nx; k++) { EJ[a][ix(k)] = row(j) * p.jac(j, kept[k], xf.data()); mag += fabs(EJ[a][ix(k)] * x[k]); }
      EJ[a][p0] = -1;
      EJ[a][n0] = 1;
      if(!near(cv[a], e, 1e-9, 1e-9 * mag)) V("P29:fr_constraint", "constraint %d of the restoration problem is %.15g, expected %.15g", a, cv[a], e);
    }
    VD lam(m);
    for(double& l : lam) l = g.gauss();
    if constexpr(MDS) {
      int a0, a1, nje, nji, nhs, nhd;
      fr_p.get_sparse_dense_blocks_info(a0, a1, nje, nji, nhs, nhd);
      int nd = nx - ns, nz = nje + nji;
      std::vector<int> iJ(nz + 1), jJ(nz + 1), iH(nhs + 1), jH(nhs + 1);
      VD M(nz + 1), D((size_t)m * nd + 1), MH(nhs + 1), HD((size_t)nd * nd + 1);
      fr_p.eval_Jac_cons(n, m, y.data(), true, a0, a1, nz, iJ.data(), jJ.data(), nullptr, nullptr);
      fr_p.eval_Jac_cons(n, m, y.data(), true, a0, a1, nz, nullptr, nullptr, M.data(), D.data());
      for(int k = 0; k < nz; k++) { if(iJ[k] < 0 || iJ[k] >= m || jJ[k] < 0 || jJ[k] >= a0) { V("P29:fr_jacobian", "entry %d of the Jacobian of the restoration problem is at (%d,%d)", k, iJ[k], jJ[k]); return; } J[iJ[k]][jJ[k]] += M[k]; }
      for(int a = 0; a < m; a++) for(int k = 0; k < nd; k++) J[a][a0 + k] = D[(size_t)a * nd + k];
      // the Hessian
      hiop::size_type nsd = 0;
      fr_p.eval_Hess_Lagr(n, m, y.data(), true, 1., lam.data(), true, a0, a1, nhs, iH.data(), jH.data(), nullptr, nullptr, nsd, nullptr, nullptr, nullptr);
      fr_p.eval_Hess_Lagr(n, m, y.data(), true, 1., lam.data(), true, a0, a1, nhs, nullptr, nullptr, MH.data(), HD.data(), nsd, nullptr, nullptr, nullptr);
      std::map<std::pair<int, int>, double> H;
      for(int k = 0; k < nhs; k++) H[{std::min(iH[k], jH[k]), std::max(iH[k], jH[k])}] += MH[k];
      VD lu(p.m, 0.);
      for(int a = 0; a < m; a++) { int j = a < me ? eq[a] : in[a - me]; lu[j] = row(j) * lam[a]; }
      bool bad = false;
      for(int k = 0; k < nx && !bad; k++)
        for(int l = k; l < nx && !bad; l++) {
          double e = p.hess(kept[k], kept[l], xf.data(), 0., lu.data()) + (k == l ? zeta * DR[k] * DR[k] : 0);
          double h = l < ns ? H[{ix(k), ix(l)}] : k >= ns ? HD[(size_t)(k - ns) * nd + (l - ns)] : e;
          if(!near(h, e, 1e-9, 1e-9)) { V("P29:fr_hessian", "Hessian entry (%d,%d) of the restoration problem is %.15g, expected %.15g", k, l, h, e); bad = true; }
        }
      for(auto& h : H) if((h.first.first >= ns || h.first.second >= ns) && h.second != 0) { V("P29:fr_hessian", "Hessian entry (%d,%d) of the restoration problem, outside of x, is %.15g", h.first.first, h.first.second, h.second); break; }
    } else {
      VD F((size_t)m * n + 1);
      fr_p.eval_Jac_cons(n, m, y.data(), true, F.data());
      for(int a = 0; a < m; a++) for(int k = 0; k < n; k++) J[a][k] = F[(size_t)a * n + k];
    }
    for(int a = 0; a < m; a++)
      for(int k = 0; k < n; k++)
        if(!near(J[a][k], EJ[a][k], 1e-9, 1e-11)) { V("P29:fr_jacobian", "Jacobian entry (%d,%d) of the restoration problem is %.15g, expected %.15g", a, k, J[a][k], EJ[a][k]); a = m - 1; break; }
    // its starting point
    {
      VD w(n), zl(n), zu(n), la(m + 1), s(mi + 1), vl(mi + 1), vu(mi + 1);
      fr_p.get_warmstart_point(n, m, w.data(), zl.data(), zu.data(), la.data(), s.data(), vl.data(), vu.data());
      VD wx = xfull(c0.x);
      for(int k = 0; k < nx; k++) {
        if(w[ix(k)] != c0.x[k]) V("P29:fr_start", "the restoration starts at x[%d]=%.15g, the iterate has %.15g", k, w[ix(k)], c0.x[k]);
        if(zl[ix(k)] != std::min(rho, c0.zl[k]) || zu[ix(k)] != std::min(rho, c0.zu[k])) V("P29:fr_start", "the restoration starts with bound multipliers %g,%g of x[%d], the iterate has %g,%g", zl[ix(k)], zu[ix(k)], k, c0.zl[k], c0.zu[k]);
      }
      for(int a = 0; a < mi; a++)
        if(s[a] != c0.d[a] || vl[a] != std::min(rho, c0.vl[a]) || vu[a] != std::min(rho, c0.vu[a])) V("P29:fr_start", "the restoration starts with slack %g and multipliers %g,%g of inequality %d, the iterate has %g and %g,%g", s[a], vl[a], vu[a], a, c0.d[a], c0.vl[a], c0.vu[a]);
      for(int a = 0; a < m; a++) {
        int j = a < me ? eq[a] : in[a - me];
        int p0 = P + (a < me ? a : 2 * me + a - me), n0 = p0 + (a < me ? me : mi);
        double c = row(j) * p.con(j, wx.data()) - (a < me ? crhs[a] : c0.d[a - me]), t = (mu - rho * c) / (2 * rho);
        double q = sqrt(t * t + mu * c / (2 * rho)), en = t + q, ep = c + en, tol = 1e-9 * (fabs(c) + mu + pr_scale() * 1e-3);
        if(!near(w[n0], en, 1e-6, tol) || !near(w[p0], ep, 1e-6, tol)) V("P29:fr_start", "the restoration starts with p=%.12g n=%.12g of constraint %d, expected %.12g %.12g", w[p0], w[n0], a, ep, en);
        if(!near(zl[n0] * w[n0], mu, 1e-9, 0) || !near(zl[p0] * w[p0], mu, 1e-9, 0)) if(w[n0] > 0 && w[p0] > 0) V("P29:fr_start", "the restoration starts with multipliers %.12g %.12g of p=%.12g n=%.12g", zl[p0], zl[n0], w[p0], w[n0]);
        if(zu[n0] != 0 || zu[p0] != 0) V("P29:fr_start", "the restoration starts with multipliers %g %g of the absent upper bounds of p, n", zu[p0], zu[n0]);
      }
    }
    // put back what the evaluations above overwrote
    this->nlp->eval_Jac_c_d(*this->it_curr->get_x(), true, *this->_Jac_c, *this->_Jac_d);
    if constexpr(MDS) this->nlp->eval_Hess_Lagr(*this->it_curr->get_x(), true, 1., *this->it_curr->get_yc(), *this->it_curr->get_yd(), true, *this->_Hess_Lagr);
    u.lastx = lastx;
    u.have_x = havex;
    R().count("restoration_problems_checked");
  }
  bool solve_soft_feasibility_restoration(hiop::hiopKKTLinSys* kkt) override
  {
    bool r = Base::solve_soft_feasibility_restoration(kkt);
    soft_ok = r;
    return r;
  }
  bool apply_feasibility_restoration(hiop::hiopKKTLinSys* kkt) override
  {
    fr = true; fr_count++;
    soft_ok = false;
    R().count("restoration_calls");
    It before = itget(*this->it_curr);
    bool cb = u.check_newx;
    double i0 = 0, i1 = 0, th0 = theta_of(before.x, before.d, &i0);
    double psc0 = pr_scale();
    if(fr_probes < 3 && !u.keep_trace && u.fault.empty() && !u.on_call && !u.on_x && !fault_seen() && !wild && u.part.empty() && i0 < 1e8) { fr_probes++; check_fr_prob(before, i0); }
    // (the restoration's own quasi-Newton solve is not monitored: its systems may be singular to working precision)
    u.unmonitored_qn = !cfg.newton;
    bool r = Base::apply_feasibility_restoration(kkt);
    u.unmonitored_qn = false;
    u.check_newx = cb;
    if(r) {
      R().count(soft_ok ? "restoration_soft" : "restoration_hard");
      It t = itget(*this->it_trial);
      bounds();
      double th1 = theta_of(t.x, t.d, &i1);
      R().maxv(soft_ok ? "restoration_soft_ratio" : "restoration_ratio", i0 > 1e-12 ? i1 / i0 : 0);
      if(!wild && !fault_seen() && std::isfinite(th1)) {
        double kr = this->nlp->options->GetNumeric("kappa_resto"), at = 1e-9 * psc0;
        if(!soft_ok && i1 > kr * i0 * (1 + 1e-6) + at) V("P29:restoration_reduction", "restoration succeeded with infeasibility %.9g against %.9g before it (reduction to %g required)", i1, i0, kr);
        double mg, ph = phi_of(t, this->_mu, &mg);
        if(std::isfinite(ph)) {
          double m = 1e300;
          bool inf = false;
          if(filt_known) inf = ref_contains(th1, ph, &m);
          if(filt_known && inf && m > 1e-6) V("P29:restoration_filter", "restoration continues from a point (theta=%.9g, phi=%.9g) that the filter rejects", th1, ph);
          if(filt_known) R().count("restorations_checked");
        }
      }
    } else {
      auto st = this->solver_status_;
      R().count(vh::fmt("restoration_failed_%d", (int)st));
      if(st == hiop::NlpSolve_Pending || st == hiop::Solve_Success) V("P29:restoration_silent", "restoration failed but the status is %d", (int)st);
    }
    (void)th0;
    return r;
  }
  bool compute_search_direction(hiop::hiopKKTLinSys* kkt, bool& a, const bool b, const int c) override
  {
    bool r = Base::compute_search_direction(kkt, a, b, c);
    if(r) check_dir(kkt);
    return r;
  }
  bool compute_search_direction_inertia_free(hiop::hiopKKTLinSys* kkt, bool& a, const bool b, const int c) override
  {
    bool r = Base::compute_search_direction_inertia_free(kkt, a, b, c);
    if(r) check_dir(kkt);
    return r;
  }
  double rhs_norm(bool trial = false) const
  {
    const auto& r = trial ? *this->resid_trial : *this->resid;
    double q = 0;
    for(const hiop::hiopVector* v : {r.get_rx(), r.get_rd(), r.get_ryc(), r.get_ryd(), r.get_rxl(), r.get_rxu(), r.get_rdl(), r.get_rdu(), r.get_rszl(), r.get_rszu(), r.get_rsvl(), r.get_rsvu()})
      for(double a : vget(v)) q += a * a;
    return sqrt(q);
  }
  double dw_seen = 0, dc_seen = 0;
  std::vector<std::pair<double, double>> deltas;
  // reciprocal condition number, after equilibration, of J*inv(B+Dx)*J' + inv(Dd): the matrix the limited-memory
  // step computation factorises
  double normal_matrix_rcond(const It& i, const VD& xf)
  {
    const int n = N(), m = p.m, t = n + m;
    std::vector<VD> K(t, VD(t, 0.));
    hiop::hiopVector* a = this->nlp->alloc_primal_vec();
    hiop::hiopVector* b = this->nlp->alloc_primal_vec();
    for(int l = 0; l < n; l++) {
      a->setToZero();
      a->local_data()[l] = 1.;
      b->setToZero();
      this->_Hess_Lagr->timesVec(0., *b, 1., *a);
      for(int k = 0; k < n; k++) K[k][l] = b->local_data()[k];
    }
    delete a; delete b;
    for(int k = 0; k < n; k++) {
      if(ixl[k] == 1) K[k][k] += i.zl[k] / i.sxl[k];
      if(ixu[k] == 1) K[k][k] += i.zu[k] / i.sxu[k];
    }
    // Schur complement by elimination of the (positive definite) leading block
    for(int q = 0; q < m; q++) {
      int j = q < (int)eq.size() ? eq[q] : in[q - eq.size()];
      for(int k = 0; k < n; k++) K[n + q][k] = K[k][n + q] = row(j) * p.jac(j, kept[k], xf.data());
      if(q >= (int)eq.size()) {
        int c = q - eq.size();
        double d = 0;
        if(idl[c] == 1) d += i.vl[c] / i.sdl[c];
        if(idu[c] == 1) d += i.vu[c] / i.sdu[c];
        K[n + q][n + q] = -1 / d;
      }
    }
    for(int k = 0; k < n; k++) {
      if(!(K[k][k] > 0)) return 0;
      for(int r = k + 1; r < t; r++) {
        double f = K[r][k] / K[k][k];
        if(f != 0) for(int c = k + 1; c < t; c++) K[r][c] -= f * K[k][c];
      }
    }
    std::vector<VD> S(m, VD(m));
    for(int q = 0; q < m; q++) for(int r = 0; r < m; r++) S[q][r] = -0.5 * (K[n + q][n + r] + K[n + r][n + q]);
    double rc = 1;
    int ng = inertia(S, &rc);
    return ng == 0 ? rc : 0;
  }
  // rc, rd_: right-hand sides of the linearised constraints of a second-order correction
  bool eliminates_d = false;
  void check_dir(hiop::hiopKKTLinSys* kkt, const VD* socc = nullptr, const VD* socd = nullptr)
  {
    if(kkt) eliminates_d = dynamic_cast<hiop::hiopKKTLinSysCompressedXYcYd*>(kkt) != nullptr;
    It i = itget(*this->it_curr), D = itget(socc ? *this->soc_dir : *this->dir);
    bounds();
    if(wild && cfg.odd_sigma && !breakdown) { breakdown = R().mute = true; R().count("odd_sigma_divergence"); }
    if(wild || u.nfault) return;
    double mu = this->_mu;
    VD xf = xfull(i.x), g(p.n);
    p.grad(xf.data(), g.data());
    // W*dx
    VD Wdx(N(), 0.), Wm(N(), 0.);
    if(cfg.newton) {
      VD lam(p.m);
      for(size_t a = 0; a < eq.size(); a++) lam[eq[a]] = row(eq[a]) * i.yc[a];
      for(size_t a = 0; a < in.size(); a++) lam[in[a]] = row(in[a]) * i.yd[a];
      for(int k = 0; k < N(); k++)
        for(int l = 0; l < N(); l++) { double h = p.hess(kept[k], kept[l], xf.data(), sf, lam.data()); Wdx[k] += h * D.x[l]; Wm[k] += fabs(h * D.x[l]); }
    } else {
      hiop::hiopVector* a = this->nlp->alloc_primal_vec();
      hiop::hiopVector* b = this->nlp->alloc_primal_vec();
      for(int k = 0; k < N(); k++) a->local_data()[k] = D.x[k];
      b->setToZero();
      this->_Hess_Lagr->timesVec(0., *b, 1., *a);
      for(int k = 0; k < N(); k++) { Wdx[k] = b->local_data()[k]; Wm[k] = fabs(Wdx[k]); }
      delete a; delete b;
    }
    // stationarity rows: r_k = delta_k * dx_k
    double num = 0, den = 0, mag = 0;
    VD rx(N()), rd(in.size());
    for(int k = 0; k < N(); k++) {
      double q = sf * g[kept[k]], m = fabs(q) + Wm[k] + fabs(i.zl[k]) + fabs(i.zu[k]) + fabs(D.zl[k]) + fabs(D.zu[k]);
      for(size_t a = 0; a < eq.size(); a++) { double J = row(eq[a]) * p.jac(eq[a], kept[k], xf.data()); q += J * (i.yc[a] + D.yc[a]); m += fabs(J * i.yc[a]) + fabs(J * D.yc[a]); }
      for(size_t a = 0; a < in.size(); a++) { double J = row(in[a]) * p.jac(in[a], kept[k], xf.data()); q += J * (i.yd[a] + D.yd[a]); m += fabs(J * i.yd[a]) + fabs(J * D.yd[a]); }
      q += -i.zl[k] + i.zu[k] - D.zl[k] + D.zu[k];
      if(ixl[k] == 1 && ixu[k] != 1) q += 1e-5 * mu;
      if(ixu[k] == 1 && ixl[k] != 1) q -= 1e-5 * mu;
      rx[k] = -(q + Wdx[k]);  // = delta_w * dx
      mag = std::max(mag, m);
      num += rx[k] * D.x[k]; den += D.x[k] * D.x[k];
    }
    double md = 0;
    for(size_t a = 0; a < in.size(); a++) {
      double q = i.yd[a] + i.vl[a] - i.vu[a] + D.yd[a] + D.vl[a] - D.vu[a];
      if(idl[a] == 1 && idu[a] != 1) q -= 1e-5 * mu;
      if(idu[a] == 1 && idl[a] != 1) q += 1e-5 * mu;
      rd[a] = q;  // = delta_wd * dd
      md = std::max(md, fabs(i.yd[a]) + fabs(i.vl[a]) + fabs(i.vu[a]) + fabs(D.yd[a]) + fabs(D.vl[a]) + fabs(D.vu[a]));
      num += rd[a] * D.d[a]; den += D.d[a] * D.d[a];
    }
    mag = std::max(mag, md);
    double dw = 0;
    if(cfg.newton && den > 1e-30) dw = num / den;
    // well-posed families: tight; others may meet (nearly) singular systems
    // the solver's own iterative refinement judges residuals relative to the norm of the whole right-hand side
    // and no solution is more exact than the size of its entries allows
    double kmax = 1, dmax = 0;
    for(const VD* v : {&D.x, &D.d, &D.yc, &D.yd, &D.zl, &D.zu, &D.vl, &D.vu}) for(double e : *v) dmax = std::max(dmax, fabs(e));
    if(!std::isfinite(dmax)) dmax = 0;
    for(int j = 0; j < p.m; j++) for(int k = 0; k < N(); k++) kmax = std::max(kmax, fabs(row(j) * p.jac(j, kept[k], xf.data())));
    // the multiplier steps amplify the rounding of the slack steps
    double rnd = 0;
    for(int k = 0; k < N(); k++) {
      double e = 1e-15 * (fabs(i.x[k]) + fabs(D.x[k]));
      if(ixl[k] == 1) rnd = std::max(rnd, (e + 1e-15 * fabs(bxl[k])) * i.zl[k] / i.sxl[k]);
      if(ixu[k] == 1) rnd = std::max(rnd, (e + 1e-15 * fabs(bxu[k])) * i.zu[k] / i.sxu[k]);
    }
    for(size_t k = 0; k < in.size(); k++) {
      double e = 1e-15 * (fabs(i.d[k]) + fabs(D.d[k]));
      if(idl[k] == 1) rnd = std::max(rnd, (e + 1e-15 * fabs(bdl[k])) * i.vl[k] / i.sdl[k]);
      if(idu[k] == 1) rnd = std::max(rnd, (e + 1e-15 * fabs(bdu[k])) * i.vu[k] / i.sdu[k]);
    }
    if(!std::isfinite(rnd)) rnd = 0;
    // the systems that eliminate the steps of the inequalities' bodies divide by their barrier weights: little is
    // left of those steps when the weights vanish and the solution is not refined
    double dd_min = 1e300, rnd_d = 0;
    if(!cfg.newton || eliminates_d) {
      VD wd0 = this->pd_perturb_ ? vget(this->pd_perturb_->get_curr_delta_wd()) : VD(in.size(), 0.);
      for(size_t k = 0; k < in.size(); k++) {
        double w = wd0[k] + (idl[k] == 1 ? i.vl[k] / i.sdl[k] : 0) + (idu[k] == 1 ? i.vu[k] / i.sdu[k] : 0);
        dd_min = std::min(dd_min, w);
        rnd_d = std::max(rnd_d, 1e-15 * (fabs(D.yd[k]) + fabs(i.yd[k]) + fabs(i.vl[k]) + fabs(i.vu[k])) / w);
      }
      if((!socc && cfg.newton) || !std::isfinite(rnd_d)) rnd_d = 0;
      if(!cfg.newton) dd_min = 1e300;
    }
    R().maxv("multiplier_step_rounding", rnd);
    const double G = 1e-8 * rhs_norm(socc != nullptr) + (cfg.newton ? 1e-15 * kmax * dmax : 0.);
    // (second-order corrections are solved for without iterative refinement)
    const double tol = p.family == CONVEX || p.family == LP ? (socc && cfg.newton ? 1e-4 : 1e-6) : 1e-3;
    // the regularisation in use
    VD uwx, uwd, ucc, ucd;
    const bool ureg = cfg.newton && this->pd_perturb_;
    if(ureg) {
      uwx = vget(this->pd_perturb_->get_curr_delta_wx()); uwd = vget(this->pd_perturb_->get_curr_delta_wd());
      ucc = vget(this->pd_perturb_->get_curr_delta_cc()); ucd = vget(this->pd_perturb_->get_curr_delta_cd());
    }
    // no dual regularisation here: systems that are singular to working precision break down
    int qs = -1;
    auto qn_singular = [&]() {
      if(cfg.newton) {
        if(p.family == CONVEX || p.family == LP || !ureg) return false;
        if(qs < 0) {
          std::vector<VD> Q = kkt_matrix(i, xf);
          regularise(Q, uwx, uwd, ucc, ucd);
          double rm = 0;
          qs = inertia(Q, &rm) == -2 || rm < 1e-13 || dd_min < 1e-14;
        }
        return qs == 1;
      }
      if(p.family != CONVEX || cfg.odd_sigma) return true;
      // (no iterative refinement in the limited-memory step computation)
      if(qs < 0) qs = normal_matrix_rcond(i, xf) < 1e-11;
      return qs == 1;
    };
    bool broke = false;
    double wr = 0;
    int wk = -1;
    auto worst_st = [&](bool act) {
      wr = 0;
      wk = -1;
      for(int k = 0; k < N(); k++) { double e = fabs(rx[k] - (act ? uwx[k] : dw) * D.x[k]); if(!(e <= wr)) { wr = e; wk = k; } }
      for(size_t a = 0; a < in.size(); a++) { double e = fabs(rd[a] - (act ? uwd[a] : dw) * D.d[a]); if(!(e <= wr)) { wr = e; wk = 1000 + a; } }
    };
    worst_st(false);
    if(cfg.randomized && ureg) worst_st(true);
    else if(cfg.randomized) wr = 0;
    double sc = 1e-3 * 1 + mag;
    R().maxv("kkt_stationarity_residual", wr / sc);
    sc += (G + rnd) / tol;
    if(!(wr <= 1e-6 * sc)) R().count("directions_loose");
    if(!(wr <= tol * sc) && qn_singular()) broke = true;
    else if(!(wr <= tol * sc)) V("P07:stationarity", "the direction leaves a residual %.6g (row %d, terms of size %.3g, best regularisation %.6g) in the stationarity equations%s", wr, wk, mag, dw, socc ? " (second-order correction)" : "");
    if(ureg) {
      worst_st(true);
      R().count("applied_regularisations_checked");
      if(!(wr <= 1e-3 * sc) && qn_singular()) broke = true;
      else if(!(wr <= 1e-3 * sc)) V("P30:applied", "with the regularisation in use (%.6g..) the direction leaves a residual %.6g (row %d, terms of size %.3g) in the stationarity equations; its own is %.6g", uwx.size() ? uwx[0] : 0., wr, wk, mag, dw);
    }
    if(!cfg.randomized && dw < -tol * sc / std::max(1e-12, sqrt(den)) && !qn_singular()) V("P07:negative_regularisation", "the direction corresponds to a negative regularisation %.6g", dw);
    // constraint rows: J dx - delta_c*dy = r
    double nc = 0, dc = 0, mc = 0, jm = 0;
    VD ry(eq.size() + in.size()), dy(ry.size());
    for(size_t a = 0; a < ry.size(); a++) {
      int j = a < eq.size() ? eq[a] : in[a - eq.size()];
      double q = row(j) * p.con(j, xf.data()), m = fabs(q);
      for(int k = 0; k < N(); k++) { double jj = row(j) * p.jac(j, kept[k], xf.data()), t = jj * D.x[k]; q += t; m += fabs(t); jm = std::max(jm, fabs(jj)); }
      if(socc) { double r = a < eq.size() ? (*socc)[a] : (*socd)[a - eq.size()], c = q - row(j) * p.con(j, xf.data()); q = c - r; m += fabs(r); }
      if(a < eq.size()) { if(!socc) q -= crhs[a]; m += fabs(crhs[a]); dy[a] = D.yc[a]; }
      else { q -= (socc ? 0 : i.d[a - eq.size()]) + D.d[a - eq.size()]; m += fabs(i.d[a - eq.size()]) + fabs(D.d[a - eq.size()]); dy[a] = D.yd[a - eq.size()]; }
      ry[a] = q;
      mc = std::max(mc, m);
      nc += q * dy[a]; dc += dy[a] * dy[a];
    }
    double del = (cfg.newton && dc > 1e-30) ? nc / dc : 0;
    mc += rnd_d / tol;
    auto worst_c = [&](bool act) {
      wr = 0;
      for(size_t a = 0; a < ry.size(); a++) { double e = fabs(ry[a] - (act ? (a < eq.size() ? ucc[a] : ucd[a - eq.size()]) : del) * dy[a]); if(!(e <= wr)) wr = e; }
    };
    worst_c(false);
    if(cfg.randomized && ureg) worst_c(true);
    else if(cfg.randomized) wr = 0;
    // nearly dependent active constraints: a backward stable solution leaves residuals that grow with the multipliers
    if(p.family != CONVEX && p.family != LP) mc += 1e-14 / tol * jm * sqrt(dc);
    R().maxv("kkt_constraint_residual", wr / (1e-3 + mc));
    if(!(wr <= tol * (1e-3 + G / tol + mc)) && qn_singular()) broke = true;
    else if(!(wr <= tol * (1e-3 + G / tol + mc))) V("P07:feasibility_rows", "the direction leaves a residual %.6g (terms of size %.3g, best regularisation %.6g, multiplier steps up to %.3g) in the linearised constraints%s", wr, mc, del, sqrt(dc), socc ? " (second-order correction)" : "");
    if(ureg) {
      worst_c(true);
      if(!(wr <= 1e-3 * (1e-3 + G / tol + mc)) && qn_singular()) broke = true;
      else if(!(wr <= 1e-3 * (1e-3 + G / tol + mc))) V("P30:applied", "with the dual regularisation in use (%.6g..) the direction leaves a residual %.6g (terms of size %.3g) in the linearised constraints; its own is %.6g", ucc.size() ? ucc[0] : ucd.size() ? ucd[0] : 0., wr, mc, del);
    }
    if(!cfg.randomized && del < -tol * (1e-3 + G / tol + mc) / std::max(1e-12, sqrt(dc)) && !qn_singular()) V("P07:negative_dual_regularisation", "the direction corresponds to a negative dual regularisation %.6g", del);
    // slack and complementarity rows
    auto sl = [&](const char* nm, const VD& v, const VD& dv, double sg, const VD& b, const VD& s0, const VD& ds, const VD& z, const VD& dz, const VD& ix) {
      for(size_t k = 0; k < v.size(); k++) {
        if(ix[k] != 1) {
          if((std::isnan(ds[k]) || std::isnan(dz[k])) && qn_singular()) broke = true;
          else if(ds[k] != 0 || dz[k] != 0) { V("P07:pattern", "direction of %s[%d] is (%g,%g) without a bound", nm, (int)k, ds[k], dz[k]); }
          continue;
        }
        double e = sg * (v[k] + dv[k] - b[k]) - (s0[k] + ds[k]);
        double ms = fabs(v[k]) + fabs(dv[k]) + fabs(b[k]) + fabs(s0[k]) + fabs(ds[k]);
        if(!(fabs(e) <= tol * (1e-3 + ms) + G) && qn_singular()) broke = true;
        else if(!(fabs(e) <= tol * (1e-3 + ms) + G)) V("P07:slack_rows", "slack row of %s[%d] has residual %.6g (variable %.10g%+.10g, bound %.10g, slack %.10g%+.10g)%s", nm, (int)k, e, v[k], dv[k], b[k], s0[k], ds[k], socc ? " (second-order correction)" : "");
        double c = s0[k] * z[k] + s0[k] * dz[k] + z[k] * ds[k] - mu;
        double m = fabs(s0[k] * z[k]) + fabs(s0[k] * dz[k]) + fabs(z[k] * ds[k]) + mu;
        if(!(fabs(c) <= tol * m + G + 1e-10 * z[k] * (1e-3 + fabs(v[k]))) && qn_singular()) broke = true;
        else if(!(fabs(c) <= tol * m + G + 1e-10 * z[k] * (1e-3 + fabs(v[k])))) V("P07:complementarity_rows", "complementarity row of %s[%d] has residual %.6g (terms of size %.3g; slack %.4g multiplier %.4g direction %.4g %.4g; right-hand side %.3g)", nm, (int)k, c, m, s0[k], z[k], ds[k], dz[k], rhs_norm());
      }
    };
    sl("xl", i.x, D.x, 1, bxl, i.sxl, D.sxl, i.zl, D.zl, ixl);
    sl("xu", i.x, D.x, -1, bxu, i.sxu, D.sxu, i.zu, D.zu, ixu);
    sl("dl", i.d, D.d, 1, bdl, i.sdl, D.sdl, i.vl, D.vl, idl);
    sl("du", i.d, D.d, -1, bdu, i.sdu, D.sdu, i.vu, D.vu, idu);
    if(broke && cfg.newton) R().count("singular_systems");
    else if(broke) { breakdown = R().mute = true; R().count("singular_breakdowns"); }
    R().count(socc ? "soc_directions_checked" : "directions_checked");
    if(socc) return;
    if(dw > 1e-10) R().count("directions_regularised");
    deltas.push_back({dw, del});
    if(cfg.newton) check_reg(i, D, xf);
  }
  // inertia of a symmetric matrix after equilibration: number of negative eigenvalues, -1 if nearly singular
  static int inertia(std::vector<VD> M, double* rmin = nullptr)
  {
    int n = M.size();
    for(int q = 0; q < 8; q++) {
      VD s(n);
      for(int a = 0; a < n; a++) { double m = 0; for(int b = 0; b < n; b++) m = std::max(m, fabs(M[a][b])); s[a] = m > 0 ? 1 / sqrt(m) : 1; }
      for(int a = 0; a < n; a++) for(int b = 0; b < n; b++) M[a][b] *= s[a] * s[b];
    }
    VD A(n * n), w(n), wk(std::max(1, 8 * n));
    for(int a = 0; a < n; a++) for(int b = 0; b < n; b++) { A[a * n + b] = M[a][b]; if(!std::isfinite(M[a][b])) return -2; }
    char jz = 'N', up = 'U';
    int lw = wk.size(), info = 0;
    if(n) dsyev_(&jz, &up, &n, A.data(), &n, w.data(), wk.data(), &lw, &info);
    if(info) return -2;
    int neg = 0;
    double mn = 1e300, mx = 0;
    for(double e : w) { neg += e < 0; mn = std::min(mn, fabs(e)); mx = std::max(mx, fabs(e)); }
    if(rmin) *rmin = n ? mn / mx : 1;
    return neg;
  }
  static double min_eig(const std::vector<VD>& M)
  {
    int n = M.size();
    VD A(n * n), w(n), wk(std::max(1, 8 * n));
    for(int a = 0; a < n; a++) for(int b = 0; b < n; b++) { A[a * n + b] = M[a][b]; if(!std::isfinite(M[a][b])) return -1e300; }
    char jz = 'N', up = 'U';
    int lw = wk.size(), info = 0;
    if(n) dsyev_(&jz, &up, &n, A.data(), &n, w.data(), wk.data(), &lw, &info);
    if(info) return -1e300;
    double m = 1e300;
    for(double e : w) m = std::min(m, e);
    return m;
  }
  // the (symmetric) KKT matrix in (dx,dd,dyc,dyd), without regularisation
  std::vector<VD> kkt_matrix(const It& i, const VD& xf)
  {
    int nx = N(), me = eq.size(), mi = in.size(), m = me + mi, n = nx + mi + m;
    VD lam(p.m);
    for(int a = 0; a < me; a++) lam[eq[a]] = row(eq[a]) * i.yc[a];
    for(int a = 0; a < mi; a++) lam[in[a]] = row(in[a]) * i.yd[a];
    std::vector<VD> M(n, VD(n, 0.));
    for(int k = 0; k < nx; k++) {
      for(int l = 0; l < nx; l++) M[k][l] = p.hess(kept[k], kept[l], xf.data(), sf, lam.data());
      if(ixl[k] == 1) M[k][k] += i.zl[k] / i.sxl[k];
      if(ixu[k] == 1) M[k][k] += i.zu[k] / i.sxu[k];
      for(int a = 0; a < me; a++) M[k][nx + mi + a] = M[nx + mi + a][k] = row(eq[a]) * p.jac(eq[a], kept[k], xf.data());
      for(int a = 0; a < mi; a++) M[k][nx + mi + me + a] = M[nx + mi + me + a][k] = row(in[a]) * p.jac(in[a], kept[k], xf.data());
    }
    for(int a = 0; a < mi; a++) {
      if(idl[a] == 1) M[nx + a][nx + a] += i.vl[a] / i.sdl[a];
      if(idu[a] == 1) M[nx + a][nx + a] += i.vu[a] / i.sdu[a];
      M[nx + a][nx + mi + me + a] = M[nx + mi + me + a][nx + a] = -1;
    }
    return M;
  }
  static void regularise(std::vector<VD>& Q, const VD& a, const VD& b, const VD& c, const VD& d)
  {
    int o = 0;
    for(double v : a) { Q[o][o] += v; o++; }
    for(double v : b) { Q[o][o] += v; o++; }
    for(double v : c) { Q[o][o] -= v; o++; }
    for(double v : d) { Q[o][o] -= v; o++; }
  }
  bool ever_singular = false;
  void check_reg(const It& i, const It& D, const VD& xf)
  {
    if(!this->pd_perturb_) return;
    VD wx = vget(this->pd_perturb_->get_curr_delta_wx()), wd = vget(this->pd_perturb_->get_curr_delta_wd());
    VD cc = vget(this->pd_perturb_->get_curr_delta_cc()), cd = vget(this->pd_perturb_->get_curr_delta_cd());
    auto mm = [](const VD& a, const VD& b, double& lo, double& hi) { lo = 1e300; hi = -1e300; for(double v : a) { lo = std::min(lo, v); hi = std::max(hi, v); } for(double v : b) { lo = std::min(lo, v); hi = std::max(hi, v); } if(a.empty() && b.empty()) lo = hi = 0; };
    double wlo, whi, clo, chi;
    mm(wx, wd, wlo, whi); mm(cc, cd, clo, chi);
    if(!(wlo >= 0) || !(clo >= 0) || !std::isfinite(whi) || !std::isfinite(chi)) V("P30:sign", "regularisation in use has entries in [%g,%g] and [%g,%g]", wlo, whi, clo, chi);
    if(!cfg.randomized && (wlo != whi || clo != chi)) V("P30:uniform", "regularisation in use is not uniform: [%g,%g], [%g,%g]", wlo, whi, clo, chi);
    int nx = N(), me = eq.size(), mi = in.size(), m = me + mi, n = nx + mi + m;
    R().count("regularisations_checked");
    const std::vector<VD> M = kkt_matrix(i, xf);
    if(cfg.inertia_free) {
      // curvature along the direction
      double c = 0, q = 0, t = 0;
      for(int k = 0; k < nx; k++) { for(int l = 0; l < nx; l++) { double e = M[k][l] * D.x[k] * D.x[l]; c += e; t += fabs(e); } double e = wx[k] * D.x[k] * D.x[k]; c += e; t += fabs(e); q += D.x[k] * D.x[k]; }
      for(int a = 0; a < mi; a++) { double e = (M[nx + a][nx + a] + wd[a]) * D.d[a] * D.d[a]; c += e; t += fabs(e); q += D.d[a] * D.d[a]; }
      double f = this->nlp->options->GetNumeric("neg_curv_test_fact");
      if(c < f * q - 1e-6 * t - 1e-9 * q) V("P30:curvature", "curvature %.9g of a direction of squared length %.9g accepted (terms of size %.3g)", c, q, t);
      R().count("curvatures_checked");
      if(whi > 0 && chi == 0 && !cfg.forcequick) {
        // positive definite on all of (x,d): every direction passes the test, nothing calls for a regularisation
        std::vector<VD> B(nx + mi, VD(nx + mi));
        double big = 0;
        for(int a = 0; a < nx + mi; a++) for(int b = 0; b < nx + mi; b++) { B[a][b] = M[a][b]; big = std::max(big, fabs(B[a][b])); }
        double rm0 = 0;
        inertia(M, &rm0);
        if(rm0 < 1e-7) ever_singular = true;
        if(!ever_singular && rm0 > 1e-5 && min_eig(B) > 2 * f + 1e-8 * big)
          V("P30:needless_curvature", "regularisation %g although the curvature is positive in every direction", whi);
        R().count("curvature_regularisations");
      }
      return;
    }
    if(cfg.forcequick) return;
    auto reg = [&](const VD& a, const VD& b, const VD& c, const VD& d) { std::vector<VD> Q = M; regularise(Q, a, b, c, d); return Q; };
    double rm = 0, rm0 = 0;
    VD zx(nx, 0.), zd(mi, 0.), zc(me, 0.);
    int ng = inertia(reg(wx, wd, cc, cd), &rm), ng0 = inertia(reg(zx, zd, zc, zd), &rm0);
    if(rm0 < 1e-7) ever_singular = true;
    if(ng == -2 || ng0 == -2) return;
    if(rm > 1e-9) {
      R().count("inertias_checked");
      if(ng != m) V("P30:inertia", "the regularised KKT matrix has %d negative eigenvalues, %d are required (regularisation %g %g, unregularised %d)", ng, m, whi, chi, ng0);
    } else R().count("inertias_nearly_singular");
    if(whi > 0) R().count("regularised_primal");
    if(chi > 0) R().count("regularised_dual");
    // only the wrong inertia (or a singular matrix, now or earlier) calls for a primal regularisation
    if(whi > 0 && chi == 0 && !ever_singular && ng0 == m && rm0 > 1e-5)
      V("P30:needless", "regularisation %g of a KKT matrix of the right inertia (%d negative eigenvalues, reciprocal condition %.3g)", whi, ng0, rm0);
  }
};
template <>
inline Mon<hiop::hiopAlgFilterIPMQuasiNewton>::Mon(hiop::hiopNlpFormulation*, User& u_, const MonCfg& c, hiop::hiopNlpDenseConstraints* nd)
  : hiop::hiopAlgFilterIPMQuasiNewton(nd), u(u_), p(u_.p), cfg(c) { init_maps(); }
template <>
inline Mon<hiop::hiopAlgFilterIPMNewton>::Mon(hiop::hiopNlpFormulation* nlp, User& u_, const MonCfg& c, hiop::hiopNlpDenseConstraints*)
  : hiop::hiopAlgFilterIPMNewton(nlp), u(u_), p(u_.p), cfg(c) { init_maps(); }
