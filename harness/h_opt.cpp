// Options objects under random sequences of settings and options files, against a model of
// the documented ranges, precedence and consistency rules; logger and matrix files.
#include "vh.hpp"
#include "hiopOptions.hpp"
#include "hiopLogger.hpp"
#include "hiopVectorPar.hpp"
#include "hiopMatrixDenseRowMajor.hpp"
#include "hiopMatrixSparseTriplet.hpp"
#include "hiopNlpFormulation.hpp"
#include "hiopFilter.hpp"
#include "hiopTimer.hpp"
#include "hiopRunStats.hpp"
#include "hiopCSR_IO.hpp"
#include "prob.hpp"
#include <mpi.h>
#include <unistd.h>
#include <limits>
#include <sstream>
#include <cctype>
#include <memory>
#include <fstream>
using vh::Rng;
using vh::R;
typedef std::string S;
enum { NLP, PRI };
struct Def { int cls; S name; char type; double def, lo, hi; S sdef; std::vector<S> ch; };
static const std::vector<Def> TAB = {
#include "opttab.inc"
};
static S low(S s) { for(char& c : s) c = tolower((unsigned char)c); return s; }

struct MOpt { const Def* d; double v; S s; bool infile = false, atrun = false; };
struct Model {
  int cls;
  std::map<S, MOpt> o;
  bool moved = false;  // a consistency rule changed something
  Model(int c) : cls(c)
  {
    for(auto& d : TAB) if(d.cls == c) { MOpt m; m.d = &d; m.v = d.def; m.s = d.sdef; o[d.name] = m; }
  }
  bool user(const S& n) { auto& m = o[n]; return m.infile || m.atrun; }
  S& s(const char* n) { return o.at(n).s; }
  double& v(const char* n) { return o.at(n).v; }
  void put(const char* n, const S& x) { if(s(n) != x) { s(n) = x; moved = true; } }
  void tighten(const char* n) { if(v(n) < v("tolerance") && user(n)) { v(n) = v("tolerance"); moved = true; } }
  void consistent()
  {
    tighten("acceptable_tolerance");
    if(cls == PRI) return;
    tighten("dual_tol"); tighten("cons_tol"); tighten("comp_tol");
    if(s("Hessian") == "quasinewton_approx" && user("Hessian") && s("KKTLinsys") != "auto") put("KKTLinsys", "auto");
    if(s("Hessian") == "analytical_exact") put("duals_update_type", "linear");
    S ls = s("linear_solver_sparse");
    if(s("KKTLinsys") == "full") { if(ls != "resolve" && ls != "pardiso" && ls != "strumpack" && ls != "auto") put("linear_solver_sparse", "auto"); }
    else if(s("KKTLinsys") == "condensed") { if(ls != "cusolver-chol" && ls != "auto") put("linear_solver_sparse", "auto"); }
    if(ls == "resolve" || ls == "cusolver-chol") put("linear_solver_sparse", "auto");  // no CUDA here
    put("compute_mode", "cpu");  // no GPU support in this build
    if(s("KKTLinsys") == "full" || s("linear_solver_sparse") == "strumpack") put("fact_acceptor", "inertia_free");
    if(v("moving_lim_rel") * v("moving_lim_abs") != 0) { v("moving_lim_rel") = 0; moved = true; }
    static const char* ck[] = {"checkpoint_save", "checkpoint_save_every_N_iter", "checkpoint_file", "checkpoint_load_on_start"};
    bool any = false;
    for(auto c : ck) any = any || user(c);
    if(any) for(auto c : ck) o.at(c).infile = o.at(c).atrun = false;
  }
  // true if the value is taken, false if it has to be rejected (or ignored because of the file)
  bool set(const S& n, char type, double v_, const S& sv, bool file)
  {
    bool taken = false;
    auto it = o.find(n);
    if(it != o.end() && it->second.d->type == type) {
      MOpt& m = it->second;
      if(m.infile && !file) return false;
      (file ? m.infile : m.atrun) = true;
      if(type == 's') {
        if(m.d->ch.empty()) { m.s = sv; taken = true; }
        else for(auto& c : m.d->ch) if(c == low(sv)) { m.s = c; taken = true; }
      } else if(v_ >= m.d->lo && v_ <= m.d->hi) { m.v = v_; taken = true; }
    }
    moved = false;
    consistent();
    return taken;
  }
};

template <class B>
struct Opt : B {
  Opt(const char* f) : B(f) {}
  std::map<S, std::pair<char, std::pair<double, S>>> all()
  {
    std::map<S, std::pair<char, std::pair<double, S>>> r;
    for(auto& p : this->mOptions_) {
      if(dynamic_cast<typename B::OptionNum*>(p.second)) r[p.first] = {'n', {this->GetNumeric(p.first.c_str()), ""}};
      else if(dynamic_cast<typename B::OptionInt*>(p.second)) r[p.first] = {'i', {(double)this->GetInteger(p.first.c_str()), ""}};
      else r[p.first] = {'s', {0, this->GetString(p.first.c_str())}};
    }
    return r;
  }
};

static S scratch()
{
  static S d;
  if(d.empty()) { char t[] = "/tmp/hopt.XXXXXX"; d = mkdtemp(t); }
  return d;
}
static S slurp(const S& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

template <class O>
static bool compare(O& opt, Model& m, const S& what)
{
  bool ok = true;
  auto a = opt.all();
  for(auto& p : m.o) {
    auto it = a.find(p.first);
    if(it == a.end()) { R().viol("P14:missing", "option %s is not there", p.first.c_str()); continue; }
    if(it->second.first != p.second.d->type) { R().viol("P14:type", "option %s is of type %c", p.first.c_str(), it->second.first); continue; }
    if(p.second.d->type == 's' ? it->second.second.second != p.second.s : it->second.second.first != p.second.v) {
      ok = false;
      R().viol("P14:value", "after %s: %s is %.17g%s, expected %.17g%s", what.c_str(), p.first.c_str(), it->second.second.first, it->second.second.second.c_str(), p.second.v, p.second.s.c_str());
      break;
    }
    if(opt.is_user_defined(p.first.c_str()) != m.user(p.first)) { ok = false; R().viol("P14:user_defined", "after %s: %s user-defined %d, expected %d", what.c_str(), p.first.c_str(), (int)opt.is_user_defined(p.first.c_str()), (int)m.user(p.first)); break; }
  }
  if(opt.is_user_defined("no_such_option")) R().viol("P14:user_defined", "an unknown option is said to be user defined");
  return ok;
}

static const Def& pick(Rng& g, int cls)
{
  static const std::vector<S> hot = {"tolerance", "acceptable_tolerance", "dual_tol", "cons_tol", "comp_tol", "Hessian", "KKTLinsys", "duals_update_type", "linear_solver_sparse", "fact_acceptor", "moving_lim_rel", "moving_lim_abs", "compute_mode"};
  if(cls == NLP && g.b(0.5)) { S h = g.pick(hot); for(auto& d : TAB) if(d.cls == cls && d.name == h) return d; }
  for(;;) { auto& d = TAB[g.i(0, TAB.size() - 1)]; if(d.cls == cls) return d; }
}
// a number relative to the range of an option
static double rndnum(Rng& g, const Def& d, bool integer)
{
  double lo = d.lo, hi = d.hi, v;
  switch(g.i(0, 8)) {
    case 0: v = lo; break;
    case 1: v = hi; break;
    case 2: v = integer ? lo - 1 : std::nextafter(lo, -1e300); break;
    case 3: v = integer ? hi + 1 : std::nextafter(hi, 1e300); break;
    case 4: v = -g.u(0, 10) - 1; break;
    case 5: v = hi * g.u(1.1, 10) + 1; break;
    case 6: v = lo > 0 ? exp(g.u(log(lo), log(hi))) : hi * pow(10, -g.u(0, 12)); break;
    default: v = lo + (hi - lo) * g.u(); break;
  }
  if(!integer && g.b(0.02)) v = g.b(0.5) ? std::numeric_limits<double>::quiet_NaN() : g.b(0.5) ? INFINITY : -INFINITY;
  if(integer) v = std::max(-2e9, std::min(2e9, std::round(v)));
  return v;
}
static S rndword(Rng& g)
{
  static const S cs = "abcXYZ019._-%/sdn";
  S r;
  for(int k = g.i(1, 14); k > 0; k--) r += cs[g.i(0, cs.size() - 1)];
  return r;
}
static S rndstr(Rng& g, const Def& d)
{
  if(d.ch.empty() || g.b(0.2)) return rndword(g);
  S c = g.pick(d.ch);
  if(g.b(0.3)) for(char& x : c) if(g.b(0.5)) x = toupper(x);
  if(g.b(0.1)) c += " ";
  return c;
}

template <class O>
static void body_opt(Rng& g, int cls)
{
  Model m(cls);
  // the options file
  S file = scratch() + "/opt" + std::to_string(getpid()) + ".txt", what = "construction";
  bool havefile = g.b(0.6);
  if(havefile) {
    std::ofstream f(file);
    for(int k = g.i(0, 14); k > 0; k--) {
      int kind = g.i(0, 9);
      S eol = k == 1 && g.b(0.3) ? "" : g.b(0.1) ? "\r\n" : "\n";
      if(kind == 0) { f << "   # comment tolerance 1e-3" << eol; continue; }
      if(kind == 1) { f << (g.b(0.5) ? "" : "   \t ") << eol; continue; }
      const Def& d = pick(g, cls);
      S name = g.b(0.05) ? rndword(g) : d.name, val;
      if(kind == 2) { f << name << eol; continue; }  // no value: ignored
      char t = m.o.count(name) ? m.o[name].d->type : 'x';
      double num = 0;
      bool parse = true;
      if(d.type == 's') { val = rndstr(g, d); while(!val.empty() && val.back() == ' ') val.pop_back(); if(val[0] == '#') val = "x" + val; if(t != 's') t = 'x'; }
      else if(d.type == 'n') {
        do num = rndnum(g, d, false); while(!std::isfinite(num));
        if(num != 0 && fabs(num) < 1e-290) num = 0;
        char b[64]; snprintf(b, 64, g.b(0.5) ? "%.17g" : "%.17e", num); val = b;
        if(g.b(0.1)) { val = g.b(0.5) ? rndword(g) + "q" : val + "x"; parse = false; if(isdigit(val[0]) || val[0] == '.' || val[0] == '-') parse = false; }
      } else {
        num = rndnum(g, d, true);
        val = std::to_string((long)num);
        if(g.b(0.15)) { val += g.b(0.5) ? ".5" : "e2"; parse = false; }
      }
      f << (g.b(0.2) ? "  " : "") << name << (g.b(0.2) ? "\t " : " ") << val << (g.b(0.2) ? " # 7" : "") << eol;
      if(t == 'x' || !parse) continue;
      m.set(name, t, num, val, true);
    }
  }
  R().count("files", havefile);
  m.consistent();
  int sv = dup(2);
  FILE* nul = freopen("/dev/null", "w", stderr);
  (void)nul;
  O opt((havefile ? file : g.b(0.5) ? scratch() + "/none" : S(hiop::hiopOptions::default_filename)).c_str());
  fflush(stderr);
  dup2(sv, 2);
  close(sv);
  bool ok = compare(opt, m, what);
  if(havefile && !ok) R().sample("file:\n" + slurp(file));
  if(havefile) unlink(file.c_str());
  FILE* lf = tmpfile();
  hiop::hiopLogger log(&opt, lf);
  opt.SetLog(&log);
  for(int k = g.i(1, 25); k > 0 && ok; k--) {
    const Def& d = pick(g, cls);
    S name = g.b(0.06) ? rndword(g) : d.name;
    char t = g.b(0.08) ? "nis"[g.i(0, 2)] : d.type;
    bool file_ = g.b(0.15);
    double v = t == 's' ? 0 : rndnum(g, d, t == 'i');
    S sv = t == 's' ? rndstr(g, d) : "";
    bool pre = m.o.count(name) && m.o[name].infile && !file_ && m.o[name].d->type == t;
    long p0 = ftell(lf);
    fflush(lf);
    int verb = (int)m.v("verbosity_level");
    bool r = t == 'n' ? opt.SetNumericValue(name.c_str(), v, file_) : t == 'i' ? opt.SetIntegerValue(name.c_str(), (int)v, file_) : opt.SetStringValue(name.c_str(), sv.c_str(), file_);
    bool taken = m.set(name, t, t == 'i' ? (int)v : v, sv, file_);
    what = vh::fmt("set %s = %c:%.17g'%s'%s", name.c_str(), t, v, sv.c_str(), file_ ? " (as file)" : "");
    if(!r) R().viol("P14:return", "%s returned false", what.c_str());
    ok = compare(opt, m, what);
    fflush(lf);
    long p1 = ftell(lf);
    S txt(p1 > p0 ? p1 - p0 : 0, 0);
    if(p1 > p0) { fseek(lf, p0, SEEK_SET); size_t q = fread(&txt[0], 1, txt.size(), lf); (void)q; fseek(lf, 0, SEEK_END); }
    verb = std::min(verb, (int)m.v("verbosity_level"));
    if(!taken && verb >= 1 && txt.find("[Warning]") == S::npos) R().viol("P14:no_warning", "%s is rejected without a warning", what.c_str());
    if(!taken && verb >= 1 && txt.find(name) == S::npos) R().viol("P14:warning_name", "%s: the warning does not name the option: %s", what.c_str(), txt.c_str());
    if(taken && !m.moved && txt.find("Default value") != S::npos) R().viol("P14:warning", "%s is taken but: %s", what.c_str(), txt.c_str());
    R().count(pre ? "ignored_because_of_file" : taken ? "taken" : "rejected");
    if(m.moved) R().count("made_consistent");
    R().eval(vh::mix(vh::hash_s(what), k));
  }
  fclose(lf);
}

// ---------------------------------------------------------------- logger
static std::vector<double> numbers(const S& t)
{
  std::vector<double> r;
  const char* p = t.c_str();
  while(*p) {
    char* e;
    if(*p == '-' || *p == '+' || isdigit(*p) || *p == 'n' || *p == 'i') {
      double v = strtod(p, &e);
      if(e != p) { r.push_back(v); p = e; continue; }
    }
    p++;
  }
  return r;
}
static double rv(Rng& g) { return g.b(0.1) ? 0. : g.gauss() * pow(10, g.u(-15, 15)); }

static void body_log(Rng& g)
{
  hiop::hiopOptionsNLP opt((scratch() + "/none2").c_str());
  FILE* f = tmpfile();
  int np = R().nranks, rk = R().rank;
  int master = np > 1 ? g.i(0, np - 1) : 0;
  hiop::hiopLogger log(&opt, f, master);
  static const int lv[] = {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
  int cur = 3;
  for(int k = g.i(5, 40); k > 0; k--) {
    if(g.b(0.3)) { cur = g.i(0, 12); opt.SetIntegerValue("verbosity_level", cur); }
    int v = lv[g.i(0, 13)];
    auto V = (hiop::hiopOutVerbosity)v;
    long p0 = ftell(f);
    bool adm = v <= cur && rk == master;
    S exp;
    int kind = g.i(0, 4);
    std::vector<double> vals;
    double rt = 0;
    S lead;
    if(kind == 0) {
      int a = g.i(-1000, 1000);
      double b = rv(g);
      S w = rndword(g);
      int len = g.b(0.2) ? g.i(1000, 3900) : 0;
      w += S(len, 'y');
      log.printf(V, "<%d|%.17g|%s>\n", a, b, w.c_str());
      exp = vh::fmt("<%d|%.17g|", a, b) + w + ">\n";
      exp = (v == -1 ? "[Error] " : v == 1 ? "[Warning] " : "") + exp;
    } else if(kind == 1) {
      S w = rndword(g);
      log.write(w.c_str(), V);
      exp = w + "\n";
    } else if(kind == 2) {
      adm = v <= cur;  // vectors are printed by every rank
      int n = g.i(0, 30);
      std::unique_ptr<hiop::hiopVectorPar> x(new hiop::hiopVectorPar(n));
      for(int i = 0; i < n; i++) { x->local_data()[i] = rv(g); vals.push_back(x->local_data()[i]); }
      log.write("W", *x, V);
      rt = 1e-17;
    } else if(kind == 3) {
      int m = g.i(1, 6), n = g.i(1, 6);
      hiop::hiopMatrixDenseRowMajor M(m, n);
      for(int i = 0; i < m * n; i++) { M.local_data()[i] = rv(g); }
      vals.push_back(m); vals.push_back(n);
      for(int i = 0; i < m * n; i++) vals.push_back(M.local_data()[i]);
      log.write("W", M, V);
      rt = 1e-11;
    } else {
      int m = g.i(1, 6), n = g.i(1, 6), nnz = 0;
      std::vector<int> I, J;
      std::vector<double> X;
      for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) if(g.b(0.4)) { I.push_back(i); J.push_back(j); X.push_back(rv(g)); nnz++; }
      hiop::hiopMatrixSparseTriplet M(m, n, nnz);
      for(int e = 0; e < nnz; e++) { M.i_row()[e] = I[e]; M.j_col()[e] = J[e]; M.M()[e] = X[e]; }
      for(int i : I) vals.push_back(i + 1);
      for(int j : J) vals.push_back(j + 1);
      for(double x : X) vals.push_back(x);
      log.write("W", M, V);
      rt = 1e-5;
    }
    fflush(f);
    long p1 = ftell(f);
    S txt(p1 - p0, 0);
    if(p1 > p0) { fseek(f, p0, SEEK_SET); size_t q = fread(&txt[0], 1, txt.size(), f); (void)q; fseek(f, 0, SEEK_END); }
    if(!adm) {
      if(!txt.empty()) R().viol("P31:not_admitted", "verbosity %d, rank %d of master %d: message of level %d printed: %.100s", cur, rk, master, v, txt.c_str());
    } else if(kind <= 1) {
      if(txt != exp) R().viol("P31:message", "verbosity %d, level %d: '%.100s' (%d) instead of '%.100s' (%d)", cur, v, txt.c_str(), (int)txt.size(), exp.c_str(), (int)exp.size());
    } else {
      auto got = numbers(txt);
      bool ok = got.size() == vals.size();
      for(size_t i = 0; ok && i < got.size(); i++) ok = vh::close(got[i], vals[i], rt);
      if(!ok) R().viol("P31:content", "kind %d printed as '%.300s' (%d numbers instead of %d)", kind, txt.c_str(), (int)got.size(), (int)vals.size());
    }
    R().count(adm ? "messages_admitted" : "messages_suppressed");
    R().eval(vh::mix(vh::hash_s(txt), v * 20 + cur));
  }
  fclose(f);
}

// matrix and vectors in the documented iajaaa format, read back by an independent reader
struct Iajaaa { int m = 0, nx = 0, meq = 0, mineq = 0, nnz = 0; std::vector<int> ia, ja; std::vector<double> a; std::vector<std::vector<double>> vecs; bool ok = false; };
static Iajaaa read_iajaaa(const S& f)
{
  Iajaaa r;
  std::ifstream in(f);
  if(!(in >> r.m >> r.nx >> r.meq >> r.mineq >> r.nnz)) return r;
  r.ia.resize(r.m + 1); r.ja.resize(r.nnz); r.a.resize(r.nnz);
  for(int& x : r.ia) if(!(in >> x)) return r;
  for(int& x : r.ja) if(!(in >> x)) return r;
  for(double& x : r.a) if(!(in >> x)) return r;
  r.ok = true;
  for(;;) {
    std::vector<double> v(r.m);
    int k = 0;
    for(; k < r.m; k++) if(!(in >> v[k])) break;
    if(k < r.m) { r.ok = k == 0; break; }
    if(r.m == 0) break;
    r.vecs.push_back(v);
  }
  return r;
}

static void body_csr(Rng& g)
{
  static std::unique_ptr<User> us;
  static std::unique_ptr<Prob> pb;
  static std::unique_ptr<DenseProb> dp;
  static std::unique_ptr<hiop::hiopNlpDenseConstraints> nlp;
  if(!nlp) {
    Rng g2(7);
    pb.reset(new Prob(gen(g2, CONVEX, 3, false)));
    us.reset(new User(*pb));
    dp.reset(new DenseProb(*us));
    nlp.reset(new hiop::hiopNlpDenseConstraints(*dp, (scratch() + "/none3").c_str()));
    nlp->options->SetIntegerValue("verbosity_level", 0);
  }
  if(chdir(scratch().c_str())) return;
  hiop::hiopCSR_IO io(nlp.get());
  int counter = g.i(0, 40), m = g.i(1, 9);
  S fn = "kkt_linsys_" + std::to_string(counter) + ".iajaaa";
  int nx = g.i(0, m), meq = g.i(0, m - nx), mi = m - nx - meq;
  std::vector<std::vector<double>> A(m, std::vector<double>(m, 0.));
  bool dense = g.b(0.5);
  auto val = [&]() { return g.gauss() * pow(10, g.u(-6, 8)); };
  if(dense) {
    hiop::hiopMatrixDenseRowMajor M(m, m);
    for(int i = 0; i < m; i++) for(int j = i; j < m; j++) A[i][j] = A[j][i] = g.b(0.5) ? val() : 0.;
    for(int i = 0; i < m; i++) for(int j = 0; j < m; j++) M.local_data()[i * m + j] = j < i && g.b(0.3) ? 777. : A[i][j];  // lower part is not referenced
    io.writeMatToFile(M, counter, nx, meq, mi);
  } else {
    std::vector<int> I, J;
    std::vector<double> X;
    for(int i = 0; i < m; i++) for(int j = i; j < m; j++) if(i == j || g.b(0.4)) {
      int rep = g.b(0.15) ? 2 : 1;
      for(int q = 0; q < rep; q++) { double v = val(); I.push_back(i); J.push_back(j); X.push_back(v); A[i][j] += v; if(j > i) A[j][i] = A[i][j]; }
    }
    hiop::hiopMatrixSymSparseTriplet M(m, (int)I.size());
    for(size_t e = 0; e < I.size(); e++) { M.i_row()[e] = I[e]; M.j_col()[e] = J[e]; M.M()[e] = X[e]; }
    io.writeMatToFile(M, counter, nx, meq, mi);
  }
  int nv = g.i(0, 4);
  std::vector<std::vector<double>> V;
  hiop::hiopVectorPar x(m);
  for(int k = 0; k < nv; k++) {
    V.push_back({});
    for(int i = 0; i < m; i++) { x.local_data()[i] = val(); V[k].push_back(x.local_data()[i]); }
    if(k % 2) io.writeSolToFile(x, counter); else io.writeRhsToFile(x, counter);
  }
  Iajaaa r = read_iajaaa(fn);
  unlink(fn.c_str());
  S w = dense ? "dense" : "triplet";
  if(!r.ok) { R().viol("P31:file_format", "the %s matrix of size %d cannot be read back", w.c_str(), m); return; }
  if(r.m != m || r.nx != nx || r.meq != meq || r.mineq != mi) R().viol("P31:file_header", "%s: header %d %d %d %d instead of %d %d %d %d", w.c_str(), r.m, r.nx, r.meq, r.mineq, m, nx, meq, mi);
  else {
    std::vector<std::vector<double>> B(m, std::vector<double>(m, 0.));
    bool ok = r.ia[0] == 1 && r.ia[m] == r.nnz + 1;
    for(int i = 0; i < m && ok; i++) for(int k = r.ia[i] - 1; k < r.ia[i + 1] - 1 && ok; k++) { int j = r.ja[k] - 1; ok = k >= 0 && k < r.nnz && j >= 0 && j < m; if(ok) { B[i][j] += r.a[k]; if(i != j) B[j][i] = B[i][j]; } }
    if(!ok) R().viol("P31:file_index", "%s: row pointers or column indexes out of range", w.c_str());
    for(int i = 0; i < m && ok; i++) for(int j = 0; j < m && ok; j++) if(!vh::close(B[i][j], A[i][j], 1e-13, 2e-20)) { ok = false; R().viol("P31:file_matrix", "%s: entry (%d,%d) written %.17g, read back %.17g", w.c_str(), i, j, A[i][j], B[i][j]); }
    if((int)r.vecs.size() != nv) R().viol("P31:file_vectors", "%d vectors written, %d read back", nv, (int)r.vecs.size());
    else for(int k = 0; k < nv; k++) for(int i = 0; i < m; i++) if(!vh::close(r.vecs[k][i], V[k][i], 1e-14, 2e-20)) { R().viol("P31:file_vector", "entry %d of vector %d written %.17g, read back %.17g", i, k, V[k][i], r.vecs[k][i]); break; }
  }
  R().count("files_read_back");
  R().eval(vh::mix(vh::hash_d(1, r.a.data(), r.a.size()), m));
}

int main(int argc, char** argv)
{
  int rc = vh::run(argc, argv, [](Rng& g, long k, const std::string& mode) {
    if(mode == "opt") { if(g.b(0.8)) body_opt<Opt<hiop::hiopOptionsNLP>>(g, NLP); else body_opt<Opt<hiop::hiopOptionsPriDec>>(g, PRI); }
    else if(mode == "log") body_log(g);
    else if(mode == "csr") body_csr(g);
  });
  if(chdir("/")) return rc;
  rmdir(scratch().c_str());
  return rc;
}
