// The C and Fortran-style interfaces against the C++ interface: same problem, same callbacks, same answer,
// for random sequences of create, solve and destroy calls on several problems.
#include "session.hpp"
#include <dirent.h>
#include <unistd.h>
extern "C" {
#include "hiopInterface.h"
#include "hiopFortranInterface.h"
}
using vh::Rng;

struct Ev { int kind, nx; uint64_t h; bool operator==(const Ev& o) const { return kind == o.kind && nx == o.nx && h == o.h; } };
static const char* KN[3] = {"dense C", "MDS C", "dense Fortran"};

// one side of the comparison: the user's problem with a record of its evaluations
struct Side {
  User u;
  std::unique_ptr<DenseProb> d;
  std::unique_ptr<MDSProb> m;
  std::vector<Ev> ev;
  int lastk = 0, lastnx = 0;
  explicit Side(Prob& p) : u(p)
  {
    u.one_call = true;
    u.check_bounds = false;
    u.on_call = [this](int k, int nx) { lastk = k; lastnx = nx; };
    u.on_x = [this](int k, const VD& x) { ev.push_back({k, lastnx, vh::hash_d(7, x.data(), x.size())}); };
    d.reset(new DenseProb(u));
    m.reset(new MDSProb(u));
  }
  void note(double a, const double* v, int n, int nl) { ev.back().h = vh::mix(vh::hash_d(vh::hash_d(ev.back().h, &a, 1), v, n), nl); }
};
struct MDSRec : hiop::hiopInterfaceMDS {  // records the arguments of the Hessian as well
  Side& sd;
  User& u;
  explicit MDSRec(Side& s_) : sd(s_), u(s_.u) {}
  COMMON_USER_METHODS
  bool get_sparse_dense_blocks_info(int& a, int& b, int& c, int& d, int& e, int& f) override { return sd.m->get_sparse_dense_blocks_info(a, b, c, d, e, f); }
  bool eval_Jac_cons(const hiop::size_type&, const hiop::size_type&, const hiop::size_type&, const hiop::index_type*, const double*, bool, const hiop::size_type&, const hiop::size_type&, const hiop::size_type&, hiop::index_type*, hiop::index_type*, double*, double*) override { return false; }
  bool eval_Jac_cons(const hiop::size_type& n, const hiop::size_type& m, const double* x, bool nx, const hiop::size_type& ns, const hiop::size_type& nd, const hiop::size_type& nz, hiop::index_type* i, hiop::index_type* j, double* M, double* J) override
  {
    bool r = sd.m->eval_Jac_cons(n, m, x, nx, ns, nd, nz, i, j, M, J);
    sd.note((i != 0) + 2 * (j != 0) + 4 * (M != 0) + 8 * (J != 0), nullptr, 0, 0);
    return r;
  }
  bool eval_Hess_Lagr(const hiop::size_type& n, const hiop::size_type& m, const double* x, bool nx, const double& of, const double* lam, bool nl, const hiop::size_type& ns, const hiop::size_type& nd, const hiop::size_type& nss, hiop::index_type* i, hiop::index_type* j, double* M, double* H, hiop::size_type& nsd, hiop::index_type* i2, hiop::index_type* j2, double* M2) override
  {
    bool r = sd.m->eval_Hess_Lagr(n, m, x, nx, of, lam, nl, ns, nd, nss, i, j, M, H, nsd, i2, j2, M2);
    sd.note(of + (i != 0) + 2 * (j != 0) + 4 * (M != 0) + 8 * (H != 0) + 16 * (i2 != 0) + 32 * (j2 != 0) + 64 * (M2 != 0), lam, m, nl);
    return r;
  }
};

// --- C callbacks
static Side& S(void* p) { return *(Side*)p; }
extern "C" {
static int c_start(hiop_size_type n, double* x0, void* q) { Side& s = S(q); if(n != s.u.p.n) R().viol("P28:dims", "starting point requested for n=%d", (int)n); s.u.start(x0); return 0; }
static int c_sizes(hiop_size_type* n, hiop_size_type* m, void* q) { *n = S(q).u.p.n; *m = S(q).u.p.m; return 0; }
static int c_vars(hiop_size_type n, double* l, double* h, void* q) { Prob& p = S(q).u.p; if(n != p.n) R().viol("P28:dims", "bounds requested for n=%d", (int)n); for(int i = 0; i < p.n; i++) { l[i] = p.xl[i]; h[i] = p.xu[i]; } return 0; }
static int c_cons(hiop_size_type m, double* l, double* h, void* q) { Prob& p = S(q).u.p; if(m != p.m) R().viol("P28:dims", "constraint bounds requested for m=%d", (int)m); for(int i = 0; i < p.m; i++) { l[i] = p.cl[i]; h[i] = p.cu[i]; } return 0; }
static int c_f(hiop_size_type n, double* x, int nx, double* o, void* q) { Side& s = S(q); s.u.f(n, x, nx, *o); return 0; }
static int c_grad(hiop_size_type n, double* x, int nx, double* g, void* q) { Side& s = S(q); s.u.grad(n, x, nx, g); return 0; }
static int c_con(hiop_size_type n, hiop_size_type m, double* x, int nx, double* c, void* q) { Side& s = S(q); s.u.cons_all(n, m, x, nx, c); return 0; }
static int c_jac(hiop_size_type n, hiop_size_type m, double* x, int nx, double* J, void* q) { Side& s = S(q); s.d->eval_Jac_cons(n, m, x, nx, J); return 0; }
static int c_blocks(hiop_size_type* a, hiop_size_type* b, hiop_size_type* c, hiop_size_type* d, hiop_size_type* e, hiop_size_type* f, void* q) { S(q).m->get_sparse_dense_blocks_info(*a, *b, *c, *d, *e, *f); return 0; }
static int c_mjac(hiop_size_type n, hiop_size_type m, double* x, int nx, hiop_size_type ns, hiop_size_type nd, hiop_size_type nz, hiop_index_type* i, hiop_index_type* j, double* M, double* J, void* q)
{
  Side& s = S(q);
  s.m->eval_Jac_cons(n, m, x, nx, ns, nd, nz, i, j, M, J);
  s.note((i != 0) + 2 * (j != 0) + 4 * (M != 0) + 8 * (J != 0), nullptr, 0, 0);
  return 0;
}
static int c_mhess(hiop_size_type n, hiop_size_type m, double* x, int nx, double of, double* lam, int nl, hiop_size_type ns, hiop_size_type nd, hiop_size_type nss, hiop_index_type* i, hiop_index_type* j, double* M, double* H, hiop_size_type nsd, hiop_index_type* i2, hiop_index_type* j2, double* M2, void* q)
{
  Side& s = S(q);
  s.m->eval_Hess_Lagr(n, m, x, nx, of, lam, nl, ns, nd, nss, i, j, M, H, nsd, i2, j2, M2);
  s.note(of + (i != 0) + 2 * (j != 0) + 4 * (M != 0) + 8 * (H != 0) + 16 * (i2 != 0) + 32 * (j2 != 0) + 64 * (M2 != 0), lam, m, nl);
  return 0;
}
// --- Fortran callbacks carry no user data
static Side* fcur = nullptr;
static void f_f(hiop_size_type* n, double* x, int* nx, double* o) { c_f(*n, x, *nx, o, fcur); }
static void f_g(hiop_size_type* n, double* x, int* nx, double* g) { c_grad(*n, x, *nx, g, fcur); }
static void f_c(hiop_size_type* n, hiop_size_type* m, double* x, int* nx, double* c) { c_con(*n, *m, x, *nx, c, fcur); }
static void f_j(hiop_size_type* n, hiop_size_type* m, double* x, int* nx, double* J) { c_jac(*n, *m, x, *nx, J, fcur); }
}

struct Ref { int status, iters; double obj; VD x; std::vector<Ev> ev; };

struct Slot {
  int kind = -1;
  std::unique_ptr<Prob> p;
  std::unique_ptr<Side> side;
  std::vector<Ref> ref;  // by number of the solve on one problem object
  cHiopDenseProblem cd;
  cHiopMDSProblem cm;
  void* fp = nullptr;
  VD sol;
  int nsolve = 0;
  bool created = false;
};

static void set_ref_opts(hiop::hiopOptions* o, bool mds)
{
  o->SetStringValue("duals_update_type", "linear");
  o->SetStringValue("duals_init", "zero");
  o->SetStringValue("KKTLinsys", "xdycyd");
  if(mds) {
    o->SetStringValue("Hessian", "analytical_exact");
    o->SetStringValue("compute_mode", "hybrid");
    o->SetNumericValue("mu0", 1e-1);
  } else {
    o->SetStringValue("Hessian", "quasinewton_approx");
    o->SetStringValue("compute_mode", "cpu");
    o->SetStringValue("fixed_var", "relax");
  }
}
// n consecutive solves through the C++ interface on one problem object
static void reference(Slot& s, int n)
{
  s.ref.clear();
  Side r(*s.p);
  auto take = [&](hiop::hiopAlgFilterIPMBase& a, int st) {
    Ref q;
    q.status = st; q.iters = a.getNumIterations(); q.obj = a.getObjective();
    q.x.assign(s.p->n, 0.);
    a.getSolution(q.x.data());
    q.ev = r.ev;
    r.ev.clear();
    s.ref.push_back(q);
  };
  if(s.kind == 1) {
    MDSRec itf(r);
    hiop::hiopNlpMDS nlp(itf);
    set_ref_opts(nlp.options, true);
    for(int k = 0; k < n; k++) { hiop::hiopAlgFilterIPMNewton a(&nlp); int st = a.run(); take(a, st); }
  } else {
    hiop::hiopNlpDenseConstraints nlp(*r.d);
    set_ref_opts(nlp.options, false);
    for(int k = 0; k < n; k++) { hiop::hiopAlgFilterIPMQuasiNewton a(&nlp); int st = a.run(); take(a, st); }
  }
}

static void create(Slot& s)
{
  Prob& p = *s.p;
  s.side.reset(new Side(p));
  s.sol.assign(p.n, -7e77);
  s.nsolve = 0;
  void* ud = s.side.get();
  if(s.kind == 0) {
    memset(&s.cd, 0x5a, sizeof(s.cd));
    s.cd.user_data = ud; s.cd.solution = s.sol.data();
    s.cd.get_starting_point = c_start; s.cd.get_prob_sizes = c_sizes; s.cd.get_vars_info = c_vars; s.cd.get_cons_info = c_cons;
    s.cd.eval_f = c_f; s.cd.eval_grad_f = c_grad; s.cd.eval_cons = c_con; s.cd.eval_Jac_cons = c_jac;
    hiop_dense_create_problem(&s.cd);
  } else if(s.kind == 1) {
    memset(&s.cm, 0x5a, sizeof(s.cm));
    s.cm.user_data = ud; s.cm.solution = s.sol.data();
    s.cm.get_starting_point = c_start; s.cm.get_prob_sizes = c_sizes; s.cm.get_vars_info = c_vars; s.cm.get_cons_info = c_cons;
    s.cm.eval_f = c_f; s.cm.eval_grad_f = c_grad; s.cm.eval_cons = c_con; s.cm.get_sparse_dense_blocks_info = c_blocks;
    s.cm.eval_Jac_cons = c_mjac; s.cm.eval_Hess_Lagr = c_mhess;
    hiop_mds_create_problem(&s.cm);
  } else {
    // the arrays belong to the caller, who may reuse them at once
    VD xl = p.xl, xu = p.xu, cl = p.cl, cu = p.cu, x0 = p.x0;
    hiop_size_type n = p.n, m = p.m;
    fcur = s.side.get();
    s.fp = FC_GLOBAL(hiopdenseprob, HIOPDENSEPROB)(&n, &m, xl.data(), xu.data(), cl.data(), cu.data(), x0.data(), f_f, f_c, f_g, f_j);
    for(VD* v : {&xl, &xu, &cl, &cu, &x0}) for(double& a : *v) a = 1e55;
    n = m = -1;
  }
  s.created = true;
}
static void destroy(Slot& s)
{
  if(s.kind == 0) hiop_dense_destroy_problem(&s.cd);
  else if(s.kind == 1) hiop_mds_destroy_problem(&s.cm);
  else {
    FC_GLOBAL(deletehiopdenseprob, DELETEHIOPDENSEPROB)(&s.fp);
    if(s.fp) R().viol("P28:handle", "the handle is not cleared by the delete call");
  }
  s.created = false;
  s.side.reset();
}
static void solve(Slot& s, const std::string& tag)
{
  Prob& p = *s.p;
  const Ref& r = s.ref[s.nsolve];
  s.side->ev.clear();
  double obj = 0;
  VD x(p.n, -3e33);
  bool hasst = true;
  int st = 0, it = 0;
  if(s.kind == 0) {
    s.cd.status = s.cd.niters = -777; s.cd.obj_value = -7e7;
    s.sol.assign(p.n, -7e77);
    hiop_dense_solve_problem(&s.cd);
    st = s.cd.status; it = s.cd.niters; obj = s.cd.obj_value; x = s.sol;
  } else if(s.kind == 1) {
    s.cm.obj_value = -7e7;
    s.sol.assign(p.n, -7e77);
    hiop_mds_solve_problem(&s.cm);
    hasst = false; obj = s.cm.obj_value; x = s.sol;
  } else {
    fcur = s.side.get();
    FC_GLOBAL(hiopdensesolve, HIOPDENSESOLVE)(&s.fp, &obj, x.data());
    FDenseProb* f = (FDenseProb*)s.fp;
    st = f->c_prob->status; it = f->c_prob->niters;
  }
  s.nsolve++;
  const char* kn = KN[s.kind];
  R().count(vh::fmt("solves %s", kn));
  R().count(vh::fmt("status_%d", r.status));
  if(hasst && st != r.status) R().viol("P28:status", "[%s] %s interface reports status %d, the C++ interface %d", tag.c_str(), kn, st, r.status);
  if(hasst && it != r.iters) R().viol("P28:iterations", "[%s] %s interface reports %d iterations, the C++ interface %d", tag.c_str(), kn, it, r.iters);
  if(!(obj == r.obj || (std::isnan(obj) && std::isnan(r.obj)))) R().viol("P28:objective", "[%s] %s interface reports objective %.17g, the C++ interface %.17g", tag.c_str(), kn, obj, r.obj);
  for(int i = 0; i < p.n; i++)
    if(memcmp(&x[i], &r.x[i], sizeof(double)) && !(x[i] == r.x[i])) { R().viol("P28:solution", "[%s] %s interface delivers x[%d]=%.17g, the C++ interface %.17g", tag.c_str(), kn, i, x[i], r.x[i]); break; }
  const std::vector<Ev>& e = s.side->ev;
  size_t k = 0;
  while(k < e.size() && k < r.ev.size() && e[k] == r.ev[k]) k++;
  if(k < e.size() || k < r.ev.size()) {
    std::string a = k < e.size() ? vh::fmt("%s(new_x=%d)", callname(e[k].kind), e[k].nx) : std::string("nothing");
    std::string b = k < r.ev.size() ? vh::fmt("%s(new_x=%d)", callname(r.ev[k].kind), r.ev[k].nx) : std::string("nothing");
    bool args = k < e.size() && k < r.ev.size() && e[k].kind == r.ev[k].kind && e[k].nx == r.ev[k].nx;
    R().viol(args ? "P28:arguments" : "P28:calls", "[%s] evaluation %d differs: %s interface %s, C++ interface %s%s", tag.c_str(), (int)k, kn, a.c_str(), b.c_str(), args ? " with other arguments" : "");
  }
  R().count("events_compared", k);
  R().eval(vh::mix(vh::hash_d(3, x.data(), x.size()), s.nsolve), e.size() > 8);
}

static std::string workdir;
static void put_options(Rng& g)
{
  FILE* f = fopen("hiop.options", "w");
  if(!f) return;
  fprintf(f, "verbosity_level %d\n", g.b(0.1) ? g.i(1, 3) : 0);
  fprintf(f, "max_iter %d\n", g.b(0.2) ? g.i(0, 9) : 150);
  if(g.b(0.3)) fprintf(f, "tolerance %g\n", pow(10, g.u(-8, -4)));
  if(g.b(0.2)) fprintf(f, "mu0 %g\n", pow(10, g.u(-2, 1)));
  if(g.b(0.2)) fprintf(f, "duals_init %s\n", g.b() ? "lsq" : "zero");
  if(g.b(0.2)) fprintf(f, "scaling_type none\n");
  if(g.b(0.2)) fprintf(f, "bound_relax_perturb %g\n", pow(10, g.u(-9, -5)));
  if(g.b(0.1)) fprintf(f, "KKTLinsys %s\n", g.b() ? "xycyd" : "auto");
  if(g.b(0.1)) fprintf(f, "force_resto yes\n");
  fclose(f);
}

static void body(Rng& g, long, const std::string& mode)
{
  put_options(g);
  int ns = g.i(1, 3);
  std::vector<Slot> sl(ns);
  std::string tag = "slots";
  for(auto& s : sl) {
    s.kind = g.i(0, 2);
    int fam = g.b(0.6) ? CONVEX : g.b(0.4) ? NONCONVEX : g.b(0.5) ? LP : g.b(0.5) ? INFEASIBLE : DEGENERATE;
    if(s.kind != 1 && fam == DEGENERATE) fam = NONCONVEX;
    s.p.reset(new Prob(gen(g, fam, g.b(0.1) ? 20 : 7, s.kind == 1)));
    if(s.kind != 1 && g.b(0.2)) { int i = g.i(0, s.p->n - 1); s.p->xl[i] = s.p->xu[i] = s.p->xref[i]; }
    if(g.b(0.2)) s.p->fs = pow(10, g.u(-2, 3));
    tag += vh::fmt(" %s/%s n=%d m=%d", KN[s.kind], famname(fam), s.p->n, s.p->m);
    reference(s, 2);
  }
  std::string ops;
  int nop = g.i(2, 10);
  for(int t = 0; t < nop; t++) {
    int q = g.i(0, ns - 1);
    Slot& s = sl[q];
    if(!s.created) { create(s); ops += vh::fmt(" create%d", q); }
    else if(s.nsolve < 2 && g.b(0.8)) { ops += vh::fmt(" solve%d", q); solve(s, tag + " ops" + ops); }
    else { destroy(s); ops += vh::fmt(" destroy%d", q); }
  }
  for(int q = 0; q < ns; q++) {
    Slot& s = sl[q];
    if(s.created && s.nsolve == 0 && g.b(0.7)) { ops += vh::fmt(" solve%d", q); solve(s, tag + " ops" + ops); }
    if(s.created) destroy(s);
  }
  R().sample(tag + ops);
}
int main(int argc, char** argv)
{
  char t[] = "/tmp/hcifXXXXXX", old[4096];
  if(!getcwd(old, sizeof(old))) return 3;
  // the result file is given relative to the old directory
  std::vector<std::string> a(argv, argv + argc);
  for(int i = 1; i + 1 < argc; i++) if(a[i] == "--out" && a[i + 1][0] != '/') a[i + 1] = std::string(old) + "/" + a[i + 1];
  std::vector<char*> v;
  for(auto& s : a) v.push_back(&s[0]);
  v.push_back(nullptr);
  if(!mkdtemp(t) || chdir(t)) return 3;
  int rc = vh::run(argc, v.data(), body);
  if(chdir(old)) {}
  unlink((std::string(t) + "/hiop.options").c_str());
  rmdir(t);
  return rc;
}
