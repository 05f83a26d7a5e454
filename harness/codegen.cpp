// C24: the generated embedded code does what the library solver does.
#include "hist.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/file.h>
#include <sys/stat.h>
#include <unistd.h>

// ---------------------------------------------------------------- the program around the generated code
// compiled against the generated headers (their integer and float types differ from the library's)
static const char* DRIVER = R"C(
#include "osqp.h"
#include <string.h>
#define N 64
int vf_quiet(const char* f, ...) { return 0; }
extern OSQPSolver* vf_tab[];
static OSQPFloat b1[N], b2[N], b3[N];
static OSQPInt i1[N], i2[N];
static const OSQPFloat* cp(OSQPFloat* d, const double* s, int n) { int i; if (!s) return OSQP_NULL; for (i = 0; i < n; i++) d[i] = (OSQPFloat)s[i]; return d; }
static const OSQPInt* ci(OSQPInt* d, const int* s, int n) { int i; if (!s) return OSQP_NULL; for (i = 0; i < n; i++) d[i] = s[i]; return d; }
int vfd_solve(int k) { return (int)osqp_solve(vf_tab[k]); }
int vfd_vec(int k, int n, int m, const double* q, const double* l, const double* u) { return (int)osqp_update_data_vec(vf_tab[k], cp(b1, q, n), cp(b2, l, m), cp(b3, u, m)); }
int vfd_warm(int k, int n, int m, const double* x, const double* y) { return (int)osqp_warm_start(vf_tab[k], cp(b1, x, n), cp(b2, y, m)); }
int vfd_cold(int k) { osqp_cold_start(vf_tab[k]); return 0; }
int vfd_set(int k, const double* v) {
  OSQPSettings s = *vf_tab[k]->settings;
  int i = 0;
#define F(f) if (v[i] == v[i]) s.f = v[i]; i++;
  F(max_iter) F(alpha) F(eps_abs) F(eps_rel) F(eps_prim_inf) F(eps_dual_inf) F(scaled_termination) F(check_termination) F(check_dualgap) F(warm_starting)
  return (int)osqp_update_settings(vf_tab[k], &s);
}
#if OSQP_EMBEDDED_MODE != 1
int vfd_mat(int k, const double* px, const int* pi, int pn, const double* ax, const int* ai, int an) {
  return (int)osqp_update_data_mat(vf_tab[k], cp(b1, px, pn), ci(i1, pi, pn), pn, cp(b2, ax, an), ci(i2, ai, an), an);
}
int vfd_rho(int k, double r) { return (int)osqp_update_rho(vf_tab[k], (OSQPFloat)r); }
#endif
const char* vfd_status(int k) { return vf_tab[k]->info->status; }
int vfd_get(int k, double* o) {
  OSQPSolver* s = vf_tab[k];
  OSQPInt n = 0, m = 0, i;
  int c = 0;
  OSQPSolution sol;
  osqp_get_dimensions(s, &m, &n);
  o[c++] = n; o[c++] = m;
#define I(f) o[c++] = (double)s->info->f;
  I(status_val) I(status_polish) I(obj_val) I(dual_obj_val) I(prim_res) I(dual_res) I(duality_gap) I(iter) I(rho_updates) I(rho_estimate) I(primdual_int) I(rel_kkt_error)
#define S(f) o[c++] = (double)s->settings->f;
  S(warm_starting) S(scaling) S(rho) S(rho_is_vec) S(sigma) S(alpha) S(adaptive_rho) S(adaptive_rho_interval) S(adaptive_rho_fraction) S(adaptive_rho_tolerance) S(max_iter) S(eps_abs) S(eps_rel)
  S(eps_prim_inf) S(eps_dual_inf) S(scaled_termination) S(check_termination) S(check_dualgap) S(time_limit) S(delta) S(polish_refine_iter) S(cg_max_iter) S(cg_tol_reduction) S(cg_tol_fraction) S(cg_precond) S(linsys_solver)
  for (i = 0; i < n; i++) o[c++] = s->solution->x[i];
  for (i = 0; i < m; i++) o[c++] = s->solution->y[i];
  for (i = 0; i < m; i++) o[c++] = s->solution->prim_inf_cert[i];
  for (i = 0; i < n; i++) o[c++] = s->solution->dual_inf_cert[i];
  return c;
}
)C";
static const char* ENT[] = {"n", "m", "status_val", "status_polish", "obj_val", "dual_obj_val", "prim_res", "dual_res", "duality_gap", "iter", "rho_updates", "rho_estimate", "primdual_int", "rel_kkt_error",
  "settings->warm_starting", "settings->scaling", "settings->rho", "settings->rho_is_vec", "settings->sigma", "settings->alpha", "settings->adaptive_rho", "settings->adaptive_rho_interval", "settings->adaptive_rho_fraction", "settings->adaptive_rho_tolerance",
  "settings->max_iter", "settings->eps_abs", "settings->eps_rel", "settings->eps_prim_inf", "settings->eps_dual_inf", "settings->scaled_termination", "settings->check_termination", "settings->check_dualgap", "settings->time_limit", "settings->delta",
  "settings->polish_refine_iter", "settings->cg_max_iter", "settings->cg_tol_reduction", "settings->cg_tol_fraction", "settings->cg_precond", "settings->linsys_solver"};
static const int NENT = sizeof ENT / sizeof *ENT;

struct Sut {   // a solver, in the library or embedded
  int n = 0, m = 0;
  virtual ~Sut() {}
  virtual int solve() = 0;
  virtual int vec(const double* q, const double* l, const double* u) = 0;
  virtual int warm(const double* x, const double* y) = 0;
  virtual int cold() = 0;
  virtual int set(const double* v) = 0;
  virtual int mat(const double* px, const int* pi, int pn, const double* ax, const int* ai, int an) = 0;
  virtual int rho(double v) = 0;
  virtual std::string status() = 0;
  virtual void get(std::vector<double>& o) = 0;
  Snap snap() {
    Snap s;
    std::vector<double> o;
    get(o);
    for (size_t i = 0; i < o.size(); i++) {
      int k = (int)i - NENT;
      s.add(k < 0 ? ENT[i] : k < n ? "x" : k < n + m ? "y" : k < n + 2 * m ? "prim_inf_cert" : "dual_inf_cert", o[i]);
    }
    auto st = status();
    s.add("status", (double)(hash64(st.data(), st.size()) >> 16));
    return s;
  }
};
struct LibSut : Sut {
  Lib* L; OSQPSolver* s;
  LibSut(Lib* l, OSQPSolver* v, int n_, int m_) : L(l), s(v) { n = n_; m = m_; }
  int solve() override { return (int)L->osqp_solve(s); }
  int vec(const double* q, const double* l, const double* u) override { return (int)L->osqp_update_data_vec(s, q, l, u); }
  int warm(const double* x, const double* y) override { return (int)L->osqp_warm_start(s, x, y); }
  int cold() override { L->osqp_cold_start(s); return 0; }
  int set(const double* v) override {
    OSQPSettings t = *s->settings;
    int i = 0;
#define F(f) if (v[i] == v[i]) t.f = v[i]; i++;
    F(max_iter) F(alpha) F(eps_abs) F(eps_rel) F(eps_prim_inf) F(eps_dual_inf) F(scaled_termination) F(check_termination) F(check_dualgap) F(warm_starting)
#undef F
    return (int)L->osqp_update_settings(s, &t);
  }
  int mat(const double* px, const int* pi, int pn, const double* ax, const int* ai, int an) override {
    std::vector<OSQPInt> a(pi ? pn : 0), b(ai ? an : 0);
    for (size_t i = 0; i < a.size(); i++) a[i] = pi[i];
    for (size_t i = 0; i < b.size(); i++) b[i] = ai[i];
    return (int)L->osqp_update_data_mat(s, px, pi ? a.data() : nullptr, pn, ax, ai ? b.data() : nullptr, an);
  }
  int rho(double v) override { return (int)L->osqp_update_rho(s, v); }
  std::string status() override { return s->info->status; }
  void get(std::vector<double>& o) override {
#define I(f) o.push_back((double)s->info->f);
#define S(f) o.push_back((double)s->settings->f);
    OSQPInt mm = 0, nn = 0;
    L->osqp_get_dimensions(s, &mm, &nn);
    o.push_back(nn); o.push_back(mm);
    I(status_val) I(status_polish) I(obj_val) I(dual_obj_val) I(prim_res) I(dual_res) I(duality_gap) I(iter) I(rho_updates) I(rho_estimate) I(primdual_int) I(rel_kkt_error)
    S(warm_starting) S(scaling) S(rho) S(rho_is_vec) S(sigma) S(alpha) S(adaptive_rho) S(adaptive_rho_interval) S(adaptive_rho_fraction) S(adaptive_rho_tolerance) S(max_iter) S(eps_abs) S(eps_rel)
    S(eps_prim_inf) S(eps_dual_inf) S(scaled_termination) S(check_termination) S(check_dualgap) S(time_limit) S(delta) S(polish_refine_iter) S(cg_max_iter) S(cg_tol_reduction) S(cg_tol_fraction) S(cg_precond) S(linsys_solver)
#undef I
#undef S
    for (int i = 0; i < n; i++) o.push_back(s->solution->x[i]);
    for (int i = 0; i < m; i++) o.push_back(s->solution->y[i]);
    for (int i = 0; i < m; i++) o.push_back(s->solution->prim_inf_cert[i]);
    for (int i = 0; i < n; i++) o.push_back(s->solution->dual_inf_cert[i]);
  }
};
struct Emb {   // one loaded program
  void* h = nullptr;
#define D(r, f, ...) r (*f)(__VA_ARGS__) = nullptr;
  D(int, solve, int) D(int, vec, int, int, int, const double*, const double*, const double*) D(int, warm, int, int, int, const double*, const double*) D(int, cold, int) D(int, set, int, const double*)
  D(int, mat, int, const double*, const int*, int, const double*, const int*, int) D(int, rho, int, double) D(const char*, status, int) D(int, get, int, double*)
#undef D
  explicit Emb(const std::string& so) {
    h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) return;
#define G(f) f = (decltype(f))dlsym(h, "vfd_" #f);
    G(solve) G(vec) G(warm) G(cold) G(set) G(mat) G(rho) G(status) G(get)
#undef G
  }
  ~Emb() { if (h) dlclose(h); }
  Emb(const Emb&) = delete;
};
struct EmbSut : Sut {
  Emb& e; int k;
  EmbSut(Emb& em, int k_, int n_, int m_) : e(em), k(k_) { n = n_; m = m_; }
  int solve() override { return e.solve(k); }
  int vec(const double* q, const double* l, const double* u) override { return e.vec(k, n, m, q, l, u); }
  int warm(const double* x, const double* y) override { return e.warm(k, n, m, x, y); }
  int cold() override { return e.cold(k); }
  int set(const double* v) override { return e.set(k, v); }
  int mat(const double* px, const int* pi, int pn, const double* ax, const int* ai, int an) override { return e.mat(k, px, pi, pn, ax, ai, an); }
  int rho(double v) override { return e.rho(k, v); }
  std::string status() override { return e.status(k); }
  void get(std::vector<double>& o) override { double b[256]; int c = e.get(k, b); o.assign(b, b + c); }
};

// ---------------------------------------------------------------- building programs
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& t) { std::ofstream o(f); o << t; }
static std::string scratch() {
  static std::string d;
  static pid_t owner = 0;
  if (owner != getpid()) {
    const char* od = getenv("VF_OUT");
    std::string base = std::string(od ? od : "/tmp") + "/codegen_scratch";
    mkdir(base.substr(0, base.rfind('/')).c_str(), 0777);
    mkdir(base.c_str(), 0777);
    d = strf("%s/%d", base.c_str(), (int)getpid());
    mkdir(d.c_str(), 0777);
    d += "/";
    owner = getpid();
  }
  return d;
}
static int sh(const std::string& c) { return system(c.c_str()); }
static std::string tail(const std::string& f) { auto s = slurp(f); for (auto& c : s) if (c == '\n') c = ' '; return s.size() > 400 ? s.substr(0, 400) : s; }
struct EmbCfg { int mode, flt, print, prof, intr, deriv; std::string str() const { return strf("mode=%d float=%d printing=%d profiling=%d interrupt=%d derivatives=%d", mode, flt, print, prof, intr, deriv); } };
static OSQPCodegenDefines defs(Lib* L, const EmbCfg& c) {
  OSQPCodegenDefines d;
  L->osqp_set_default_codegen_defines(&d);
  d.embedded_mode = c.mode; d.float_type = c.flt; d.printing_enable = c.print; d.profiling_enable = c.prof; d.interrupt_enable = c.intr; d.derivatives_enable = c.deriv;
  return d;
}
static std::string SRC() { return build_dir() + "/bi/cm/codegen_src"; }
static std::string incs(const std::string& cfgdir) { return "-I" + SRC() + "/inc/public -I" + SRC() + "/inc/private -I" + cfgdir; }
// the part of the program that does not depend on the problem: compiled once per configuration of defines; "" when it does not build
static std::string support(Lib* L, const EmbCfg& c, std::string& err) {
  std::string tmp = scratch() + "cfg/";
  mkdir(tmp.c_str(), 0777);
  Prob p; p.n = 1; p.m = 1; p.P = {1}; p.q = {1}; p.A = {1}; p.l = {0}; p.u = {1};
  Run r(L, p, base_settings(L));
  auto d = defs(L, c);
  if (r.rc || L->osqp_codegen(r.s, tmp.c_str(), "c_", &d)) { err = "generation failed"; return ""; }
  std::string conf = slurp(tmp + "osqp_configure.h");
  std::string plain = conf.substr(conf.find("*/") == std::string::npos ? 0 : conf.find("*/"));
  std::string key = plain + slurp(build_dir() + "/bi/stamp") + DRIVER;
  std::string dir = build_dir() + strf("/emb_%016llx", (unsigned long long)hash64(key.data(), key.size()));
  int lk = open((dir + ".lock").c_str(), O_CREAT | O_RDWR, 0666);
  flock(lk, LOCK_EX);
  if (access((dir + "/ok").c_str(), F_OK) && access((dir + "/bad").c_str(), F_OK)) {
    mkdir(dir.c_str(), 0777);
    spit(dir + "/osqp_configure.h", conf);
    spit(dir + "/driver.c", DRIVER);
    std::string flags = "-O1 -w -fPIC -ffp-contract=off -Dprintf=vf_quiet " + incs(dir);
    int rc = sh("cd " + dir + " && rm -f *.o && gcc " + flags + " -c " + SRC() + "/src/*.c driver.c > log 2>&1 && rm -f lib.a && ar rcs lib.a *.o");
    spit(dir + (rc ? "/bad" : "/ok"), "");
  }
  bool ok = !access((dir + "/ok").c_str(), F_OK);
  if (!ok) err = tail(dir + "/log");
  close(lk);
  return ok ? dir : "";
}
// generate from each solver and build one program with all of them
struct Gen { OSQPSolver* s; };
static std::string program(Ctx& x, Lib* L, const EmbCfg& c, const std::vector<OSQPSolver*>& sv, const std::string& wh) {
  std::string err, sup = support(L, c, err);
  if (sup.empty()) { x.viol("does_not_build", "%s: the generated code does not build: %s", c.str().c_str(), err.c_str()); return ""; }
  std::string dir = scratch() + "prog/";
  mkdir(dir.c_str(), 0777);
  auto d = defs(L, c);
  std::string tab = "";
  for (size_t k = 0; k < sv.size(); k++) {
    std::string pf = strf("p%zu_", k);
    OSQPInt rc = L->osqp_codegen(sv[k], dir.c_str(), pf.c_str(), &d);
    if (rc) { x.viol("generation_failed", "%s: %s: osqp_codegen returned %d", wh.c_str(), c.str().c_str(), (int)rc); return ""; }
    tab += "#include \"" + pf + "workspace.c\"\n#include \"" + pf + "workspace.h\"\n";
  }
  tab += "OSQPSolver* vf_tab[] = {";
  for (size_t k = 0; k < sv.size(); k++) tab += strf("&p%zu_solver,", k);
  tab += "0};\n";
  spit(dir + "all.c", tab);
  std::string so = dir + strf("prog%d.so", c.mode);
  int rc = sh("gcc -O0 -w -fPIC -shared -Wl,-Bsymbolic " + incs(sup) + " -I" + dir + " -o " + so + " " + dir + "all.c -Wl,--whole-archive " + sup + "/lib.a -Wl,--no-whole-archive -lm -Wl,-z,defs > " + dir + "log 2>&1");
  if (rc) { x.viol("does_not_build", "%s: %s: the generated code does not build: %s", wh.c_str(), c.str().c_str(), tail(dir + "log").c_str()); return ""; }
  return so;
}

// ---------------------------------------------------------------- operations
struct EOp { std::string name; bool mode2; std::function<int(Sut&, const HProb&, const Run&)> f; };
static double NN = NAN;
static std::vector<EOp> eops(bool th) {
  std::vector<EOp> o;
  o.push_back({"solve", false, [](Sut& s, const HProb&, const Run&) { return s.solve(); }});
  o.push_back({"q:=alt", false, [](Sut& s, const HProb& h, const Run&) { return s.vec(h.alt.q.data(), nullptr, nullptr); }});
  o.push_back({"l,u:=shifted", false, [](Sut& s, const HProb& h, const Run&) {   // same kind of bound in every row
    auto l = h.base.l, u = h.base.u;
    for (size_t i = 0; i < l.size(); i++) { if (!isinf_b(l[i])) l[i] -= 0.5; if (!isinf_b(u[i])) u[i] -= 0.5; }
    return s.vec(nullptr, l.data(), u.data()); }});
  o.push_back({"l,u:=alt", false, [](Sut& s, const HProb& h, const Run&) { return s.vec(nullptr, h.alt.l.data(), h.alt.u.data()); }});
  o.push_back({"warm_start", false, [](Sut& s, const HProb&, const Run&) {
    std::vector<double> a(s.n), b(s.m);
    for (int j = 0; j < s.n; j++) a[j] = 1 - 3 * j;
    for (int i = 0; i < s.m; i++) b[i] = i ? -2 : 1;
    return s.warm(a.data(), s.m ? b.data() : nullptr); }});
  o.push_back({"settings", false, [](Sut& s, const HProb&, const Run&) { double v[] = {60, 1.2, 1e-5, 1e-5, NN, NN, 1, 3, 0, NN}; return s.set(v); }});
  o.push_back({"P,A:=alt", true, [](Sut& s, const HProb& h, const Run& r) {
    std::vector<double> p, a;
    for (auto& e : r.P.pos) p.push_back(h.alt.P[e.first * s.n + e.second]);
    for (auto& e : r.A.pos) a.push_back(h.alt.A[e.first * s.n + e.second]);
    return s.mat(p.empty() ? nullptr : p.data(), nullptr, (int)p.size(), a.empty() ? nullptr : a.data(), nullptr, (int)a.size()); }});
  o.push_back({"A[last]:=alt,P[last]:=alt", true, [](Sut& s, const HProb& h, const Run& r) {
    double p = 0, a = 0; int pi = 0, ai = 0;
    bool hp = !r.P.pos.empty(), ha = !r.A.pos.empty();
    if (hp) { pi = (int)r.P.pos.size() - 1; p = h.alt.P[r.P.pos[pi].first * s.n + r.P.pos[pi].second]; }
    if (ha) { ai = (int)r.A.pos.size() - 1; a = h.alt.A[r.A.pos[ai].first * s.n + r.A.pos[ai].second]; }
    return s.mat(hp ? &p : nullptr, hp ? &pi : nullptr, hp, ha ? &a : nullptr, ha ? &ai : nullptr, ha); }});
  o.push_back({"update_rho(2.5)", true, [](Sut& s, const HProb&, const Run&) { return s.rho(2.5); }});
  o.push_back({"l crossing", false, [](Sut& s, const HProb& h, const Run&) { auto l = h.base.l; for (auto& v : l) v = 1e20; return s.m ? s.vec(nullptr, l.data(), nullptr) : 0; }});
  o.push_back({"settings(alpha=2)", false, [](Sut& s, const HProb&, const Run&) { double v[] = {5, 2, NN, NN, NN, NN, NN, NN, NN, NN}; return s.set(v); }});
  o.push_back({"cold_start", false, [](Sut& s, const HProb&, const Run&) { return s.cold(); }});
  if (th) {
    o.push_back({"q,l,u:=alt", false, [](Sut& s, const HProb& h, const Run&) { return s.vec(h.alt.q.data(), h.alt.l.data(), h.alt.u.data()); }});
    o.push_back({"settings(warm_starting=0)", false, [](Sut& s, const HProb&, const Run&) { double v[] = {NN, NN, NN, NN, NN, NN, NN, 1, NN, 0}; return s.set(v); }});
    o.push_back({"update_rho(-1)", true, [](Sut& s, const HProb&, const Run&) { return s.rho(-1); }});
  }
  return o;
}
struct Pre { std::string name; std::vector<int> ops; };   // indices into eops
static char bounds_kind(const std::string& n, char cur) { return n == "l,u:=alt" || n == "q,l,u:=alt" ? 'a' : n == "l,u:=shifted" ? 'b' : cur; }

struct SetV { std::string name; std::function<void(OSQPSettings&)> f; };
static std::vector<SetV> setvs() {
  return {
    {"default", [](OSQPSettings&) {}},
    {"noscale", [](OSQPSettings& s) { s.scaling = 0; }},
    {"scalar_rho", [](OSQPSettings& s) { s.rho_is_vec = 0; s.rho = 0.37; }},
    {"scalar_noscale", [](OSQPSettings& s) { s.rho_is_vec = 0; s.scaling = 0; }},
    {"kkt_adapt", [](OSQPSettings& s) { s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR; s.adaptive_rho_interval = 5; s.adaptive_rho_fraction = 0.9; s.adaptive_rho_tolerance = 1.1; }},
    {"iter_adapt", [](OSQPSettings& s) { s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_ITERATIONS; s.adaptive_rho_interval = 4; s.adaptive_rho_tolerance = 1.01; s.check_termination = 3; }},
    {"time_adapt", [](OSQPSettings& s) { s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_TIME; }},
    {"odd_values", [](OSQPSettings& s) { s.sigma = 1.0 / 3e7; s.rho = 1 / 7.; s.alpha = 4 / 3.; s.eps_abs = 1e-9; s.eps_rel = 1 / 3e10; s.eps_prim_inf = 1 / 3e7; s.eps_dual_inf = 1 / 7e9; s.delta = 1 / 3e8; s.max_iter = 123; s.check_termination = 7; s.check_dualgap = 0; s.scaled_termination = 1; s.scaling = 3; s.adaptive_rho_tolerance = 5.1; s.time_limit = 12.3456789; s.polish_refine_iter = 4; s.cg_max_iter = 11; s.cg_tol_fraction = 0.123; s.cg_tol_reduction = 9; s.cg_precond = OSQP_NO_PRECONDITIONER; s.warm_starting = 0; }},
    {"no_check", [](OSQPSettings& s) { s.check_termination = 0; s.max_iter = 37; }},
    {"polish_verbose", [](OSQPSettings& s) { s.polishing = 1; }},
    {"tiny_tolerances", [](OSQPSettings& s) { s.eps_abs = s.eps_rel = 3e-17; s.eps_prim_inf = s.eps_dual_inf = 3e-22; s.max_iter = 60; s.sigma = 1e-20 / 3; }},
  };
}
static std::vector<HProb> problems() {
  auto R = hist_problems();
  auto add = [&](const char* nm, int n, int m, std::vector<double> P, std::vector<double> q, std::vector<double> A, std::vector<double> l, std::vector<double> u) {
    Prob p; p.n = n; p.m = m; p.P = P; p.q = q; p.A = A; p.l = l; p.u = u;
    HProb h{nm, p, alternative(p)};
    R.push_back(h);
  };
  add("lp_empty_P", 2, 2, {0, 0, 0, 0}, {1, 1}, {1, 0, 0, 1}, {0, -1}, {1, INF});
  add("empty_A", 2, 1, {2, 0, 0, 1}, {1, 1}, {0, 0}, {-1}, {1});
  add("tiny_values", 2, 2, {1e-9 / 3, 0, 0, 2e-12 / 7}, {1e-10 / 3, -3e-13 / 7}, {1e-6 / 3, 0, 0, 1e-8 / 7}, {-1e-9 / 3, -INF}, {1e-8 / 7, 1e-12 / 3});
  add("thirds", 3, 2, {1 / 3., 0, 0.1, 0, 0, 0, 0.1, 0, 2 / 7.}, {0.1, 1 / 3., -0.7}, {1, 1 / 3., 0, 0, 0.1, 1}, {-1 / 3., 0}, {1 / 7., 1e10 / 3});
  add("huge_values", 2, 1, {1e12 / 3, 0, 0, 1e15 / 7}, {1e13 / 3, 1}, {1e9 / 7, 1e-3}, {-1e20 / 3}, {1e18 / 7});
  add("zeros", 2, 2, {0, 0, 0, 0}, {0, 0}, {0, 0, 0, 0}, {0, -INF}, {0, INF});
  return R;
}
static void compare_histories(Ctx& x, Lib* L, const EmbCfg& ec, const std::string& so, const HProb& hp, const OSQPSettings& gst, const OSQPSettings& tst, const std::vector<EOp>& ops, const std::vector<int>& pre,
                              const std::vector<std::vector<int>>& seqs, int slot, const std::string& wh) {
  int n = hp.base.n, m = hp.base.m;
  for (auto& q : seqs) {
    bool ok = true, kept = true;
    char kind = 'b', now;
    for (int o : pre) kind = bounds_kind(ops[o].name, kind);
    now = kind;
    std::string nm;
    for (int o : q) { if (ops[o].mode2 && ec.mode == 1) ok = false; now = bounds_kind(ops[o].name, now); if (ops[o].name == "l crossing") for (double v : hp.base.u) if (v >= 1e20) now = 'c'; if (now != kind) kept = false; nm += ops[o].name + "; "; }
    if (!ok) continue;
    bool exact = !ec.flt && (ec.mode == 2 || kept || !m || !tst.rho_is_vec);
    Emb e(so);
    if (!e.h) { x.viol("load", "%s: %s", wh.c_str(), dlerror()); return; }
    L->env->now_ns = 1000000000LL;
    Run r(L, hp.base, tst);
    LibSut ls(L, r.s, n, m);
    EmbSut es(e, slot, n, m);
    for (int o : pre) ops[o].f(ls, hp, r);
    auto full = q;
    full.push_back(0);
    for (size_t k = 0; k < full.size(); k++) {
      int a = ops[full[k]].f(ls, hp, r), b = ops[full[k]].f(es, hp, r);
      x.evals++;
      std::string at = strf("%s: %s after generation [%s solve], call %zu (%s)", wh.c_str(), ec.str().c_str(), nm.c_str(), k + 1, ops[full[k]].name.c_str());
      if (a != b) { x.viol("return_code", "%s: library returns %d, generated code %d", at.c_str(), a, b); break; }
      if (ops[full[k]].name != "solve") continue;
      Snap A = ls.snap(), B = es.snap();
      if (A.v.size() != B.v.size() || A.v[0] != B.v[0] || A.v[1] != B.v[1]) { x.viol("dimensions", "%s: dimensions differ", at.c_str()); break; }
      if (ec.mode == 1 || gst.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME) for (size_t j = 0; j < A.v.size(); j++) if (!strncmp(A.nm[j], "settings->adaptive_rho", 22) || !strcmp(A.nm[j], "rho_estimate")) A.v[j] = B.v[j] = 0;   // without effect
      for (size_t j = 0; j < A.v.size(); j++) if (!strcmp(A.nm[j], "prim_inf_cert") || !strcmp(A.nm[j], "dual_inf_cert")) A.v[j] = OSQP_NAN;   // generated code gives no certificates
      int sa = (int)A.v[2], sb = (int)B.v[2];
      if (exact) {
        std::string df = snap_diff(B, A);
        if (!df.empty()) { x.viol("differs", "%s: generated code disagrees with the library: %s", at.c_str(), df.c_str()); break; }
      } else if (sa == OSQP_SOLVED && sb == OSQP_SOLVED) {
        // both claim the tolerances: the objectives agree as far as these decide them
        double ea = r.s->settings->eps_abs + r.s->settings->eps_rel;
        x.count("compared by objective");
        if (r.s->settings->check_dualgap && std::fabs(A.v[4] - B.v[4]) > 20 * ea * (1 + std::fabs(A.v[4]) + std::fabs(B.v[4])) * (1 + n + m) + (ec.flt ? 1e-3 : 0)) { x.viol("differs", "%s: objective %.9g, library %.9g", at.c_str(), B.v[4], A.v[4]); break; }
      } else x.count("not compared");
      x.outcome(strf("%d %d %g", exact, sa, A.v[9]));
    }
    x.traces++;
  }
}
static std::vector<std::vector<int>> sequences(int nops, int depth) {
  std::vector<std::vector<int>> R;
  for (int len = 0; len <= depth; len++) for (uint64_t i = 0; i < upow(nops, len); i++) R.push_back(decode_hist(i, nops, len));
  return R;
}
static const EmbCfg MODES[] = {{1, 0, 0, 0, 0, 0}, {2, 0, 0, 0, 0, 0}, {2, 0, 1, 0, 0, 0}};

int main(int argc, char** argv) {
  Check c;
  c.id = "C24"; c.level = "exploration"; c.case_timeout = 120;
  c.rule = "for every problem x settings x history before generation: the sources generated from the solver build stand-alone, and after every sequence of calls of the stated depth the generated solver returns bit for bit the codes, status, iteration count, information, settings and solution of the library solver with the same history; every file that cannot be opened and every number of bytes the disk takes gives an error code, no handle left open and an undisturbed solver; every length of directory and prefix either works or is refused";
  c.assumptions = {"generated code gives no infeasibility certificates (by design: normalising them takes a division): they must be NaN",
                   "twin in the library: polishing off, and step-size adaptation off in mode 1 and when it is by time (there are no timers)",
                   "mode 1 after an update that changes the kind of a constraint row, and single precision: objective within the tolerances when both report solved, instead of bit for bit",
                   "the QDLDL stand-in's sources are what gets copied next to the generated code"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    static std::vector<HProb> HP;
    HP = problems();
    auto ops = std::make_shared<std::vector<EOp>>(eops(th));
    auto SV = std::make_shared<std::vector<SetV>>(setvs());
    auto idx = [ops](const char* n) { for (size_t i = 0; i < ops->size(); i++) if ((*ops)[i].name == n) return (int)i; abort(); };
    int so_ = idx("solve"), qa = idx("q:=alt"), ba = idx("l,u:=alt"), wm = idx("warm_start"), st_ = idx("settings"), pa = idx("P,A:=alt"), pl = idx("A[last]:=alt,P[last]:=alt"), rh = idx("update_rho(2.5)");
    auto PR = std::make_shared<std::vector<Pre>>(std::vector<Pre>{
      {"nothing", {}}, {"solve", {so_}}, {"warm start", {wm}}, {"q, bounds", {qa, ba}}, {"solve, matrices", {so_, pa}}, {"step size", {rh}}, {"settings, solve, one entry, solve", {st_, so_, pl, so_}}});
    // histories
    for (auto& ec : MODES) {
      uint64_t cnt = HP.size() * SV->size() * PR->size();
      int depth = ec.print ? 1 : th ? 3 : 2;
      auto seqs = std::make_shared<std::vector<std::vector<int>>>(sequences((int)ops->size(), depth));
      S.push_back({strf("histories mode %d%s", ec.mode, ec.print ? " with printing" : ""), cnt, [=](uint64_t i, Ctx& x) {
        Dec d(i);
        const HProb& hp = HP[d.take(HP.size())];
        const SetV& sv = (*SV)[d.take(SV->size())];
        const Pre& pr = (*PR)[d.take(PR->size())];
        Lib* L = load_lib("bi");
        OSQPSettings g = base_settings(L);
        sv.f(g);
        bool has_solve = false;
        for (int o : pr.ops) has_solve |= o == so_;
        if (g.polishing && has_solve) { x.skipped++; return; }                 // a polished solution is in the library only
        bool noadapt = ec.mode == 1 || g.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME;   // no timers in generated code
        if (noadapt && g.adaptive_rho && has_solve) g.adaptive_rho = 0;   // the twin has no adaptation, so the past must not have any either
        OSQPSettings t = g;
        t.polishing = 0;
        if (noadapt) t.adaptive_rho = 0;
        L->env->clock_virtual = 1; L->env->step_ns = 0; L->env->now_ns = 1000000000LL;
        std::string wh = strf("%s, settings %s, before: %s", hp.name.c_str(), sv.name.c_str(), pr.name.c_str());
        Run r(L, hp.base, g);
        if (r.rc) { x.skipped++; x.count("setup refused"); return; }
        LibSut ls(L, r.s, hp.base.n, hp.base.m);
        for (int o : pr.ops) (*ops)[o].f(ls, hp, r);
        std::string so = program(x, L, ec, {r.s}, wh);
        if (so.empty()) return;
        compare_histories(x, L, ec, so, hp, g, t, *ops, pr.ops, *seqs, 0, wh);
        if (x.samples.size() < 2) x.sample(wh);
      }, [=](uint64_t i) { Dec d(i); auto& h = HP[d.take(HP.size())]; auto& s = (*SV)[d.take(SV->size())]; return h.name + " settings " + s.name + " before generation: " + (*PR)[d.take(PR->size())].name; }});
    }
    // single precision
    {
      auto seqs = std::make_shared<std::vector<std::vector<int>>>(sequences((int)ops->size(), 1));
      S.push_back({"single precision", HP.size() * 4, [=](uint64_t i, Ctx& x) {
        Dec d(i);
        const HProb& hp = HP[d.take(HP.size())];
        if (hp.name == "tiny_values" || hp.name == "huge_values") { x.skipped++; return; }
        const SetV& sv = (*SV)[d.take(4)];
        Lib* L = load_lib("bi");
        L->env->clock_virtual = 1; L->env->step_ns = 0;
        OSQPSettings g = base_settings(L);
        sv.f(g);
        for (int mode = 1; mode <= 2; mode++) {
          OSQPSettings t = g;
          if (mode == 1) t.adaptive_rho = 0;
          EmbCfg ec{mode, 1, 0, 0, 0, 0};
          std::string wh = strf("%s, settings %s", hp.name.c_str(), sv.name.c_str());
          Run r(L, hp.base, g);
          std::string so = program(x, L, ec, {r.s}, wh);
          if (so.empty()) return;
          compare_histories(x, L, ec, so, hp, g, t, *ops, {}, *seqs, 0, wh);
        }
      }, [=](uint64_t i) { Dec d(i); auto& h = HP[d.take(HP.size())]; return h.name + " settings " + (*SV)[d.take(4)].name; }});
    }
    // every problem of the small alphabets, several solvers in one program
    struct FS { const char* f; uint64_t stride; };
    std::vector<const char*> fams = {"n1m0", "n2m0", "n1m1"};
    if (th) { fams.push_back("n1m2"); fams.push_back("n2m1"); fams.push_back("scaled_s"); }
    const unsigned B = 24;
    for (auto fn : fams) {
      auto F = std::make_shared<Family>(family(fn));
      auto seqs = std::make_shared<std::vector<std::vector<int>>>(sequences((int)ops->size(), 1));
      uint64_t np = F->count(), nb = (np + B - 1) / B;
      S.push_back({strf("problems %s", fn), nb * 2, [=](uint64_t i, Ctx& x) {
        Dec d(i);
        int mode = 1 + d.take(2);
        EmbCfg ec{mode, 0, 0, 0, 0, 0};
        Lib* L = load_lib("bi");
        L->env->clock_virtual = 1; L->env->step_ns = 0;
        OSQPSettings g = base_settings(L), t = g;
        if (mode == 1) t.adaptive_rho = 0;
        std::vector<std::unique_ptr<Run>> rs;
        std::vector<HProb> hs;
        std::vector<OSQPSolver*> sv;
        for (uint64_t k = d.r * B; k < std::min(np, (d.r + 1) * B); k++) {
          Prob p = F->get(k);
          HProb h{p.str(), p, alternative(p)};
          auto r = std::make_unique<Run>(L, p, g);
          if (r->rc) continue;
          sv.push_back(r->s);
          rs.push_back(std::move(r));
          hs.push_back(h);
        }
        std::string so = program(x, L, ec, sv, strf("%s batch %llu", fn, (unsigned long long)d.r));
        if (so.empty()) return;
        for (size_t k = 0; k < hs.size(); k++) compare_histories(x, L, ec, so, hs[k], g, t, *ops, {}, *seqs, (int)k, hs[k].name);
      }, [=](uint64_t i) { return strf("%s mode %d, problems from %llu", fn, 1 + (int)(i % 2), (unsigned long long)(i / 2 * B)); }});
    }
    // the options: does what is generated build and run with the supplied Makefile?
    S.push_back({"options", 2 * 2 * 2 * 4, [=](uint64_t i, Ctx& x) {
      Dec d(i);
      EmbCfg ec;
      ec.mode = 1 + d.take(2); ec.flt = d.take(2); ec.print = d.take(2);
      int o = d.take(4);
      ec.prof = o == 1; ec.intr = o == 2; ec.deriv = o == 3;
      Lib* L = load_lib("bi");
      const HProb& hp = HP[0];
      Run r(L, hp.base, base_settings(L));
      std::string dir = scratch() + "make/";
      sh("rm -rf " + dir + " && cp -r " + SRC() + " " + dir);
      auto df = defs(L, ec);
      OSQPInt rc = L->osqp_codegen(r.s, dir.c_str(), "vf_", &df);
      x.evals++;
      if (rc) { x.viol("generation_failed", "%s: osqp_codegen returned %d", ec.str().c_str(), (int)rc); return; }
      int b = sh("cd " + dir + " && make > log 2>&1");
      std::string opts;
      if (ec.prof) opts += "_profiling";
      if (ec.intr) opts += "_interrupt";
      if (ec.deriv) opts += "_derivatives";
      if (b) { x.viol("does_not_build" + opts, "%s: the generated code does not build with the supplied Makefile: %s", ec.str().c_str(), tail(dir + "log").c_str()); return; }
      b = sh("cd " + dir + " && ./emosqp > run.log 2>&1");
      if (b) x.viol("example_fails", "%s: the generated example program ends with code %d: %s", ec.str().c_str(), b >> 8, tail(dir + "run.log").c_str());
      x.outcome(opts);
    }, [](uint64_t i) { return strf("options %llu", (unsigned long long)i); }});
    // faults: files that do not open, disks that fill up
    auto disturbed = [](Ctx& x, Lib* L, Run& r, const std::string& wh) {
      Run f(L, r.pr, *r.s->settings);
      f.solve(); r.solve();
      Snap a, b;
      snap_solver(a, r.s, r.pr.n, r.pr.m, SN_SOL | SN_INFO | SN_SETTINGS);
      snap_solver(b, f.s, r.pr.n, r.pr.m, SN_SOL | SN_INFO | SN_SETTINGS);
      std::string df = snap_diff(a, b);
      if (!df.empty()) x.viol("disturbed", "%s: the solver then behaves differently: %s", wh.c_str(), df.c_str());
    };
    S.push_back({"files that do not open", HP.size() * 2 * 7, [=](uint64_t i, Ctx& x) {
      Dec d(i);
      const HProb& hp = HP[d.take(HP.size())];
      int mode = 1 + d.take(2), at = d.take(7);
      Lib* L = load_lib("bi");
      Run r(L, hp.base, base_settings(L));
      EmbCfg ec{mode, 0, 0, 0, 0, 0};
      auto df = defs(L, ec);
      L->env->track_files = 1; L->env->disk_left = 1 << 30; L->env->files_open = 0;
      L->env->fopen_count = 0; L->env->fopen_fail_at = at;
      std::string dir = at == 6 ? "/nonexistent/dir/" : scratch();
      OSQPInt rc = L->osqp_codegen(r.s, dir.c_str(), "f_", &df);
      long opened = L->env->fopen_count, left = L->env->files_open;
      L->env->fopen_fail_at = 0; L->env->track_files = 0;
      x.evals++;
      std::string wh = strf("%s mode %d, file %d of %ld does not open", hp.name.c_str(), mode, at, opened);
      bool should_fail = at == 6 || (at && at <= opened);
      if (should_fail && !rc) x.viol("open_failure_ignored", "%s: osqp_codegen returned 0", wh.c_str());
      if (should_fail && rc != OSQP_FOPEN_ERROR && rc) x.viol("open_failure_code", "%s: osqp_codegen returned %d", wh.c_str(), (int)rc);
      if (!should_fail && rc) x.viol("generation_failed", "%s: osqp_codegen returned %d", wh.c_str(), (int)rc);
      if (left) x.viol("handle_leak", "%s: %ld files left open", wh.c_str(), left);
      disturbed(x, L, r, wh);
      x.outcome(strf("%d", (int)rc));
    }, [=](uint64_t i) { Dec d(i); auto& h = HP[d.take(HP.size())]; int mo = 1 + d.take(2); return strf("%s mode %d failing file %u", h.name.c_str(), mo, d.take(7)); }});
    const unsigned BLK = 64;
    for (int pk : {0, 4}) {
      S.push_back({strf("full disk, problem %s", HP[pk].name.c_str()), 2 * 600, [=](uint64_t i, Ctx& x) {
        Dec d(i);
        int mode = 1 + d.take(2);
        Lib* L = load_lib("bi");
        EmbCfg ec{mode, 0, 0, 0, 0, 0};
        auto df = defs(L, ec);
        Run r(L, HP[pk].base, base_settings(L));
        L->env->track_files = 1;
        L->env->disk_left = 1 << 30; L->env->disk_written = 0; L->env->fopen_fail_at = 0;
        L->osqp_codegen(r.s, scratch().c_str(), "f_", &df);
        long total = L->env->disk_written;
        for (long cap = d.r * BLK; cap < (long)(d.r + 1) * BLK; cap++) {
          if (cap > total + 64) break;
          L->env->disk_left = cap; L->env->disk_written = 0; L->env->files_open = 0;
          OSQPInt rc = L->osqp_codegen(r.s, scratch().c_str(), "f_", &df);
          x.evals++;
          std::string wh = strf("%s mode %d, disk full after %ld of %ld bytes", HP[pk].name.c_str(), mode, cap, total);
          if (cap < total && !rc) x.viol("write_failure_ignored", "%s: osqp_codegen returned 0", wh.c_str());
          if (cap >= total && rc) x.viol("generation_failed", "%s: osqp_codegen returned %d", wh.c_str(), (int)rc);
          if (L->env->files_open) x.viol("handle_leak", "%s: %ld files left open", wh.c_str(), L->env->files_open);
          x.outcome(strf("%d", (int)rc));
        }
        L->env->track_files = 0;
        disturbed(x, L, r, "full disk");
      }, [=](uint64_t i) { return strf("mode %d capacities %llu..", 1 + (int)(i % 2), (unsigned long long)(i / 2 * BLK)); }});
    }
    // every length of directory and prefix
    S.push_back({"lengths of directory and prefix", 1300 + 260, [=](uint64_t i, Ctx& x) {
      Lib* L = load_lib("bi");
      Run r(L, HP[0].base, base_settings(L));
      EmbCfg ec{2, 0, 0, 0, 0, 0};
      auto df = defs(L, ec);
      std::string dir = scratch(), pf = "p_";
      if (i < 1300) { while (dir.size() < i) dir += "/"; if (dir.size() > i) { x.skipped++; return; } }   // repeated separators name the same directory
      else pf = std::string(i - 1300, 'p');
      std::string h = dir + pf + "workspace.h", cc = dir + pf + "workspace.c";
      unlink(h.c_str()); unlink(cc.c_str());
      OSQPInt rc = L->osqp_codegen(r.s, dir.c_str(), pf.c_str(), &df);
      x.evals++;
      bool ok = !access(h.c_str(), F_OK) && !access(cc.c_str(), F_OK) && slurp(h).find(pf + "solver") != std::string::npos && slurp(cc).find("OSQPSolver " + pf + "solver") != std::string::npos;
      std::string wh = strf("directory of %zu, prefix of %zu characters", dir.size(), pf.size());
      if (!rc && !ok) x.viol("wrong_file", "%s: success reported but the files are not there or not complete", wh.c_str());
      if (rc && dir.size() < 250 && pf.size() < 60) x.viol("generation_failed", "%s: osqp_codegen returned %d", wh.c_str(), (int)rc);
      unlink(h.c_str()); unlink(cc.c_str());
      x.outcome(strf("%d", (int)rc));
    }, [](uint64_t i) { return i < 1300 ? strf("directory length %llu", (unsigned long long)i) : strf("prefix length %llu", (unsigned long long)(i - 1300)); }});
    return S;
  };
  return vf_main(argc, argv, c);
}
