// C30: every build configuration behaves like the default one.
#include "hist.h"
#include "adapter.h"
#include <array>
#include <algorithm>
#include <csignal>
#include <dlfcn.h>
#include <sys/wait.h>
#include <unistd.h>
typedef std::vector<double> V;
typedef std::vector<long long> VI;

// ---------------------------------------------------------------- what is asked of a build
struct Cfg { std::string name; std::function<void(double*)> f; };
static std::vector<Cfg> configs(bool mkl) {
  std::vector<Cfg> C;
  auto add = [&](const char* n, std::function<void(double*)> f) { C.push_back({n, f}); };
  add("default", [](double*) {});
  add("verbose", [](double* s) { s[VFA_verbose] = 1; s[VFA_polishing] = 1; });
  add("polish", [](double* s) { s[VFA_polishing] = 1; s[VFA_check_termination] = 5; });
  add("noscaling", [](double* s) { s[VFA_scaling] = 0; s[VFA_rho_is_vec] = 0; s[VFA_alpha] = 1.0; });
  add("adaptive", [](double* s) { s[VFA_adaptive_rho_interval] = 5; s[VFA_adaptive_rho_tolerance] = 1.1; s[VFA_check_termination] = 1; });
  add("kkt_rho", [](double* s) { s[VFA_adaptive_rho] = OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR; s[VFA_adaptive_rho_interval] = 3; s[VFA_adaptive_rho_tolerance] = 1.1; s[VFA_check_termination] = 3; });
  add("fewiter", [](double* s) { s[VFA_max_iter] = 7; s[VFA_check_termination] = 0; s[VFA_warm_starting] = 0; });
  add("scaled_term", [](double* s) { s[VFA_scaled_termination] = 1; s[VFA_check_termination] = 1; s[VFA_check_dualgap] = 0; });
  if (mkl) add("indirect", [](double* s) { s[VFA_linsys_solver] = OSQP_INDIRECT_SOLVER; s[VFA_check_termination] = 5; });
  return C;
}
static const int NCFG = 8;
// 0..9 valid, 10.. must be rejected
static const char* OPS[] = {"solve", "q:=alt", "l,u:=alt", "P:=alt", "A[last]:=alt", "P,A:=base", "rho:=10", "warm_start", "cold_start", "settings", "l>u", "invalid settings", "rho:=-1"};
static const int NOPS = 13;
static const char* BAD[] = {"l>u", "nonconvex", "sigma=0", "alpha=2", "rho=0", "max_iter=0", "eps<0", "lower P", "null settings field scaling<0", "eps_prim_inf<0", "polish_refine<0", "check_termination<0"};
static const int NBAD = 12;

struct Blob {            // what a build answers
  std::string dead;      // the process ended
  V v;                   // observations, in order
  std::vector<std::string> nm;
  std::string text;
  void add(const std::string& n, double x) { nm.push_back(n); v.push_back(x); }
};

// ---------------------------------------------------------------- executed inside the server process of one build
struct Ses {
  const vfa_api* a;
  vf_env* e;
  const HProb* hp;
  int n, m;
  Csc P, A, P2, A2;
  void* h = nullptr;
  double set[VFA_NSET];
  static VI conv(const std::vector<OSQPInt>& v) { return VI(v.begin(), v.end()); }
};
static void observe(Blob& b, const vfa_api* a, void* h, int n, int m, const std::string& at, bool solved) {
  vfa_info I;
  a->info(h, &I);
#define O(f) b.add(at + #f, (double)I.f);
  O(status) O(status_polish) O(iter) O(rho_updates) O(obj) O(dobj) O(pr) O(du) O(gap) O(rho_est) O(rkkt) O(pdint)
#undef O
  b.add(at + "status string", (double)(hash64(I.str, strlen(I.str)) >> 16));
  static const char* SN[] = {
#define X(f) #f,
    VFA_SETTINGS(X)
#undef X
  };
  for (int k = 0; k < VFA_NSET; k++) b.add(at + "settings->" + SN[k], I.set[k]);
  if (solved) {
    V x(n + 1), y(m + 1), pc(m + 1), dc(n + 1);
    if (a->solution(h, x.data(), y.data(), pc.data(), dc.data())) {
      for (int j = 0; j < n; j++) b.add(at + "x", x[j]);
      for (int i = 0; i < m; i++) b.add(at + "y", y[i]);
      for (int i = 0; i < m; i++) b.add(at + "prim_inf_cert", pc[i]);
      for (int j = 0; j < n; j++) b.add(at + "dual_inf_cert", dc[j]);
    }
  }
}
static void session(Blob& b, const vfa_api* a, vf_env* e, const HProb& hp, const std::function<void(double*)>& f, const std::vector<int>& ops, int bad) {
  int n = hp.base.n, m = hp.base.m;
  std::vector<char> buf(1 << 16);
  e->print_buf = buf.data(); e->print_cap = buf.size(); e->print_len = 0; buf[0] = 0;
  e->now_ns = 1000000000LL; e->clock_virtual = 1; e->step_ns = 0;
  long live = e->live, badf = e->bad_free, dm = e->direct_mem, dp = e->direct_print, cm = e->custom_mem, cp = e->custom_print, pc = e->print_calls;
  double set[VFA_NSET];
  a->defaults(set);
  set[VFA_verbose] = 0; set[VFA_check_dualgap] = 1;
  f(set);
  Csc P, A;
  Prob pr = hp.base;
  if (bad == 1) { pr.P[0] = -3; }
  if (bad == 0 && m) { pr.l[0] = 1; pr.u[0] = 0; }
  csc_from(P, n, n, pr.P, pr.Pm, bad != 7);
  csc_from(A, m, n, pr.A, pr.Am, false);
  if (bad == 2) set[VFA_sigma] = 0;
  if (bad == 3) set[VFA_alpha] = 2;
  if (bad == 4) set[VFA_rho] = 0;
  if (bad == 5) set[VFA_max_iter] = 0;
  if (bad == 6) set[VFA_eps_abs] = -1;
  if (bad == 8) set[VFA_scaling] = -1;
  if (bad == 9) set[VFA_eps_prim_inf] = -1;
  if (bad == 10) set[VFA_polish_refine_iter] = -1;
  if (bad == 11) set[VFA_check_termination] = -1;
  VI pp(P.p.begin(), P.p.end()), pi(P.i.begin(), P.i.end()), ap(A.p.begin(), A.p.end()), ai(A.i.begin(), A.i.end());
  V px(P.x.begin(), P.x.end()), ax(A.x.begin(), A.x.end());
  if (pi.empty()) { pi.push_back(0); px.push_back(0); }
  if (ai.empty()) { ai.push_back(0); ax.push_back(0); }
  long long rc = 0;
  void* h = a->setup(&rc, n, m, pp.data(), pi.data(), px.data(), pr.q.data(), ap.data(), ai.data(), ax.data(), pr.l.data(), pr.u.data(), set);
  b.add("setup rc", rc);
  if (h) {
    vfa_misc M;
    a->misc(h, &M);
    e->print_len = 0; buf[0] = 0;
    b.add("dimension n", M.n); b.add("dimension m", M.m);
    observe(b, a, h, n, m, "setup: ", true);
    auto vals = [&](const Csc& c, const Prob& p, bool isP) { V v; for (auto& q : c.pos) v.push_back((isP ? p.P : p.A)[q.first * p.n + q.second]); return v; };
    int step = 0;
    for (int o : ops) {
      long long r = 0;
      std::string at = strf("%d %s: ", ++step, OPS[o]);
      if (o == 0) r = a->solve(h);
      else if (o == 1) r = a->vec(h, hp.alt.q.data(), nullptr, nullptr);
      else if (o == 2) r = a->vec(h, nullptr, hp.alt.l.data(), hp.alt.u.data());
      else if (o == 3) { V v = vals(P, hp.alt, true); r = v.empty() ? 0 : a->mat(h, v.data(), nullptr, v.size(), nullptr, nullptr, 0); }
      else if (o == 4) { V v = vals(A, hp.alt, false); if (!v.empty()) { long long k = v.size() - 1; double w = v.back(); r = a->mat(h, nullptr, nullptr, 0, &w, &k, 1); } }
      else if (o == 5) { V v = vals(P, hp.base, true), w = vals(A, hp.base, false); r = a->mat(h, v.empty() ? nullptr : v.data(), nullptr, v.size(), w.empty() ? nullptr : w.data(), nullptr, w.size()); }
      else if (o == 6) r = a->rho(h, 10);
      else if (o == 7) { V x(n, 1), y(m, -1); r = a->warm(h, x.data(), m ? y.data() : nullptr); }
      else if (o == 8) a->cold(h);
      else if (o == 9 || o == 11) {
        vfa_info I;
        a->info(h, &I);
        if (o == 9) { I.set[VFA_alpha] = 1.2; I.set[VFA_eps_abs] = 1e-2; I.set[VFA_polishing] = 1; I.set[VFA_delta] = 1e-5; I.set[VFA_cg_tol_fraction] = 0.1; } else I.set[VFA_alpha] = -1;
        r = a->settings(h, I.set);
      }
      else if (o == 10) { V l(m, 1), u(m, -1); r = m ? a->vec(h, nullptr, l.data(), u.data()) : 0; }
      else if (o == 12) r = a->rho(h, -1);
      b.add(at + "rc", r);
      observe(b, a, h, n, m, at, o == 0);
    }
    a->close(h);
  }
  e->print_buf = nullptr;
  b.add("env: blocks not released", e->live - live);
  b.add("env: bad frees", e->bad_free - badf);
  b.add("env: direct memory calls", e->direct_mem - dm);
  b.add("env: direct printing calls", e->direct_print - dp);
  b.add("env: custom memory calls", e->custom_mem - cm);
  b.add("env: custom printing calls", e->custom_print - cp);
  b.add("env: printing calls", e->print_calls - pc);
  b.text = buf.data();
}
static void misc(Blob& b, const vfa_api* a, vf_env* e, const HProb& hp) {
  long dm = e->direct_mem, dp = e->direct_print, live = e->live, badf = e->bad_free;
  double set[VFA_NSET];
  a->defaults(set);
  for (int k = 0; k < VFA_NSET; k++) b.add(strf("default %d", k), set[k]);
  vfa_misc M;
  set[VFA_verbose] = 0;
  Csc P, A;
  csc_from(P, hp.base.n, hp.base.n, hp.base.P, hp.base.Pm, true);
  csc_from(A, hp.base.m, hp.base.n, hp.base.A, hp.base.Am, false);
  VI pp(P.p.begin(), P.p.end()), pi(P.i.begin(), P.i.end()), ap(A.p.begin(), A.p.end()), ai(A.i.begin(), A.i.end());
  V px(P.x.begin(), P.x.end()), ax(A.x.begin(), A.x.end());
  long long rc;
  set[VFA_eps_abs] = set[VFA_eps_rel] = 1e-5;
  void* h = a->setup(&rc, hp.base.n, hp.base.m, pp.data(), pi.data(), px.data(), hp.base.q.data(), ap.data(), ai.data(), ax.data(), hp.base.l.data(), hp.base.u.data(), set);
  b.add("setup rc", rc);
  if (!h) return;
  a->solve(h);
  a->misc(h, &M);
  b.add("float size", M.float_size); b.add("int size", M.int_size); b.add("capabilities", M.caps);
  b.add("codegen rc", M.codegen_rc);
  b.add("infty", M.infty); b.add("nan", M.nan_);
  b.add("version", hash64(M.version, strlen(M.version)) >> 16);
  for (int k = 0; k < 16; k++) b.add(strf("error message %d", k), hash64(M.err[k], strlen(M.err[k])) >> 16);
  V dx(hp.base.n, 1), dy(hp.base.m, 0.5), dq(hp.base.n), dl(hp.base.m), du(hp.base.m);
  rc = a->deriv(h, dx.data(), dy.data(), dq.data(), dl.data(), du.data());
  b.add("deriv rc", rc);
  if (!rc) { for (double d : dq) b.add("dq", d); for (double d : dl) b.add("dl", d); for (double d : du) b.add("du", d); }
  a->close(h);
  b.add("env: blocks not released", e->live - live); b.add("env: bad frees", e->bad_free - badf);
  b.add("env: direct memory calls", e->direct_mem - dm); b.add("env: direct printing calls", e->direct_print - dp);
}

// ---------------------------------------------------------------- servers: one process per build, so that builds with different interfaces to MKL do not meet
struct Req { int kind; uint64_t idx; };   // kind indexes the table of request handlers
typedef std::function<void(uint64_t, Blob&, const vfa_api*, vf_env*)> Handler;
static std::vector<Handler> HANDLERS;
static void wr(int fd, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(0); c += k; n -= k; } }
static bool rd(int fd, void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
struct Server {
  std::string var;
  pid_t pid = 0;
  int to = -1, from = -1;
  std::vector<std::string> names;
  void start() {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) _exit(5);
    pid = fork();
    if (!pid) {
      for (int f = 3; f < 256; f++) if (f != a[0] && f != b[1]) close(f);
      signal(SIGINT, SIG_DFL);
      Lib* L = load_lib(var);
      const vfa_api* api = ((const vfa_api* (*)(void))L->sym("vfa_get_api"))();
      Req r;
      while (rd(a[0], &r, sizeof r)) {
        Blob B;
        alarm(30);
        HANDLERS[r.kind](r.idx, B, api, L->env);
        alarm(0);
        std::string nm;
        for (auto& s : B.nm) nm += s + "\n";
        uint64_t k[3] = {B.v.size(), B.text.size(), nm.size()};
        wr(b[1], k, sizeof k);
        wr(b[1], B.v.data(), 8 * B.v.size());
        wr(b[1], B.text.data(), B.text.size());
        wr(b[1], nm.data(), nm.size());
      }
      _exit(0);
    }
    close(a[0]); close(b[1]);
    to = a[1]; from = b[0];
  }
  void stop() { if (!pid) return; close(to); close(from); int st; waitpid(pid, &st, 0); pid = 0; }
  Blob ask(int kind, uint64_t idx) {
    if (!pid) start();
    Blob B;
    Req r{kind, idx};
    uint64_t k[3];
    signal(SIGPIPE, SIG_IGN);
    bool ok = write(to, &r, sizeof r) == (ssize_t)sizeof r && rd(from, k, sizeof k);
    std::string nm;
    if (ok) {
      B.v.resize(k[0]); B.text.resize(k[1]); nm.resize(k[2]);
      ok = rd(from, B.v.data(), 8 * k[0]) && rd(from, &B.text[0], k[1]) && rd(from, &nm[0], k[2]);
    }
    if (!ok) {
      int st = 0;
      close(to); close(from);
      waitpid(pid, &st, 0);
      pid = 0;
      B.dead = WIFSIGNALED(st) ? strf("ended by signal %d", WTERMSIG(st)) : strf("ended with exit status %d", WEXITSTATUS(st));
      B.v.clear();
      return B;
    }
    size_t p = 0;
    while (p < nm.size()) { size_t q = nm.find('\n', p); B.nm.push_back(nm.substr(p, q - p)); p = q + 1; }
    return B;
  }
};
static Server& server(const std::string& v) {
  static std::map<std::string, Server> S;
  static pid_t owner = 0;
  if (owner != getpid()) { S.clear(); owner = getpid(); }
  auto& s = S[v];
  s.var = v;
  return s;
}

// ---------------------------------------------------------------- comparison
struct Var { std::string name, ref; bool exact, text, custom, prof, gen, der; int fsz, isz; };
static std::vector<Var> variants() {
  return {
    {"bi_int", "bi", true, true, false, true, true, true, 8, 4},
    {"bi_pack", "bi", true, true, false, true, true, true, 8, 8},
    {"bi_debug", "bi", true, true, false, true, true, true, 8, 8},
    {"bi_custom", "bi", true, true, true, true, true, true, 8, 8},
    {"bi_nointr", "bi", true, true, false, true, true, true, 8, 8},
    {"bi_noderiv", "bi", true, true, false, true, true, false, 8, 8},
    {"bi_nogen", "bi", true, true, false, true, false, true, 8, 8},
    {"bi_noprof", "bi", true, false, false, false, true, true, 8, 8},
    {"bi_noprint", "bi", true, false, false, true, true, true, 8, 8},
    {"bi_bare", "bi", true, false, false, false, false, false, 8, 8},
    {"bi_intbare", "bi", true, false, false, false, false, false, 8, 4},
    {"mkl_int", "mkl", true, true, false, true, false, false, 8, 4},
    {"mkl_bare", "mkl", true, false, false, false, false, false, 8, 8},
    {"mkl_custom", "mkl", true, true, true, true, false, false, 8, 8},
    {"bi_f32", "bi", false, false, false, true, true, true, 4, 4},
    {"bi_f32long", "bi", false, false, false, true, true, true, 4, 8},
  };
}
static std::string norm_text(const std::string& t) {
  std::string r, line;
  for (char c : t + "\n") {
    if (c != '\n') { line += c; continue; }
    for (const char* w : {"OSQPInt = 4", "OSQPInt = 8"}) { size_t k = line.find(w); if (k != std::string::npos) line[k + 10] = 'N'; }
    r += line + "\n";
    line.clear();
  }
  return r;
}
static bool built(const Var& v, Ctx& x) {
  const char* f = getenv("VF_FAILED_LIBS");
  if (f && ("," + std::string(f) + ",").find("," + v.name + ",") != std::string::npos) { x.viol("does_not_build " + v.name, "%s: this build configuration does not compile", v.name.c_str()); return false; }
  return true;
}
static void compare(Ctx& x, const Var& v, const Blob& r, const Blob& g, const std::string& who) {
  x.evals++;
  if (!r.dead.empty()) { x.viol("crash " + v.ref, "%s: build %s %s", who.c_str(), v.ref.c_str(), r.dead.c_str()); return; }
  if (!g.dead.empty()) { x.viol("crash " + v.name, "%s: build %s %s", who.c_str(), v.name.c_str(), g.dead.c_str()); return; }
  std::string df;
  int k = 0;
  auto val = [&](const Blob& b, const char* n) { for (size_t i = b.nm.size(); i--;) if (b.nm[i] == n) return b.v[i]; return 0.0; };
  if (val(g, "env: blocks not released") != 0) x.viol("leak " + v.name, "%s: %g blocks not released", who.c_str(), val(g, "env: blocks not released"));
  if (val(g, "env: bad frees") != 0) x.viol("bad_free " + v.name, "%s: %g invalid frees", who.c_str(), val(g, "env: bad frees"));
  if (v.custom) {
    if (v.ref == "bi" && val(g, "env: direct memory calls") != 0) x.viol("custom_memory", "%s: %g memory calls go past the custom memory functions", who.c_str(), val(g, "env: direct memory calls"));
    if (val(g, "env: direct printing calls") != 0) x.viol("custom_printing", "%s: %g printing calls go past the custom printing functions", who.c_str(), val(g, "env: direct printing calls"));
    if (val(g, "env: custom memory calls") == 0 && val(r, "env: direct memory calls") != 0) x.viol("custom_memory", "%s: the custom memory functions are not used", who.c_str());
  }
  if ((v.name == "bi_noprint" || v.name.find("bare") != std::string::npos) && val(g, "env: printing calls") != 0) x.viol("prints " + v.name, "%s: prints although printing is disabled", who.c_str());
  if (v.text && norm_text(r.text) != norm_text(g.text)) {
    std::string a = norm_text(r.text), b = norm_text(g.text);
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t s = a.rfind('\n', i ? i - 1 : 0);
    s = s == std::string::npos ? 0 : s + 1;
    x.viol("text " + v.name, "%s: printed '%s' instead of '%s'", who.c_str(), b.substr(s, 90).c_str(), a.substr(s, 90).c_str());
  }
  if (v.exact) {
    if (r.nm != g.nm) { x.viol("course " + v.name, "%s: the calls take another course", who.c_str()); return; }
    for (size_t i = 0; i < r.v.size(); i++) {
      if (r.nm[i].compare(0, 4, "env:") == 0) continue;
      if (!v.prof && r.nm[i].find("pdint") != std::string::npos) continue;
      if (!bit_eq(r.v[i], g.v[i]) && k++ < 4) df += strf("%s: %.17g instead of %.17g; ", r.nm[i].c_str(), g.v[i], r.v[i]);
    }
    if (k) x.viol("differs " + v.name, "%s: build %s differs from %s: %s", who.c_str(), v.name.c_str(), v.ref.c_str(), df.c_str());
  }
}
// single precision: the same verdicts; what is returned satisfies the tolerances up to the precision of the number type
static double FSLACK = 4e-6;
static void judge_solution(Ctx& x, const Var& v, const std::string& who, const Prob& p, const V& X, const V& Y, double eps, double eps_pinf) {
  Kkt k = kkt(p, X, Y);
  double sp = 0, sd = 0, ax = 1, ay = 1;
  for (double d : p.A) ax = std::max(ax, std::fabs(d));
  for (double d : p.P) ay = std::max(ay, std::fabs(d));
  sp = (1 + ax) * (1 + ninf(X)); sd = (1 + ax + ay) * (1 + ninf(X) + ninf(Y) + ninf(p.q));
  double tp = eps + eps * std::max(k.nAx, k.nz) + 100 * FSLACK * sp, td = eps + eps * std::max(k.nPx, std::max(k.nAty, k.nq)) + 100 * FSLACK * sd;
  if (!(k.prim <= tp)) x.viol("prim_res " + v.name, "%s: reported solved with primal residual %g > %g; %s", who.c_str(), k.prim, tp, p.str().c_str());
  if (!(k.dual <= td)) x.viol("dual_res " + v.name, "%s: reported solved with dual residual %g > %g; %s", who.c_str(), k.dual, td, p.str().c_str());
}
static V pick(const Blob& b, const std::string& n) { V r; for (size_t i = 0; i < b.nm.size(); i++) if (b.nm[i] == n) r.push_back(b.v[i]); return r; }
static bool ends(const std::string& s, const char* t) { size_t n = strlen(t); return s.size() >= n && s.compare(s.size() - n, n, t) == 0; }
// the linear systems of single precision builds are only well conditioned if P + A'A is
static bool conditioned(const Prob& p) {
  V M = p.P;
  for (int i = 0; i < p.m; i++) for (int j = 0; j < p.n; j++) for (int k = 0; k < p.n; k++) M[j * p.n + k] += p.A[i * p.n + j] * p.A[i * p.n + k];
  return min_eig(M, p.n) > 0.1;
}
static void compare_f32(Ctx& x, const Var& v, const Blob& r, const Blob& g, const std::string& who, const Prob& p, bool same_data, bool must_decide = false) {
  x.evals++;
  if (!r.dead.empty()) { x.viol("crash " + v.ref, "%s: build %s %s", who.c_str(), v.ref.c_str(), r.dead.c_str()); return; }
  if (!g.dead.empty()) { x.viol("crash " + v.name, "%s: build %s %s", who.c_str(), v.name.c_str(), g.dead.c_str()); return; }
  if (r.nm != g.nm) { x.viol("course " + v.name, "%s: the calls take another course", who.c_str()); return; }
  bool solved_same = true;
  int last = -1;
  std::string at;
  for (size_t i = 0; i < r.v.size(); i++) {
    const std::string& n = r.nm[i];
    if (n == "env: blocks not released" || n == "env: bad frees") { if (g.v[i] != 0) x.viol("leak " + v.name, "%s: %s %g", who.c_str(), n.c_str(), g.v[i]); continue; }
    bool must = ends(n, "rc") || n.compare(0, 9, "dimension") == 0;
    if (n.find("settings->") != std::string::npos && n.find("->rho") == std::string::npos) { if (!close(r.v[i], g.v[i], 1e-6, 0)) x.viol("settings " + v.name, "%s: %s is %.9g instead of %.9g", who.c_str(), n.c_str(), g.v[i], r.v[i]); continue; }
    if (must && r.v[i] != g.v[i]) { x.viol("rc " + v.name, "%s: %s is %g instead of %g", who.c_str(), n.c_str(), g.v[i], r.v[i]); return; }
    if (ends(n, ": status")) {
      if (r.v[i] != g.v[i]) {
        bool dec = r.v[i] == OSQP_SOLVED || r.v[i] == OSQP_PRIMAL_INFEASIBLE || r.v[i] == OSQP_DUAL_INFEASIBLE;
        bool gd = g.v[i] == OSQP_SOLVED || g.v[i] == OSQP_PRIMAL_INFEASIBLE || g.v[i] == OSQP_DUAL_INFEASIBLE;
        x.count(strf("%s: %s where double says %s", v.name.c_str(), status_name((int)g.v[i]).c_str(), status_name((int)r.v[i]).c_str()));
        if (dec && gd) x.viol("verdict " + v.name, "%s: %s: %s where double precision says %s; %s", who.c_str(), n.c_str(), status_name((int)g.v[i]).c_str(), status_name((int)r.v[i]).c_str(), p.str().c_str());
        else if ((must_decide && r.v[i] == OSQP_SOLVED) || getenv("VF_STRICT")) x.viol("undecided " + v.name, "%s: %s: %s where double precision says %s; %s", who.c_str(), n.c_str(), status_name((int)g.v[i]).c_str(), status_name((int)r.v[i]).c_str(), p.str().c_str());
        solved_same = false;
      } else x.outcome(strf("%s %d", v.name.c_str(), (int)g.v[i]));
      if (ends(n, "solve: status")) { last = (int)g.v[i]; at = n.substr(0, n.size() - 6); }
    }
  }
  if (same_data && last == OSQP_SOLVED) judge_solution(x, v, who, p, pick(g, at + "x"), pick(g, at + "y"), 1e-3, 1e-4);
}

int main(int argc, char** argv) {
  Check c;
  c.id = "C30"; c.level = "exploration";
  c.case_timeout = 90;
  c.rule = "every build configuration (integer width, number type, each optional feature switched off alone and together, packed settings, debug, user-supplied memory and printing) is compiled from the tree and driven through every call sequence / problem / configuration of the space; builds with the same number type answer bit for bit what the default build answers, print the same text and release all memory; single precision builds return the same codes and verdicts, and what they return satisfies the tolerances up to rounding";
  c.assumptions = {"x86-64, no contraction of floating-point operations", "time-dependent settings (time limits, time-based rho adaptation) are outside, as is the primal-dual integral without profiling"};
  c.spaces = [](const std::string& tier) {
    bool th = tier == "thorough";
    std::vector<Space> S;
    static std::vector<Var> VS;
    static std::vector<HProb> HP;
    static std::vector<Cfg> CF;
    static std::vector<Family> FAM;
    static std::vector<uint64_t> STEP;
    VS = variants(); HP = hist_problems(); CF = configs(true);
    HANDLERS.clear(); FAM.clear();
    // 0: histories. idx = ((seq * HP + hp) * CF + cf) * 3 + len
    auto seq_of = [](uint64_t i, int& cf, int& hp) { Dec d(i); int len = d.take(4); cf = d.take(CF.size()); hp = d.take(HP.size()); std::vector<int> o; for (int k = 0; k < len; k++) o.push_back(d.take(NOPS)); o.push_back(0); return o; };
    HANDLERS.push_back([=](uint64_t i, Blob& b, const vfa_api* a, vf_env* e) { int cf, hp; auto o = seq_of(i, cf, hp); session(b, a, e, HP[hp], CF[cf].f, o, -1); });
    // 1: rejected setups
    HANDLERS.push_back([=](uint64_t i, Blob& b, const vfa_api* a, vf_env* e) { Dec d(i); int bad = d.take(NBAD), hp = d.take(HP.size()); session(b, a, e, HP[hp], CF[d.take(2)].f, {0}, bad); });
    // 2: constants, capabilities, features
    HANDLERS.push_back([=](uint64_t i, Blob& b, const vfa_api* a, vf_env* e) { misc(b, a, e, HP[i]); });
    struct Len { int len; int var_hi; };
    auto hist_space = [&](const std::string& nm, int len, std::vector<int> vs, std::vector<int> hps, std::vector<int> cfs) {
      uint64_t ns = 1;
      for (int k = 0; k < len; k++) ns *= NOPS;
      auto dec = [=](uint64_t i) { Dec d(i); int v = vs[d.take(vs.size())], hp = hps[d.take(hps.size())], cf = cfs[d.take(cfs.size())]; uint64_t id = ((d.r * HP.size() + hp) * CF.size() + cf) * 4 + len; return std::array<uint64_t, 3>{(uint64_t)v, id, (uint64_t)hp}; };
      auto desc = [=](uint64_t i) { auto d = dec(i); int cf, hp; auto o = seq_of(d[1], cf, hp); std::string s = VS[d[0]].name + " " + HP[hp].name + " " + CF[cf].name + ":"; for (int k : o) s += std::string(" ") + OPS[k] + ";"; return s; };
      S.push_back({nm, ns * vs.size() * hps.size() * cfs.size(), [=](uint64_t i, Ctx& x) {
        auto d = dec(i);
        const Var& v = VS[d[0]];
        if (!built(v, x)) return;
        int cf, hp;
        auto o = seq_of(d[1], cf, hp);
        if (CF[cf].name == "indirect" && v.ref == "bi") { x.skipped++; return; }
        Blob r = server(v.ref).ask(0, d[1]), g = server(v.name).ask(0, d[1]);
        bool same = true;
        for (int k : o) if ((k >= 1 && k <= 5) || k == 9) same = false;
        if (v.exact) compare(x, v, r, g, desc(i)); else compare_f32(x, v, r, g, desc(i), HP[hp].base, same && cf < 6 && cf != 3);
        x.states += o.size(); x.transitions += o.size(); x.traces++;
      }, desc});
    };
    std::vector<int> ve, vf, vall, hps, cfs;
    for (int k = 0; k < (int)VS.size(); k++) { (VS[k].exact ? ve : vf).push_back(k); vall.push_back(k); }
    for (int k = 0; k < (int)HP.size(); k++) hps.push_back(k);
    for (int k = 0; k < (int)CF.size(); k++) cfs.push_back(k);
    S.push_back({"features", vall.size() * HP.size(), [=](uint64_t i, Ctx& x) {
      const Var& v = VS[i % VS.size()];
      int hp = i / VS.size();
      if (!built(v, x)) return;
      Blob r = server(v.ref).ask(2, hp), g = server(v.name).ask(2, hp);
      x.evals++;
      std::string who = v.name + " " + HP[hp].name;
      if (!r.dead.empty() || !g.dead.empty()) { x.viol("crash " + v.name, "%s: %s", who.c_str(), (r.dead + g.dead).c_str()); return; }
      auto val = [&](const Blob& b, const char* n) { V p = pick(b, n); return p.empty() ? -12345.0 : p[0]; };
      if (val(g, "float size") != v.fsz || val(g, "int size") != v.isz) x.viol("types " + v.name, "%s: OSQPFloat has %g bytes and OSQPInt %g", who.c_str(), val(g, "float size"), val(g, "int size"));
      int caps = (int)val(g, "capabilities"), want = (int)val(r, "capabilities");
      if (!v.gen) want &= ~OSQP_CAPABILITY_CODEGEN;
      if (!v.der) want &= ~OSQP_CAPABILITY_DERIVATIVES;
      if (caps != want) x.viol("capabilities " + v.name, "%s: capabilities %#x instead of %#x", who.c_str(), caps, want);
      if ((val(g, "codegen rc") == OSQP_FUNC_NOT_IMPLEMENTED) != !v.gen || (v.gen && val(g, "codegen rc") != val(r, "codegen rc"))) x.viol("codegen " + v.name, "%s: osqp_codegen returns %g", who.c_str(), val(g, "codegen rc"));
      if ((val(g, "deriv rc") == OSQP_FUNC_NOT_IMPLEMENTED) != !v.der || (v.der && val(g, "deriv rc") != val(r, "deriv rc"))) x.viol("derivatives " + v.name, "%s: derivatives return %g instead of %g", who.c_str(), val(g, "deriv rc"), val(r, "deriv rc"));
      if (val(g, "env: blocks not released") > 0 || val(g, "env: bad frees") > 0) x.viol("leak " + v.name, "%s: %g blocks not released, %g invalid frees", who.c_str(), val(g, "env: blocks not released"), val(g, "env: bad frees"));
      if (v.custom && v.ref == "bi" && val(g, "env: direct memory calls") > 0) x.viol("custom_memory", "%s: %g memory calls go past the custom memory functions", who.c_str(), val(g, "env: direct memory calls"));
      if (v.custom && val(g, "env: direct printing calls") > 0) x.viol("custom_printing", "%s: %g printing calls go past the custom printing functions", who.c_str(), val(g, "env: direct printing calls"));
      for (size_t k = 0; k < r.nm.size() && k < g.nm.size(); k++) {
        if (r.nm[k].compare(0, 4, "env:") == 0) continue;
        const std::string& n = r.nm[k];
        if (n == "float size" || n == "int size" || n == "capabilities" || n == "codegen rc" || n == "deriv rc") continue;
        if (n != g.nm[k]) break;
        if (!v.exact && n == strf("default %d", (int)VFA_check_dualgap)) { if (g.v[k] != 0) x.viol("default " + v.name, "%s: check_dualgap is on by default in single precision", who.c_str()); continue; }
        if (!v.exact && n[0] == 'd' && n[1] != 'e') { if (std::fabs(r.v[k] - g.v[k]) > 1e-2 * (1 + std::fabs(r.v[k]))) x.viol("derivative values " + v.name, "%s: %s %.9g instead of %.9g", who.c_str(), n.c_str(), g.v[k], r.v[k]); continue; }
        if (v.exact ? !bit_eq(r.v[k], g.v[k]) : !close(r.v[k], g.v[k], 1e-6, 0)) x.viol("constants " + v.name, "%s: %s is %.9g instead of %.9g", who.c_str(), n.c_str(), g.v[k], r.v[k]);
      }
    }, [=](uint64_t i) { return VS[i % VS.size()].name + " " + HP[i / VS.size()].name; }});
    S.push_back({"rejected", vall.size() * NBAD * HP.size() * 2, [=](uint64_t i, Ctx& x) {
      Dec d(i);
      const Var& v = VS[d.take(VS.size())];
      uint64_t id = d.r;
      if (!built(v, x)) return;
      Blob r = server(v.ref).ask(1, id), g = server(v.name).ask(1, id);
      int bad = id % NBAD, hp = id / NBAD % HP.size();
      std::string who = v.name + " " + HP[hp].name + " with " + BAD[bad];
      if (v.exact) compare(x, v, r, g, who); else compare_f32(x, v, r, g, who, HP[hp].base, false);
    }, [=](uint64_t i) { Dec d(i); int v = d.take(VS.size()), b = d.take(NBAD), h = d.take(HP.size()); return VS[v].name + " " + HP[h].name + " with " + BAD[b]; }});
    hist_space("calls_1", 1, vall, hps, cfs);
    hist_space("calls_2", 2, vall, hps, th ? cfs : std::vector<int>{0, 1, 4, 8});
    if (th) hist_space("calls_3", 3, ve, {0, 2, 4, 7}, {1, 4});
    // problem sweeps: solve and compare
    struct Sw { const char* f; uint64_t step; };
    std::vector<Sw> sw = th ? std::vector<Sw>{{"n1m1", 1}, {"n1m2", 1}, {"n2m1", 1}, {"n2m2s", 1}, {"n3m1", 1}, {"n3m2", 7}} : std::vector<Sw>{{"n1m1", 1}, {"n1m2", 3}, {"n2m1", 7}, {"n2m2s", 23}};
    for (auto& w : sw) {
      int fi = FAM.size();
      FAM.push_back(family(w.f));
      uint64_t step = w.step, cnt = (FAM[fi].count() + step - 1) / step;
      int kind = HANDLERS.size();
      HANDLERS.push_back([=](uint64_t i, Blob& b, const vfa_api* a, vf_env* e) { HProb h; h.base = FAM[fi].get(i / 2 * step); h.alt = h.base; session(b, a, e, h, CF[i % 2 ? 4 : 0].f, {0}, -1); });
      // sweep variants: the number type and integer width matter for arithmetic, the rest is covered by the histories
      std::vector<int> vs;
      for (int k = 0; k < (int)VS.size(); k++) if (VS[k].name == "bi_f32" || VS[k].name == "bi_int" || VS[k].name == "mkl_int" || VS[k].name == "bi_bare") vs.push_back(k);
      S.push_back({strf("problems_%s", w.f), cnt * 2 * vs.size(), [=](uint64_t i, Ctx& x) {
        const Var& v = VS[vs[i % vs.size()]];
        if (!built(v, x)) return;
        uint64_t id = i / vs.size();
        Prob p = FAM[fi].get(id / 2 * step);
        if (!v.exact && !conditioned(p)) { x.skipped++; return; }
        Blob r = server(v.ref).ask(kind, id), g = server(v.name).ask(kind, id);
        std::string who = strf("%s %s#%llu cfg %d", v.name.c_str(), w.f, (unsigned long long)(id / 2 * step), (int)(id % 2));
        if (v.exact) compare(x, v, r, g, who); else compare_f32(x, v, r, g, who, p, true, id % 2 == 0 && min_eig(p.P, p.n) > 0.1);
      }, [=](uint64_t i) { uint64_t id = i / vs.size(); return strf("%s cfg %d ", VS[vs[i % vs.size()]].name.c_str(), (int)(id % 2)) + FAM[fi].get(id / 2 * step).str(); }});
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
