// C23: matrix constructors and query functions tell the truth.
#include "common.h"
#include "hist.h"
#include <algorithm>
#include <array>
#include <cctype>
#include <sys/mman.h>
#include <unistd.h>

static std::vector<double> dense_of(Ctx& x, const OSQPCscMatrix* M, int m, int n, const std::string& who) {
  std::vector<double> d(m * n, 0.0);
  auto bad = [&](const char* key, const std::string& s) { x.viol(key, "%s: %s", who.c_str(), s.c_str()); };
  if (M->m != m || M->n != n) { bad("shape", strf("is %d x %d", (int)M->m, (int)M->n)); return {}; }
  if (M->nz != -1) bad("format", strf("nz is %d, compressed columns have -1", (int)M->nz));
  if (!M->p) { bad("columns", "no column pointers"); return {}; }
  if (M->p[0] != 0) bad("columns", strf("p[0] is %d", (int)M->p[0]));
  for (int j = 0; j < n; j++) if (M->p[j + 1] < M->p[j]) { bad("columns", strf("p decreases at column %d", j)); return {}; }
  OSQPInt nnz = M->p[n];
  if (nnz > M->nzmax) { bad("capacity", strf("%d entries, nzmax %d", (int)nnz, (int)M->nzmax)); return {}; }
  if (nnz && (!M->i || !M->x)) { bad("arrays", "entries but no arrays"); return {}; }
  for (int j = 0; j < n; j++) {
    OSQPInt prev = -1;
    for (OSQPInt k = M->p[j]; k < M->p[j + 1]; k++) {
      if (M->i[k] < 0 || M->i[k] >= m) { bad("row_index", strf("row index %d in column %d", (int)M->i[k], j)); return {}; }
      if (M->i[k] <= prev) bad("row_order", strf("row indices not increasing in column %d", j));
      prev = M->i[k];
      d[M->i[k] * n + j] += M->x[k];
    }
  }
  return d;
}
static const double ALPH[] = {-2, 0, 1, 1e-300, 1e300};
// all helpers for one shape and one vector of diagonal values
static void shape(Ctx& x, Lib* L, int m, int n, uint64_t vi) {
  int k = std::min(m, n);
  std::vector<double> vec(k);
  Dec d(vi);
  for (auto& v : vec) v = ALPH[d.take(5)];
  vf_env* e = L->env;
  long live = e->live, badf = e->bad_free, bytes = e->live_bytes;
  auto expect = [&](const char* nm, OSQPCscMatrix* M, const std::function<double(int)>& val, bool exact_count) {
    std::string who = strf("%s %s(%d,%d) with %s", L->variant.c_str(), nm, m, n, vecstr(vec).c_str());
    x.evals++;
    if (!M) { x.viol("null", "%s returned nothing", who.c_str()); return; }
    auto D = dense_of(x, M, m, n, who);
    if ((int)D.size() == m * n) {
      for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        double w = i == j ? val(i) : 0;
        if (!(D[i * n + j] == w)) { x.viol("value", "%s: entry (%d,%d) is %.17g, should be %.17g", who.c_str(), i, j, D[i * n + j], w); i = m; break; }
      }
      int want = exact_count ? k : 0;
      if ((int)M->p[n] != want) x.viol("entries", "%s: %d stored entries, should be %d", who.c_str(), (int)M->p[n], want);
    }
    long need = (long)(sizeof(OSQPCscMatrix) + (n + 1) * sizeof(OSQPInt) + M->nzmax * (sizeof(OSQPInt) + sizeof(OSQPFloat)));
    if (e->live_bytes - bytes < need) x.viol("claimed_capacity", "%s: nzmax %d claims room for more entries than the arrays have (%ld bytes allocated)", who.c_str(), (int)M->nzmax, e->live_bytes - bytes);
    if (M->owned != 1) x.viol("ownership", "%s: owned is %d for arrays allocated by the library", who.c_str(), (int)M->owned);
    x.outcome(strf("%s %d %d", nm, m, n));
    L->OSQPCscMatrix_free(M);
    if (e->live != live) { x.viol("leak", "%s: %ld blocks left after OSQPCscMatrix_free", who.c_str(), e->live - live); live = e->live; }
    bytes = e->live_bytes;
  };
  if (vi == 0) {
    expect("zeros", L->OSQPCscMatrix_zeros(m, n), [](int) { return 0.0; }, false);
    if (m == n) expect("identity", L->OSQPCscMatrix_identity(m), [](int) { return 1.0; }, true);
    for (double a : ALPH) expect(strf("diag_scalar %g", a).c_str(), L->OSQPCscMatrix_diag_scalar(m, n, a), [a](int) { return a; }, true);
  }
  // the values lie against an inaccessible page and may be reused after the call
  char* pg = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(pg + 4096, 4096, PROT_NONE);
  double* pv = (double*)(pg + 4096) - k;
  std::copy(vec.begin(), vec.end(), pv);
  OSQPCscMatrix* M = L->OSQPCscMatrix_diag_vec(m, n, pv);
  if (!std::equal(vec.begin(), vec.end(), pv)) x.viol("input_changed", "diag_vec changed its argument");
  munmap(pg, 8192);
  expect("diag_vec", M, [&](int i) { return vec[i]; }, true);
  // wrapping existing arrays: nothing copied, nothing freed
  std::vector<OSQPInt> p(n + 1), ii(k + 3, 5);
  std::vector<double> xv(vec);
  xv.resize(k + 3, 77);
  for (int j = 0; j <= n; j++) p[j] = std::min(j, k);
  for (int j = 0; j < k; j++) ii[j] = j;
  for (int which = 0; which < 2; which++) {
    auto p0 = p, i0 = ii; auto x0 = xv;
    OSQPCscMatrix st;
    memset(&st, 0x5a, sizeof st);
    OSQPCscMatrix* W = which ? &st : L->OSQPCscMatrix_new(m, n, k + 3, xv.data(), ii.data(), p.data());
    if (which) L->OSQPCscMatrix_set_data(W, m, n, k + 3, xv.data(), ii.data(), p.data());
    std::string who = strf("%s %s(%d,%d)", L->variant.c_str(), which ? "set_data" : "new", m, n);
    x.evals++;
    if (!W) { x.viol("null", "%s returned nothing", who.c_str()); continue; }
    if (W->x != xv.data() || W->i != ii.data() || W->p != p.data()) x.viol("not_wrapped", "%s: does not refer to the caller's arrays", who.c_str());
    if (W->owned != 0) x.viol("ownership", "%s: owned is %d for the caller's arrays", who.c_str(), (int)W->owned);
    if (W->nzmax != k + 3) x.viol("capacity", "%s: nzmax is %d, given %d", who.c_str(), (int)W->nzmax, k + 3);
    auto D = dense_of(x, W, m, n, who);
    if (!which) L->OSQPCscMatrix_free(W);
    if (e->live != live) { x.viol("leak", "%s", who.c_str()); live = e->live; }
    if (e->bad_free != badf) { x.viol("freed_callers_arrays", "%s: released memory it does not own", who.c_str()); badf = e->bad_free; }
    if (p != p0 || ii != i0 || !same_bits(xv, x0)) x.viol("input_changed", "%s: the caller's arrays were changed", who.c_str());
  }
  L->OSQPCscMatrix_free(nullptr);
  if (e->bad_free != badf) x.viol("bad_free", "freeing helper matrices released something twice");
}
// matrices made by the helpers describe the problem they should
static void use(Ctx& x, Lib* L, int n, uint64_t vi) {
  Dec d(vi);
  static const double DV[] = {1, 2, 4};
  std::vector<double> dg(n), q(n), l(n), u(n);
  for (int j = 0; j < n; j++) { dg[j] = DV[d.take(3)]; q[j] = (double)d.take(3) - 1; int b = d.take(3); l[j] = b == 0 ? -10 : b == 1 ? 0.25 : -INF; u[j] = b == 2 ? -0.25 : 10; }
  int kind = d.take(3);
  OSQPCscMatrix* P = kind == 2 ? L->OSQPCscMatrix_zeros(n, n) : L->OSQPCscMatrix_diag_vec(n, n, dg.data());
  OSQPCscMatrix* A = kind == 1 ? L->OSQPCscMatrix_diag_scalar(n, n, 1.0) : L->OSQPCscMatrix_identity(n);
  OSQPSettings* s = L->OSQPSettings_new();
  s->verbose = 0; s->eps_abs = s->eps_rel = 1e-8; s->eps_prim_inf = s->eps_dual_inf = 1e-8;
  OSQPSolver* sv = nullptr;
  OSQPInt rc = L->osqp_setup(&sv, P, q.data(), A, l.data(), u.data(), n, n, s);
  std::string who = strf("%s n=%d kind %d diagonal %s q=%s l=%s u=%s", L->variant.c_str(), n, kind, vecstr(dg).c_str(), vecstr(q).c_str(), vecstr(l).c_str(), vecstr(u).c_str());
  L->OSQPSettings_free(s);
  L->OSQPCscMatrix_free(P); L->OSQPCscMatrix_free(A);
  x.evals++;
  if (rc) { x.viol("setup", "%s: setup returned %d", who.c_str(), (int)rc); return; }
  OSQPInt gm = 99, gn = 99;
  L->osqp_get_dimensions(sv, &gm, &gn);
  if (gm != n || gn != n) x.viol("dimensions", "%s: dimensions %d x %d", who.c_str(), (int)gm, (int)gn);
  L->osqp_solve(sv);
  bool unb = false;
  for (int j = 0; j < n; j++) if (kind == 2 && ((q[j] > 0 && l[j] == -INF))) unb = true;
  if (unb) { if (sv->info->status_val != OSQP_DUAL_INFEASIBLE) x.viol("solution", "%s: %s", who.c_str(), sv->info->status); }
  else if (sv->info->status_val != OSQP_SOLVED) x.viol("solution", "%s: %s", who.c_str(), sv->info->status);
  else for (int j = 0; j < n; j++) {
    double w = kind == 2 ? (q[j] > 0 ? l[j] : q[j] < 0 ? u[j] : NAN) : std::min(u[j], std::max(l[j], -q[j] / dg[j]));
    if (w == w && !close(sv->solution->x[j], w, 1e-4, 1e-4)) x.viol("solution", "%s: x[%d]=%.10g, should be %.10g", who.c_str(), j, sv->solution->x[j], w);
  }
  x.outcome(sv->info->status);
  L->osqp_cleanup(sv);
}
// what the codes are for, in words
static const char* const WORDS[] = {"", "data", "settings", "linear system", "non-convex", "memory", "initialized", "algebra", "file", "defines", "not initialized", "not implemented"};
static std::string lower(std::string s) { for (auto& c : s) c = (char)tolower(c); return s; }
static void message(Ctx& x, Lib* L, long long code) {
  x.evals++;
  const char* s = L->osqp_error_message((OSQPInt)code);
  bool known = code >= 1 && code <= 11;
  if (!s || !*s) { x.viol("message", "%s: no message for code %lld", L->variant.c_str(), code); return; }
  std::string unk = L->osqp_error_message(-1), t = s;
  x.outcome(t);
  if (!known) { if (t != unk || lower(t).find("unknown") == std::string::npos) x.viol("message", "%s: message for undefined code %lld is '%s'", L->variant.c_str(), code, s); return; }
  if (t == unk) x.viol("message", "%s: code %lld has no message of its own", L->variant.c_str(), code);
  if (lower(t).find(WORDS[code]) == std::string::npos) x.viol("message", "%s: message for code %lld is '%s' (expected one about '%s')", L->variant.c_str(), code, s, WORDS[code]);
  for (long long o = 1; o <= 11; o++) if (o != code && t == L->osqp_error_message((OSQPInt)o)) x.viol("message", "%s: codes %lld and %lld share a message", L->variant.c_str(), code, o);
}
static void capabilities(Ctx& x, Lib* L) {
  OSQPInt c = L->osqp_capabilities();
  x.evals++;
  x.outcome(strf("%s %d", L->variant.c_str(), (int)c));
  auto bit = [&](int b) { return (c & b) != 0; };
  auto claim = [&](const char* nm, bool says, bool is) { if (says != is) x.viol("capability", "%s: capability '%s' reported %s but %s", L->variant.c_str(), nm, says ? "present" : "absent", is ? "works" : "does not work"); };
  HProb hp = hist_problems()[0];
  OSQPSettings s = base_settings(L);
  for (int lin = 1; lin <= 2; lin++) {
    OSQPSettings t = s;
    t.linsys_solver = (osqp_linsys_solver_type)lin;
    Run r(L, hp.base, t);
    bool ok = r.rc == 0 && r.solve() == 0 && r.status() == OSQP_SOLVED && r.s->settings->linsys_solver == lin;
    claim(lin == 1 ? "direct solver" : "indirect solver", bit(lin == 1 ? OSQP_CAPABILITY_DIRECT_SOLVER : OSQP_CAPABILITY_INDIRECT_SOLVER), ok);
  }
  Mach m(L, hp, s);
  claim("update matrices", bit(OSQP_CAPABILITY_UPDATE_MATRICES), op_mat(true, 3, false).f(m) == 0);
  L->osqp_solve(m.s());
  std::vector<double> dx(2, 1), dy(2, 1);
  claim("derivatives", bit(OSQP_CAPABILITY_DERIVATIVES), L->osqp_adjoint_derivative_compute && L->osqp_adjoint_derivative_compute(m.s(), dx.data(), dy.data()) == 0);
  char dir[] = "/tmp/vf_helpers_XXXXXX";
  if (mkdtemp(dir)) {
    OSQPCodegenDefines* df = L->OSQPCodegenDefines_new();
    std::string d = std::string(dir) + "/";
    OSQPInt rc = L->osqp_codegen ? L->osqp_codegen(m.s(), d.c_str(), "vf_", df) : 99;
    L->OSQPCodegenDefines_free(df);
    claim("code generation", bit(OSQP_CAPABILITY_CODEGEN), rc == 0);
    for (const char* f : {"vf_workspace.c", "vf_workspace.h", "osqp_configure.h", "emosqp.c"}) unlink((d + f).c_str());
    if (rmdir(dir)) x.viol("codegen_files", "code generation left unexpected files in %s", dir);
  }
  std::string v = L->osqp_version();
  int a, b, cc, k = 0;
  if (sscanf(v.c_str(), "%d.%d.%d%n", &a, &b, &cc, &k) != 3) x.viol("version", "%s: version '%s'", L->variant.c_str(), v.c_str());
  x.sample(strf("%s: version %s, capabilities %d", L->variant.c_str(), v.c_str(), (int)c));
}
// dimensions over histories and of solvers whose setup failed
static void dims(Ctx& x, Lib* L, const HProb& hp, int what) {
  OSQPInt m = 99, n = 99;
  x.evals++;
  L->osqp_get_dimensions(nullptr, &m, &n);
  if (m != -1 || n != -1) x.viol("dimensions_null", "%s: dimensions of no solver are %d,%d", L->variant.c_str(), (int)m, (int)n);
  OSQPSettings s = base_settings(L);
  auto is = [&](OSQPSolver* sv, const char* when) {
    OSQPInt gm = 99, gn = 99;
    L->osqp_get_dimensions(sv, &gm, &gn);
    if (gm != hp.base.m || gn != hp.base.n) x.viol("dimensions", "%s %s: %s dimensions m=%d n=%d, should be m=%d n=%d", L->variant.c_str(), hp.name.c_str(), when, (int)gm, (int)gn, hp.base.m, hp.base.n);
  };
  if (what == 0) {
    Mach M(L, hp, s);
    if (M.setup_rc) return;
    is(M.s(), "after setup");
    std::vector<Op> ops = {op_solve(), op_q(true), op_b(true), op_mat(true, 3, false), op_rho(2), op_cold(), op_get()};
    for (auto& o : ops) { o.f(M); is(M.s(), ("after " + o.name).c_str()); }
  } else if (what == 1) {   // setups that fail: by validation, and at every allocation
    OSQPSettings b = s;
    b.rho = -1;
    Run r(L, hp.base, b);
    if (!r.rc) x.viol("setup", "negative rho accepted");
    m = n = 99;
    L->osqp_get_dimensions(r.s, &m, &n);
    if (m != -1 || n != -1) x.viol("dimensions_failed", "%s: dimensions of a solver whose setup failed are %d,%d", L->variant.c_str(), (int)m, (int)n);
  } else {
    vf_env* e = L->env;
    for (long k = 1; k < 200; k++) {
      e->alloc_count = 0; e->fail_from = k; e->fail_to = k; e->failed = 0;
      OSQPSolver* sv = nullptr;
      Csc P, A;
      csc_from(P, hp.base.n, hp.base.n, hp.base.P, hp.base.Pm, true);
      csc_from(A, hp.base.m, hp.base.n, hp.base.A, hp.base.Am, false);
      OSQPInt rc = L->osqp_setup(&sv, &P.M, hp.base.q.data(), &A.M, hp.base.l.data(), hp.base.u.data(), hp.base.m, hp.base.n, &s);
      e->fail_from = e->fail_to = 0;
      x.evals++;
      m = n = 99;
      L->osqp_get_dimensions(sv, &m, &n);
      if (rc && !((m == -1 && n == -1) || (m == hp.base.m && n == hp.base.n))) x.viol("dimensions_failed", "%s %s: allocation %ld failed in setup, dimensions then %d,%d", L->variant.c_str(), hp.name.c_str(), k, (int)m, (int)n);
      if (!rc && (m != hp.base.m || n != hp.base.n)) x.viol("dimensions", "%s %s: %d,%d", L->variant.c_str(), hp.name.c_str(), (int)m, (int)n);
      if (sv) L->osqp_cleanup(sv);
      if (!e->failed) break;
    }
  }
}
int main(int argc, char** argv) {
  Check c;
  c.id = "C23";
  c.level = "exploration";
  c.rule = "for every shape and every diagonal of the alphabet the constructed matrix is a valid compressed-column matrix with exactly these values, shape and ownership, usable in setup; capabilities agree with what works; every error code in and around the valid range has its own (or the unknown) message; dimensions are right after every call and for no or failed solvers";
  c.assumptions = {"shapes up to the stated size, including empty ones"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    int mx = th ? 6 : 5;
    for (const char* lib : {"bi", "mkl"}) {
      auto sh = std::make_shared<std::vector<std::array<uint64_t, 3>>>();
      for (int m = 0; m <= mx; m++) for (int n = 0; n <= mx; n++) for (uint64_t v = 0, k = upow(5, std::min(m, n)); v < k; v++) sh->push_back({(uint64_t)m, (uint64_t)n, v});
      S.push_back({strf("shapes_%s", lib), sh->size(), [=](uint64_t i, Ctx& x) { auto& a = (*sh)[i]; shape(x, load_lib(lib), (int)a[0], (int)a[1], a[2]); },
                   [=](uint64_t i) { auto& a = (*sh)[i]; return strf("%d x %d, values %d", (int)a[0], (int)a[1], (int)a[2]); }});
      for (int n = 1; n <= (th ? 3 : 2); n++)
        S.push_back({strf("use_%s_n%d", lib, n), upow(27, n) * 3, [=](uint64_t i, Ctx& x) { use(x, load_lib(lib), n, i); }, [=](uint64_t i) { return strf("n=%d problem %d", n, (int)i); }});
      auto code = [](uint64_t i) -> long long { return i < 20001 ? (long long)i - 10000 : i == 20001 ? INT32_MIN : i == 20002 ? INT32_MAX : i == 20003 ? (long long)1 << 31 : (long long)1 << 33; };
      S.push_back({strf("messages_%s", lib), sizeof(OSQPInt) == 8 ? 20005ull : 20003ull, [=](uint64_t i, Ctx& x) { message(x, load_lib(lib), code(i)); }, [=](uint64_t i) { return strf("error code %lld", code(i)); }});
      S.push_back({strf("capabilities_%s", lib), 1, [=](uint64_t, Ctx& x) { capabilities(x, load_lib(lib)); }, [=](uint64_t) { return std::string("capabilities and version"); }});
      auto H = std::make_shared<std::vector<HProb>>(hist_problems());
      S.push_back({strf("dimensions_%s", lib), H->size() * 3, [=](uint64_t i, Ctx& x) { dims(x, load_lib(lib), (*H)[i / 3], (int)(i % 3)); }, [=](uint64_t i) { return (*H)[i / 3].name; }});
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
