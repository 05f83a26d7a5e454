// C21: the caller's arrays are only read, only during the call, only where the sparse format says there are values.
// Every array passed in any call of a history lies against an inaccessible page, is read-only during the call and
// inaccessible after it; what is observed must equal, bit for bit, the same history on ordinary memory.
#include "common.h"
#include "hist.h"
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
#include <unistd.h>

// ---------------------------------------------------------------- guarded memory
static sigjmp_buf g_jmp;
static volatile sig_atomic_t g_armed;
static volatile uintptr_t g_addr;
static void on_segv(int sig, siginfo_t* si, void*) {
  if (!g_armed) { signal(sig, SIG_DFL); raise(sig); return; }
  g_armed = 0;
  g_addr = (uintptr_t)si->si_addr;
  siglongjmp(g_jmp, 1);
}
struct Region { char* base; size_t len; char* data; size_t size; std::string name; bool out; };
enum Place { ORDINARY, AT_END, AT_START };
struct Arena {
  Place pl;
  std::vector<Region> live;            // arrays of the current call
  std::vector<Region> dead;            // arrays of earlier calls: inaccessible
  std::vector<std::shared_ptr<std::vector<char>>> plain;
  explicit Arena(Place p) : pl(p) {}
  ~Arena() { for (auto& r : live) munmap(r.base, r.len); for (auto& r : dead) munmap(r.base, r.len); }
  void* put(const std::string& name, const void* src, size_t bytes, bool out = false) {
    if (pl == ORDINARY) {
      plain.push_back(std::make_shared<std::vector<char>>(bytes + 8));
      if (src) memcpy(plain.back()->data(), src, bytes);
      return plain.back()->data();
    }
    size_t pg = 4096, body = (bytes + pg - 1) / pg * pg;
    if (!body) body = pg;
    Region r;
    r.len = body + 2 * pg;
    r.base = (char*)mmap(nullptr, r.len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(r.base + pg, body, PROT_READ | PROT_WRITE);
    r.data = pl == AT_END ? r.base + pg + body - bytes : r.base + pg;
    r.size = bytes; r.name = name; r.out = out;
    if (src) memcpy(r.data, src, bytes); else memset(r.data, 0, bytes);
    live.push_back(r);
    return r.data;
  }
  void lock() { for (auto& r : live) if (!r.out) mprotect(r.base + 4096, r.len - 8192, PROT_READ); }
  void retire() { for (auto& r : live) { mprotect(r.base + 4096, r.len - 8192, PROT_NONE); dead.push_back(r); } live.clear(); }
  std::string where(uintptr_t a) const {
    for (auto* v : {&live, &dead}) for (auto& r : *v)
      if (a >= (uintptr_t)r.base && a < (uintptr_t)r.base + r.len)
        return strf("%s array '%s', offset %ld of %zu bytes", v == &live ? "the" : "an earlier call's", r.name.c_str(), (long)(a - (uintptr_t)r.data), r.size);
    return strf("address %p outside the caller's arrays", (void*)a);
  }
  double* vec(const char* nm, const std::vector<double>& v) { return (double*)put(nm, v.data(), v.size() * 8); }
  OSQPInt* idx(const char* nm, const std::vector<OSQPInt>& v) { return (OSQPInt*)put(nm, v.data(), v.size() * sizeof(OSQPInt)); }
};

struct World {      // one solver driven through one kind of memory
  Lib* L;
  Arena a;
  HProb hp;
  OSQPSettings st;
  OSQPSolver* s = nullptr;
  Csc P, A;         // patterns
  Snap snap;
  bool broken = false, solved = false;
  int spare;
  World(Lib* l, Place p, const HProb& h, const OSQPSettings& t, int sp) : L(l), a(p), hp(h), st(t), spare(sp) {
    csc_from(P, h.base.n, h.base.n, h.base.P, h.base.Pm, true);
    csc_from(A, h.base.m, h.base.n, h.base.A, h.base.Am, false);
  }
  ~World() { if (s && !broken) L->osqp_cleanup(s); }
  OSQPCscMatrix* csc(const char* nm, const Csc& c) {
    std::vector<double> xv = c.x;
    std::vector<OSQPInt> iv = c.i;
    // spare capacity behind the stored values, full of rubbish
    for (int k = 0; k < spare; k++) { xv.push_back(k & 1 ? NAN : 1e300); iv.push_back(k & 1 ? -7 : 1 << 20); }
    OSQPCscMatrix M;
    memset(&M, 0, sizeof M);
    M = c.M;
    M.nzmax = (OSQPInt)xv.size();
    M.x = a.vec((std::string(nm) + "->x").c_str(), xv);
    M.i = a.idx((std::string(nm) + "->i").c_str(), iv);
    M.p = a.idx((std::string(nm) + "->p").c_str(), c.p);
    return (OSQPCscMatrix*)a.put(nm, &M, sizeof M);
  }
  // run f with the arrays prepared so far read-only, then take them away
  bool call(Ctx& x, const std::string& who, const std::function<OSQPInt()>& f) {
    a.lock();
    OSQPInt rc = 0;
    if (a.pl == ORDINARY) rc = f();
    else if (sigsetjmp(g_jmp, 1) == 0) { g_armed = 1; rc = f(); g_armed = 0; }
    else {
      broken = true;
      x.viol("bad_access", "%s: the library accessed %s", who.c_str(), a.where(g_addr).c_str());
      return false;
    }
    snap.add("rc", (double)rc);
    return true;
  }
  void observe() {
    if (s) snap_solver(snap, s, hp.base.n, hp.base.m, (solved ? SN_SOL | SN_INFO : 0) | SN_SETTINGS);
  }
};
struct BOp { std::string name; std::function<bool(World&, Ctx&, const std::string&)> f; };

static bool do_setup(World& w, Ctx& x, const std::string& who) {
  const Prob& b = w.hp.base;
  OSQPCscMatrix* P = w.csc("P", w.P);
  OSQPCscMatrix* A = w.csc("A", w.A);
  double* q = w.a.vec("q", b.q);
  double* l = w.a.vec("l", b.l);
  double* u = w.a.vec("u", b.u);
  OSQPSettings* st = (OSQPSettings*)w.a.put("settings", &w.st, sizeof w.st);
  OSQPSolver** ps = &w.s;
  return w.call(x, who + " setup", [&] { return w.L->osqp_setup(ps, P, q, A, l, u, b.m, b.n, st); });
}
static std::vector<BOp> ops(Lib* L) {
  std::vector<BOp> o;
  o.push_back({"solve", [](World& w, Ctx& x, const std::string& who) { w.solved = true; return w.call(x, who, [&] { return w.L->osqp_solve(w.s); }); }});
  auto vecs = [&](const char* nm, int which, bool bad) {
    o.push_back({nm, [which, bad](World& w, Ctx& x, const std::string& who) {
      const Prob& p = w.hp.alt;
      auto l = p.l, u = p.u;
      if (bad) for (size_t i = 0; i < l.size(); i++) { l[i] = 3; u[i] = 2; }
      double *Q = which & 1 ? w.a.vec("q", p.q) : nullptr, *Lo = which & 2 ? w.a.vec("l", l) : nullptr, *U = which & 4 ? w.a.vec("u", u) : nullptr;
      return w.call(x, who, [&] { return w.L->osqp_update_data_vec(w.s, Q, Lo, U); });
    }});
  };
  vecs("q:=alt", 1, false); vecs("l,u:=alt", 6, false); vecs("q,l,u:=alt", 7, false); vecs("l,u:=contradictory", 6, true);
  auto mats = [&](const char* nm, int which, bool partial) {
    o.push_back({nm, [which, partial](World& w, Ctx& x, const std::string& who) {
      auto val = [&](const Csc& c, const std::vector<double>& d, int n) { std::vector<double> v; for (auto& e : c.pos) v.push_back(d[e.first * n + e.second]); return v; };
      auto pv = val(w.P, w.hp.alt.P, w.hp.alt.n), av = val(w.A, w.hp.alt.A, w.hp.alt.n);
      std::vector<OSQPInt> pi, ai;
      auto sub = [](std::vector<double>& v, std::vector<OSQPInt>& ix) {
        std::vector<double> t;
        if (!v.empty()) { ix.push_back((OSQPInt)v.size() - 1); t.push_back(v.back()); }
        if (v.size() > 1) { ix.push_back(0); t.push_back(v[0]); }
        v = t;
      };
      if (partial) { sub(pv, pi); sub(av, ai); }
      bool doP = (which & 1) && !pv.empty(), doA = (which & 2) && !av.empty();
      double *X = doP ? w.a.vec("Px_new", pv) : nullptr, *Y = doA ? w.a.vec("Ax_new", av) : nullptr;
      OSQPInt *I = doP && partial ? w.a.idx("Px_new_idx", pi) : nullptr, *J = doA && partial ? w.a.idx("Ax_new_idx", ai) : nullptr;
      return w.call(x, who, [&] { return w.L->osqp_update_data_mat(w.s, X, I, doP ? (OSQPInt)pv.size() : 0, Y, J, doA ? (OSQPInt)av.size() : 0); });
    }});
  };
  mats("P:=alt", 1, false); mats("A[last,first]:=alt", 2, true); mats("P,A:=alt", 3, false); mats("P,A[last,first]:=alt", 3, true);
  auto warm = [&](const char* nm, int which) {
    o.push_back({nm, [which](World& w, Ctx& x, const std::string& who) {
      std::vector<double> vx(w.hp.base.n, 0.5), vy(w.hp.base.m, -1);
      double *X = which & 1 ? w.a.vec("x", vx) : nullptr, *Y = which & 2 ? w.a.vec("y", vy) : nullptr;
      return w.call(x, who, [&] { return w.L->osqp_warm_start(w.s, X, Y); });
    }});
  };
  warm("warm_start(x,y)", 3); warm("warm_start(x)", 1); warm("warm_start(y)", 2);
  o.push_back({"update_settings", [](World& w, Ctx& x, const std::string& who) {
    OSQPSettings t = *w.s->settings;
    t.max_iter = 30; t.alpha = 1.2; t.polishing = !t.polishing;
    OSQPSettings* p = (OSQPSettings*)w.a.put("settings", &t, sizeof t);
    return w.call(x, who, [&] { return w.L->osqp_update_settings(w.s, p); });
  }});
  o.push_back({"update_rho", [](World& w, Ctx& x, const std::string& who) { return w.call(x, who, [&] { return w.L->osqp_update_rho(w.s, 5.0); }); }});
  o.push_back({"get_solution", [](World& w, Ctx& x, const std::string& who) {
    if (!w.solved) return true;
    int n = w.hp.base.n, m = w.hp.base.m;
    OSQPSolution so;
    so.x = (double*)w.a.put("solution->x", nullptr, n * 8, true); so.y = (double*)w.a.put("solution->y", nullptr, m * 8, true);
    so.prim_inf_cert = (double*)w.a.put("solution->prim_inf_cert", nullptr, m * 8, true); so.dual_inf_cert = (double*)w.a.put("solution->dual_inf_cert", nullptr, n * 8, true);
    OSQPSolution* ps = (OSQPSolution*)w.a.put("solution", &so, sizeof so);
    if (!w.call(x, who, [&] { return w.L->osqp_get_solution(w.s, ps); })) return false;
    for (int j = 0; j < n; j++) w.snap.add("got x", so.x[j]);
    for (int i = 0; i < m; i++) w.snap.add("got y", so.y[i]);
    return true;
  }});
  if (L->builtin()) o.push_back({"adjoint_derivative", [](World& w, Ctx& x, const std::string& who) {
    if (!w.solved || w.s->info->status_val != OSQP_SOLVED) return true;
    int n = w.hp.base.n, m = w.hp.base.m;
    double *dx = w.a.vec("dx", std::vector<double>(n, 1.0)), *dy = w.a.vec("dy", std::vector<double>(m, 0.5));
    bool ok = w.call(x, who + " compute", [&] { return w.L->osqp_adjoint_derivative_compute(w.s, dx, dy); });
    if (!ok) return false;
    if (w.snap.v.back() != 0) return true;
    w.a.retire();
    double *dq = (double*)w.a.put("dq", nullptr, n * 8, true), *dl = (double*)w.a.put("dl", nullptr, m * 8, true), *du = (double*)w.a.put("du", nullptr, m * 8, true);
    ok = w.call(x, who + " get_vec", [&] { return w.L->osqp_adjoint_derivative_get_vec(w.s, dq, dl, du); });
    if (!ok) return false;
    for (int j = 0; j < n; j++) w.snap.add("dq", dq[j]);
    for (int i = 0; i < m; i++) { w.snap.add("dl", dl[i]); w.snap.add("du", du[i]); }
    return true;
  }});
  return o;
}
struct Cfg { std::string name, lib; std::function<void(OSQPSettings&)> f; };
static std::vector<Cfg> cfgs() {
  std::vector<Cfg> C;
  for (const char* lib : {"bi", "mkl"}) {
    C.push_back({strf("%s:default", lib), lib, [](OSQPSettings& s) { s.max_iter = 60; s.check_termination = 5; }});
    C.push_back({strf("%s:polish,noscale,scalar rho", lib), lib, [](OSQPSettings& s) { s.max_iter = 60; s.scaling = 0; s.polishing = 1; s.rho_is_vec = 0; s.check_termination = 5; }});
  }
  C.push_back({"mkl:indirect", "mkl", [](OSQPSettings& s) { s.max_iter = 40; s.linsys_solver = OSQP_INDIRECT_SOLVER; s.check_termination = 5; }});
  return C;
}
static void run(World& w, Ctx& x, const std::vector<BOp>& O, const std::vector<int>& h, const std::string& who) {
  if (!do_setup(w, x, who)) return;
  w.a.retire();
  w.observe();
  if (!w.s || w.snap.v[0] != 0) { if (w.s) { w.L->osqp_cleanup(w.s); w.s = nullptr; } return; }
  for (int o : h) {
    x.transitions++;
    if (!O[o].f(w, x, who + " " + O[o].name)) return;
    w.a.retire();
    w.observe();
  }
  w.call(x, who + " cleanup", [&] { OSQPInt rc = w.L->osqp_cleanup(w.s); w.s = nullptr; return rc; });
}

int main(int argc, char** argv) {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr);
  sigaction(SIGBUS, &sa, nullptr);
  Check c;
  c.id = "C21";
  c.level = "exploration";
  c.rule = "in every history, every array given to the library is read-only during the call, unreachable after it and bounded by inaccessible pages on either side: no fault occurs, and the observations equal bit for bit those on ordinary memory; spare capacity filled with rubbish behind the stored values changes nothing";
  c.assumptions = {"histories up to the stated depth over the alphabet of calls that take caller arrays", "underruns by less than an array's distance to its page end are seen in the start-aligned placement, overruns in the end-aligned one"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    auto H = std::make_shared<std::vector<HProb>>(hist_problems());
    auto C = std::make_shared<std::vector<Cfg>>(cfgs());
    int maxlen = 3;
    for (size_t ci = 0; ci < C->size(); ci++) {
      Cfg cf = (*C)[ci];
      int K = (int)ops(load_lib(cf.lib)).size();
      for (int l = 0; l <= maxlen + (th && cf.name.find("default") != std::string::npos); l++) {
        uint64_t ns = upow(K, l);
        auto parts = [=](uint64_t i, int& h, std::vector<int>& seq, Place& pl, int& spare) {
          Dec d(i);
          h = d.take(H->size()); seq = decode_hist(d.take(ns), K, l);
          int v = d.take(3);
          pl = v == 1 ? AT_START : AT_END; spare = v == 2 ? 3 : 0;
        };
        S.push_back({strf("%s_len%d", cf.name.c_str(), l), ns * H->size() * 3,
          [=](uint64_t i, Ctx& x) {
            int h, spare; std::vector<int> seq; Place pl;
            parts(i, h, seq, pl, spare);
            Lib* L = load_lib(cf.lib);
            L->env->clock_virtual = 1; L->env->now_ns = 1000000000LL; L->env->step_ns = 0;
            auto O = ops(L);
            OSQPSettings s = base_settings(L);
            cf.f(s);
            const HProb& hp = (*H)[h];
            std::string who = cf.name + " " + hp.name + " [";
            for (int o : seq) who += O[o].name + ";";
            who += spare ? "] with spare capacity" : pl == AT_END ? "] arrays end at a guard page" : "] arrays start at a guard page";
            World a(L, ORDINARY, hp, s, 0), b(L, pl, hp, s, spare);
            run(a, x, O, seq, who);
            run(b, x, O, seq, who);
            x.evals++;
            x.outcome(cf.name + strf(" %zu %.6g", a.snap.v.size(), a.snap.v.empty() ? 0 : a.snap.v[a.snap.v.size() / 2]));
            if (b.broken) return;
            std::string d = snap_diff(b.snap, a.snap);
            if (!d.empty()) x.viol(spare ? "spare_capacity_matters" : "result_depends_on_callers_memory", "%s: %s; %s", who.c_str(), d.c_str(), hp.base.str().c_str());
          },
          [=](uint64_t i) {
            int h, spare; std::vector<int> seq; Place pl;
            parts(i, h, seq, pl, spare);
            std::string t = (*H)[h].name;
            auto O = ops(load_lib(cf.lib));
            for (int o : seq) t += " " + O[o].name + ";";
            return t + (spare ? " spare capacity" : pl == AT_END ? " guard behind" : " guard before");
          }});
      }
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
