// C12: solvers are independent of one another.
// calls:        every interleaving of short call sequences on two solvers, compared with each solver alone.
// schedules:    two threads under a controlled scheduler. Threads can only influence each other through the library's
//               writable data and the process-wide signal dispositions, so the scheduling points are exactly the accesses
//               to that data (its pages are protected; each access faults, is scheduled, and then single-stepped), the
//               signal calls and the yields; every schedule up to a preemption bound is executed. A SIGINT at every step.
// instructions: the second solver's whole call runs in another thread at every instruction of the first one's call.
#include "common.h"
#include "hist.h"
#include <atomic>
#include <condition_variable>
#include <csignal>
#include <dlfcn.h>
#include <link.h>
#include <mutex>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

static volatile sig_atomic_t g_hits;
static void user_handler(int) { g_hits = g_hits + 1; }
static void install() {
  struct sigaction a;
  memset(&a, 0, sizeof a);
  sigemptyset(&a.sa_mask);
  a.sa_handler = user_handler; a.sa_flags = SA_RESTART; sigaddset(&a.sa_mask, SIGUSR1);
  sigaction(SIGINT, &a, nullptr);
}
static bool restored() {
  struct sigaction a;
  memset(&a, 0, sizeof a);
  sigaction(SIGINT, nullptr, &a);
  return a.sa_handler == user_handler && (a.sa_flags & SA_RESTART) && sigismember(&a.sa_mask, SIGUSR1);
}

// ---------------------------------------------------------------- worlds: one solver and its script
struct Cfg { std::string name, lib; std::function<void(OSQPSettings&)> f; };
struct W {
  Lib* L; HProb hp; OSQPSettings s;
  std::unique_ptr<Mach> m;
  std::vector<Snap> obs;
  std::vector<int> status;     // of solves, 0 otherwise
  int cur = 0;
  W(Lib* l, const HProb& h, const OSQPSettings& t) : L(l), hp(h), s(t) {}
  void setup() { m.reset(new Mach(L, hp, s)); }
  void look(OSQPInt rc, bool solve) {
    Snap o;
    o.add("rc", (double)rc);
    if (m && m->r.s) snap_solver(o, m->s(), m->cur.n, m->cur.m, (m->solved_once ? SN_SOL | SN_INFO : 0) | SN_SETTINGS);
    obs.push_back(o);
    status.push_back(solve && m && m->r.s ? (int)m->s()->info->status_val : 0);
  }
};
struct Step { std::string name; std::function<void(W&)> f; };
static Step st_op(const Op& o) { return {o.name, [o](W& w) { OSQPInt rc = o.f(*w.m); w.look(rc, o.name == "solve"); }}; }
static Step st_new() { return {"cleanup;setup", [](W& w) { w.m.reset(); w.setup(); w.look(w.m->setup_rc, false); }}; }
static Step st_end() { return {"cleanup", [](W& w) { w.m.reset(); w.look(0, false); }}; }
typedef std::vector<Step> Script;
static std::string text(const Script& s) { std::string t; for (auto& k : s) t += (t.empty() ? "" : ";") + k.name; return "[" + t + "]"; }
static std::string obs_diff(const std::vector<Snap>& a, const std::vector<Snap>& b, const Script& s, double tol = 0) {
  if (a.size() != b.size()) return strf("%zu of %zu calls done", a.size(), b.size());
  for (size_t k = 0; k < a.size(); k++) { std::string d = snap_diff(a[k], b[k], tol); if (!d.empty()) return strf("call %zu (%s): ", k, k < s.size() ? s[k].name.c_str() : "setup") + d; }
  return "";
}
static OSQPSettings settings(Lib* L, const Cfg& c) {
  OSQPSettings s = base_settings(L);
  s.max_iter = 4; s.check_termination = 2; s.adaptive_rho = 0;
  c.f(s);
  return s;
}
static void clock_on(Lib* L) { L->env->on_point = nullptr; L->env->clock_virtual = 1; L->env->now_ns = 1000000000LL; L->env->step_ns = 0; }

// ---------------------------------------------------------------- call interleavings
static std::vector<Step> call_steps() {
  std::vector<Step> v = {st_op(op_solve()), st_op(op_q(true)), st_op(op_b(true)), st_op(op_mat(true, 3, false)), st_op(op_mat(true, 2, true)), st_op(op_rho(10)), st_op(op_warm(3)),
                         st_op(op_set("max_iter=2", [](OSQPSettings& s) { s.max_iter = 2; })), st_op(op_cold()), st_op(op_get()), st_op(op_deriv()), st_new()};
  return v;
}
static std::map<std::string, std::vector<Snap>> g_solo;
static const std::vector<Snap>& solo(Lib* L, const Cfg& c, const HProb& h, const std::vector<int>& seq, const Script& all) {
  std::string k = c.name + h.name;
  for (int i : seq) k += strf(",%d", i);
  auto it = g_solo.find(k);
  if (it != g_solo.end()) return it->second;
  W w(L, h, settings(L, c));
  w.setup(); w.look(w.m->setup_rc, false);
  for (int i : seq) all[i].f(w);
  return g_solo[k] = w.obs;
}
static void call_case(Ctx& x, const Cfg& ca, const Cfg& cb, const HProb& ha, const HProb& hb, const std::vector<int>& a, const std::vector<int>& b) {
  Lib *LA = load_lib(ca.lib), *LB = load_lib(cb.lib);
  clock_on(LA); clock_on(LB);
  install();
  Script all = call_steps();
  // every way of merging the two sequences; the setups come first, in either order, or B's late
  size_t n = a.size() + b.size() + 2;   // with the two setups
  std::vector<int> pa(1, -1), pb(1, -1);
  pa.insert(pa.end(), a.begin(), a.end()); pb.insert(pb.end(), b.begin(), b.end());
  for (unsigned mask = 0; mask < (1u << n); mask++) {
    if (__builtin_popcount(mask) != (int)pa.size()) continue;
    W A(LA, ha, settings(LA, ca)), B(LB, hb, settings(LB, cb));
    std::string order;
    size_t ia = 0, ib = 0;
    for (size_t k = 0; k < n; k++) {
      bool isA = mask >> k & 1;
      W& w = isA ? A : B;
      int o = isA ? pa[ia++] : pb[ib++];
      order += isA ? "A" : "B";
      if (o < 0) { w.setup(); w.look(w.m->setup_rc, false); } else all[o].f(w);
      x.transitions++;
    }
    x.evals++;
    std::string da = snap_diff(A.obs.back(), solo(LA, ca, ha, a, all).back()), db;
    Script sa, sb;
    sa.push_back({"setup", nullptr}); sb = sa;
    for (int o : a) sa.push_back(all[o]);
    for (int o : b) sb.push_back(all[o]);
    da = obs_diff(A.obs, solo(LA, ca, ha, a, all), sa); db = obs_diff(B.obs, solo(LB, cb, hb, b, all), sb);
    std::string who = strf("%s %s %s | %s %s %s in order %s", ca.name.c_str(), ha.name.c_str(), text(sa).c_str(), cb.name.c_str(), hb.name.c_str(), text(sb).c_str(), order.c_str());
    if (!da.empty()) x.viol("first_solver_affected", "%s: first solver, compared with alone: %s", who.c_str(), da.c_str());
    if (!db.empty()) x.viol("second_solver_affected", "%s: second solver, compared with alone: %s", who.c_str(), db.c_str());
    if (!restored()) { x.viol("disposition", "%s: SIGINT disposition changed", who.c_str()); install(); }
  }
  x.states++; x.traces++;
}

// ---------------------------------------------------------------- controlled scheduler
struct Range { uintptr_t a, b; };
static std::vector<Range> g_watch;      // writable data of the library, page-aligned, without the shim's
static std::vector<Range> g_text;
static Lib* g_hot_of;
static std::vector<char> g_hot;
static void find_ranges(Lib* L) {
  g_watch.clear(); g_text.clear();
  struct link_map* lm = nullptr;
  dlinfo(L->h, RTLD_DI_LINKMAP, &lm);
  struct Q { uintptr_t base; std::vector<Range>*w, *t; } q = {(uintptr_t)lm->l_addr, &g_watch, &g_text};
  dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void* p) {
    Q* q = (Q*)p;
    if (i->dlpi_addr != q->base) return 0;
    uintptr_t relro = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) relro = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz) & ~4095UL;
    for (int k = 0; k < i->dlpi_phnum; k++) {
      const ElfW(Phdr)& h = i->dlpi_phdr[k];
      if (h.p_type != PT_LOAD) continue;
      uintptr_t a = i->dlpi_addr + h.p_vaddr, b = a + h.p_memsz;
      if (h.p_flags & PF_X) q->t->push_back({a, b});
      if (h.p_flags & PF_W) { a &= ~4095UL; b = (b + 4095) & ~4095UL; if (relro > a && relro <= b) a = relro; q->w->push_back({a, b}); }
    }
    return 1;
  }, &q);
  void* sp; size_t sn;
  auto own = (void (*)(void**, size_t*))L->sym("vf_own_pages");
  own(&sp, &sn);
  std::vector<Range> r;
  for (auto w : g_watch) {
    uintptr_t s = (uintptr_t)sp, e = s + sn;
    if (s >= w.b || e <= w.a) { r.push_back(w); continue; }
    if (w.a < s) r.push_back({w.a, s});
    if (e < w.b) r.push_back({e, w.b});
  }
  g_watch = r;
  size_t k = 0;
  for (auto& w : g_watch) k += (w.b - w.a) / 4096;
  if (g_hot_of != L) { g_hot.assign(k, 0); g_hot_of = L; }
}
// a page nobody has ever written holds constants: reading it is not an interaction
static volatile bool g_newhot;
static void protect(bool on) {
  if (!on) { for (auto& w : g_watch) mprotect((void*)w.a, w.b - w.a, PROT_READ | PROT_WRITE); return; }
  size_t k = 0;
  for (auto& w : g_watch) for (uintptr_t p = w.a; p < w.b; p += 4096, k++) mprotect((void*)p, 4096, g_hot[k] ? PROT_NONE : PROT_READ);
}
static void mark_hot(uintptr_t a) {
  size_t k = 0;
  for (auto& w : g_watch) for (uintptr_t p = w.a; p < w.b; p += 4096, k++) if (a >= p && a < p + 4096 && !g_hot[k]) { g_hot[k] = 1; g_newhot = true; }
}
static bool watched(uintptr_t p) { for (auto& w : g_watch) if (p >= w.a && p < w.b) return true; return false; }

enum { K_DATA = 100 };
static struct Sched {
  std::mutex mu; std::condition_variable cv, cvm;
  int turn = 0, nthr = 0; bool done[2], started[2]; long progress = 0; pid_t tid[2];
  bool on = false, all_kinds = false;
  std::vector<long> pre;       // steps (1-based) before which the running thread is preempted
  long step = 0, sig_at = 0, yields = 0, late_handoffs = 0;
  int op[2], clk[2];           // position of each thread: call in progress, clock readings in it
  int sig_op[2], sig_clk[2]; bool sig_done; bool sig_started[2], sig_finished[2];
  std::vector<int> order;
  bool stuck = false;
} G;
static thread_local int t_id = -1;
static thread_local bool t_insig = false;
static void switch_from(int me) {
  std::unique_lock<std::mutex> lk(G.mu);
  G.turn = 1 - me; G.progress++;
  G.cv.notify_all();
  G.cv.wait(lk, [&] { return G.turn == me; });
}
static void sched_point(int kind) {
  if (!G.on || t_id < 0 || t_insig) return;
  int me = t_id;
  if (G.nthr > 1 && G.turn != me) { std::unique_lock<std::mutex> lk(G.mu); G.cv.wait(lk, [&] { return G.turn == me; }); }   // after a late handoff
  G.progress++;
  if (kind == VF_PT_CLOCK) { G.clk[me]++; }
  bool mine = kind == K_DATA || kind == VF_PT_SIGACTION || kind == VF_PT_YIELD || G.all_kinds;
  if (!mine) return;
  G.step++;
  if (G.order.size() < 4000) G.order.push_back(me);
  if (G.step == G.sig_at) {
    t_insig = true;
    for (int t = 0; t < 2; t++) { G.sig_op[t] = G.op[t]; G.sig_clk[t] = G.clk[t]; G.sig_started[t] = G.started[t]; G.sig_finished[t] = G.done[t]; }
    G.sig_done = true;
    raise(SIGINT);
    t_insig = false;
  }
  if (G.nthr < 2 || G.done[1 - me]) return;
  bool sw = false;
  for (long p : G.pre) if (p == G.step) sw = true;
  if (kind == VF_PT_YIELD) { G.yields++; sw = true; }
  if (sw) switch_from(me);
}
static uintptr_t g_open[8]; static int g_nopen;   // pages opened for the instruction being stepped
static void on_segv(int sig, siginfo_t* si, void* u) {
  uintptr_t ad = (uintptr_t)si->si_addr;
  if (!watched(ad)) { signal(sig, SIG_DFL); return; }
  int e = errno;
  ucontext_t* c = (ucontext_t*)u;
  if (c->uc_mcontext.gregs[REG_ERR] & 2) mark_hot(ad);
  if (!(c->uc_mcontext.gregs[REG_EFL] & 0x100) || !g_nopen) sched_point(K_DATA);   // otherwise the same instruction's next page
  errno = e;
  if (g_nopen < 8) g_open[g_nopen++] = ad & ~4095UL;
  mprotect((void*)(ad & ~4095UL), 4096, PROT_READ | PROT_WRITE);
  c->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void on_trap(int, siginfo_t*, void* u) {
  ((ucontext_t*)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
  // a page opened here has been read while closed or written: it is hot if written, or was already
  if (G.on) for (int k = 0; k < g_nopen; k++) mprotect((void*)g_open[k], 4096, PROT_NONE);
  g_nopen = 0;
}
static void shim_point(int kind, long) { sched_point(kind); }

struct Result { std::vector<Snap> obs[2]; std::vector<int> status[2]; int hits = 0; bool disp = true; long steps = 0; bool stuck = false; long yields = 0; };
struct Arg { int id; W* w; const Script* s; };
static void* thread_main(void* p) {
  Arg& a = *(Arg*)p;
  t_id = a.id;
  G.tid[a.id] = (pid_t)syscall(SYS_gettid);
  { std::unique_lock<std::mutex> lk(G.mu); G.cv.wait(lk, [&] { return G.turn == a.id; }); }
  G.started[a.id] = true;
  for (size_t k = 0; k < a.s->size(); k++) { G.op[a.id] = (int)k; G.clk[a.id] = 0; (*a.s)[k].f(*a.w); }
  std::unique_lock<std::mutex> lk(G.mu);
  G.done[a.id] = true; G.progress++;
  if (G.nthr > 1 && !G.done[1 - a.id]) G.turn = 1 - a.id;
  G.cv.notify_all(); G.cvm.notify_all();
  t_id = -1;
  return nullptr;
}
static char tstate(pid_t t);
static char tstate(pid_t t) {
  char b[256]; snprintf(b, sizeof b, "/proc/self/task/%d/stat", t);
  FILE* f = fopen(b, "r"); if (!f) return '?';
  size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0;
  char* c = strrchr(b, ')');
  return c && c[1] ? c[2] : '?';
}
// one execution under a schedule; the solvers exist already
static Result execute(Lib* L, W* w[2], const Script* s[2], int nthr, int first, const std::vector<long>& pre, long sig_at, bool all_kinds) {
  G.turn = first; G.nthr = nthr; G.done[0] = G.done[1] = G.started[0] = G.started[1] = false; G.progress = 0;
  G.all_kinds = all_kinds; G.pre = pre; G.step = 0; G.sig_at = sig_at; G.yields = 0; G.late_handoffs = 0; G.stuck = false; G.sig_done = false;
  for (int t = 0; t < 2; t++) { G.op[t] = 0; G.clk[t] = 0; }
  G.order.clear();
  install();
  g_hits = 0;
  L->env->on_point = shim_point;
  G.on = true;
  protect(true);
  pthread_t th[2]; Arg arg[2];
  for (int t = 0; t < nthr; t++) { arg[t] = {t, w[t], s[t]}; pthread_create(&th[t], nullptr, thread_main, &arg[t]); }
  {
    std::unique_lock<std::mutex> lk(G.mu);
    long last = -1; int idle = 0;
    while (!(G.done[0] && (nthr < 2 || G.done[1]))) {
      G.cvm.wait_for(lk, std::chrono::milliseconds(20));
      if (G.progress != last) { last = G.progress; idle = 0; continue; }
      idle++;
      int r = G.turn;
      // the running thread waits for something only the other one can give: let that one run
      bool blocked = nthr > 1 && !G.done[1 - r] && (tstate(G.tid[r]) == 'S' || idle > 150);
      if (blocked && idle >= 2) { G.turn = 1 - r; G.late_handoffs++; G.cv.notify_all(); }
      if (idle > 400 || G.late_handoffs > 100) { G.stuck = true; break; }
    }
  }
  Result R;
  if (G.stuck) { R.stuck = true; return R; }
  for (int t = 0; t < nthr; t++) pthread_join(th[t], nullptr);
  G.on = false;
  protect(false);
  L->env->on_point = nullptr;
  R.hits = g_hits; R.disp = restored(); R.steps = G.step; R.yields = G.yields + G.late_handoffs;
  for (int t = 0; t < nthr; t++) { R.obs[t] = w[t]->obs; R.status[t] = w[t]->status; }
  return R;
}
static std::vector<Script> scripts() {
  Step S = st_op(op_solve());
  Step pol = st_op(op_set("polishing", [](OSQPSettings& s) { s.polishing = 1; s.max_iter = 6; s.check_termination = 1; s.eps_abs = s.eps_rel = 0.5; }));
  Step adp = st_op(op_set("adaptive rho", [](OSQPSettings& s) { s.adaptive_rho = 1; s.adaptive_rho_interval = 2; s.adaptive_rho_tolerance = 1.1; s.max_iter = 6; }));
  return {{S}, {S, st_op(op_cold()), S}, {st_op(op_q(true)), st_op(op_b(true)), S}, {st_op(op_mat(true, 3, false)), st_op(op_rho(3)), S}, {st_new(), S, st_end()}, {pol, st_op(op_warm(3)), S}, {adp, S, st_op(op_get())}};
}
struct Pair { Cfg ca, cb; HProb ha, hb; };
static void pin() {   // one processor per process: only one thread runs at a time anyway
  static bool pinned = false;
  if (pinned) return;
  pinned = true;
  cpu_set_t all, one;
  if (sched_getaffinity(0, sizeof all, &all)) return;
  int n = CPU_COUNT(&all), k = (int)(getpid() % n);
  for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all) && k-- == 0) { CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); return; }
}
static void sched_case(Ctx& x, const Pair& P, const Script& sa, const Script& sb, int first, int bound, bool signals, int shard, int shards) {
  Lib* L = load_lib(P.ca.lib);
  pin();
  clock_on(L);
  find_ranges(L);
  struct sigaction a;
  memset(&a, 0, sizeof a);
  a.sa_flags = SA_SIGINFO | SA_NODEFER;
  a.sa_sigaction = on_segv; sigaction(SIGSEGV, &a, nullptr);
  a.sa_sigaction = on_trap; sigaction(SIGTRAP, &a, nullptr);
  const Script* s[2] = {&sa, &sb};
  OSQPSettings st[2] = {settings(L, P.ca), settings(L, P.cb)};
  std::string who = strf("%s %s %s || %s %s %s", P.ca.name.c_str(), P.ha.name.c_str(), text(sa).c_str(), P.cb.name.c_str(), P.hb.name.c_str(), text(sb).c_str());
  auto run = [&](int nthr, int only, int fst, const std::vector<long>& pre, long sig, bool all) {
    L->env->now_ns = 1000000000LL;
    W A(L, P.ha, st[0]), B(L, P.hb, st[1]);
    A.setup(); B.setup();
    W* w[2] = {&A, &B};
    const Script* q[2] = {s[0], s[1]};
    if (nthr == 1 && only == 1) { w[0] = &B; q[0] = s[1]; }
    return execute(L, w, q, nthr, fst, pre, sig, all);
  };
  auto stop = [&](const std::string& sch) { x.viol("deadlock", "%s: schedule %s: no progress", who.c_str(), sch.c_str()); protect(false); fflush(nullptr); };
  // a case normally takes seconds; if the library under test has made every memory access a scheduling point, part of the schedules must do
  auto clk = [] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; };
  const double t_end = clk() + (x.tier == "thorough" ? 300 : 60);
  bool cut = false;
  // each solver alone
  std::vector<Snap> ref[2];
  // alone with a signal: outcomes by position (call, clock readings in the call)
  typedef std::pair<int, int> Pos;
  std::map<Pos, std::vector<std::pair<std::vector<Snap>, bool>>> alone[2];
  for (int t = 0; t < 2; t++) {
    Result r = run(1, t, 0, {}, 0, false);
    if (g_newhot && !r.stuck) { g_newhot = false; r = run(1, t, 0, {}, 0, false); }
    if (r.stuck) { stop("alone"); return; }
    ref[t] = r.obs[0];
    // positions before the first point of a call and after its last one: neither reached by a point; the signal is the caller's there
    if (signals) for (long k = 1; k <= r.steps && clk() < t_end; k++) {
      Result q = run(1, t, 0, {}, k, false);
      if (q.stuck) { stop("alone"); return; }
      alone[t][{G.sig_op[0], G.sig_clk[0]}].push_back({q.obs[0], q.hits > 0});
    }
  }
  auto sname = [&](const std::vector<long>& pre, long sig) { std::string t = strf("starts with %s, preempted before step", first ? "B" : "A"); for (long p : pre) t += strf(" %ld", p); if (pre.empty()) t += " (never)"; if (sig) t += strf(", SIGINT at step %ld", sig); 
    t += " ["; for (size_t k = 0; k < G.order.size() && k < 120; k++) t += G.order[k] ? 'B' : 'A'; return t + "]"; };
  auto judge = [&](const Result& r, const std::vector<long>& pre, long sig) {
    x.evals++; x.traces++; x.transitions += r.steps;
    for (int t = 0; t < 2; t++) {
      if (!sig || !G.sig_done) {
        std::string d = obs_diff(r.obs[t], ref[t], *s[t]);
        if (!d.empty()) x.viol("solver_affected", "%s: schedule %s: %s solver differs from alone: %s", who.c_str(), sname(pre, sig).c_str(), t ? "second" : "first", d.c_str());
      }
    }
    if (!r.disp) x.viol("disposition", "%s: schedule %s: afterwards the caller's SIGINT handler is not the one it installed", who.c_str(), sname(pre, sig).c_str());
    if (!sig && r.hits) x.viol("phantom_signal", "%s: schedule %s", who.c_str(), sname(pre, sig).c_str());
    if (r.yields) x.count("schedules in which a thread waited");
    if (sig && G.sig_done) {
      bool all_caller = true, any_caller = true;
      for (int t = 0; t < 2; t++) {
        bool match = false, c_may = true, c_must = true;
        if (!G.sig_started[t] || G.sig_finished[t]) match = obs_diff(r.obs[t], ref[t], *s[t]).empty();
        else {
          auto it = alone[t].find({G.sig_op[t], G.sig_clk[t]});
          if (obs_diff(r.obs[t], ref[t], *s[t]).empty() && (it == alone[t].end() || r.hits)) match = true;
          if (it != alone[t].end()) {
            c_may = false;
            for (auto& o : it->second) { if (o.second) c_may = true; else c_must = false; if (obs_diff(r.obs[t], o.first, *s[t]).empty()) match = true; }
          }
        }
        if (!c_may) all_caller = false;
        if (!c_must) any_caller = false;
        if (!match) {
          std::string d = obs_diff(r.obs[t], ref[t], *s[t]);
          x.viol("signal_outcome", "%s: schedule %s (the %s solver was in call %d, clock reading %d%s): its results are none of those it gives alone when interrupted there; compared with undisturbed: %s", who.c_str(), sname(pre, sig).c_str(), t ? "second" : "first", G.sig_op[t], G.sig_clk[t],
                 G.sig_finished[t] ? ", finished" : G.sig_started[t] ? "" : ", not started", d.c_str());
        }
      }
      if (r.hits && !all_caller) x.viol("signal_taken_by_caller", "%s: schedule %s: the caller's handler got the SIGINT although a solve was listening", who.c_str(), sname(pre, sig).c_str());
      if (!r.hits && any_caller) x.viol("signal_lost", "%s: schedule %s: no solve was listening but the caller's handler did not get the SIGINT", who.c_str(), sname(pre, sig).c_str());
    }
    x.outcome(who + strf("%d%zu %ld", first, pre.size(), sig ? (long)(r.hits * 10 + (r.obs[0].empty() ? 0 : 1)) : 0));
  };
  std::function<bool(std::vector<long>, int, bool)> dfs = [&](std::vector<long> pre, int depth, bool all) {
    Result r = run(2, 0, first, pre, 0, all);
    if (g_newhot && !r.stuck) { g_newhot = false; judge(r, pre, 0); r = run(2, 0, first, pre, 0, all); }
    if (r.stuck) { stop(sname(pre, 0)); return false; }
    if (depth || shard == 0) { judge(r, pre, 0); x.states++; }
    long from = pre.empty() ? 1 : pre.back() + 1, n = r.steps;
    if (signals && !all && depth <= 1 && (depth || shard == 0)) for (long k = 1; k <= n && !cut; k++) {
      if (clk() > t_end) { cut = true; x.count("cases cut short by the time limit"); break; }
      Result q = run(2, 0, first, pre, k, false);
      if (q.stuck) { stop(sname(pre, k)); return false; }
      judge(q, pre, k);
    }
    if (depth < bound) for (long p = from; p <= n; p++) {
      if (depth == 0 && p % shards != shard) continue;
      if (!cut && clk() > t_end) { cut = true; x.count("cases cut short by the time limit"); }
      if (cut) return true;
      if (x.viols.size() > 3) return true;
      auto q = pre; q.push_back(p);
      if (!dfs(q, depth + 1, all)) return false;
    }
    return true;
  };
  if (!dfs({}, 0, false)) return;
  // one preemption at any intercepted call of any kind
  int keep = bound; bound = 1;
  bool sg = signals; signals = false;
  dfs({}, 0, true);
  bound = keep; signals = sg;
  signal(SIGSEGV, SIG_DFL); signal(SIGTRAP, SIG_DFL);
}

// ---------------------------------------------------------------- one preemption at every instruction
struct Shared { char key[40]; char msg[1200]; };
static Shared* i_out;
static volatile long i_step, i_block, i_blocks, i_me, i_count, i_lib;
static volatile int i_stop, i_child;
static int (*i_locked)();
static W* i_wb; static const Step* i_sb;
static long i_nbad; static struct { long p; Shared o; }* i_bad;
static std::atomic<int> i_bstate;      // 0 running, 1 waiting for the first thread, 2 done
static std::atomic<int> i_adone;
static pthread_t i_bthread; static volatile pid_t i_btid;
static thread_local bool t_other;
static void* other_thread(void*) { t_other = true; i_btid = (pid_t)syscall(SYS_gettid); i_sb->f(*i_wb); i_bstate = 2; return nullptr; }
static void i_point(int kind, long) {
  if (!t_other || kind != VF_PT_YIELD || i_adone) return;
  i_bstate = 1;
  while (!i_adone) usleep(50);
}
static bool in_text(uintptr_t p) { for (auto& t : g_text) if (p >= t.a && p < t.b) return true; return false; }
static void on_itrap(int, siginfo_t*, void* u) {
  ucontext_t* c = (ucontext_t*)u;
  if (i_child || i_stop) { c->uc_mcontext.gregs[REG_EFL] &= ~0x100L; return; }
  long p = i_step++;
  if (!in_text((uintptr_t)c->uc_mcontext.gregs[REG_RIP])) return;
  if (i_locked()) return;        // inside the stand-in allocator
  long k = i_lib++;
  if (k / i_block % i_blocks != i_me) return;
  memset(i_out, 0, sizeof *i_out);
  pid_t pid = fork();
  if (pid == 0) {
    i_child = 1;
    c->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
    alarm(10);
    i_bstate = 0; i_adone = 0;
    if (pthread_create(&i_bthread, nullptr, other_thread, nullptr)) _exit(9);
    // the second call runs to its end, or until it waits for something the first thread holds
    for (int spins = 0, asleep = 0; !i_bstate; spins++) {
      if (spins < 2000) { sched_yield(); continue; }
      usleep(200);
      if (i_btid && tstate(i_btid) == 'S') asleep++; else asleep = 0;
      if (asleep > 20 || spins > 2000 + 2500) break;
    }
    return;
  }
  int st = 0;
  waitpid(pid, &st, 0);
  i_count++;
  if ((!WIFEXITED(st) || WEXITSTATUS(st)) && !i_out->key[0]) { strcpy(i_out->key, "crash"); snprintf(i_out->msg, 100, "the process died (wait status %x)", st); }
  if (i_out->key[0] && i_nbad < 16) { i_bad[i_nbad].p = p; i_bad[i_nbad++].o = *i_out; }
}
static void instr_case(Ctx& x, const Pair& P, const Step& sa, const Step& sb, int me, int blocks) {
  if (!i_out) {
    i_out = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    i_bad = (decltype(i_bad))mmap(nullptr, 16 * sizeof *i_bad, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  }
  Lib* L = load_lib(P.ca.lib);
  clock_on(L);
  find_ranges(L);
  install();
  OSQPSettings ta = settings(L, P.ca), tb = settings(L, P.cb);
  std::string who = strf("%s %s %s || %s %s %s", P.ca.name.c_str(), P.ha.name.c_str(), sa.name.c_str(), P.cb.name.c_str(), P.hb.name.c_str(), sb.name.c_str());
  std::vector<Snap> ra, rb;
  Step S = st_op(op_solve());
  { W A(L, P.ha, ta); A.setup(); sa.f(A); if (A.m->r.s) S.f(A); ra = A.obs; }
  { W B(L, P.hb, tb); B.setup(); sb.f(B); if (B.m->r.s) S.f(B); rb = B.obs; }
  struct sigaction a;
  memset(&a, 0, sizeof a);
  a.sa_sigaction = on_itrap; a.sa_flags = SA_SIGINFO;
  sigaction(SIGTRAP, &a, nullptr);
  i_step = i_count = i_lib = 0; i_block = 50; i_blocks = blocks; i_me = me; i_stop = i_child = 0; i_nbad = 0;
  W A(L, P.ha, ta), B(L, P.hb, tb);
  A.setup(); B.setup();
  i_wb = &B; i_sb = &sb;
  i_locked = (int (*)())L->sym("vf_locked");
  L->env->on_point = i_point;
  auto f = sa.f;
  asm volatile("lea -256(%%rsp), %%rsp; pushfq; orq $0x100,(%%rsp); popfq; lea 256(%%rsp), %%rsp" ::: "memory", "cc");
  f(A);
  asm volatile("lea -256(%%rsp), %%rsp; pushfq; andq $~0x100,(%%rsp); popfq; lea 256(%%rsp), %%rsp" ::: "memory", "cc");
  if (i_child) {
    i_adone = 1;
    pthread_join(i_bthread, nullptr);
    L->env->on_point = nullptr;
    if (A.m->r.s) S.f(A);
    if (B.m->r.s) S.f(B);
    std::string da = obs_diff(A.obs, ra, {sa, S}), db = obs_diff(B.obs, rb, {sb, S});
    Shared o;
    memset(&o, 0, sizeof o);
    if (!da.empty()) { strcpy(o.key, "first_solver_affected"); snprintf(o.msg, sizeof o.msg, "the interrupted call's solver differs from alone: %s", da.c_str()); }
    else if (!db.empty()) { strcpy(o.key, "second_solver_affected"); snprintf(o.msg, sizeof o.msg, "the intervening call's solver differs from alone: %s", db.c_str()); }
    else if (!restored()) { strcpy(o.key, "disposition"); strcpy(o.msg, "SIGINT disposition not restored"); }
    *i_out = o;
    _exit(0);
  }
  i_stop = 1;
  L->env->on_point = nullptr;
  signal(SIGTRAP, SIG_DFL);
  for (long k = 0; k < i_nbad; k++) x.viol(i_bad[k].o.key, "%s: second call at instruction %ld of the first: %s", who.c_str(), i_bad[k].p, i_bad[k].o.msg);
  x.evals += i_count; x.traces += i_count; x.states += i_count; x.transitions += i_step;
  x.outcome(who);
  if (me == 0) x.sample(strf("%s: %ld instructions, %ld in the library", who.c_str(), (long)i_step, (long)i_lib));
}

int main(int argc, char** argv) {
  Check c;
  c.id = "C12";
  c.level = "model_checking";
  c.case_timeout = 120;
  c.rule = "two solvers: under every interleaving of their calls, every thread schedule up to the preemption bound, and with the second solver's call placed at every instruction of the first one's, each solver gives bit for bit what it gives alone; the SIGINT disposition is afterwards the caller's; a SIGINT at any step of a schedule has, for each solver, the effect it has at that position alone";
  c.assumptions = {"sequentially consistent memory: one thread runs at a time", "shared state is the library's writable data, reached by every access to its pages, and process-wide signal dispositions; state shared through heap blocks is only preempted at intercepted calls and, with one preemption, at every instruction"};
  c.spaces = [](const std::string& tier) {
    bool th = tier == "thorough";
    std::vector<Space> S;
    static std::vector<HProb> H;
    H = hist_problems();
    auto hp = [](const char* n) { for (auto& h : H) if (h.name == n) return h; return H[0]; };
    static std::vector<Cfg> C;
    C = {{"bi", "bi", [](OSQPSettings&) {}}, {"bi:noscale", "bi", [](OSQPSettings& s) { s.scaling = 0; s.rho_is_vec = 0; s.polishing = 1; s.max_iter = 5; s.check_termination = 1; s.eps_abs = s.eps_rel = 0.3; }},
         {"mkl", "mkl", [](OSQPSettings&) {}}, {"mkl:indirect", "mkl", [](OSQPSettings& s) { s.linsys_solver = OSQP_INDIRECT_SOLVER; }}};
    static std::vector<Pair> PS;
    PS = {{C[0], C[0], hp("qp"), hp("pinf")}, {C[0], C[1], hp("sparse"), hp("qp")}, {C[1], C[0], hp("qp"), hp("uncon")}, {C[2], C[2], hp("qp"), hp("pinf")}, {C[2], C[3], hp("qp"), hp("sparse")}};
    for (size_t k = 0; k < PS.size(); k++) {
      int K = (int)call_steps().size();
      bool mk = PS[k].ca.lib == "mkl";
      int la = mk && !th ? 1 : 2, lb = mk && !th ? 2 : 2;
      if (!th && k == 2) continue;
      if (th && !mk) { la = 3; }
      uint64_t n = upow(K, la + lb);
      auto dec = [=](uint64_t i) { return std::make_pair(decode_hist(i / upow(K, lb), K, la), decode_hist(i % upow(K, lb), K, lb)); };
      S.push_back({"calls " + PS[k].ca.name + " " + PS[k].cb.name, n, [=](uint64_t i, Ctx& x) { auto d = dec(i); call_case(x, PS[k].ca, PS[k].cb, PS[k].ha, PS[k].hb, d.first, d.second); },
                   [=](uint64_t i) { auto d = dec(i); std::string t; auto all = call_steps(); for (int o : d.first) t += all[o].name + ";"; t += " | "; for (int o : d.second) t += all[o].name + ";"; return t; }});
    }
    int blocks = 64;
    static std::vector<Step> I, J;
    I = {st_op(op_solve()), st_op(op_mat(true, 3, false)), st_new()};
    J = {st_op(op_solve()), st_new()};
    for (size_t a = 0; a < I.size(); a++) for (size_t b = 0; b < J.size(); b++) {
      if (!th && (a || b) && !(a == 2 && b == 1)) continue;
      S.push_back({"instructions " + I[a].name + " || " + J[b].name, (uint64_t)blocks, [=](uint64_t i, Ctx& x) { Pair P = {C[0], C[0], hist_problems()[0], hist_problems()[2]}; P.ca.f = [](OSQPSettings& s) { s.max_iter = 2; }; P.cb.f = P.ca.f; instr_case(x, P, I[a], J[b], (int)i, blocks); },
                   [=](uint64_t i) { return strf("share %d of %d", (int)i, blocks); }});
    }
    // one solve against another over many pairs of problems of different kinds and magnitudes: a value of one solver that
    // the other one uses by mistake has to be able to change what the other one does
    static std::vector<HProb> HM;
    HM = H;
    { HProb b = hp("dinf"); b.name = "dinf_big"; for (auto& v : b.base.q) v *= 1e6; HM.push_back(b);
      b = hp("qp"); b.name = "qp_flat"; for (auto& v : b.base.P) v *= 1e-2; for (auto& v : b.base.q) v *= 0.1; for (auto& v : b.base.l) v = -10; for (auto& v : b.base.u) v = 10; HM.push_back(b);
      b = hp("pinf"); b.name = "pinf_big"; for (auto& v : b.base.l) if (v > -INF) v *= 1e5; for (auto& v : b.base.u) if (v < INF) v *= 1e5; HM.push_back(b); }
    static std::vector<Cfg> CM;
    CM = {{"bi:unscaled", "bi", [](OSQPSettings& s) { s.scaling = 0; s.check_termination = 1; s.max_iter = 5; }},
          {"bi:scaled,polish", "bi", [](OSQPSettings& s) { s.check_termination = 1; s.max_iter = 5; s.eps_abs = s.eps_rel = 0.3; s.polishing = 1; }},
          {"bi:adaptive", "bi", [](OSQPSettings& s) { s.scaling = 0; s.rho_is_vec = 0; s.adaptive_rho = 1; s.adaptive_rho_interval = 2; s.adaptive_rho_tolerance = 1.1; s.max_iter = 5; s.check_termination = 3; }},
          {"mkl:unscaled", "mkl", [](OSQPSettings& s) { s.scaling = 0; s.check_termination = 1; s.max_iter = 3; }}};
    for (size_t k = 0; k < CM.size(); k++) {
      uint64_t K = HM.size();
      S.push_back({"pairs " + CM[k].name, K * K, [=](uint64_t i, Ctx& x) {
        Pair P = {CM[k], CM[k], HM[i / K], HM[i % K]};
        Script s = {st_op(op_solve())};
        if (k == 1) s.push_back(st_op(op_deriv()));
        sched_case(x, P, s, s, 0, th ? 2 : 1, false, 0, 1);
      }, [=](uint64_t i) { return HM[i / K].name + " || " + HM[i % K].name; }});
    }
    static std::vector<Script> SC;
    SC = scripts();
    for (size_t k = 0; k < PS.size(); k++) {
      if (!th && (k == 1 || k == 4)) continue;   // quick: three pairs of solvers
      int F = th ? 2 : 1;   // starting with B is starting with A and preempting it at once
      int NS = th ? 32 : 4;
      uint64_t n = SC.size() * SC.size() * F * NS;
      S.push_back({strf("schedules %s %s (%s,%s)", PS[k].ca.name.c_str(), PS[k].cb.name.c_str(), PS[k].ha.name.c_str(), PS[k].hb.name.c_str()), n, [=](uint64_t i, Ctx& x) {
        Dec d(i);
        int sh = d.take(NS), f = d.take(F), b = d.take(SC.size()), a = d.take(SC.size());
        bool small = a != 1 && b != 1 && a < 4 && b < 4;
        sched_case(x, PS[k], SC[a], SC[b], f, th && small ? 3 : 2, (a <= 2 && b <= 2) || th, sh, NS);
      }, [=](uint64_t i) { Dec d(i); int sh = d.take(NS), f = d.take(F), b = d.take(SC.size()), a = d.take(SC.size()); return text(SC[a]) + " || " + text(SC[b]) + (f ? " B first" : " A first") + strf(", first preemption %d mod %d", sh, NS); }});
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
