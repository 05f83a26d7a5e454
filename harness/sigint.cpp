// C14: an interrupt at any point stops the solve cleanly.
// Instruction level: a solve is single-stepped; at every instruction a copy of the process receives SIGINT there, runs
// on to the end and is judged. Interception level: SIGINT (once or twice) at every allocation, release, clock reading,
// print and signal call of whole call histories, for every prior disposition, on every backend.
#include "common.h"
#include "hist.h"
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

static volatile sig_atomic_t g_hits;
static void user_handler(int) { g_hits = g_hits + 1; }
static void install(int disp) {   // 0 handler with flags and mask, 1 ignore, 2 default, 3 plain handler
  struct sigaction a;
  memset(&a, 0, sizeof a);
  sigemptyset(&a.sa_mask);
  if (disp == 0) { a.sa_handler = user_handler; a.sa_flags = SA_RESTART; sigaddset(&a.sa_mask, SIGUSR1); sigaddset(&a.sa_mask, SIGTERM); }
  else if (disp == 1) a.sa_handler = SIG_IGN;
  else if (disp == 2) a.sa_handler = SIG_DFL;
  else a.sa_handler = user_handler;
  sigaction(SIGINT, &a, nullptr);
}
static std::string disposition() {
  struct sigaction a;
  memset(&a, 0, sizeof a);
  sigaction(SIGINT, nullptr, &a);
  std::string s = a.sa_handler == user_handler ? "caller's handler" : a.sa_handler == SIG_IGN ? "ignore" : a.sa_handler == SIG_DFL ? "default" : "someone else's handler";
  s += strf(" flags %x mask", (unsigned)(a.sa_flags & ~0x04000000));
  for (int k = 1; k < 32; k++) if (sigismember(&a.sa_mask, k)) s += strf(" %d", k);
  sigset_t m;
  sigprocmask(SIG_BLOCK, nullptr, &m);
  s += sigismember(&m, SIGINT) ? " blocked" : "";
  return s;
}
struct Cfg { std::string name, lib; std::function<void(OSQPSettings&)> f; bool bitwise; };
static OSQPSettings settings(Lib* L, const Cfg& c) {
  OSQPSettings s = base_settings(L);
  s.max_iter = 6; s.adaptive_rho = 0; s.check_termination = 0;
  c.f(s);
  return s;
}
static Snap sol_snap(Mach& m, int what = SN_SOL | SN_INFO) { Snap s; snap_solver(s, m.s(), m.cur.n, m.cur.m, what); return s; }
// the iterate after k iterations, and what a further solve gives from there
struct Ref { std::vector<double> x, y; Snap resumed, restarted; };
struct Base { Snap full; int iter = 0, status = 0; std::vector<Ref> at; Snap restarted; };
static void after(Mach& m, const OSQPSettings& s, Snap& resumed, Snap& restarted) {
  m.settings([&](OSQPSettings& t) { t.max_iter = s.max_iter; t.check_termination = s.check_termination; t.polishing = s.polishing; t.verbose = 0; });
  m.L->osqp_solve(m.s());
  resumed = sol_snap(m);
  m.L->osqp_cold_start(m.s());
  m.L->osqp_solve(m.s());
  restarted = sol_snap(m);
}
static Base base_of(Lib* L, const HProb& hp, const OSQPSettings& s) {
  Base b;
  {
    Mach m(L, hp, s);
    L->osqp_solve(m.s());
    b.full = sol_snap(m);
    b.iter = (int)m.s()->info->iter; b.status = (int)m.s()->info->status_val;
    m.L->osqp_cold_start(m.s());
    m.settings([](OSQPSettings& t) { t.verbose = 0; });
    m.L->osqp_solve(m.s());
    b.restarted = sol_snap(m);
  }
  for (int k = 0; k <= b.iter; k++) {
    Ref r;
    if (k) {
      OSQPSettings t = s;
      t.max_iter = k; t.check_termination = 0; t.polishing = 0; t.verbose = 0; t.eps_abs = t.eps_rel = 0; t.eps_abs = 1e-300; t.eps_prim_inf = t.eps_dual_inf = 1e-300;
      Mach m(L, hp, t);
      L->osqp_solve(m.s());
      r.x = m.r.x(); r.y = m.r.y();
      m.settings([&](OSQPSettings& z) { z.eps_abs = s.eps_abs; z.eps_rel = s.eps_rel; z.eps_prim_inf = s.eps_prim_inf; z.eps_dual_inf = s.eps_dual_inf; });
      after(m, s, r.resumed, r.restarted);
    }
    b.at.push_back(r);
  }
  return b;
}
enum { R_BEFORE = 0 };   // ranks: 0 caller's handler before the solve; k interrupted in iteration k; late; after
struct Out { int rank; char key[40]; char msg[900]; };
static void fail(Out& o, const char* key, const std::string& msg) { if (o.key[0]) return; snprintf(o.key, sizeof o.key, "%s", key); snprintf(o.msg, sizeof o.msg, "%s", msg.c_str()); }
// judge the solve that just received n signals; h0: disposition text expected
static void judge(Out& o, Mach& m, const OSQPSettings& s, const Base& b, const std::string& want_disp, OSQPInt rc, int hits, int sent, bool follow, bool bitwise, bool ignored = false) {
  int st = (int)m.s()->info->status_val, it = (int)m.s()->info->iter;
  std::string d = disposition();
  if (d != want_disp) fail(o, "disposition_not_restored", "SIGINT disposition after the solve: " + d + ", before it: " + want_disp);
  if (st == OSQP_SIGINT) {
    o.rank = it;
    if (hits >= sent && !ignored) fail(o, "interrupted_without_signal", "status interrupted, but the signal went to the caller's handler");
    if (strcmp(m.s()->info->status, "interrupted")) fail(o, "status_string", strf("status string '%s'", m.s()->info->status));
    if (rc == 0) fail(o, "return_code", "an interrupted solve returned 0");
    if (it < 1 || it > b.iter) fail(o, "iteration", strf("interrupted at iteration %d of %d", it, b.iter));
    else if (bitwise && (!same_bits(m.r.x(), b.at[it].x) || !same_bits(m.r.y(), b.at[it].y)))
      fail(o, "not_the_current_iterate", strf("interrupted in iteration %d: returned x=%s y=%s, the iterate is x=%s y=%s", it, vecstr(m.r.x()).c_str(), vecstr(m.r.y()).c_str(), vecstr(b.at[it].x).c_str(), vecstr(b.at[it].y).c_str()));
    for (double t : m.r.pc()) if (t != OSQP_NAN) fail(o, "certificate", "an interrupted solve returned a certificate");
  } else {
    o.rank = hits ? -1 : b.iter + 1;
    Snap f = sol_snap(m);
    std::string df = snap_diff(f, b.full);
    if (!df.empty()) fail(o, "result_changed", "not interrupted, but the result differs from the undisturbed one: " + df);
    if (rc != 0) fail(o, "return_code", strf("not interrupted, but the solve returned %d", (int)rc));
  }
  if (!follow) return;
  g_hits = 0;
  Snap res, again;
  after(m, s, res, again);
  if (g_hits) fail(o, "later_signal", "the caller's handler ran during the next solve");
  if (bitwise) {
    if (st == OSQP_SIGINT && it >= 1 && it <= b.iter) {
      std::string df = snap_diff(res, b.at[it].resumed);
      if (!df.empty()) fail(o, "next_solve", strf("the solve after an interrupt in iteration %d differs from the continuation of that iterate: ", it) + df);
    }
    std::string df = snap_diff(again, b.restarted);
    if (!df.empty()) fail(o, "next_cold_solve", "a cold-started solve later differs: " + df);
  } else if (m.s()->info->status_val != b.status) fail(o, "next_solve", "a later solve ends " + status_name((int)m.s()->info->status_val));
  d = disposition();
  if (d != want_disp) fail(o, "disposition_not_restored", "SIGINT disposition after the next solve: " + d + ", before: " + want_disp);
}

// ---------------------------------------------------------------- instruction level
static volatile long t_step, t_lo, t_hi;
static volatile int t_stop;      // stepping ends
static volatile long t_block, t_blocks, t_me, t_count;
static volatile int t_child;
static Out* t_out;               // shared with the copies
static volatile bool t_copy_done;
// the handler may interrupt the allocator: it records into memory reserved beforehand
struct Bad { long p; Out o; };
static const long T_MAX = 1 << 20;
static int* t_rec; static long t_nrec; static Bad* t_bad; static int t_nbad;
static void on_trap(int, siginfo_t*, void* u) {
  ucontext_t* c = (ucontext_t*)u;
  if (t_child || t_stop) { c->uc_mcontext.gregs[REG_EFL] &= ~0x100L; return; }
  long p = t_step++;
  long b = p / t_block;
  if (b % t_blocks != t_me && !(p % t_block == 0 && p && (b - 1) % t_blocks == t_me)) return;
  memset(t_out, 0, sizeof *t_out);
  t_out->rank = -9;
  pid_t pid = fork();
  if (pid == 0) {
    t_child = 1;
    c->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
    alarm(10);
    raise(SIGINT);
    return;
  }
  int st = 0;
  waitpid(pid, &st, 0);
  t_count++;
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    if (!t_out->key[0]) { strcpy(t_out->key, "process_died"); strcpy(t_out->msg, WIFSIGNALED(st) ? "the process was killed by signal 00" : "the process exited"); 
      if (WIFSIGNALED(st)) { char* e = t_out->msg + strlen(t_out->msg); e[-2] = (char)('0' + WTERMSIG(st) / 10); e[-1] = (char)('0' + WTERMSIG(st) % 10); } }
  }
  if (t_out->key[0] && t_nbad < 64) { t_bad[t_nbad].p = p; t_bad[t_nbad++].o = *t_out; }
  if (t_nrec + 2 <= T_MAX) { t_rec[t_nrec++] = (int)p; t_rec[t_nrec++] = t_out->rank; }
}
static void step_case(Ctx& x, const Cfg& cf, const HProb& hp, int me, int blocks, long block) {
  if (!t_out) t_out = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Lib* L = load_lib(cf.lib);
  L->env->on_point = nullptr;
  L->env->clock_virtual = 1; L->env->now_ns = 1000000000LL; L->env->step_ns = 0;
  OSQPSettings s = settings(L, cf);
  install(0);
  Base b = base_of(L, hp, s);
  std::string disp = disposition(), who = strf("%s %s", cf.name.c_str(), hp.name.c_str());
  struct sigaction a;
  memset(&a, 0, sizeof a);
  a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO;
  sigaction(SIGTRAP, &a, nullptr);
  if (!t_rec) {
    t_rec = (int*)mmap(nullptr, T_MAX * sizeof(int), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    t_bad = (Bad*)mmap(nullptr, 64 * sizeof(Bad), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  }
  t_nrec = 0; t_nbad = 0;
  t_step = 0; t_block = block; t_blocks = blocks; t_me = me; t_stop = 0; t_child = 0; t_count = 0;
  long live = L->env->live, badf = L->env->bad_free;
  {
    Mach m(L, hp, s);
    g_hits = 0;
    auto solve = L->osqp_solve;
    OSQPSolver* sv = m.s();
    asm volatile("lea -256(%%rsp), %%rsp; pushfq; orq $0x100,(%%rsp); popfq; lea 256(%%rsp), %%rsp" ::: "memory", "cc");
    OSQPInt rc = solve(sv);
    asm volatile("lea -256(%%rsp), %%rsp; pushfq; andq $~0x100,(%%rsp); popfq; lea 256(%%rsp), %%rsp" ::: "memory", "cc");
    if (t_child) {
      Out o;
      memset(&o, 0, sizeof o);
      judge(o, m, s, b, disp, rc, g_hits, 1, true, true);
      L->osqp_cleanup(m.r.s); m.r.s = nullptr;
      if (L->env->bad_free != badf) fail(o, "bad_free", "invalid free after an interrupt");
      *t_out = o;
      _exit(0);
    }
    t_stop = 1;
    Snap f = sol_snap(m);
    std::string d = snap_diff(f, b.full);
    if (!d.empty()) x.viol("stepping_disturbs", "%s: %s", who.c_str(), d.c_str());
  }
  if (L->env->live > live) x.viol("leak", "%s: %ld blocks", who.c_str(), L->env->live - live);
  signal(SIGTRAP, SIG_DFL);
  std::vector<int> ranks(t_rec, t_rec + t_nrec);
  for (int k = 0; k < t_nbad; k++) x.viol(t_bad[k].o.key, "%s: signal at instruction %ld: %s", who.c_str(), t_bad[k].p, t_bad[k].o.msg);
  x.evals += t_count; x.transitions += t_step; x.states += ranks.size() / 2;
  // interrupts take effect in the iteration they arrive in: ranks never skip an iteration
  int lastp = -5, last = 0;
  for (size_t k = 0; k < ranks.size(); k += 2) {
    int p = ranks[k], r = ranks[k + 1];
    x.outcome(strf("%s rank %d", who.c_str(), r));
    if (r == -9) continue;
    if (p == lastp + 1) {
      // caller's handler (-1) before the solve or after it; r==last stays; next iteration; from the last iteration to 'late'
      bool ok = r == last || (last == -1 && (r == 1)) || (last >= 1 && r == last + 1) || (last >= b.iter && r == -1) || (last == b.iter - 1 && r == b.iter + 1);
      if (!ok) x.viol("not_at_the_end_of_the_current_iteration", "%s: a signal at instruction %d has effect in %s, one instruction later in %s (the undisturbed solve takes %d iterations)", who.c_str(), lastp,
                      last == -1 ? "the caller's handler" : last > b.iter ? "nothing" : strf("iteration %d", last).c_str(), r == -1 ? "the caller's handler" : r > b.iter ? "nothing (signal lost)" : strf("iteration %d", r).c_str(), b.iter);
    }
    if (p == 0 && r != -1 && r != 1) x.viol("not_at_the_end_of_the_current_iteration", "%s: a signal at the start of the solve has effect in %d", who.c_str(), r);
    lastp = p; last = r;
  }
  if (me == 0) x.sample(strf("%s: %ld instructions, %ld signals in this share", who.c_str(), (long)t_step, (long)t_count));
}

// ---------------------------------------------------------------- interception points of histories
static long e_at[2]; static int e_n; static long e_seen; static Lib* e_L; static int e_sent;
static void on_point(int, long) { e_seen++; for (int k = 0; k < e_n; k++) if (e_seen == e_at[k]) { e_sent++; raise(SIGINT); } }
static std::vector<Op> hops() {
  std::vector<Op> o = {op_solve(), op_q(true), op_mat(true, 3, false), op_b(true), op_rho(3.0), op_warm(3), op_set("alpha", [](OSQPSettings& s) { s.alpha = 1.1; })};
  return o;
}
// one history of two calls, with signals at given points of the second call (after the listed first one)
static void point_case(Ctx& x, const Cfg& cf, const HProb& hp, int first, int second, int disp, bool pairs) {
  Lib* L = load_lib(cf.lib);
  vf_env* e = L->env;
  e->on_point = nullptr;
  e->clock_virtual = 1; e->now_ns = 1000000000LL; e->step_ns = 0;
  OSQPSettings s = settings(L, cf);
  auto O = hops();
  std::string who0 = strf("%s %s [%s;%s] prior disposition %d", cf.name.c_str(), hp.name.c_str(), first < 0 ? "setup" : O[first].name.c_str(), second < 0 ? "cleanup" : O[second].name.c_str(), disp);
  // runs the history with signals at points a (and b) of the second call; returns the number of points
  auto go = [&](long a, long b, int dsp, Snap& obs, int& hits, int& status, int& iter, OSQPInt& rc, std::string& dtext) {
    install(dsp);
    e->now_ns = 1000000000LL;
    Mach m(L, hp, s);
    OSQPInt r1 = 0;
    if (first >= 0) r1 = O[first].f(m);
    (void)r1;
    g_hits = 0; e_seen = 0; e_sent = 0; e_at[0] = a; e_at[1] = b; e_n = 2;
    std::string d0 = disposition();
    e->on_point = on_point;
    if (second >= 0) rc = O[second].f(m); else { rc = L->osqp_cleanup(m.r.s); m.r.s = nullptr; }
    e->on_point = nullptr;
    hits = g_hits;
    status = m.r.s ? (int)m.s()->info->status_val : 0; iter = m.r.s ? (int)m.s()->info->iter : 0;
    std::string d1 = disposition();
    dtext = d0 == d1 ? "" : "before: " + d0 + ", after: " + d1;
    if (m.r.s) {
      if (m.solved_once) snap_solver(obs, m.s(), m.cur.n, m.cur.m, SN_SOL | SN_INFO);
      // and what the solver does later
      m.L->osqp_cold_start(m.s());
      m.L->osqp_solve(m.s());
      Snap t = sol_snap(m);
      for (size_t k = 0; k < t.v.size(); k++) obs.add(strf("later").empty() ? "" : t.nm[k], t.v[k]);
    }
    return e_seen;
  };
  long live = e->live, badf = e->bad_free;
  Snap ref;
  int hits, status, iter; OSQPInt rc0; std::string dt;
  long n = go(0, 0, disp == 2 ? 0 : disp, ref, hits, status, iter, rc0, dt);
  int biter = iter, bstatus = status;
  bool is_solve = second == 0;
  auto verdict = [&](long a, long b, const Snap& o, int sent) {
    std::string who = who0 + (b ? strf(" signals at points %ld and %ld", a, b) : strf(" signal at point %ld of %ld", a, n));
    if (!dt.empty()) x.viol("disposition_not_restored", "%s: SIGINT %s", who.c_str(), dt.c_str());
    bool handler = disp == 0 || disp == 3;
    int caught = handler ? hits : 0;
    x.states++;
    x.outcome(who0 + strf(" %d %d", status, caught));
    if (is_solve && status == OSQP_SIGINT && !(bstatus == OSQP_SIGINT)) {
      if (handler && caught == sent) x.viol("interrupted_without_signal", "%s: interrupted although the caller's handler got the signal", who.c_str());
      if (rc0 == rc0 && iter > biter) x.viol("iteration", "%s: interrupted at iteration %d, the undisturbed solve takes %d", who.c_str(), iter, biter);
      // the part observed after a cold start is not affected
      size_t half = o.v.size() / 2;
      Snap p, q;
      for (size_t k = half; k < o.v.size(); k++) { p.add(o.nm[k], o.v[k]); q.add(ref.nm[k], ref.v[k]); }
      std::string d = snap_diff(p, q);
      if (cf.bitwise && !d.empty()) x.viol("later_solve_affected", "%s: %s", who.c_str(), d.c_str());
      return iter;
    }
    std::string d = snap_diff(o, ref);
    if (!d.empty()) x.viol("result_changed", "%s: not interrupted but different: %s", who.c_str(), d.c_str());
    if (!is_solve && handler && caught != sent) x.viol("signal_lost", "%s: %d of %d signals outside a solve reached the caller's handler", who.c_str(), caught, sent);
    return caught == sent ? -1 : biter + 1;
  };
  if (disp == 2) {
    // default action: outside the solver's listening window the signal ends the process, as it would without the library
    for (long p = 1; p <= n; p++) {
      Snap o, o2; OSQPInt rc; int h2;
      go(p, 0, 0, o, hits, status, iter, rc, dt);
      h2 = hits;
      pid_t pid = fork();
      if (pid == 0) { alarm(20); int h, st, it; OSQPInt r; std::string t; go(p, 0, 2, o2, h, st, it, r, t); _exit(t.empty() ? 0 : 3); }
      int st = 0;
      waitpid(pid, &st, 0);
      x.evals += 2; x.states++;
      bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGINT;
      x.outcome(who0 + (killed ? " killed" : " survived"));
      if (killed != (h2 > 0)) x.viol("default_action", "%s signal at point %ld of %ld: process %s", who0.c_str(), p, n, killed ? "ended, although the solver was listening" : "not ended by SIGINT, although it is outside the listening window");
      else if (!killed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) x.viol("disposition_not_restored", "%s signal at point %ld of %ld: default disposition not restored", who0.c_str(), p, n);
    }
    return;
  }
  int last = -1;
  for (long p = 1; p <= n; p++) {
    Snap o; OSQPInt rc;
    go(p, 0, disp, o, hits, status, iter, rc, dt);
    x.evals++; x.transitions++;
    int r = verdict(p, 0, o, 1);
    if (disp == 1 && r == biter + 1 && (last == -1 || last == biter + 1)) r = -1;   // ignored: cannot be told from late
    if (is_solve && p > 1) {
      bool ok = r == last || (last == -1 && r >= 1 && r <= 2) || (last >= 1 && r == last + 1) || (last >= biter - 1 && (r == -1 || r == biter + 1));
      // points may be more than one iteration apart only if an iteration has no point; every iteration reads the clock
      if (!ok) x.viol("not_at_the_end_of_the_current_iteration", "%s: signal at point %ld has effect in %d, at the next point in %d (undisturbed: %d iterations)", who0.c_str(), p - 1, last, r, biter);
    }
    last = r;
    if (pairs) for (long q = p + 1; q <= n; q++) {
      Snap o2;
      go(p, q, disp, o2, hits, status, iter, rc, dt);
      x.evals++; x.transitions += 2;
      verdict(p, q, o2, e_sent);
    }
  }
  if (e->live > live) x.viol("leak", "%s: %ld blocks", who0.c_str(), e->live - live);
  if (e->bad_free != badf) x.viol("bad_free", "%s", who0.c_str());
}

int main(int argc, char** argv) {
  Check c;
  c.id = "C14";
  c.level = "fault_enumeration";
  c.case_timeout = 120;
  c.rule = "SIGINT at every instruction of osqp_solve (single-stepped, one process copy per instruction) and at every interception point of every call: the solve ends interrupted at the end of the iteration in which the signal arrives and returns that iterate, or the signal reaches the caller's own handler, or (after the verdict) the result is the undisturbed one; disposition restored exactly; later solves are what they would be without the signal";
  c.assumptions = {"instruction level: builtin backend (QDLDL stand-in); other backends at every interception point", "signals are delivered synchronously to the solving thread; the C library's own functions are interrupted too"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    static std::vector<Cfg> I, C;
    static std::vector<HProb> H;
    I = {{"bi:plain", "bi", [](OSQPSettings& s) { s.max_iter = 3; s.scaling = 0; }, true},
         {"bi:check,polish", "bi", [](OSQPSettings& s) { s.max_iter = 40; s.check_termination = 1; s.polishing = 1; s.eps_abs = s.eps_rel = 0.1; }, true}};
    if (th) { I.push_back({"bi:verbose", "bi", [](OSQPSettings& s) { s.max_iter = 3; s.verbose = 1; s.check_termination = 1; }, true});
              I.push_back({"bi:no warm start", "bi", [](OSQPSettings& s) { s.max_iter = 5; s.warm_starting = 0; s.rho_is_vec = 0; }, true}); }
    C = {{"bi:polish,verbose", "bi", [](OSQPSettings& s) { s.max_iter = 60; s.check_termination = 2; s.polishing = 1; s.verbose = 1; }, true},
         {"bi:adaptive", "bi", [](OSQPSettings& s) { s.max_iter = 12; s.check_termination = 3; s.adaptive_rho = 1; s.adaptive_rho_interval = 2; s.adaptive_rho_tolerance = 1.1; }, false},
         {"mkl:direct,polish", "mkl", [](OSQPSettings& s) { s.max_iter = 20; s.check_termination = 2; s.polishing = 1; }, true},
         {"mkl:indirect", "mkl", [](OSQPSettings& s) { s.max_iter = 8; s.linsys_solver = OSQP_INDIRECT_SOLVER; }, false}};
    H.clear();
    for (auto& h : hist_problems()) if (h.name == "qp" || h.name == "pinf" || h.name == "uncon" || h.name == "sparse") H.push_back(h);
    int blocks = 64;
    for (size_t k = 0; k < I.size(); k++) for (size_t h = 0; h < (th ? 2 : 1); h++)
      S.push_back({"instructions " + I[k].name + " " + H[h].name, (uint64_t)blocks, [=](uint64_t i, Ctx& x) { step_case(x, I[k], H[h], (int)i, blocks, 40); },
                   [=](uint64_t i) { return strf("share %d of %d of all instructions of a solve of %s", (int)i, blocks, H[h].name.c_str()); }});
    int K = (int)hops().size();
    for (size_t k = 0; k < C.size(); k++) {
      uint64_t cnt = H.size() * (K + 1) * (K + 1) * 4;
      auto go = [=](uint64_t i, Ctx* x) -> std::string {
        Dec d(i);
        int h = d.take(H.size()), f = (int)d.take(K + 1) - 1, s = (int)d.take(K + 1) - 1, disp = d.take(4);
        bool pairs = th || ((f <= 0) && (s == 0) && disp == 0 && h < 2);
        if (pairs && C[k].name == "bi:polish,verbose" && !th) pairs = false;
        if (x) { if (!th && disp >= 2 && f > 0) { x->count("skipped: disposition only after setup or a solve"); return ""; } point_case(*x, C[k], H[h], f, s, disp, pairs); }
        return strf("%s [%d;%d] disposition %d", H[h].name.c_str(), f, s, disp);
      };
      S.push_back({"points " + C[k].name, cnt, [=](uint64_t i, Ctx& x) { go(i, &x); }, [=](uint64_t i) { return go(i, nullptr); }});
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
