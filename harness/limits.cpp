// C13: iteration and time limits are honoured promptly and truthfully.
#include "hist.h"
#include "verdicts.h"
struct Cfg { std::string name, lib; std::function<void(OSQPSettings&)> f; };
static const long long T0 = 1000000000LL;
static Lib* clockL; static long jump_at; static long long jump_by;
static void clock_point(int kind, long) {
  if (kind == VF_PT_CLOCK && clockL->env->clock_count == jump_at) clockL->env->now_ns += jump_by;
}
// the clock jumps by `by` just before reading number `at` from now (1-based)
struct Jump {
  Jump(Lib* L, long at, long long by) { clockL = L; jump_at = L->env->clock_count + at; jump_by = by; L->env->on_point = clock_point; }
  ~Jump() { clockL->env->on_point = nullptr; }
  bool fired() const { return clockL->env->clock_count >= jump_at; }
};
static std::vector<Cfg> configs(bool th) {
  std::vector<Cfg> C;
  auto add = [&](const std::string& n, const std::string& lib, std::function<void(OSQPSettings&)> f) { C.push_back({lib + ":" + n, lib, f}); };
  add("default", "bi", [](OSQPSettings& s) { s.adaptive_rho_interval = 10; });
  add("check1_noscale", "bi", [](OSQPSettings& s) { s.check_termination = 1; s.scaling = 0; s.adaptive_rho_interval = 3; s.polishing = 1; });
  add("check0_inexact", "bi", [](OSQPSettings& s) { s.check_termination = 0; s.adaptive_rho = 0; s.eps_abs = s.eps_rel = 0.05; });
  add("check7_verbose", "bi", [](OSQPSettings& s) { s.check_termination = 7; s.verbose = 1; s.adaptive_rho_interval = 4; s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR; });
  add("default", "mkl", [](OSQPSettings& s) { s.adaptive_rho_interval = 10; });
  return C;
}
// the point after exactly k iterations, whatever the termination tests would say
static bool trajectory(Lib* L, const Prob& p, OSQPSettings s, int k, std::vector<double>& xs, std::vector<double>& ys) {
  s.max_iter = k; s.check_termination = 0; s.time_limit = 1e10; s.polishing = 0;
  s.eps_abs = 1e-300; s.eps_rel = 0; s.eps_prim_inf = s.eps_dual_inf = 1e-300;
  L->env->now_ns = T0; L->env->step_ns = 0;
  Run r(L, p, s);
  if (r.rc) return false;
  r.solve();
  if (!has_sol(r.status())) return false;
  xs = r.x(); ys = r.y();
  return true;
}
// the solve was ended by a limit at iteration `iter`: is everything it says true?
static void check_end(Ctx& x, Run& r, const OSQPSettings& s, const std::string& name, int limit_status) {
  int st = r.status(), it = (int)r.s->info->iter;
  const Prob& p = r.pr;
  x.outcome(name + status_name(st) + strf("%d", it));
  if (std::string(r.s->info->status) != expected_status_string(st)) x.viol("status_string", "%s: status string '%s' for %s", name.c_str(), r.s->info->status, status_name(st).c_str());
  switch (st) {
    case OSQP_SOLVED: case OSQP_SOLVED_INACCURATE: check_solved(x, name, r, s, p.str()); break;
    case OSQP_PRIMAL_INFEASIBLE: case OSQP_PRIMAL_INFEASIBLE_INACCURATE: case OSQP_DUAL_INFEASIBLE: case OSQP_DUAL_INFEASIBLE_INACCURATE: check_cert(x, name, r, s, p.str()); break;
    default:
      if (st != limit_status) { x.viol("status", "%s: ended by a limit at iteration %d with status %s, expected %s; %s", name.c_str(), it, status_name(st).c_str(), status_name(limit_status).c_str(), p.str().c_str()); return; }
  }
  if (has_sol(st) && r.s->info->status_polish != OSQP_POLISH_SUCCESS) {
    std::vector<double> xs, ys;
    if (trajectory(r.L, p, s, it, xs, ys)) {
      if (!same_bits(xs, r.x()) || !same_bits(ys, r.y()))
        x.viol("not_current_iterate", "%s: ended at iteration %d with x=%s y=%s, but iterate %d is x=%s y=%s; %s", name.c_str(), it, vecstr(r.x()).c_str(), vecstr(r.y()).c_str(), it, vecstr(xs).c_str(), vecstr(ys).c_str(), p.str().c_str());
    } else x.skipped++;
  }
}

int main(int argc, char** argv) {
  Check c;
  c.id = "C13"; c.level = "fault_enumeration";
  c.rule = "clock jumps past the limit at every single reading of a solve: the solve stops no later than the following iteration, every iteration can be the last one, status is the limit status or a verdict that a dense evaluation confirms, and the vectors are exactly that iterate; every iteration limit likewise; the time charged is setup (first solve) or the updates since the last solve, to the nanosecond, over all call histories";
  c.assumptions = {"clock owned by the explorer; jumps happen at clock readings"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    static std::vector<Cfg> C;
    C = configs(th);
    // (a) time limit expires at reading r
    auto add_time = [&](const std::string& fam, int K) {
      auto f = std::make_shared<Family>(family(fam));
      S.push_back({"expiry_" + fam, f->count(), [f, K](uint64_t i, Ctx& x) {
        Prob p = f->get(i);
        for (auto& cf : C) {
          Lib* L = load_lib(cf.lib);
          int prev = 0;
          for (int r0 = 2; r0 <= K; r0++) {
            OSQPSettings s = base_settings(L);
            cf.f(s);
            s.time_limit = 1.0; s.max_iter = 400;
            L->env->now_ns = T0; L->env->step_ns = 0;
            Run r(L, p, s);
            if (r.rc) { x.viol("setup", "setup failed"); return; }
            bool fired;
            { Jump j(L, r0, 2 * T0); r.solve(); fired = j.fired(); }
            x.evals++;
            int it = (int)r.s->info->iter, st = r.status();
            if (!fired) break;
            // the time limit stopped it, or it had already finished by itself
            if (st == OSQP_MAX_ITER_REACHED) { x.viol("time_ignored", "%s: time limit passed at reading %d but the solve ran to the iteration limit; %s", cf.name.c_str(), r0, p.str().c_str()); break; }
            // (a jump after the last iteration leaves the iteration count of the solve that finished by itself)
            if (it < prev || it > prev + 1) x.viol("not_prompt", "%s: time limit passed one reading later than in a run that stopped after %d iterations, but this one stopped after %d; %s", cf.name.c_str(), prev, it, p.str().c_str());
            prev = it;
            check_end(x, r, s, cf.name + strf(" clock passes the limit at reading %d", r0), OSQP_TIME_LIMIT_REACHED);
          }
          if (prev == 0) x.skipped++;
        }
      }, [f](uint64_t i) { return f->get(i).str(); }});
    };
    add_time("n1m1", th ? 70 : 25);
    add_time("n2m0", th ? 70 : 25);
    add_time("scaled_s", th ? 70 : 12);
    if (th) { add_time("n2m1", 30); add_time("n2m2s", 16); add_time("n1m2", 30); }
    // (b) iteration limit k
    auto add_iter = [&](const std::string& fam, std::vector<int> ks) {
      auto f = std::make_shared<Family>(family(fam));
      S.push_back({"maxiter_" + fam, f->count(), [f, ks](uint64_t i, Ctx& x) {
        Prob p = f->get(i);
        for (auto& cf : C) {
          Lib* L = load_lib(cf.lib);
          for (int k : ks) {
            OSQPSettings s = base_settings(L);
            cf.f(s);
            s.max_iter = k;
            L->env->now_ns = T0; L->env->step_ns = 0;
            Run r(L, p, s);
            if (r.rc) { x.viol("setup", "setup failed"); return; }
            r.solve();
            x.evals++;
            int it = (int)r.s->info->iter, st = r.status();
            if (it > k || it < 1) x.viol("too_many", "%s: %d iterations reported with max_iter=%d; %s", cf.name.c_str(), it, k, p.str().c_str());
            bool limit = st == OSQP_MAX_ITER_REACHED || st == OSQP_SOLVED_INACCURATE || st == OSQP_PRIMAL_INFEASIBLE_INACCURATE || st == OSQP_DUAL_INFEASIBLE_INACCURATE;
            if (limit && it != k) x.viol("early", "%s: gave up after %d of %d iterations; %s", cf.name.c_str(), it, k, p.str().c_str());
            check_end(x, r, s, cf.name + strf(" max_iter=%d", k), OSQP_MAX_ITER_REACHED);
            if (!limit && it < k) break;
          }
        }
      }, [f](uint64_t i) { return f->get(i).str(); }});
    };
    std::vector<int> ks;
    for (int k = 1; k <= (th ? 60 : 12); k++) ks.push_back(k);
    ks.push_back(25); ks.push_back(26); ks.push_back(50);
    add_iter("n1m1", ks); add_iter("n2m0", ks); add_iter("scaled_s", th ? ks : std::vector<int>{1, 2, 5, 26});
    add_iter("n2m1", th ? ks : std::vector<int>{1, 3, 8, 26});
    if (th) { add_iter("n1m2", ks); add_iter("n2m2s", {1, 2, 3, 7, 8, 25, 26, 50}); }
    // (c) what is charged against the limit, over all histories
    static std::vector<HProb> HP;
    HP.clear();
    for (auto& h : hist_problems()) if (h.name == "qp" || h.name == "eq" || h.name == "uncon") HP.push_back(h);
    struct HOp { Op op; long long cost; int kind; };  // kind 1: counted update, 2: solve, 0: not counted
    auto ops = std::make_shared<std::vector<HOp>>();
    ops->push_back({op_solve(), 100000000, 2});
    ops->push_back({op_q(true), 130000000, 1});
    ops->push_back({op_b(true), 70000000, 1});
    ops->push_back({op_mat(true, 3, false), 110000000, 1});
    ops->push_back({op_rho(3), 30000000, 1});
    ops->push_back({op_warm(3), 500000000, 0});
    ops->push_back({op_get(), 500000000, 0});
    ops->push_back({op_set("max_iter=300", [](OSQPSettings& s) { s.max_iter = 300; }), 500000000, 0});
    ops->push_back({{"rejected update", [](Mach& m) { std::vector<double> l(m.cur.m, 1), u(m.cur.m, 0); m.L->osqp_update_data_vec(m.s(), nullptr, l.data(), u.data()); return (OSQPInt)0; }}, 500000000, 3});
    std::vector<Cfg> C2 = {C[0], C[1], C[4]};
    for (int len = 0; len <= (th ? 4 : 3); len++) {
      uint64_t nh = upow(ops->size(), len);
      S.push_back({strf("charged_len%d", len), nh * HP.size() * C2.size(), [=](uint64_t i, Ctx& x) {
        Dec d(i);
        const HProb& hp = HP[d.take(HP.size())];
        const Cfg& cf = C2[d.take(C2.size())];
        auto h = decode_hist(d.r, (int)ops->size(), len);
        Lib* L = load_lib(cf.lib);
        for (int probe = 0; probe < 3; probe++) {  // at the limit / 1 us below / far above with zero charge
          OSQPSettings s = base_settings(L);
          cf.f(s);
          s.eps_abs = s.eps_rel = 1e-300; s.eps_prim_inf = s.eps_dual_inf = 1e-300;   // never finishes by itself
          s.max_iter = 40; s.time_limit = 100;
          L->env->now_ns = T0; L->env->step_ns = 0;
          const long long SETUP = 210000000;
          std::unique_ptr<Mach> mp;
          { Jump j(L, 2, SETUP); mp.reset(new Mach(L, hp, s)); }
          Mach& m = *mp;
          if (m.setup_rc) { x.viol("setup", "setup failed"); return; }
          long long charged = SETUP, base = 0;
          bool first = true;
          std::string hs;
          for (int o : h) {
            auto& H = (*ops)[o];
            hs += H.op.name + ";";
            if (H.kind == 3 && !hp.base.m) continue;
            long c0 = L->env->clock_count;
            { Jump j(L, 2, H.cost); H.op.f(m); }
            if (H.kind == 2) { first = false; base = 0; }
            if (H.kind == 1 && !first) base += (L->env->clock_count - c0 >= 2) ? H.cost : 0;
          }
          charged = first ? SETUP : base;
          double limit = 1.0;
          m.settings([&](OSQPSettings& t) { t.time_limit = limit; t.max_iter = 40; });
          long long need = T0 - charged;
          long long by = probe == 0 ? need + 1000 : probe == 1 ? need - 1000 : 3 * T0;
          { Jump j(L, 3, by); L->osqp_solve(m.s()); }
          x.evals++;
          int st = m.r.status(), it = (int)m.s()->info->iter;
          if (st != OSQP_TIME_LIMIT_REACHED && it < 40) { x.skipped++; continue; }   // residuals exactly zero: finished by itself
          bool stopped = it < 40;
          x.outcome(strf("%d %d %d", probe, it, st));
          if (stopped != (probe != 1))
            x.viol("charge", "%s %s: after [%s] %.6f s are charged against the limit of 1 s%s and the solve itself takes %.6f s, but it %s (status %s, %d iterations)", cf.name.c_str(), hp.name.c_str(), hs.c_str(), charged * 1e-9,
                   first ? " (setup)" : " (updates)", by * 1e-9, stopped ? "was stopped" : "was not stopped", status_name(st).c_str(), it);
        }
      }, [=](uint64_t i) { Dec d(i); auto& hp = HP[d.take(HP.size())]; auto& cf = C2[d.take(C2.size())]; std::string r = cf.name + " " + hp.name + " ["; for (int o : decode_hist(d.r, (int)ops->size(), len)) r += (*ops)[o].op.name + ";"; return r + "]"; }});
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
