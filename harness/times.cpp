// C26: reported times account for exactly the documented work.
#include "hist.h"
#include <csignal>
static const long long T0 = 1000000000LL;
struct Cfg { std::string name, lib; std::function<void(OSQPSettings&)> f; };
static Lib* clockL; static long jump_at, sig_at; static long long jump_by;
static void clock_point(int kind, long) {
  if (kind != VF_PT_CLOCK) return;
  if (clockL->env->clock_count == jump_at) clockL->env->now_ns += jump_by;
  if (sig_at && clockL->env->clock_count == sig_at) raise(SIGINT);
}
struct Jump {
  long c0;
  Jump(Lib* L, long at, long long by, long sig = 0) { clockL = L; c0 = L->env->clock_count; jump_at = c0 + at; jump_by = by; sig_at = sig ? c0 + sig : 0; L->env->on_point = clock_point; }
  ~Jump() { clockL->env->on_point = nullptr; sig_at = 0; }
  bool fired() const { return clockL->env->clock_count >= jump_at; }
  long readings() const { return clockL->env->clock_count - c0; }
};
enum { K_NONE, K_UPD, K_SOLVE, K_REJ };
struct HOp { Op op; int kind; long at, sig; };
// reference model of the accounting
struct Acct { double setup = 0, upd = 0; bool first = true, closed = false; };

int main(int argc, char** argv) {
  Check c;
  c.id = "C26"; c.level = "exploration";
  c.rule = "one jump of the virtual clock per call, at every reading of the last solve: setup/update/solve/polish time each equal the clock time spent in their phase, update time sums the updates since the last solve, run_time is setup (first solve) or update time plus solve plus polish time; after every call of every history, including time-limited and interrupted solves";
  c.assumptions = {"clock owned by the explorer; jumps happen at clock readings; counted updates are those of data and rho"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    static std::vector<Cfg> C;
    C.clear();
    signal(SIGINT, SIG_IGN);
    auto add = [&](const std::string& n, const std::string& lib, std::function<void(OSQPSettings&)> f) { C.push_back({lib + ":" + n, lib, f}); };
    add("default", "bi", [](OSQPSettings& s) { s.adaptive_rho_interval = 25; });
    add("polish_check1", "bi", [](OSQPSettings& s) { s.polishing = 1; s.check_termination = 1; s.adaptive_rho_interval = 2; s.adaptive_rho_tolerance = 1.01; });
    add("default", "mkl", [](OSQPSettings& s) { s.polishing = 1; s.adaptive_rho_interval = 5; s.adaptive_rho_tolerance = 1.01; });
    static std::vector<HProb> HP;
    HP.clear();
    for (auto& h : hist_problems()) if (h.name == "qp" || h.name == "pinf" || h.name == "uncon" || h.name == "loose") HP.push_back(h);
    auto ops = std::make_shared<std::vector<HOp>>();
    ops->push_back({op_solve(), K_SOLVE, 2, 0});
    ops->push_back({op_solve(), K_SOLVE, 4, 0});
    ops->push_back({op_solve(), K_SOLVE, -1, 0}); ops->back().op.name = "solve, time passing at every reading";
    ops->push_back({op_solve(), K_SOLVE, 3, 3}); ops->back().op.name = "solve interrupted";
    ops->push_back({op_q(true), K_UPD, 2, 0});
    ops->push_back({op_b(true), K_UPD, 2, 0});
    ops->push_back({op_b(false), K_UPD, 2, 0});
    ops->push_back({op_mat(true, 3, false), K_UPD, 2, 0});
    ops->push_back({op_rho(3), K_UPD, 2, 0});
    ops->push_back({op_warm(3), K_NONE, 1, 0});
    ops->push_back({op_cold(), K_NONE, 1, 0});
    ops->push_back({op_get(), K_NONE, 1, 0});
    ops->push_back({op_set("polishing=1-polishing", [](OSQPSettings& s) { s.polishing = 1 - s.polishing; }), K_NONE, 1, 0});
    ops->push_back({op_set("time_limit=1", [](OSQPSettings& s) { s.time_limit = 1; }), K_NONE, 1, 0});
    ops->push_back({{"update_rho(-1)", [](Mach& m) { m.L->osqp_update_rho(m.s(), -1); return (OSQPInt)0; }}, K_REJ, 1, 0});
    for (size_t ci = 0; ci < C.size(); ci++)
    for (int len = 0; len <= (th ? 4 : 3) - (ci == 2); len++) {
      uint64_t nh = upow(ops->size(), len);
      S.push_back({C[ci].name + strf("_len%d", len), nh * HP.size(), [=](uint64_t i, Ctx& x) {
        Dec d(i);
        const HProb& hp = HP[d.take(HP.size())];
        const Cfg& cf = C[ci];
        auto h = decode_hist(d.r, (int)ops->size(), len);
        Lib* L = load_lib(cf.lib);
        auto eq = [](double a, double b) { return std::fabs(a - b) <= 1e-9 + 1e-12 * std::fabs(b); };
        std::string hs;
        for (int o : h) hs += (*ops)[o].op.name + ";";
        long readings_plain = -1;   // readings in the last solve with polishing off
        auto play = [&](int polish_override, long at, bool& fired, long& readings) {
          OSQPSettings s = base_settings(L);
          cf.f(s);
          s.max_iter = 60;
          L->env->now_ns = T0; L->env->step_ns = 0;
          Acct a;
          std::unique_ptr<Mach> mp;
          { Jump j(L, 2, 2100000000LL); mp.reset(new Mach(L, hp, s)); }
          Mach& m = *mp;
          if (m.setup_rc) { x.viol("setup", "setup failed"); return; }
          a.setup = 2.1;
          auto bad = [&](const char* key, size_t k, const char* what, double got, double want) {
            x.viol(key, "%s %s: after call %zu of [%s]%s: %s is %.9g s, the clock says %.9g s", cf.name.c_str(), hp.name.c_str(), k + 1, hs.c_str(), k >= h.size() ? strf(" + solve with a jump at reading %ld", at).c_str() : "", what, got, want);
          };
          if (!eq(m.s()->info->setup_time, a.setup)) bad("setup_time", 0, "setup_time", m.s()->info->setup_time, a.setup);
          if (m.s()->info->update_time || m.s()->info->solve_time || m.s()->info->polish_time || m.s()->info->run_time) x.viol("fresh", "times of a fresh solver are not zero");
          double last_solve = 0, last_polish = 0, last_run = 0;
          bool judged = true;   // solve/polish split known
          for (size_t k = 0; k <= h.size(); k++) {
            bool fin = k == h.size();
            HOp H = fin ? HOp{op_solve(), K_SOLVE, at, 0} : (*ops)[h[k]];
            double cost = 0.125 * (k + 1) + 0.01;
            long long ns = (long long)(cost * 1e9 + 0.5);
            if (fin && polish_override >= 0) m.settings([&](OSQPSettings& t) { t.polishing = polish_override; });
            OSQPInt rc;
            bool fd;
            bool step = H.at < 0;
            long rd = 0;
            if (step) L->env->step_ns = 1000000;
            { Jump j(L, H.at, ns, H.sig); rc = H.op.f(m); fd = j.fired(); rd = j.readings(); if (fin) { fired = fd; readings = rd; } }
            L->env->step_ns = 0;
            const OSQPInfo& I = *m.s()->info;
            if (I.setup_time < 0 || I.update_time < 0 || I.solve_time < 0 || I.polish_time < 0 || I.run_time < 0) x.viol("negative", "negative time");
            if (!eq(I.setup_time, a.setup)) bad("setup_time_changed", k, "setup_time", I.setup_time, a.setup);
            if (H.kind == K_UPD) {
              if (a.closed) { a.upd = 0; a.closed = false; }
              a.upd += fd ? cost : 0;
              // (updates of empty vectors take no part)
              if (!eq(I.update_time, a.upd)) bad("update_time", k, "update_time", I.update_time, a.upd);
            }
            if (H.kind == K_SOLVE) {
              if (a.closed) a.upd = 0;
              double base = a.first ? a.setup : a.upd;
              double J = step ? 1e-3 * (rd - 1) : fd && H.at >= 2 ? cost : 0;
              bool pol = m.s()->settings->polishing && m.r.status() == OSQP_SOLVED;
              if (!eq(I.run_time, base + I.solve_time + I.polish_time)) bad("run_time", k, a.first ? "run_time (setup+solve+polish)" : "run_time (update+solve+polish)", I.run_time, base + I.solve_time + I.polish_time);
              if (!eq(I.update_time, a.upd)) bad("update_time_solve", k, "update_time", I.update_time, a.upd);
              if (!pol) {
                if (!eq(I.solve_time, J)) bad("solve_time", k, "solve_time", I.solve_time, J);
                if (I.polish_time != 0) bad("polish_time_stale", k, "polish_time", I.polish_time, 0);
              } else if (fin && readings_plain > 0) {
                bool in_solve = at >= 2 && at <= readings_plain;
                if (!eq(I.solve_time, in_solve ? J : 0)) bad("solve_time_p", k, "solve_time (polished)", I.solve_time, in_solve ? J : 0);
                if (at != readings_plain + 1) { double w = !in_solve ? J : 0; if (!eq(I.polish_time, w)) bad("polish_time", k, "polish_time", I.polish_time, w); }
                else if (I.polish_time != 0 && !eq(I.polish_time, J)) bad("polish_time", k, "polish_time", I.polish_time, J);
              } else if (step) {
                if (!(I.solve_time + I.polish_time >= J - 0.0025 && I.solve_time + I.polish_time <= J)) bad("solve_polish", k, "solve_time+polish_time", I.solve_time + I.polish_time, J);
              } else if (!eq(I.solve_time + I.polish_time, J) && I.solve_time + I.polish_time != 0) bad("solve_polish", k, "solve_time+polish_time", I.solve_time + I.polish_time, J);
              a.first = false; a.closed = true;
              last_solve = I.solve_time; last_polish = I.polish_time; last_run = I.run_time;
              x.outcome(strf("%s %d %d %.3f %.3f", H.op.name.c_str(), m.r.status(), (int)I.iter, I.solve_time, I.polish_time));
            }
            if (H.kind == K_NONE || H.kind == K_REJ) {
              if (!eq(I.run_time, last_run)) bad("run_time_later", k, "run_time", I.run_time, last_run);
              if (H.kind == K_NONE && !a.closed && !eq(I.update_time, a.upd)) bad("update_time_later", k, "update_time", I.update_time, a.upd);
            }
          }
          (void)judged; (void)last_solve; (void)last_polish;
          x.evals++;
        };
        bool fired; long R = 0;
        play(0, 1, fired, R);
        readings_plain = R;
        long cap = x.tier == "thorough" ? 40 : 14;
        long RP = R;
        play(1, 1, fired, RP);
        std::set<long> at;
        for (long r = 2; r <= cap && r <= RP; r++) at.insert(r);
        for (long r = std::max(2L, R - 2); r <= RP; r++) at.insert(r);
        for (long r : at) { long q; play(1, r, fired, q); if (r <= R) play(0, r, fired, q); }
      }, [=](uint64_t i) { Dec d(i); auto& hp = HP[d.take(HP.size())]; std::string r = hp.name + " ["; for (int o : decode_hist(d.r, (int)ops->size(), len)) r += (*ops)[o].op.name + ";"; return r + "]"; }});
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
