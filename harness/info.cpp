// C04: whatever way a solve ends, info describes the vectors returned.
#include "common.h"
#include <algorithm>
struct Cfg { std::string name, lib; std::function<void(OSQPSettings&)> f; };

// the clock jumps past any limit at reading number `jump`
static Lib* clockL; static long jump_at;
static void clock_point(int kind, long) {
  if (kind == VF_PT_CLOCK) clockL->env->now_ns = clockL->env->clock_count >= jump_at ? 1000000000LL + 3600000000000LL : 1000000000LL;
}

int main(int argc, char** argv) {
  Check c;
  c.id = "C04"; c.level = "exploration";
  c.rule = "obj_val, dual_obj_val, duality_gap, dual_res, prim_res (bracket), rel_kkt_error, status string recomputed densely from the returned x,y after every stopping point";
  c.assumptions = {"primal residual is checked against its lower bound dist(Ax,[l,u]) and, for scaling=0, exactly by C05"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    std::vector<Cfg> C;
    for (std::string lib : {"bi", "mkl"}) {
      auto add = [&](const std::string& n, std::function<void(OSQPSettings&)> f) { C.push_back({lib + ":" + n, lib, f}); };
      add("default", [](OSQPSettings&) {});
      if (lib == "bi" || th) {
        add("check1_polish", [](OSQPSettings& s) { s.check_termination = 1; s.polishing = 1; s.adaptive_rho_interval = 3; });
        add("check2_noscale_polish", [](OSQPSettings& s) { s.check_termination = 2; s.scaling = 0; s.polishing = 1; s.eps_abs = s.eps_rel = 1e-2; });
        add("check0", [](OSQPSettings& s) { s.check_termination = 0; s.adaptive_rho = 0; });
        add("check3_kkt", [](OSQPSettings& s) { s.check_termination = 3; s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR; });
        add("verbose", [](OSQPSettings& s) { s.verbose = 1; s.check_termination = 4; });
        add("scalar_rho", [](OSQPSettings& s) { s.rho_is_vec = 0; s.check_termination = 1; s.alpha = 1.0; });
      }
      if (lib == "mkl") add("indirect_polish", [](OSQPSettings& s) { s.linsys_solver = OSQP_INDIRECT_SOLVER; s.polishing = 1; s.check_termination = 1; });
    }
    // every iteration limit
    auto add_limit = [&](const std::string& fam, std::vector<int> ks) {
      auto f = std::make_shared<Family>(family(fam));
      S.push_back({"maxiter_" + fam, f->count(), [f, C, ks](uint64_t i, Ctx& x) {
        Prob p = f->get(i);
        for (auto& cf : C) {
          Lib* L = load_lib(cf.lib);
          for (int k : ks) {
            OSQPSettings s = base_settings(L);
            cf.f(s);
            s.max_iter = k;
            Run r(L, p, s);
            if (r.rc) { x.viol("setup", "%s setup failed", cf.name.c_str()); return; }
            int rc = (int)r.solve();
            x.evals++;
            if (rc) { x.viol("solve", "%s: solve returned %d; %s", cf.name.c_str(), rc, p.str().c_str()); continue; }
            x.outcome(cf.name + status_name(r.status()) + strf("%d", (int)r.s->info->iter));
            x.count(cf.name + " " + status_name(r.status()));
            check_info(x, r, cf.name + strf(" max_iter=%d", k));
            int st = r.status();
            if (st == OSQP_MAX_ITER_REACHED || st == OSQP_SOLVED_INACCURATE || st == OSQP_PRIMAL_INFEASIBLE_INACCURATE || st == OSQP_DUAL_INFEASIBLE_INACCURATE)
              if (r.s->info->iter != k) x.viol("iter", "%s: stopped by the limit of %d iterations but reports %d; %s", cf.name.c_str(), k, (int)r.s->info->iter, p.str().c_str());
            if (r.s->info->iter < 1 || r.s->info->iter > k) x.viol("iter_range", "%s: limit %d, reports %d iterations; %s", cf.name.c_str(), k, (int)r.s->info->iter, p.str().c_str());
            if (st != OSQP_MAX_ITER_REACHED && st != OSQP_SOLVED_INACCURATE && r.s->info->iter < k) break;  // longer limits repeat this run
          }
        }
      }, [f](uint64_t i) { return f->get(i).str(); }});
    };
    std::vector<int> dense, sparse = {1, 2, 3, 4, 7, 12, 25, 26, 50, 51, 4000};
    for (int k = 1; k <= (th ? 60 : 30); k++) dense.push_back(k);
    dense.push_back(4000);
    for (auto fn : {"n1m0", "n2m0", "n1m1"}) add_limit(fn, dense);
    if (th) { add_limit("n2m1", dense); add_limit("n1m2", dense); add_limit("scaled_s", dense); add_limit("n2m2s", sparse); add_limit("scaled", {3, 8, 25, 4000}); add_limit("n2m2", {1, 9, 4000}); }
    else { add_limit("n2m1", sparse); add_limit("scaled_s", sparse); add_limit("n2m2s", {2, 9, 4000}); }
    // time limit expiring at every clock reading
    auto add_time = [&](const std::string& fam, int K) {
      auto f = std::make_shared<Family>(family(fam));
      S.push_back({"timelimit_" + fam, f->count(), [f, C, K](uint64_t i, Ctx& x) {
        Prob p = f->get(i);
        for (auto& cf : C) {
          Lib* L = load_lib(cf.lib);
          for (int j = 1; j <= K; j++) {
            OSQPSettings s = base_settings(L);
            cf.f(s);
            s.time_limit = 1.0; s.max_iter = 200;
            L->env->now_ns = 1000000000LL; L->env->step_ns = 0;
            Run r(L, p, s);
            if (r.rc) { x.viol("setup", "setup failed"); return; }
            long c0 = L->env->clock_count;
            clockL = L; jump_at = c0 + 1 + j;
            L->env->on_point = clock_point;
            r.solve();
            L->env->on_point = nullptr;
            bool fired = L->env->clock_count >= jump_at;
            L->env->now_ns = 1000000000LL;
            x.evals++;
            x.outcome(cf.name + "T" + status_name(r.status()) + strf("%d", (int)r.s->info->iter));
            check_info(x, r, cf.name + strf(" clock passes the limit at reading %d", j), "_timelimit");
            if (!fired) break;
          }
        }
      }, [f](uint64_t i) { return f->get(i).str(); }});
    };
    add_time("n1m1", th ? 60 : 30);
    if (th) { add_time("n2m1", 40); add_time("n2m2s", 12); }
    else add_time("scaled_s", 12);
    return S;
  };
  return vf_main(argc, argv, c);
}
