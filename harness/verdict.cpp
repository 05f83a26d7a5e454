// C01: a claim of optimality is true on the user's own data.
// C02: a claim of infeasibility comes with a certificate that proves it.
// C03: the verdict agrees with an exact (rational arithmetic) oracle, for every backend and scaling.
#include "common.h"
#include "verdicts.h"
#include "refadmm.h"
#include <algorithm>

static std::string id;
struct Cfg { std::string name; std::string lib; std::function<void(OSQPSettings&)> f; };

static std::vector<Cfg> cfgs(const std::string& tier) {
  std::vector<Cfg> c;
  bool th = tier == "thorough";
  for (std::string lib : {"bi", "mkl"}) {
    auto add = [&](const std::string& n, std::function<void(OSQPSettings&)> f) { c.push_back({lib + ":" + n, lib, f}); };
    if (id == "C03") {
      auto T = [](OSQPSettings& s) { s.eps_abs = s.eps_rel = 1e-5; s.max_iter = 20000; };
      add("scaled", [=](OSQPSettings& s) { T(s); });
      add("unscaled", [=](OSQPSettings& s) { T(s); s.scaling = 0; });
      if (lib == "bi" || th) {
        add("polish", [=](OSQPSettings& s) { T(s); s.polishing = 1; s.check_termination = 1; });
        add("scalar_rho", [=](OSQPSettings& s) { T(s); s.rho_is_vec = 0; s.check_dualgap = 0; s.alpha = 1.0; });
      }
      if (lib == "mkl") {
        add("indirect", [=](OSQPSettings& s) { T(s); s.linsys_solver = OSQP_INDIRECT_SOLVER; });
        if (th) add("indirect_noprec", [=](OSQPSettings& s) { T(s); s.linsys_solver = OSQP_INDIRECT_SOLVER; s.cg_precond = OSQP_NO_PRECONDITIONER; s.scaling = 0; });
      }
      continue;
    }
    add("default", [](OSQPSettings&) {});
    if (lib == "bi" || th) {
      add("noscale_every_iter", [](OSQPSettings& s) { s.scaling = 0; s.check_termination = 1; });
      add("every_iter_tight", [](OSQPSettings& s) { s.check_termination = 1; s.eps_abs = 1e-6; s.eps_rel = 1e-6; s.eps_prim_inf = 1e-6; s.eps_dual_inf = 1e-6; });
      add("polish", [](OSQPSettings& s) { s.polishing = 1; s.check_termination = 5; });
      add("abs_only", [](OSQPSettings& s) { s.eps_rel = 0; s.eps_abs = 1e-4; s.check_dualgap = 0; s.alpha = 1.0; s.check_termination = 1; });
      add("rel_only", [](OSQPSettings& s) { s.eps_abs = 1e-9; s.eps_rel = 1e-2; s.check_termination = 1; });
      add("no_adapt_scalar_rho", [](OSQPSettings& s) { s.adaptive_rho = 0; s.rho_is_vec = 0; s.rho = 1.0; s.scaling = 1; });
      add("inaccurate", [](OSQPSettings& s) { s.max_iter = 13; s.check_termination = 0; s.eps_abs = s.eps_rel = 1e-3; });
      add("scaled_termination", [](OSQPSettings& s) { s.scaled_termination = 1; s.scaling = 10; s.check_termination = 1; s.eps_prim_inf = s.eps_dual_inf = 1e-5; });
      add("adapt_kkt", [](OSQPSettings& s) { s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR; s.check_termination = 3; });
    }
    if (lib == "mkl") {
      add("polish_every_iter", [](OSQPSettings& s) { s.polishing = 1; s.check_termination = 1; });
      add("indirect", [](OSQPSettings& s) { s.linsys_solver = OSQP_INDIRECT_SOLVER; s.check_termination = 1; });
    }
  }
  return c;
}

static void check_truth(Ctx& x, const Cfg& c, Run& r, const OSQPSettings& s, const Exact& e, const std::string& what) {
  int st = r.status();
  auto bad = [&](const std::string& key, const std::string& msg) {
    x.viol(key, "%s: %s (solver says %s after %d iterations); %s", c.name.c_str(), msg.c_str(), status_name(st).c_str(), (int)r.s->info->iter, what.c_str());
  };
  bool pi = st == OSQP_PRIMAL_INFEASIBLE || st == OSQP_PRIMAL_INFEASIBLE_INACCURATE;
  bool di = st == OSQP_DUAL_INFEASIBLE || st == OSQP_DUAL_INFEASIBLE_INACCURATE;
  bool so = st == OSQP_SOLVED || st == OSQP_SOLVED_INACCURATE;
  // the iterative solver's absolute inner tolerance makes no promise of convergence when the problem is not
  // feasible and strongly convex: elsewhere, only wrong answers count
  bool must_decide = s.linsys_solver != OSQP_INDIRECT_SOLVER || (e.t == T_SOLVABLE && min_eig(r.pr.P, r.pr.n) > 0.5);
  if (e.t == T_SOLVABLE) {
    if (pi) bad("false_primal_infeasible", "the problem has an optimal point");
    else if (di) bad("false_dual_infeasible", "the problem has an optimal point");
    else if (!so) { if (must_decide) bad("undecided_solvable", "the problem has an optimal point but no answer was found"); else x.count("indirect undecided"); }
    else {
      double tol = 2e-3 * (1 + std::fabs(e.obj));
      if (!close(r.s->info->obj_val, e.obj, 0, tol)) bad("objective", strf("objective %.8g, exact optimum %.8g", r.s->info->obj_val, e.obj));
      if (e.x_unique && !(maxdiff(r.x(), e.x) <= 2e-2)) bad("minimiser", strf("x=%s, the unique minimiser is %s", vecstr(r.x()).c_str(), vecstr(e.x).c_str()));
    }
  } else if (e.t == T_PRIMAL_INF) {
    if (so) bad("solved_infeasible", "the constraints are contradictory");
    else if (!pi && !di && must_decide) bad("undecided_infeasible", "the constraints are contradictory, undetected");
  } else if (e.t == T_DUAL_INF) {
    if (so) bad("solved_unbounded", "the problem is unbounded below");
    else if (pi) bad("false_primal_infeasible", "the constraints are consistent (problem unbounded below)");
    else if (!di && must_decide) bad("undecided_unbounded", "the problem is unbounded below, undetected");
  }
}

static void one(Ctx& x, const std::vector<Cfg>& C, const Prob& p) {
  Exact e;
  if (id == "C03") {
    e = exact_solve(p);
    if (e.t == T_UNKNOWN) { x.skipped++; return; }
  }
  std::string what;
  for (auto& c : C) {
    Lib* L = load_lib(c.lib);
    OSQPSettings s = base_settings(L);
    c.f(s);
    Run r(L, p, s);
    if (r.rc) { x.viol("setup_failed", "%s: setup returned %d; %s", c.name.c_str(), (int)r.rc, p.str().c_str()); continue; }
    int rc = (int)r.solve();
    x.evals++;
    if (what.empty()) what = p.str();
    if (rc) { x.viol("solve_failed", "%s: solve returned %d; %s", c.name.c_str(), rc, what.c_str()); continue; }
    int st = r.status();
    x.count(c.name + " " + status_name(st));
    x.outcome(c.name + status_name(st) + strf(" %d %.3g", (int)r.s->info->iter, r.s->info->obj_val));
    if (s.scaled_termination && id != "C03") {
      // the accuracy was asked for in the solver's internal units: what that allows in the caller's
      Ref m(p, s);
      double D = ninf(m.D), E = ninf(m.E), Di = 0, Ei = 0;
      for (double v : m.D) Di = std::max(Di, 1 / v);
      for (double v : m.E) Ei = std::max(Ei, 1 / v);
      double f = id == "C01" ? std::max({Ei * std::max(1.0, E), Di / m.c * std::max(1.0, m.c * D), std::max(1.0, 1 / m.c)}) : Di * std::max(Ei, Di / std::min(1.0, m.c));
      s.eps_abs *= f; s.eps_rel *= f; s.eps_prim_inf *= f; s.eps_dual_inf *= f;
      if (id == "C01" && s.eps_rel > 0.5) { x.count("scaled termination allows anything"); continue; }
    }
    if (id == "C01") { if (st == OSQP_SOLVED || st == OSQP_SOLVED_INACCURATE) check_solved(x, c.name, r, s, what); }
    else if (id == "C02") {
      if (st == OSQP_PRIMAL_INFEASIBLE || st == OSQP_DUAL_INFEASIBLE || st == OSQP_PRIMAL_INFEASIBLE_INACCURATE || st == OSQP_DUAL_INFEASIBLE_INACCURATE) check_cert(x, c.name, r, s, what);
    } else check_truth(x, c, r, s, e, what);
  }
}

int main(int argc, char** argv) {
  id = getenv("VF_CHECK") ? getenv("VF_CHECK") : "C01";
  Check c;
  c.id = id;
  c.level = "exploration";
  if (id == "C01") c.rule = "solved/solved_inaccurate implies: finite x,y, primal and dual residual, dual sign and duality gap recomputed densely from the caller's P,q,A,l,u meet eps_abs,eps_rel (x10 if inaccurate)";
  if (id == "C02") c.rule = "an infeasible status implies: certificate of infinity norm 1 satisfying the documented inequalities on the caller's data, everything else blanked, objective +-infinity";
  if (id == "C03") c.rule = "status, objective and unique minimiser agree with a rational-arithmetic oracle enumerating KKT working sets, for every backend/scaling/option variant";
  c.assumptions = {"problem data from the finite alphabets named in the spaces", "builtin backend factorisation by the API-compatible QDLDL stand-in (upstream QDLDL is not available offline); MKL is the real library, single threaded"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    auto C = cfgs(tier);
    std::vector<std::string> fams = {"n1m0", "n2m0", "n1m1", "n1m2", "n2m1", "n2m2s"};
    if (id != "C03") fams.push_back("scaled_s");
    if (tier == "thorough") { fams = {"n1m0", "n2m0", "n1m1", "n1m2", "n2m1", "n3m1", "n2m2s", "n3m2", "n2m3"}; if (id != "C03") fams.insert(fams.begin(), "scaled"); fams.push_back("n2m2"); }
    for (auto& fn : fams) {
      auto f = std::make_shared<Family>(family(fn));
      S.push_back({fn, f->count(), [f, C](uint64_t i, Ctx& x) { one(x, C, f->get(i)); }, [f](uint64_t i) { return f->get(i).str(); }});
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
