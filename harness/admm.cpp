// C05: the iteration is the documented ADMM recursion, and it stops when and why the documentation says.
#include "refadmm.h"
struct Cfg { std::string name, lib; std::function<void(OSQPSettings&)> f; };
static std::vector<Cfg> configs(bool th) {
  std::vector<Cfg> C;
  auto add = [&](const std::string& n, const std::string& lib, std::function<void(OSQPSettings&)> f) { C.push_back({lib + ":" + n, lib, f}); };
  for (std::string lib : {"bi", "mkl"}) {
    add("plain", lib, [](OSQPSettings& s) { s.scaling = 0; s.adaptive_rho = 0; s.check_termination = 1; });
    add("iter3", lib, [](OSQPSettings& s) { s.scaling = 0; s.adaptive_rho_interval = 3; s.check_termination = 2; s.adaptive_rho_tolerance = 2; });
    add("scaled", lib, [](OSQPSettings& s) { s.scaling = 10; s.adaptive_rho_interval = 4; s.check_termination = 3; });
    if (lib == "bi" || th) {
      add("alpha1_scalar", lib, [](OSQPSettings& s) { s.scaling = 0; s.adaptive_rho = 0; s.alpha = 1.0; s.rho_is_vec = 0; s.rho = 2; s.check_termination = 1; s.check_dualgap = 0; });
      add("alpha07_sigma", lib, [](OSQPSettings& s) { s.scaling = 0; s.adaptive_rho = 0; s.alpha = 0.7; s.sigma = 0.1; s.rho = 0.03; s.check_termination = 4; });
      add("kkt", lib, [](OSQPSettings& s) { s.scaling = 0; s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR; s.adaptive_rho_interval = 2; s.adaptive_rho_fraction = 0.6; s.adaptive_rho_tolerance = 1.5; s.check_termination = 5; });
      add("check0_loose", lib, [](OSQPSettings& s) { s.scaling = 0; s.check_termination = 0; s.adaptive_rho_interval = 5; s.eps_abs = s.eps_rel = 1e-2; s.eps_prim_inf = s.eps_dual_inf = 1e-2; });
      add("scalar_adapt", lib, [](OSQPSettings& s) { s.scaling = 0; s.rho_is_vec = 0; s.adaptive_rho_interval = 3; s.check_termination = 1; s.adaptive_rho_tolerance = 1.2; s.eps_rel = 0; });
      add("scaled_term", lib, [](OSQPSettings& s) { s.scaling = 4; s.scaled_termination = 1; s.adaptive_rho_interval = 3; s.check_termination = 1; s.rho_is_vec = 0; });
      add("rel_only", lib, [](OSQPSettings& s) { s.scaling = 3; s.adaptive_rho = 0; s.check_termination = 1; s.eps_abs = 0; s.eps_rel = 1e-4; });
    }
  }
  return C;
}
static bool near_vec(const V& a, const V& b, double& worst, double tol, double noise, double unit) {
  worst = 0;
  double sc = std::max({unit, ninf(a), ninf(b), noise / tol * unit});
  for (size_t i = 0; i < a.size(); i++) { double e = std::fabs(a[i] - b[i]) / sc; if (!(e <= worst)) worst = e; }
  return worst <= tol;
}
static void compare(Ctx& x, Run& r, const Cfg& cf, const RefRun& R, const OSQPSettings& s, const std::string& tag) {
  const OSQPInfo& I = *r.s->info;
  auto bad = [&](const char* key, const std::string& m) { x.viol(key, "%s %s: %s; %s", cf.name.c_str(), tag.c_str(), m.c_str(), r.pr.str().c_str()); };
  if (s.eps_abs <= 1e-200 && s.eps_rel == 0 && I.iter == R.iter && has_sol(R.status)) {   // tests switched off: a residual of exactly zero still passes them
    if (!has_sol(r.status())) { x.skipped++; return; }
  } else if (r.status() != R.status || I.iter != R.iter) {
    bad("verdict", strf("ended with %s after %d iterations, the documented algorithm with %s after %d", status_name(r.status()).c_str(), (int)I.iter, status_name(R.status).c_str(), R.iter));
    return;
  }
  if (I.rho_updates != R.rho_updates) bad("rho_updates", strf("%d step size updates reported, documented rule gives %d", (int)I.rho_updates, R.rho_updates));
  if (!close(r.s->settings->rho, R.rho, 1e-3, 0)) bad("rho", strf("step size %.10g, documented rule gives %.10g", (double)r.s->settings->rho, R.rho));
  if (!R.estimate_fragile && !close(I.rho_estimate, R.rho_estimate, 1e-3, 0)) bad("rho_estimate", strf("step size estimate %.10g, documented rule gives %.10g", (double)I.rho_estimate, R.rho_estimate));
  double w;
  const double T = R.rho_updates ? 1e-4 : 1e-6;
  if (has_sol(R.status)) {
    if (!near_vec(r.x(), R.x, w, T, R.noise, R.sx)) bad("x", strf("iterate %d is x=%s, recursion gives %s", R.iter, vecstr(r.x()).c_str(), vecstr(R.x).c_str()));
    if (!near_vec(r.y(), R.y, w, T, R.noise, R.sy)) bad("y", strf("iterate %d has y=%s, recursion gives %s", R.iter, vecstr(r.y()).c_str(), vecstr(R.y).c_str()));
    if (!s.polishing) {
      double sc = R.sx + R.sy + std::max({ninf(R.x), ninf(R.y), R.noise / T}) * (1 + ninf(r.pr.A) + ninf(r.pr.P));
      if (!close(I.prim_res, R.prim_res, 10 * T, T * sc)) bad("prim_res", strf("primal residual %.10g, recursion gives %.10g", (double)I.prim_res, R.prim_res));
      if (!close(I.dual_res, R.dual_res, 10 * T, T * sc)) bad("dual_res", strf("dual residual %.10g, recursion gives %.10g", (double)I.dual_res, R.dual_res));
    }
  } else {
    bool pi = R.status == OSQP_PRIMAL_INFEASIBLE || R.status == OSQP_PRIMAL_INFEASIBLE_INACCURATE;
    if (!near_vec(pi ? r.pc() : r.dc(), R.cert, w, 1e-4, R.noise, 1)) bad("certificate", strf("certificate %s, recursion gives %s", vecstr(pi ? r.pc() : r.dc()).c_str(), vecstr(R.cert).c_str()));
  }
}
static void one(Ctx& x, Lib* L, const Prob& p, const Cfg& cf, OSQPSettings s, const std::string& tag, const V* x0, const V* y0) {
  Ref m(p, s);
  Run r(L, p, s);
  if (r.rc) { x.viol("setup", "%s: setup failed; %s", cf.name.c_str(), p.str().c_str()); return; }
  if (x0 || y0) { m.warm(x0 ? x0->data() : nullptr, y0 ? y0->data() : nullptr); L->osqp_warm_start(r.s, x0 ? x0->data() : nullptr, y0 ? y0->data() : nullptr); }
  RefRun R = m.solve();
  x.traces++; x.transitions += R.iter; x.states += R.iter;
  if (R.cond > 2e7) { x.skipped++; x.count("ill-conditioned systems"); return; }
  if (R.fragile) { x.skipped++; x.count("too close to call"); return; }
  r.solve();
  x.evals++;
  x.count(status_name(R.status));
  x.outcome(status_name(R.status) + strf(" %d %d", R.iter, R.rho_updates));
  compare(x, r, cf, R, s, tag);
}
int main(int argc, char** argv) {
  Check c;
  c.id = "C05"; c.level = "model_checking";
  c.rule = "every trajectory of the model (dense ADMM with the documented over-relaxation, step sizes, equilibration, termination tests and step-size rules) over the problem alphabets is replayed on the library: iterate k for every k, and full solves; status, iteration count, iterates, residuals, step size and its updates have to agree; decisions within rounding of a threshold are skipped and counted";
  c.assumptions = {"direct linear solvers", "decisions closer than 1e-7 relative to their threshold are not judged"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    static std::vector<Cfg> C;
    C = configs(th);
    auto add = [&](const std::string& fam, int K, int full, bool starts) {
      auto f = std::make_shared<Family>(family(fam));
      S.push_back({"trace_" + fam, f->count(), [=](uint64_t i, Ctx& x) {
        Prob p = f->get(i);
        V x1(p.n), y1(p.m);
        for (int j = 0; j < p.n; j++) x1[j] = j ? -2 : 3;
        for (int k = 0; k < p.m; k++) y1[k] = k ? 1 : -2;
        for (auto& cf : C) {
          Lib* L = load_lib(cf.lib);
          OSQPSettings s = base_settings(L);
          cf.f(s);
          // every prefix of the trajectory, termination tests switched off
          OSQPSettings t = s;
          t.check_termination = 0; t.eps_abs = 1e-300; t.eps_rel = 0; t.eps_prim_inf = t.eps_dual_inf = 1e-300;
          for (int st = 0; st < (starts ? 2 : 1); st++)
            for (int k = 1; k <= K; k++) { t.max_iter = k; one(x, L, p, cf, t, strf("limit %d%s", k, st ? " warm" : ""), st ? &x1 : nullptr, st ? &y1 : nullptr); }
          // the whole run, stopped by its own tests or by a limit
          for (int lim : {full, 7, 2}) {
            s.max_iter = lim;
            for (int st = 0; st < (starts ? 2 : 1); st++) one(x, L, p, cf, s, strf("run to %d%s", lim, st ? " warm" : ""), st ? &x1 : nullptr, st ? &y1 : nullptr);
          }
        }
      }, [f](uint64_t i) { return f->get(i).str(); }});
    };
    add("n1m1", th ? 12 : 4, 150, true);
    add("edge1", th ? 8 : 3, 150, true);
    add("edge2", th ? 6 : 2, 100, th);
    add("n2m0", th ? 12 : 4, 150, true);
    add("n1m2", th ? 6 : 2, 100, th);
    add("scaled_s", th ? 8 : 3, 150, true);
    add("n2m1", th ? 6 : 2, 100, th);
    if (th) { add("n2m2s", 3, 150, false); add("n3m1", 3, 150, false); add("scaled", 3, 12, false); }
    return S;
  };
  return vf_main(argc, argv, c);
}
