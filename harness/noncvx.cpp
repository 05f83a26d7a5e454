// C18: convex problems are never refused, clearly non-convex ones are, at setup and through matrix updates.
#include "common.h"
#include <algorithm>

static const double SIG[] = {1e-6, 1e-3, 1.0, 5.0};
static const double RHO[] = {0.1, 1e-6, 10.0};
struct Lc { const char* name; const char* lib; int solver; };
static const Lc LC[] = {{"builtin direct", "bi", OSQP_DIRECT_SOLVER}, {"MKL direct", "mkl", OSQP_DIRECT_SOLVER}, {"MKL indirect", "mkl", OSQP_INDIRECT_SOLVER}};

static std::vector<double> rho_of(const Prob& p, const OSQPSettings& s) {
  std::vector<double> r(p.m);
  for (int i = 0; i < p.m; i++) {
    double rho = std::min(std::max((double)s.rho, (double)OSQP_RHO_MIN), (double)OSQP_RHO_MAX);
    if (!s.rho_is_vec) { r[i] = rho; continue; }
    if (isinf_b(p.l[i]) && isinf_b(p.u[i])) r[i] = OSQP_RHO_MIN;
    else if (p.u[i] - p.l[i] < OSQP_RHO_TOL) r[i] = OSQP_RHO_EQ_OVER_RHO_INEQ * rho;   // documented: equality rows weighted more
    else r[i] = rho;
  }
  return r;
}
// the quadratic form minimised in each iteration: P + sigma I + A' diag(rho) A
static std::vector<double> form(const Prob& p, const OSQPSettings& s) {
  auto M = p.P;
  int n = p.n;
  auto r = rho_of(p, s);
  for (int i = 0; i < n; i++) M[i * n + i] += s.sigma;
  for (int k = 0; k < p.m; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M[i * n + j] += r[k] * p.A[k * n + i] * p.A[k * n + j];
  return M;
}
enum V { MUST_ACCEPT, MUST_REFUSE, OPEN };
// smallest curvature of P over directions that no constraint row sees (unit directions); +inf when there is none
static double hidden_curv(const Prob& p) {
  int n = p.n;
  std::vector<double> B = p.P;   // penalise the rows heavily: minimum over the null space as the limit
  double big = 0;
  for (double v : B) big = std::max(big, std::fabs(v));
  for (int k = 0; k < p.m; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B[i * n + j] += 1e6 * (1 + big) * p.A[k * n + i] * p.A[k * n + j];
  return min_eig(B, n);
}
static V verdict(const Prob& p, const OSQPSettings& s) {
  if (is_psd_int(p.P, p.n)) return MUST_ACCEPT;
  if (s.linsys_solver != OSQP_DIRECT_SOLVER) return OPEN;
  if (!s.scaling) {
    auto M = form(p, s);
    double mx = 0;
    for (double v : M) mx = std::max(mx, std::fabs(v));
    double e = min_eig(M, p.n);
    if (std::fabs(e) <= 1e-8 * (1 + mx)) return OPEN;
    if (e < 0) return MUST_REFUSE;
    // the regularised cost alone is positive definite: nothing to refuse; hidden by the constraints: not decided
    auto Q = p.P;
    for (int i = 0; i < p.n; i++) Q[i * p.n + i] += s.sigma;
    return min_eig(Q, p.n) > 1e-8 * (1 + mx) ? MUST_ACCEPT : OPEN;
  }
  // scaled: decided only for curvature in directions the constraints do not see, with a regularisation that cannot hide it
  if (s.sigma <= 1e-3 && hidden_curv(p) < -0.05) return MUST_REFUSE;
  return OPEN;
}
static std::vector<std::vector<double>> sym(int n, const std::vector<double>& diag, const std::vector<double>& off) {
  std::vector<std::vector<double>> R;
  int no = n * (n - 1) / 2;
  uint64_t c = 1;
  for (int i = 0; i < n; i++) c *= diag.size();
  for (int i = 0; i < no; i++) c *= off.size();
  for (uint64_t k = 0; k < c; k++) {
    Dec d(k);
    std::vector<double> P(n * n, 0);
    for (int i = 0; i < n; i++) P[i * n + i] = diag[d.take(diag.size())];
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) P[i * n + j] = P[j * n + i] = off[d.take(off.size())];
    R.push_back(P);
  }
  return R;
}
struct Cons { const char* name; int m; std::vector<double> A; std::vector<Bnd> b; };
static std::vector<Cons> conses(int n) {
  Bnd iq{-1, 1}, eq{1, 1}, lo{-INF, INF}, one{-INF, 2};
  std::vector<Cons> C;
  C.push_back({"none", 0, {}, {}});
  auto row = [&](const char* nm, std::vector<double> a) {
    a.resize(n);
    C.push_back({nm, 1, a, {iq}}); C.push_back({nm, 1, a, {eq}}); C.push_back({nm, 1, a, {lo}}); C.push_back({nm, 1, a, {one}});
  };
  row("x1", {1, 0, 0});
  if (n > 1) { row("sum", {1, 1, 1}); row("2x1-x2", {2, -1, 0}); }
  if (n > 1) {
    std::vector<double> a(2 * n, 0);
    a[0] = 1; a[n + 1] = 1;
    C.push_back({"x1,x2", 2, a, {iq, iq}}); C.push_back({"x1,x2", 2, a, {eq, iq}}); C.push_back({"x1,x2", 2, a, {lo, eq}});
  }
  return C;
}
static Prob mk(int n, const std::vector<double>& P, const Cons& c, int pat) {
  Prob p;
  p.n = n; p.m = c.m; p.P = P; p.A = c.A;
  p.q.resize(n);
  for (int i = 0; i < n; i++) p.q[i] = i % 2 ? -1 : 1;
  for (auto& b : c.b) { p.l.push_back(b.l); p.u.push_back(b.u); }
  if (pat) { p.Pm.assign(n * n, 1); p.Am.assign(c.m * n, 1); }
  return p;
}
static std::string sets(const OSQPSettings& s) { return strf("sigma=%g rho=%g rho_is_vec=%d scaling=%d", (double)s.sigma, (double)s.rho, (int)s.rho_is_vec, (int)s.scaling); }
static const char* vname(V v) { return v == MUST_ACCEPT ? "accept" : v == MUST_REFUSE ? "refuse" : "undecided"; }

// a solver whose setup was refused
static void refused_solver(Ctx& x, Run& r, const std::string& wh) {
  if (!r.s) { x.viol("no_solver", "%s: no solver left to ask for the status", wh.c_str()); return; }
  if (!r.s->info || r.s->info->status_val != OSQP_NON_CVX || strcmp(r.s->info->status, expected_status_string(OSQP_NON_CVX).c_str()))
    x.viol("status", "%s: refused as non convex but the status is %d '%s'", wh.c_str(), r.s->info ? (int)r.s->info->status_val : -99, r.s->info ? r.s->info->status : "");
  Lib* L = r.L;
  std::vector<double> v(r.pr.n + r.pr.m + 1, 0.5);
  struct { const char* n; OSQPInt rc; } C[] = {
    {"osqp_solve", L->osqp_solve(r.s)},
    {"osqp_warm_start", L->osqp_warm_start(r.s, v.data(), v.data())},
    {"osqp_update_data_vec", L->osqp_update_data_vec(r.s, v.data(), nullptr, nullptr)},
    {"osqp_update_data_mat", L->osqp_update_data_mat(r.s, r.P.x.data(), nullptr, (OSQPInt)r.P.pos.size(), nullptr, nullptr, 0)},
    {"osqp_update_rho", L->osqp_update_rho(r.s, 1)},
  };
  L->osqp_cold_start(r.s);
  for (auto& c : C) {
    x.evals++;
    if (c.rc != OSQP_WORKSPACE_NOT_INIT_ERROR) x.viol("call_after_refusal", "%s: %s on the refused solver returned %d instead of the not-initialised code", wh.c_str(), c.n, (int)c.rc);
  }
}
static OSQPSettings conf(const Lc& lc, unsigned k, Lib* L) {
  OSQPSettings s = base_settings(L);
  s.linsys_solver = (enum osqp_linsys_solver_type)lc.solver;
  Dec d(k);
  s.sigma = SIG[d.take(4)];
  s.rho = RHO[d.take(3)];
  s.rho_is_vec = d.take(2);
  s.scaling = d.take(2) ? 10 : 0;
  s.max_iter = 200;
  s.eps_abs = s.eps_rel = 1e-6;
  s.adaptive_rho = 0;
  return s;
}
static const unsigned NCONF = 48;

int main(int argc, char** argv) {
  Check c;
  c.id = "C18"; c.level = "exploration";
  c.rule = "setup and matrix updates never refuse a problem whose regularised cost is positive definite; the direct solvers refuse with the non-convex code every problem whose iteration form P + sigma I + A'RA (unscaled: by its exact eigenvalues; scaled: curvature the constraints do not see) is not positive definite; a refused setup leaves a solver that only says so; after a refused update, convex data bring back a solver that behaves as a fresh one";
  c.assumptions = {"forms with the smallest eigenvalue within 1e-8 relative of zero are counted inconclusive",
                   "with scaling on, the scaled weights are not recomputed: only convex problems and clearly negative curvature (below -0.05) in directions no constraint row sees, with sigma <= 1e-3, are decided",
                   "step-size and bound updates are not required to detect non-convexity"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    for (auto& lc : LC) {
      for (int n = 1; n <= 3; n++) {
        std::vector<double> dg{-2, -1, 0, 1, 3}, of{-1, 0, 2};
        if (n == 1) { dg = {-6, -5, -2, -1.5, -1, -0.75, -0.5, -0.25, -0.01, 0, 0.01, 0.5, 1, 3, 1000}; }
        if (n == 3) { if (th) { dg = {-1, 0, 1, 3}; of = {-1, 0, 1}; } else { dg = {-1, 0, 2}; of = {0, 1}; } }
        if (n == 2 && th) { dg = {-6, -3, -2, -1, -0.5, 0, 0.5, 1, 2, 3}; of = {-2, -1, -0.5, 0, 1, 3}; }
        auto Ps = std::make_shared<std::vector<std::vector<double>>>(sym(n, dg, of));
        auto Cs = std::make_shared<std::vector<Cons>>(conses(n));
        uint64_t cnt = Ps->size() * Cs->size() * 2;
        S.push_back({strf("setup n=%d %s", n, lc.name), cnt, [=](uint64_t i, Ctx& x) {
          Dec d(i);
          int pat = d.take(2);
          auto& cs = (*Cs)[d.take(Cs->size())];
          auto& P = (*Ps)[d.take(Ps->size())];
          Lib* L = load_lib(lc.lib);
          Prob p = mk(n, P, cs, pat);
          for (unsigned k = 0; k < NCONF; k++) {
            OSQPSettings st = conf(lc, k, L);
            V v = verdict(p, st);
            if (v == OPEN) { x.count("undecided"); x.skipped++; continue; }
            Run r(L, p, st);
            x.evals++;
            std::string wh = strf("%s: %s %s", lc.name, p.str().c_str(), sets(st).c_str());
            if (v == MUST_ACCEPT && r.rc) x.viol("convex_refused", "%s: refused with code %d although the regularised cost is positive definite", wh.c_str(), (int)r.rc);
            if (v == MUST_REFUSE && r.rc != OSQP_NONCVX_ERROR) x.viol("nonconvex_accepted", "%s: setup returned %d for a form with a negative eigenvalue", wh.c_str(), (int)r.rc);
            if (v == MUST_REFUSE && r.rc == OSQP_NONCVX_ERROR) refused_solver(x, r, wh);
            x.count(vname(v));
            if (v == MUST_ACCEPT && !r.rc && is_psd_int(p.P, p.n)) {
              // further factorisations of a convex problem never fail
              OSQPInt a = L->osqp_update_rho(r.s, 3.0), b = 0;
              std::vector<double> l(p.m, -2), u(p.m, 2);
              if (p.m) b = L->osqp_update_data_vec(r.s, nullptr, l.data(), u.data());
              if (a || b) x.viol("convex_update_refused", "%s: update_rho returned %d, update of bounds %d", wh.c_str(), (int)a, (int)b);
              r.solve();
              if (r.status() == OSQP_NON_CVX) x.viol("convex_status", "%s: a convex problem ended with the non-convex status", wh.c_str());
              x.outcome(strf("%d", r.status()));
            } else x.outcome(strf("r%d", (int)r.rc));
          }
          if (x.samples.size() < 2) x.sample(strf("%s %s", lc.name, p.str().c_str()));
        }, [=](uint64_t i) { Dec d(i); int pat = d.take(2); auto& cs = (*Cs)[d.take(Cs->size())]; return mk(n, (*Ps)[d.take(Ps->size())], cs, pat).str() + (pat ? " all entries stored" : ""); }});
      }
      // accepted although not convex: the iterates may diverge; whatever is reported has to be coherent
      for (int n = 1; n <= 2; n++) {
        std::vector<double> dg{-2, -1, 0, 1}, of{-1, 0, 2};
        if (n == 1) dg = {-6, -2, -1, -0.5, -0.01};
        auto Ps = std::make_shared<std::vector<std::vector<double>>>();
        for (auto& P : sym(n, dg, of)) if (!is_psd_int(P, n)) Ps->push_back(P);
        auto Cs = std::make_shared<std::vector<Cons>>(conses(n));
        uint64_t cnt = Ps->size() * Cs->size();
        S.push_back({strf("solve of accepted n=%d %s", n, lc.name), cnt, [=](uint64_t i, Ctx& x) {
          Dec d(i);
          auto& cs = (*Cs)[d.take(Cs->size())];
          auto& P = (*Ps)[d.take(Ps->size())];
          Lib* L = load_lib(lc.lib);
          Prob p = mk(n, P, cs, 1);
          for (unsigned k = 0; k < NCONF; k++) for (int ad = 0; ad < (th || lc.solver == OSQP_DIRECT_SOLVER ? 2 : 1); ad++) {
            OSQPSettings st = conf(lc, k, L);
            st.max_iter = th ? 20000 : lc.solver == OSQP_DIRECT_SOLVER ? 4000 : 1000;
            st.adaptive_rho = ad; st.adaptive_rho_interval = 25;
            Run r(L, p, st);
            if (r.rc) { x.count("refused"); continue; }
            std::string wh = strf("%s: %s %s adaptive_rho=%d", lc.name, p.str().c_str(), sets(st).c_str(), ad);
            std::vector<double> prev; int pst = 0;
            for (int pass = 0; pass < 2; pass++) {
              if (pass) L->osqp_cold_start(r.s);
              OSQPInt rc = r.solve();
              x.evals++; x.transitions++;
              int s = r.status();
              x.outcome(strf("s%d", s));
              x.count(("accepted, " + status_name(s)).c_str());
              if (rc && lc.solver == OSQP_INDIRECT_SOLVER) { x.count("linear system not solved by the indirect solver"); break; }   // outside what it promises
              if (rc) { x.viol("solve_code", "%s: osqp_solve returned %d", wh.c_str(), (int)rc); break; }
              if (r.s->info->status != expected_status_string(s)) x.viol("status", "%s: status %d with the string '%s'", wh.c_str(), s, r.s->info->status);
              std::vector<double> all;
              for (auto& v : {r.x(), r.y(), r.pc(), r.dc()}) all.insert(all.end(), v.begin(), v.end());
              if (s == OSQP_NON_CVX) {
                for (double v : all) if (v != OSQP_NAN) { x.viol("solution_given", "%s: ended as non convex, but a solution or certificate is given: x=%s y=%s certificates %s %s", wh.c_str(), vecstr(r.x()).c_str(), vecstr(r.y()).c_str(), vecstr(r.pc()).c_str(), vecstr(r.dc()).c_str()); break; }
                if (r.s->info->obj_val != OSQP_NAN) x.viol("objective_given", "%s: ended as non convex with objective %g", wh.c_str(), (double)r.s->info->obj_val);
              }
              if (pass && lc.solver == OSQP_DIRECT_SOLVER && !ad && (s != pst || all != prev)) x.viol("not_repeated", "%s: cold started again: %s x=%s, first %s", wh.c_str(), status_name(s).c_str(), vecstr(r.x()).c_str(), status_name(pst).c_str());
              prev = all; pst = s;
            }
          }
        }, [=](uint64_t i) { Dec d(i); auto& cs = (*Cs)[d.take(Cs->size())]; return mk(n, (*Ps)[d.take(Ps->size())], cs, 1).str(); }});
      }
      // updates: start from a convex problem, change values, put convex values back
      for (int n = 1; n <= 2 + (th ? 1 : 0); n++) {
        std::vector<double> dg{-2, -1, 0, 1, 3}, of{-1, 0, 2};
        if (n == 1) dg = {-6, -2, -1, -0.5, 0, 1, 3};
        if (n == 3) { dg = {-1, 0, 2}; of = {0, 1}; }
        auto Ps = std::make_shared<std::vector<std::vector<double>>>(sym(n, dg, of));
        auto Cs = std::make_shared<std::vector<Cons>>(conses(n));
        auto Cv = std::make_shared<std::vector<std::vector<double>>>();
        if (n == 1) *Cv = {{0}, {2}};
        else if (n == 2) *Cv = {{1, 0, 0, 0}, {3, 1, 1, 2}};
        else *Cv = {{2, 1, 0, 1, 2, 0, 0, 0, 0}};
        uint64_t cnt = Ps->size() * Cs->size() * Cv->size();
        S.push_back({strf("updates n=%d %s", n, lc.name), cnt, [=](uint64_t i, Ctx& x) {
          Dec d(i);
          auto& P0 = (*Cv)[d.take(Cv->size())];
          auto& cs = (*Cs)[d.take(Cs->size())];
          auto& P1 = (*Ps)[d.take(Ps->size())];
          Lib* L = load_lib(lc.lib);
          Prob p0 = mk(n, P0, cs, 1), p1 = mk(n, P1, cs, 1);
          // second target: the constraint rows vanish as well
          Prob p2 = p1;
          for (auto& a : p2.A) a = 0;
          for (unsigned k = 0; k < NCONF; k++) {
            OSQPSettings st = conf(lc, k, L);
            if (!th && st.rho == 1e-6) continue;
            for (int tgt = 0; tgt < (p1.m ? 2 : 1); tgt++) for (int part = 0; part < 2; part++) for (int solved = 0; solved < 2; solved++) {
              if (!th && solved && part) continue;
              const Prob& pt = tgt ? p2 : p1;
              V v = verdict(pt, st);
              if (v == OPEN) { x.skipped++; x.count("undecided"); continue; }
              Run r(L, p0, st);
              std::string wh = strf("%s: %s %s, %sthen %s update to %s", lc.name, p0.str().c_str(), sets(st).c_str(), solved ? "solved, " : "", part ? "partial" : "full", pt.str().c_str());
              if (r.rc) { x.viol("convex_refused", "%s: setup refused with %d", wh.c_str(), (int)r.rc); continue; }
              if (solved) r.solve();
              auto upd = [&](const Prob& to, const Prob& from) {
                std::vector<OSQPFloat> pv, av;
                std::vector<OSQPInt> pi, ai;
                for (size_t e = 0; e < r.P.pos.size(); e++) {
                  int a = r.P.pos[e].first * n + r.P.pos[e].second;
                  if (part && to.P[a] == from.P[a]) continue;
                  pv.push_back(to.P[a]); pi.push_back((OSQPInt)e);
                }
                for (size_t e = 0; e < r.A.pos.size(); e++) {
                  int a = r.A.pos[e].first * n + r.A.pos[e].second;
                  if (part && to.A[a] == from.A[a]) continue;
                  av.push_back(to.A[a]); ai.push_back((OSQPInt)e);
                }
                if (part) { std::reverse(pv.begin(), pv.end()); std::reverse(pi.begin(), pi.end()); }
                if (pv.empty() && av.empty()) return (OSQPInt)0;
                return L->osqp_update_data_mat(r.s, pv.empty() ? nullptr : pv.data(), part && !pv.empty() ? pi.data() : nullptr, (OSQPInt)pv.size(),
                                               av.empty() ? nullptr : av.data(), part && !av.empty() ? ai.data() : nullptr, (OSQPInt)av.size());
              };
              OSQPInt rc = upd(pt, p0);
              x.evals++;
              x.count(vname(v));
              x.transitions++;
              if (v == MUST_ACCEPT && rc) x.viol("convex_update_refused", "%s returned %d although the regularised cost is positive definite", wh.c_str(), (int)rc);
              if (v == MUST_REFUSE && !rc) x.viol("nonconvex_update_accepted", "%s returned 0 although the form has a negative eigenvalue", wh.c_str());
              x.outcome(strf("%d%d", (int)v, rc != 0));
              // back to the convex data: as a fresh solver
              rc = upd(p0, pt);
              if (rc) { x.viol("convex_update_refused", "%s, then back to the convex values: code %d", wh.c_str(), (int)rc); continue; }
              if (lc.solver != OSQP_DIRECT_SOLVER) continue;
              L->osqp_cold_start(r.s);
              Run f(L, p0, st);
              OSQPInt a = r.solve(), b = f.solve();
              x.evals++;
              bool same = a == b && r.status() == f.status();
              if (same && has_sol(r.status())) {
                double tol = st.scaling ? 1e-5 : 1e-9;
                auto x1 = r.x(), x2 = f.x(), y1 = r.y(), y2 = f.y();
                same = maxdiff(x1, x2) <= tol * (1 + ninf(x2)) && maxdiff(y1, y2) <= tol * (1 + ninf(y2));
              }
              if (!same) x.viol("not_restored", "%s and back: solve gives %s x=%s, a fresh solver %s x=%s", wh.c_str(), status_name(r.status()).c_str(), vecstr(r.x()).c_str(), status_name(f.status()).c_str(), vecstr(f.x()).c_str());
            }
          }
        }, [=](uint64_t i) { Dec d(i); auto& P0 = (*Cv)[d.take(Cv->size())]; auto& cs = (*Cs)[d.take(Cs->size())]; return "from " + mk(n, P0, cs, 1).str() + " to " + mk(n, (*Ps)[d.take(Ps->size())], cs, 1).str(); }});
      }
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
