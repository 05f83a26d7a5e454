// C06: updating a solver is equivalent to setting up the updated problem.
#include "hist.h"
#include "verdicts.h"
struct Cfg { std::string name, lib; bool exact; std::function<void(OSQPSettings&)> f; };
static std::vector<Cfg> C;

// solver (after cold start) against a fresh solver with data p and the step size the first one has now
static void compare(Ctx& x, Lib* L, OSQPSolver* sv, Run& r, const Prob& p, const OSQPSettings& s0, const Cfg& cf, const std::string& what, std::map<uint64_t, int>* = nullptr) {
  OSQPSettings s = s0;
  s.rho = sv->settings->rho;
  L->osqp_cold_start(sv);
  L->env->now_ns = 1000000000LL;
  OSQPInt rc = L->osqp_solve(sv);
  if (rc) { x.viol("solve_rc", "%s: solve returned %d after %s", cf.name.c_str(), (int)rc, what.c_str()); return; }
  Run f(L, p, s);
  x.evals++;
  if (f.rc) { x.viol("fresh_refused", "%s: fresh setup returns %d for data reached by %s: %s", cf.name.c_str(), (int)f.rc, what.c_str(), p.str().c_str()); return; }
  f.solve();
  int a = (int)sv->info->status_val, b = f.status();
  auto X = r.x(), Y = r.y(), FX = f.x(), FY = f.y();
  x.outcome(cf.name + status_name(a) + strf(" %d", (int)sv->info->iter));
  std::string tail = what + "; data now " + p.str();
  if (a != b) {
    bool lim = a == OSQP_MAX_ITER_REACHED || b == OSQP_MAX_ITER_REACHED;
    if (lim && !cf.exact) { x.skipped++; return; }
    x.viol("status", "%s: updated solver says %s, fresh solver %s (iterations %d, %d); %s", cf.name.c_str(), status_name(a).c_str(), status_name(b).c_str(), (int)sv->info->iter, (int)f.s->info->iter, tail.c_str());
    return;
  }
  if (cf.exact) {
    if (sv->info->iter != f.s->info->iter) { x.viol("iterations", "%s: %d iterations instead of %d; %s", cf.name.c_str(), (int)sv->info->iter, (int)f.s->info->iter, tail.c_str()); return; }
    auto cmp = [&](const char* n, const std::vector<double>& u, const std::vector<double>& v) {
      for (size_t i = 0; i < u.size(); i++)
        if (!close(u[i], v[i], 1e-7, 1e-7 * (1 + ninf(v)))) { x.viol("iterates", "%s: %s=%s instead of %s; %s", cf.name.c_str(), n, vecstr(u).c_str(), vecstr(v).c_str(), tail.c_str()); return; }
    };
    cmp("x", X, FX); cmp("y", Y, FY); cmp("prim_inf_cert", r.pc(), f.pc()); cmp("dual_inf_cert", r.dc(), f.dc());
    double q1 = sv->info->obj_val, q2 = f.s->info->obj_val;
    if (!close(q1, q2, 1e-7, 1e-7)) x.viol("objective", "%s: objective %g instead of %g; %s", cf.name.c_str(), q1, q2, tail.c_str());
  } else if (a == OSQP_SOLVED) {
    Prob keep = r.pr;
    r.pr = p;
    check_solved(x, cf.name, r, s, tail);
    r.pr = keep;
    double q1 = sv->info->obj_val, q2 = f.s->info->obj_val, sc = 1 + std::fabs(q1) + std::fabs(q2) + ninf(p.q);
    if (std::fabs(q1 - q2) > 1e-3 * sc) x.viol("objective", "%s: objective %g, fresh solver %g; %s", cf.name.c_str(), q1, q2, tail.c_str());
    if (min_eig(p.P, p.n) > 0.4 && maxdiff(X, FX) > 1e-2 * (1 + ninf(FX))) x.viol("minimiser", "%s: x=%s, fresh solver %s; %s", cf.name.c_str(), vecstr(X).c_str(), vecstr(FX).c_str(), tail.c_str());
  } else if (a == OSQP_PRIMAL_INFEASIBLE || a == OSQP_DUAL_INFEASIBLE) {
    Prob keep = r.pr;
    r.pr = p;
    check_cert(x, cf.name, r, s, tail);
    r.pr = keep;
  }
}
static std::vector<Op> alphabet() {
  std::vector<Op> o;
  o.push_back(op_solve());
  o.push_back(op_q(true)); o.push_back(op_q(false));
  o.push_back(op_b(true)); o.push_back(op_b(false)); o.push_back(op_b(true, 1)); o.push_back(op_b(true, 2));
  o.push_back(op_mat(true, 1, false)); o.push_back(op_mat(false, 1, true)); o.push_back(op_mat(true, 2, true)); o.push_back(op_mat(false, 2, false)); o.push_back(op_mat(true, 3, false)); o.push_back(op_mat(false, 3, true));
  o.push_back(op_mat_none(3, false));
  o.push_back(op_rho(10)); o.push_back(op_rho(0.01));
  o.push_back({"q,l,u:=alt", [](Mach& m) { auto& a = m.hp.alt; OSQPInt rc = m.L->osqp_update_data_vec(m.s(), a.q.data(), a.l.data(), a.u.data()); if (!rc) { m.cur.q = a.q; m.cur.l = a.l; m.cur.u = a.u; } return rc; }});
  return o;
}
// all ordered lists of distinct positions below n, with up to maxlen entries; plus lists with a repetition
static std::vector<std::vector<int>> lists(int n, int maxlen) {
  std::vector<std::vector<int>> R = {{}};
  std::function<void(std::vector<int>)> rec = [&](std::vector<int> v) {
    if ((int)v.size() >= maxlen) return;
    for (int k = 0; k < n; k++) {
      bool in = false;
      for (int t : v) in |= t == k;
      if (in) continue;
      auto w = v;
      w.push_back(k);
      R.push_back(w);
      rec(w);
    }
  };
  rec({});
  for (int a = 0; a < n; a++) for (int b = 0; b < n && n > 1; b++) if (maxlen >= 3 && a != b && n >= 3) R.push_back({a, b, a});
  return R;
}
int main(int argc, char** argv) {
  Check c;
  c.id = "C06"; c.level = "exploration";
  c.rule = "after every history of updates up to the depth (every index list for matrix values, every pair of problems of an alphabet), cold start and solve agree with a fresh solver on the same data and step size: status always; with scaling off iterations and iterates to rounding; with scaling on dense optimality, objective and unique minimiser";
  c.assumptions = {"updated data stay convex", "with scaling on, runs where one of the two solvers hits the iteration limit are inconclusive"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    C.clear();
    auto add = [&](const std::string& n, const std::string& lib, bool e, std::function<void(OSQPSettings&)> f) { C.push_back({lib + ":" + n, lib, e, f}); };
    auto T = [](OSQPSettings& s) { s.eps_abs = s.eps_rel = 1e-5; s.max_iter = 20000; s.adaptive_rho_interval = 50; };
    add("noscale", "bi", true, [](OSQPSettings& s) { s.scaling = 0; s.adaptive_rho_interval = 50; });
    add("noscale_scalar_rho", "bi", true, [](OSQPSettings& s) { s.scaling = 0; s.rho_is_vec = 0; s.check_termination = 1; s.adaptive_rho_interval = 7; });
    add("scaled", "bi", false, T);
    add("noscale", "mkl", true, [](OSQPSettings& s) { s.scaling = 0; s.adaptive_rho_interval = 50; });
    add("scaled", "mkl", false, T);
    if (th) add("noscale_scalar_rho", "mkl", true, [](OSQPSettings& s) { s.scaling = 0; s.rho_is_vec = 0; s.check_termination = 1; s.adaptive_rho_interval = 7; });
    static std::vector<HProb> HP;
    HP = hist_problems();
    auto ops = std::make_shared<std::vector<Op>>(alphabet());
    for (size_t ci = 0; ci < C.size(); ci++) {
      int depth = (th ? 4 : 3) - (ci >= 3 && ci != 0 ? 1 : 0);
      for (int len = 0; len <= depth; len++) {
        uint64_t nh = upow(ops->size(), len);
        S.push_back({C[ci].name + strf("_len%d", len), nh * HP.size(), [=](uint64_t i, Ctx& x) {
          Dec d(i);
          const HProb& hp = HP[d.take(HP.size())];
          auto h = decode_hist(d.r, (int)ops->size(), len);
          const Cfg& cf = C[ci];
          Lib* L = load_lib(cf.lib);
          OSQPSettings s0 = base_settings(L);
          cf.f(s0);
          Mach m(L, hp, s0);
          if (m.setup_rc) { x.viol("setup", "setup refused %s", hp.name.c_str()); return; }
          for (int o : h) {
            bool bound = (*ops)[o].name.find("l:=") == 0 || (*ops)[o].name.find("u:=") == 0;
            Prob before = m.cur;
            OSQPInt rc = (*ops)[o].f(m);
            if (rc) {
              if (bound) {  // one-sided updates may cross the other bound
                bool cross = false;
                auto& l = (*ops)[o].name[0] == 'l' ? m.hp.alt.l : before.l;
                auto& u = (*ops)[o].name[0] == 'u' ? m.hp.alt.u : before.u;
                bool touch = false;
                for (int k = 0; k < before.m; k++) { cross |= l[k] > u[k]; touch |= l[k] == u[k]; }
                if (cross) continue;
                bool mat = false;
                for (int t : h) mat |= (*ops)[t].name[0] == 'P' || (*ops)[t].name[0] == 'A';
                if (touch && mat && s0.scaling) {
                  x.viol("bound_equal_to_other_refused_after_matrix_update", "%s %s: %s returned %d in %s", cf.name.c_str(), hp.name.c_str(), (*ops)[o].name.c_str(), (int)rc, hist_str(*ops, h).c_str());
                  return;
                }
              }
              x.viol("rc", "%s %s: %s returned %d in %s", cf.name.c_str(), hp.name.c_str(), (*ops)[o].name.c_str(), (int)rc, hist_str(*ops, h).c_str());
              return;
            }
          }
          compare(x, L, m.s(), m.r, m.cur, s0, cf, hp.name + " after " + hist_str(*ops, h));
        }, [=](uint64_t i) { Dec d(i); auto& hp = HP[d.take(HP.size())]; return hp.name + " " + hist_str(*ops, decode_hist(d.r, (int)ops->size(), len)); }});
      }
    }
    // every index list for P x every index list for A, before and after a solve, matrices alone and together
    auto LP = std::make_shared<std::vector<std::vector<int>>>(lists(4, 3)), LA = std::make_shared<std::vector<std::vector<int>>>(lists(4, th ? 4 : 3));
    S.push_back({"index_lists", LP->size() * LA->size() * C.size() * HP.size(), [=](uint64_t i, Ctx& x) {
      Dec d(i);
      const HProb& hp = HP[d.take(HP.size())];
      const Cfg& cf = C[d.take(C.size())];
      auto& lp = (*LP)[d.take(LP->size())];
      auto& la = (*LA)[d.take(LA->size())];
      Lib* L = load_lib(cf.lib);
      OSQPSettings s0 = base_settings(L);
      cf.f(s0);
      for (int solved = 0; solved < 2; solved++) {
        Mach m(L, hp, s0);
        if (m.setup_rc) { x.viol("setup", "setup refused %s", hp.name.c_str()); return; }
        auto pv = m.pvals(hp.alt), av = m.avals(hp.alt);
        for (int k : lp) if (k >= (int)pv.size()) return;
        for (int k : la) if (k >= (int)av.size()) return;
        if (lp.size() > pv.size() || la.size() > av.size()) return;
        if (solved) L->osqp_solve(m.s());
        std::vector<double> P, A; std::vector<OSQPInt> pi, ai;
        Prob t = m.cur;
        std::map<int, int> seen;
        for (int k : lp) { double v = pv[k] + 0.25 * seen[k]++; P.push_back(v); pi.push_back(k); m.setP(k, v); }
        if (!is_psd_int(m.cur.P, m.cur.n)) { if (min_eig(m.cur.P, m.cur.n) < 0.01) return; }
        for (int k : la) { double v = av[k] + 0.25 * seen[100 + k]++; A.push_back(v); ai.push_back(k); m.setA(k, v); }
        // an empty list is a list too: what lies behind it must not matter
        size_t np = P.size(), na = A.size();
        if (!np) { P = pv; for (int k = 0; k < (int)pv.size(); k++) pi.push_back(k); P.push_back(0); pi.push_back(0); }
        if (!na) { A = av; for (int k = 0; k < (int)av.size(); k++) ai.push_back(k); A.push_back(0); ai.push_back(0); }
        OSQPInt rc = L->osqp_update_data_mat(m.s(), P.data(), pi.data(), (OSQPInt)np, A.data(), ai.data(), (OSQPInt)na);
        std::string w = hp.name + (solved ? " [solve;" : " [") + "P at";
        for (int k : lp) w += strf(" %d", k);
        w += ", A at";
        for (int k : la) w += strf(" %d", k);
        w += "]";
        if (rc) { x.viol("rc", "%s: update_data_mat returned %d for %s", cf.name.c_str(), (int)rc, w.c_str()); continue; }
        compare(x, L, m.s(), m.r, m.cur, s0, cf, w);
      }
    }, [=](uint64_t i) { Dec d(i); return HP[d.take(HP.size())].name + strf(" cfg %u lists %u", d.take(C.size()), (unsigned)d.r); }});
    // every ordered pair of problems of an alphabet: from one to the other by updates
    for (std::string fn : th ? std::vector<std::string>{"n1m1", "n2m0"} : std::vector<std::string>{"n1m1"}) {
      auto f = std::make_shared<Family>(family(fn));
      uint64_t N = f->count(), st = th ? 1 : 1;
      S.push_back({"pairs_" + fn, N, [=](uint64_t i, Ctx& x) {
        Prob p = full_pattern(f->get(i));
        for (uint64_t j = 0; j < N; j += st) {
          Prob q = full_pattern(f->get(j));
          for (size_t ci = 0; ci < C.size(); ci++) {
            if (!th && (ci == 1 || ci == 3)) continue;
            if (!th && ci >= 2 && j % 5 != i % 5) continue;
            const Cfg& cf = C[ci];
            Lib* L = load_lib(cf.lib);
            OSQPSettings s0 = base_settings(L);
            cf.f(s0);
            HProb hp{fn, p, q};
            Mach m(L, hp, s0);
            if (m.setup_rc) { x.viol("setup", "setup refused %s", p.str().c_str()); return; }
            if (j % 2) L->osqp_solve(m.s());
            auto v1 = m.pvals(q), v2 = m.avals(q);
            OSQPInt r1 = L->osqp_update_data_vec(m.s(), q.q.data(), p.m ? q.l.data() : nullptr, p.m ? q.u.data() : nullptr);
            OSQPInt r2 = L->osqp_update_data_mat(m.s(), v1.data(), nullptr, 0, p.m ? v2.data() : nullptr, nullptr, 0);
            if (r1 || r2) { x.viol("rc", "%s: updates from %s to %s return %d, %d", cf.name.c_str(), p.str().c_str(), q.str().c_str(), (int)r1, (int)r2); continue; }
            compare(x, L, m.s(), m.r, q, s0, cf, "update from " + p.str());
          }
        }
      }, [f](uint64_t i) { return f->get(i).str(); }});
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
