// C11: warm starting starts where the caller says.
#include "refadmm.h"
#include "hist.h"
static void off(OSQPSettings& t) { t.check_termination = 0; t.eps_abs = 1e-300; t.eps_rel = 0; t.eps_prim_inf = t.eps_dual_inf = 1e-300; }
static bool vec_ok(const V& a, const V& b, double tol, double noise, double unit) {
  double sc = std::max({unit, ninf(a), ninf(b), noise / tol * unit});
  for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= tol * sc)) return false;
  return true;
}
struct Cfg { std::string lib, name; std::function<void(OSQPSettings&)> f; };
static const std::vector<Cfg>& cfgs() {
  static const std::vector<Cfg> C = {
    {"bi", "plain", [](OSQPSettings& s) { s.scaling = 0; }},
    {"bi", "scaled", [](OSQPSettings& s) { s.scaling = 10; s.alpha = 1.0; }},
    {"bi", "scalar", [](OSQPSettings& s) { s.scaling = 3; s.rho_is_vec = 0; s.sigma = 0.1; s.rho = 5; }},
    {"mkl", "plain", [](OSQPSettings& s) { s.scaling = 0; s.alpha = 0.8; }},
    {"mkl", "scaled", [](OSQPSettings& s) { s.scaling = 10; s.sigma = 0.01; }}};
  return C;
}
static V start(int n, int v) {     // 0: all zero
  V r(n);
  static const double t[4][3] = {{0, 0, 0}, {1, -2, 0.5}, {-30, 0, 7}, {0.25, 1000, -1}};
  for (int j = 0; j < n; j++) r[j] = t[v][j];
  return r;
}
static std::string differs(Run& r, const RefRun& R, double T = 1e-6) {
  if (!has_sol(r.status()) || !has_sol(R.status)) return "";
  if (!vec_ok(r.x(), R.x, T, R.noise, R.sx)) return strf("[x] x=%s after %d iterations, starting from the requested point gives %s", vecstr(r.x()).c_str(), R.iter, vecstr(R.x).c_str());
  if (!vec_ok(r.y(), R.y, T, R.noise, R.sy)) return strf("[y] y=%s after %d iterations, starting from the requested point gives %s", vecstr(r.y()).c_str(), R.iter, vecstr(R.y).c_str());
  return "";
}
static std::string keyof(const std::string& d) { return d.substr(1, d.find(']') - 1); }

int main(int argc, char** argv) {
  Check c;
  c.id = "C11"; c.level = "exploration";
  c.rule = "the first iterates after a warm start (any subset of x,y; on a fresh or used solver), after a cold start and with warm starting disabled equal those of an independent model started at the requested point; solves started at an exact optimum (rational arithmetic) end there at the first check";
  c.assumptions = {"direct linear solvers for the comparison of iterates; conditioning of the linear systems below 2e7"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    // (a) every start point, on a fresh solver and after a few iterations
    auto addp = [&](const std::string& fam, uint64_t stride) {
      auto f = std::make_shared<Family>(family(fam));
      uint64_t np = (f->count() + stride - 1) / stride;
      S.push_back({"start_" + fam, np * 5 * 5 * 3, [=](uint64_t i, Ctx& x) {
        Dec d(i);
        Prob p = f->get(d.take(np) * stride);
        int vx = d.take(5), vy = d.take(5), before = d.take(3);
        V X = start(p.n, vx % 4), Y = start(p.m, vy % 4);
        bool hx = vx < 4, hy = vy < 4;
        for (auto& cf : cfgs()) {
          Lib* L = load_lib(cf.lib);
          OSQPSettings s = base_settings(L);
          cf.f(s);
          off(s);
          s.adaptive_rho = 0;
          for (int k = 1; k <= (th ? 3 : 2); k++) {
            Ref m(p, s);
            Run r(L, p, s);
            if (r.rc) { x.viol("setup", "setup failed"); return; }
            if (before) {            // 1: ordinary, 2: with warm starting disabled
              s.max_iter = 3; s.warm_starting = before == 1;
              L->osqp_update_settings(r.s, &s);
              m.s = s;
              RefRun R = m.solve();
              r.solve();
              if (!has_sol(r.status()) || R.fragile) { x.skipped++; break; }
            }
            s.max_iter = k; s.warm_starting = r.s->settings->warm_starting;
            L->osqp_update_settings(r.s, &s);
            if (hx || hy || before) {
              OSQPInt rc = L->osqp_warm_start(r.s, hx ? X.data() : nullptr, hy ? Y.data() : nullptr);
              if (rc) { x.viol("refused", "warm start refused with %d", (int)rc); return; }
              m.warm(hx ? X.data() : nullptr, hy ? Y.data() : nullptr);
              if (!r.s->settings->warm_starting) { x.viol("not_enabled", "%s:%s a warm start left warm starting disabled", cf.lib.c_str(), cf.name.c_str()); return; }
              s.warm_starting = 1;
            }
            m.s = s;
            RefRun R = m.solve();
            r.solve();
            x.evals++; x.states += k; x.transitions += k;
            if (R.cond > 2e7) { x.skipped++; continue; }
            x.outcome(vecstr(R.x));
            std::string e = differs(r, R);
            if (!e.empty()) x.viol("start_" + keyof(e), "%s:%s start x=%s y=%s %s: %s; %s", cf.lib.c_str(), cf.name.c_str(), hx ? vecstr(X).c_str() : "omitted", hy ? vecstr(Y).c_str() : "omitted", before == 0 ? "on a fresh solver" : before == 1 ? "after 3 iterations" : "after 3 iterations with warm starting disabled", e.c_str(), p.str().c_str());
          }
        }
      }, [=](uint64_t i) { Dec d(i); return f->get(d.take(np) * stride).str() + strf(" start %llu", (unsigned long long)d.r); }});
    };
    addp("n1m1", 1);
    addp("n2m1", th ? 4 : 29);
    addp("n1m2", th ? 2 : 17);
    addp("scaled_s", th ? 1 : 3);
    if (th) addp("n2m2", 401);
    // (b) starting at an optimum: nothing left to do
    auto addo = [&](const std::string& fam, uint64_t stride) {
      auto f = std::make_shared<Family>(family(fam));
      uint64_t np = (f->count() + stride - 1) / stride;
      S.push_back({"optimal_" + fam, np, [=](uint64_t i, Ctx& x) {
        Prob p = f->get(i * stride);
        Exact e = exact_solve(p);
        if (e.t != T_SOLVABLE || e.x.empty() || (p.m && e.y.empty())) { x.skipped++; return; }
        for (int v = 0; v < 3 * 5 * 2; v++) {
          Lib* L = load_lib(v % 2 ? "mkl" : "bi");
          OSQPSettings s = base_settings(L);
          static const int cts[] = {1, 2, 25};
          static const int sc[] = {0, 1, 10, 10, 3};
          int o = v / 2 / 3;
          s.check_termination = cts[v / 2 % 3]; s.scaling = sc[o];
          if (o == 2) s.eps_abs = s.eps_rel = 1e-6;
          if (o == 3) s.polishing = 1;
          if (o == 4) { s.rho = 40; s.rho_is_vec = 0; s.adaptive_rho = 0; }
          Run r(L, p, s);
          if (r.rc) { x.viol("setup", "setup failed"); return; }
          L->osqp_warm_start(r.s, e.x.data(), p.m ? e.y.data() : nullptr);
          r.solve();
          x.evals++;
          x.outcome(strf("%d", r.status()));
          std::string who = strf("%s check_termination=%d scaling=%d eps=%g polishing=%d", L->variant.c_str(), (int)s.check_termination, (int)s.scaling, (double)s.eps_abs, (int)s.polishing);
          if (r.status() != OSQP_SOLVED || r.s->info->iter != s.check_termination) { x.viol("optimal_not_recognised", "%s: started at the optimum x=%s y=%s, ended with %s after %d iterations; %s", who.c_str(), vecstr(e.x).c_str(), vecstr(e.y).c_str(), status_name(r.status()).c_str(), (int)r.s->info->iter, p.str().c_str()); continue; }
          if (maxdiff(r.x(), e.x) > 1e-6 * (1 + ninf(e.x)) && !s.polishing) x.viol("optimal_moved", "%s: started at the optimum x=%s, returned %s; %s", who.c_str(), vecstr(e.x).c_str(), vecstr(r.x()).c_str(), p.str().c_str());
          if (maxdiff(r.y(), e.y) > 1e-6 * (1 + ninf(e.y)) && !s.polishing) x.viol("optimal_moved_y", "%s: started at the optimum y=%s, returned %s; %s", who.c_str(), vecstr(e.y).c_str(), vecstr(r.y()).c_str(), p.str().c_str());
        }
      }, [=](uint64_t i) { return f->get(i * stride).str(); }});
    };
    addo("n1m1", 1);
    addo("n1m2", th ? 1 : 3);
    addo("n2m1", th ? 1 : 11);
    addo("n2m2", th ? 97 : 4001);
    // (c) histories
    static std::vector<HProb> HP;
    HP = hist_problems();
    struct MOp { std::string name; int kind; int v; };
    static const std::vector<MOp> ops = {{"solve", 0, 0}, {"warm_start(x)", 1, 1}, {"warm_start(y)", 1, 2}, {"warm_start(x,y)", 1, 3}, {"cold_start", 2, 0}, {"P,A:=alt", 3, 1}, {"P,A:=base", 3, 0},
      {"q:=alt", 4, 1}, {"l,u:=alt", 5, 1}, {"settings(warm_starting=0)", 6, 0}, {"settings(warm_starting=1)", 6, 1}, {"update_rho(3)", 7, 0}};
    for (int len = 1; len <= (th ? 4 : 3); len++) {
      uint64_t nh = upow(ops.size(), len);
      S.push_back({strf("histories_len%d", len), nh * HP.size(), [=](uint64_t i, Ctx& x) {
        Dec d(i);
        const HProb& hp = HP[d.take(HP.size())];
        auto h = decode_hist(d.r, (int)ops.size(), len);
        h.push_back(0);
        for (auto& cf : cfgs()) {
          Lib* L = load_lib(cf.lib);
          OSQPSettings s = base_settings(L);
          cf.f(s);
          off(s);
          s.adaptive_rho = 0; s.max_iter = 3;
          Ref m(hp.base, s);
          Mach M(L, hp, s);
          Run& r = M.r;
          if (r.rc) { x.viol("setup", "setup failed"); return; }
          std::string hs;
          for (int o : h) {
            auto& op = ops[o];
            hs += op.name + ";";
            OSQPInt rc = 0;
            if (op.kind == 0) {
              RefRun R = m.solve();
              r.solve();
              x.evals++; x.states += R.iter; x.transitions += R.iter; x.traces++;
              if (R.cond > 2e7 || !has_sol(r.status())) { x.skipped++; break; }
              std::string e = differs(r, R);
              if (!e.empty()) { x.viol("history_" + keyof(e), "%s:%s %s [%s]: %s", cf.lib.c_str(), cf.name.c_str(), hp.name.c_str(), hs.c_str(), e.c_str()); break; }
              x.outcome(vecstr(R.x));
            } else if (op.kind == 1) {
              V X = start(hp.base.n, 1), Y = start(hp.base.m, 2);
              rc = L->osqp_warm_start(r.s, op.v & 1 ? X.data() : nullptr, op.v & 2 ? Y.data() : nullptr);
              m.warm(op.v & 1 ? X.data() : nullptr, op.v & 2 ? Y.data() : nullptr);
              m.s.warm_starting = M.st.warm_starting = 1;
            } else if (op.kind == 2) { L->osqp_cold_start(r.s); m.cold(); }
            else if (op.kind == 3) {
              const Prob& q = op.v ? hp.alt : hp.base;
              auto pv = M.pvals(q), av = M.avals(q);
              rc = L->osqp_update_data_mat(r.s, pv.empty() ? nullptr : pv.data(), nullptr, (OSQPInt)pv.size(), av.empty() ? nullptr : av.data(), nullptr, (OSQPInt)av.size());
              m.set_matrices(q.P, q.A);
            } else if (op.kind == 4) { rc = L->osqp_update_data_vec(r.s, hp.alt.q.data(), nullptr, nullptr); m.set_vectors(&hp.alt.q, nullptr, nullptr); }
            else if (op.kind == 5) { rc = L->osqp_update_data_vec(r.s, nullptr, hp.alt.l.data(), hp.alt.u.data()); m.set_vectors(nullptr, &hp.alt.l, &hp.alt.u); }
            else if (op.kind == 6) { rc = M.settings([&](OSQPSettings& t) { t.warm_starting = op.v; }); m.s.warm_starting = op.v; }
            else { rc = L->osqp_update_rho(r.s, 3); m.set_rho(3); }
            if (rc) { x.viol("refused", "%s:%s %s [%s]: refused with %d", cf.lib.c_str(), cf.name.c_str(), hp.name.c_str(), hs.c_str(), (int)rc); break; }
          }
        }
      }, [=](uint64_t i) { Dec d(i); auto& hp = HP[d.take(HP.size())]; std::string r = hp.name + " ["; for (int o : decode_hist(d.r, (int)ops.size(), len)) r += ops[o].name + ";"; return r + "solve]"; }});
    }
    // (d) a polished solution is the next starting point; an infeasible verdict leaves a cold start
    auto addq = [&](const std::string& fam, uint64_t stride) {
      auto f = std::make_shared<Family>(family(fam));
      uint64_t np = (f->count() + stride - 1) / stride;
      S.push_back({"resume_" + fam, np, [=](uint64_t i, Ctx& x) {
        Prob p = f->get(i * stride);
        for (auto& cf : cfgs()) {
          Lib* L = load_lib(cf.lib);
          OSQPSettings s = base_settings(L);
          cf.f(s);
          s.polishing = 1; s.adaptive_rho = 0;
          Run r(L, p, s);
          if (r.rc) { x.viol("setup", "setup failed"); return; }
          r.solve();
          V X, Y;
          double pres = r.s->info->prim_res;
          if (r.status() == OSQP_SOLVED && r.s->info->status_polish == OSQP_POLISH_SUCCESS) { X = r.x(); Y = r.y(); }
          else if (!has_sol(r.status())) { X.assign(p.n, 0); Y.assign(p.m, 0); }
          else { x.skipped++; continue; }
          off(s);
          s.polishing = 0; s.max_iter = 1;
          L->osqp_update_settings(r.s, &s);
          r.solve();
          Ref m(p, s);
          m.warm(X.data(), Y.data());
          RefRun R = m.solve();
          x.evals++; x.states++; x.transitions++;
          if (R.cond > 2e7) { x.skipped++; continue; }
          x.outcome(vecstr(R.x));
          std::string e = differs(r, R, 1e-5);
          if (!e.empty()) {          // or z is at the bound the multiplier points at
            Ref m2(p, s);
            m2.warm(X.data(), Y.data());
            V Ax = matvec(p.A, p.m, p.n, X);
            double known = 0, all = pres;
            bool zero = false;
            for (int k = 0; k < p.m; k++) {
              double b = Y[k] > 0 ? p.u[k] : Y[k] < 0 ? p.l[k] : std::min(std::max(Ax[k], p.l[k]), p.u[k]);
              if (Y[k] == 0) zero = true; else known = std::max(known, std::fabs(Ax[k] - b));
              m2.z[k] = b * m2.E[k];
            }
            e = zero && all > known + 1e-9 ? "" : differs(r, m2.solve(), 1e-5);
          }
          if (!e.empty()) x.viol("resume_" + keyof(e), "%s:%s previous result x=%s y=%s: %s; %s", cf.lib.c_str(), cf.name.c_str(), vecstr(X).c_str(), vecstr(Y).c_str(), e.c_str(), p.str().c_str());
        }
      }, [=](uint64_t i) { return f->get(i * stride).str(); }});
    };
    addq("n1m1", 1);
    addq("n2m1", th ? 1 : 7);
    addq("n1m2", th ? 1 : 3);
    if (th) addq("n2m2", 97);
    return S;
  };
  return vf_main(argc, argv, c);
}
