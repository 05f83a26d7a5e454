// C15: step-size adaptation follows the documented rules.
#include "refadmm.h"
#include "hist.h"
struct Cfg { std::string name; std::function<void(OSQPSettings&)> f; };
static const long long T0 = 1000000000LL;
static Lib* clockL; static long jump_at; static long long jump_by;
static void clock_point(int kind, long) { if (kind == VF_PT_CLOCK && clockL->env->clock_count == jump_at) clockL->env->now_ns += jump_by; }
struct Jump {
  Jump(Lib* L, long at, long long by) { clockL = L; jump_at = L->env->clock_count + at; jump_by = by; L->env->on_point = clock_point; }
  ~Jump() { clockL->env->on_point = nullptr; }
  bool fired() const { return clockL->env->clock_count >= jump_at; }
};
static void off(OSQPSettings& t) { t.check_termination = 0; t.eps_abs = 1e-300; t.eps_rel = 0; t.eps_prim_inf = t.eps_dual_inf = 1e-300; }
static bool vec_ok(const V& a, const V& b, double tol, double noise, double unit) {
  double sc = std::max({unit, ninf(a), ninf(b), noise / tol * unit});
  for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= tol * sc)) return false;
  return true;
}
// returns false if nothing can be claimed about this run
static std::string differs(Run& r, const RefRun& R, bool verdict, double T0x = 0, double Tr = 1e-3) {
  const OSQPInfo& I = *r.s->info;
  double rho = r.s->settings->rho;
  if (!(rho >= 1e-6 && rho <= 1e6)) return strf("[range] step size %.10g outside its limits", rho);
  if (verdict && (r.status() != R.status || I.iter != R.iter)) return strf("[verdict] %s after %d iterations instead of %s after %d", status_name(r.status()).c_str(), (int)I.iter, status_name(R.status).c_str(), R.iter);
  if (I.rho_updates != R.rho_updates) return strf("[updates] %d step size updates reported, the documented rule makes %d (final step size %.8g, rule gives %.8g)", (int)I.rho_updates, R.rho_updates, rho, R.rho);
  if (!close(rho, R.rho, Tr, 0)) return strf("[rho] step size %.10g, the documented rule gives %.10g after %d iterations", rho, R.rho, R.iter);
  if (!R.estimate_fragile && !close(I.rho_estimate, R.rho_estimate, Tr, 0)) return strf("[estimate] reported estimate %.10g, documented %.10g", (double)I.rho_estimate, R.rho_estimate);
  if (has_sol(r.status()) && has_sol(R.status)) {
    double T = std::max(T0x, R.rho_updates ? 1e-4 : 1e-6);
    if (!vec_ok(r.x(), R.x, T, R.noise, R.sx)) return strf("[x] x=%s instead of %s after %d iterations", vecstr(r.x()).c_str(), vecstr(R.x).c_str(), R.iter);
    if (!vec_ok(r.y(), R.y, T, R.noise, R.sy)) return strf("[y] y=%s instead of %s after %d iterations", vecstr(r.y()).c_str(), vecstr(R.y).c_str(), R.iter);
  }
  return "";
}
static std::string keyof(const std::string& d) { size_t e = d.find(']'); return d.substr(1, e - 1); }

int main(int argc, char** argv) {
  Check c;
  c.id = "C15"; c.level = "model_checking";
  c.rule = "model of the documented rules (estimate, clamping, interval, tolerance factor, KKT-error rule, time rule under a virtual clock, per-row multiples) run beside the library on every prefix of every trajectory and over call histories with caller-made step-size and bound changes; number of updates, step size, estimate, iterates and verdicts must agree";
  c.assumptions = {"direct linear solvers", "decisions within rounding of a threshold are not judged"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    // (a) rule x interval x tolerance x fraction x initial value, on every prefix
    static const int modes[] = {OSQP_ADAPTIVE_RHO_UPDATE_DISABLED, OSQP_ADAPTIVE_RHO_UPDATE_ITERATIONS, OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR, OSQP_ADAPTIVE_RHO_UPDATE_TIME};
    static const int intervals[] = {0, 1, 2, 5};
    static const double tols[] = {1, 1.3, 5};
    static const double fracs[] = {0.1, 0.9};
    static const double rhos[] = {0.1, 1e-9, 1e9, 30};
    auto addp = [&](const std::string& fam, int K, uint64_t stride) {
      auto f = std::make_shared<Family>(family(fam));
      uint64_t np = (f->count() + stride - 1) / stride;
      S.push_back({"rules_" + fam, np * 4 * 4 * 3 * 2 * 4, [=](uint64_t i, Ctx& x) {
        Dec d(i);
        Prob p = f->get(d.take(np) * stride);
        int mo = modes[d.take(4)], iv = intervals[d.take(4)];
        double to = tols[d.take(3)], fr = fracs[d.take(2)], r0 = rhos[d.take(4)];
        for (int v = 0; v < 3; v++) {
          Lib* L = load_lib(v == 1 ? "mkl" : "bi");
          OSQPSettings s = base_settings(L);
          off(s);
          s.scaling = v == 2 ? 5 : 0; s.rho_is_vec = v != 1;
          s.adaptive_rho = mo; s.adaptive_rho_interval = iv; s.adaptive_rho_tolerance = to; s.adaptive_rho_fraction = fr; s.rho = r0;
          for (int k = 1; k <= K; k++) {
            s.max_iter = k;
            Ref m(p, s);
            RefRun R = m.solve();
            x.traces++; x.transitions += R.iter; x.states += R.iter;
            if (R.cond > 2e7 || R.fragile) { x.skipped++; break; }
            L->env->now_ns = T0; L->env->step_ns = 0;      // the clock stands still: the time rule never acts with interval 0
            Run r(L, p, s);
            if (r.rc) { x.viol("setup", "setup failed"); return; }
            r.solve();
            x.evals++;
            x.outcome(strf("%d %g", R.rho_updates, R.rho));
            std::string e = differs(r, R, false);
            if (!e.empty()) { x.viol(keyof(e), "%s rule=%d interval=%d tolerance=%g fraction=%g rho=%g rho_is_vec=%d scaling=%d limit %d: %s; %s", L->variant.c_str(), mo, iv, to, fr, r0, (int)s.rho_is_vec, (int)s.scaling, k, e.c_str(), p.str().c_str()); break; }
          }
        }
      }, [=](uint64_t i) { Dec d(i); return f->get(d.take(np) * stride).str() + strf(" settings %llu", (unsigned long long)d.r); }});
    };
    addp("n1m1", th ? 8 : 5, 1);
    addp("edge1", th ? 6 : 4, 1);
    addp("n2m1", th ? 6 : 3, th ? 5 : 61);
    addp("scaled_s", th ? 6 : 4, th ? 1 : 7);
    // (b) time rule: the clock passes the threshold at every single reading
    static std::vector<HProb> HP;
    HP = hist_problems();
    static const int cts[] = {0, 1, 3, 10, 25};
    S.push_back({"time_rule", HP.size() * 5 * 2 * 2 * 2, [=](uint64_t i, Ctx& x) {
      Dec d(i);
      const HProb& hp = HP[d.take(HP.size())];
      int ct = cts[d.take(5)];
      Lib* L = load_lib(d.take(2) ? "mkl" : "bi");
      double frac = d.take(2) ? 0.4 : 2.0;
      bool upd = d.take(2);                             // a slow update before the solve must not count
      const long long SETUP = 500000000;
      OSQPSettings s = base_settings(L);
      s.eps_abs = 1e-300; s.eps_rel = 0; s.eps_prim_inf = s.eps_dual_inf = 1e-300;
      s.scaling = 0; s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_TIME; s.adaptive_rho_interval = 0; s.adaptive_rho_fraction = frac; s.adaptive_rho_tolerance = 1.1; s.check_termination = ct; s.time_limit = 1e9;
      s.max_iter = 60;
      std::set<int> cand = {1};
      for (int rd = 2; rd <= (th ? 130 : 80); rd++) {
        // far past the threshold, or just short of it
        for (int shortf = 0; shortf < 2; shortf++) {
          L->env->now_ns = T0; L->env->step_ns = 0;
          std::unique_ptr<Run> rp;
          { Jump j(L, 2, SETUP); rp.reset(new Run(L, hp.base, s)); }
          Run& r = *rp;
          if (r.rc) { x.viol("setup", "setup failed"); return; }
          if (upd) { Jump j(L, 2, 3 * SETUP); L->osqp_update_data_vec(r.s, hp.base.q.data(), hp.base.l.data(), hp.base.u.data()); }
          bool fired;
          { Jump j(L, rd, shortf ? (long long)(frac * SETUP) - 1000 : (long long)(frac * SETUP) + 1000); r.solve(); fired = j.fired(); }
          x.evals++;
          if (!fired) return;
          std::string first, e;
          std::set<int> nx, tryk = cand;
          if (shortf) tryk = {0};
          else { for (int k : cand) tryk.insert(k + 1); if (*cand.rbegin() >= r.s->info->iter) tryk.insert(1 << 20); }   // readings after the last iteration
          bool frag = false;                              // decided (also) by less than the whole comparison
          for (int k : tryk) {
            Ref m(hp.base, s);
            m.setup_time = SETUP * 1e-9;
            m.toc = [&](int it) { return k && it >= k ? 100.0 : 0.0; };
            RefRun R = m.solve(0);
            x.traces++; x.transitions += R.iter; x.states += R.iter;
            if (R.cond > 2e7 || (R.fragile && R.fragile_at < std::max(k, 1))) { frag = true; nx.insert(k); continue; }
            int want = m.interval;
            if (r.s->settings->adaptive_rho_interval != want) e = strf("[interval] interval %d instead of %d when the time is up at iteration %d", (int)r.s->settings->adaptive_rho_interval, want, k);
            else if (R.fragile) { frag = true; e = ""; }
            else e = differs(r, R, false);
            if (e.empty()) nx.insert(k); else if (first.empty()) first = e;
          }
          if (frag) x.skipped++;
          x.outcome(strf("%d %d", (int)r.s->settings->adaptive_rho_interval, (int)r.s->info->rho_updates));
          if (nx.empty()) { x.viol("time_" + keyof(first), "%s %s check_termination=%d fraction=%g, clock %s the threshold at reading %d: %s", L->variant.c_str(), hp.name.c_str(), ct, frac, shortf ? "stays just below" : "passes", rd, first.c_str()); return; }
          if (!shortf) cand = nx;
        }
      }
    }, [](uint64_t i) { Dec d(i); return HP[d.take(HP.size())].name + strf(" settings %llu", (unsigned long long)d.r); }});
    // (c) histories of solves and caller-made changes, against the model
    struct MOp { std::string name; int kind; double v; };
    static const std::vector<MOp> mops = {{"solve", 0, 0}, {"update_rho(1e-9)", 1, 1e-9}, {"update_rho(0.5)", 1, 0.5}, {"update_rho(1e8)", 1, 1e8}, {"l,u:=alt", 2, 1}, {"l,u:=base", 2, 0}, {"cold_start", 3, 0}, {"update_rho(20)", 1, 20}};
    // one bound at a time, changing row types (equality, one-sided, two-sided, unbounded) by one call; kind 4 sets l, 5 sets u
    static const std::vector<MOp> bops = {{"solve", 0, 0}, {"l:=u", 4, 0}, {"l:=-inf", 4, 1}, {"l:=base", 4, 2}, {"u:=l", 5, 0}, {"u:=inf", 5, 1}, {"u:=base", 5, 2}, {"update_rho(2)", 1, 2}};
    static const std::vector<Cfg> C = {
      {"bi:plain", [](OSQPSettings& s) { s.scaling = 0; s.adaptive_rho_interval = 3; s.adaptive_rho_tolerance = 2; s.check_termination = 2; s.max_iter = 11; }},
      {"bi:scalar", [](OSQPSettings& s) { s.scaling = 0; s.rho_is_vec = 0; s.adaptive_rho_interval = 2; s.adaptive_rho_tolerance = 1.5; s.check_termination = 4; s.max_iter = 7; }},
      {"bi:scaled_kkt", [](OSQPSettings& s) { s.scaling = 4; s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR; s.adaptive_rho_interval = 1; s.adaptive_rho_fraction = 0.7; s.adaptive_rho_tolerance = 1.2; s.check_termination = 5; s.max_iter = 9; }},
      {"mkl:fixed", [](OSQPSettings& s) { s.scaling = 0; s.adaptive_rho = 0; s.check_termination = 1; s.max_iter = 8; }},
      {"mkl:adapt", [](OSQPSettings& s) { s.scaling = 2; s.adaptive_rho_interval = 4; s.adaptive_rho_tolerance = 1.1; s.check_termination = 3; s.max_iter = 10; }}};
    for (int one = 0; one < 2; one++)
    for (int len = 1; len <= (one ? (th ? 4 : 3) : th ? 5 : 4); len++) {
      const std::vector<MOp>& ops = one ? bops : mops;
      uint64_t nh = upow(ops.size(), len);
      // the longest histories leave out the extreme step sizes, after which rounding decides too much
      auto val = [=](double v) { return len < 5 ? v : std::min(std::max(v, 1e-3), 1e3); };
      S.push_back({strf(one ? "one_bound_len%d" : "histories_len%d", len), nh * HP.size(), [=, &ops](uint64_t i, Ctx& x) {
        Dec d(i);
        const HProb& hp = HP[d.take(HP.size())];
        auto h = decode_hist(d.r, (int)ops.size(), len);
        h.push_back(0);                                 // every history ends with a solve
        for (auto& cf : C) {
          Lib* L = load_lib(cf.name.substr(0, cf.name.find(':')));
          OSQPSettings s = base_settings(L);
          cf.f(s);
          L->env->now_ns = T0; L->env->step_ns = 0;
          Ref m(hp.base, s);
          Run r(L, hp.base, s);
          if (r.rc) { x.viol("setup", "setup failed"); return; }
          std::string hs;
          bool moved = false;                           // step size no longer exactly the caller's
          for (int o : h) {
            auto& op = ops[o];
            hs += op.name + ";";
            if (op.kind == 0) {
              RefRun R = m.solve();
              x.traces++; x.transitions += R.iter; x.states += R.iter;
              if (R.fragile || R.cond > 2e7) { x.skipped++; break; }
              r.solve();
              x.evals++;
              std::string e = differs(r, R, true, len == 5 ? 1e-3 : moved ? 1e-4 : 0, len == 5 ? 5e-2 : 1e-3);
              if (R.rho_updates) moved = true;
              if (!e.empty()) { x.viol("history_" + keyof(e), "%s %s [%s]: %s", cf.name.c_str(), hp.name.c_str(), hs.c_str(), e.c_str()); break; }
              x.outcome(strf("%d %d %g", R.status, R.rho_updates, R.rho));
            } else if (op.kind == 1) {
              OSQPInt rc = L->osqp_update_rho(r.s, val(op.v));
              if (rc) { x.viol("update_rho", "%s %s [%s]: refused with %d", cf.name.c_str(), hp.name.c_str(), hs.c_str(), (int)rc); break; }
              m.rho = std::min(std::max(val(op.v), 1e-6), 1e6);
              m.factor();
              if (!close(r.s->settings->rho, m.rho, 1e-12, 0)) { x.viol("update_rho_value", "%s %s [%s]: step size %g instead of %g", cf.name.c_str(), hp.name.c_str(), hs.c_str(), (double)r.s->settings->rho, m.rho); break; }
            } else if (op.kind == 2) {
              const Prob& q = op.v ? hp.alt : hp.base;
              OSQPInt rc = L->osqp_update_data_vec(r.s, nullptr, q.l.data(), q.u.data());
              if (rc) { x.viol("update_bounds", "%s %s [%s]: refused with %d", cf.name.c_str(), hp.name.c_str(), hs.c_str(), (int)rc); break; }
              m.p.l = q.l; m.p.u = q.u; m.d.l = q.l; m.d.u = q.u;
              for (int k = 0; k < q.m; k++) { m.d.l[k] *= m.E[k]; m.d.u[k] *= m.E[k]; }
              m.set_types();
              m.factor();
            } else if (op.kind >= 4) {
              V nb = op.v == 2 ? (op.kind == 4 ? hp.base.l : hp.base.u) : op.v == 1 ? V(m.p.m, op.kind == 4 ? -OSQP_INFTY : OSQP_INFTY) : op.kind == 4 ? m.p.u : m.p.l;
              if (op.v == 0) for (int k = 0; k < m.p.m; k++) if (std::fabs(nb[k]) >= OSQP_INFTY) nb[k] = op.kind == 4 ? m.p.l[k] : m.p.u[k];
              bool bad = false;
              for (int k = 0; k < m.p.m; k++) bad = bad || (op.kind == 4 ? nb[k] > m.p.u[k] : m.p.l[k] > nb[k]);
              if (bad) break;                           // C07 judges refusals
              OSQPInt rc = L->osqp_update_data_vec(r.s, nullptr, op.kind == 4 ? nb.data() : nullptr, op.kind == 5 ? nb.data() : nullptr);
              if (rc) { x.viol("update_bounds", "%s %s [%s]: refused with %d", cf.name.c_str(), hp.name.c_str(), hs.c_str(), (int)rc); break; }
              (op.kind == 4 ? m.p.l : m.p.u) = nb;
              for (int k = 0; k < m.p.m; k++) nb[k] *= m.E[k];
              (op.kind == 4 ? m.d.l : m.d.u) = nb;
              m.set_types();
              m.factor();
            } else { L->osqp_cold_start(r.s); m.cold(); }
          }
        }
      }, [=, &ops](uint64_t i) { Dec d(i); auto& hp = HP[d.take(HP.size())]; std::string r = hp.name + " ["; for (int o : decode_hist(d.r, (int)ops.size(), len)) r += ops[o].name + ";"; return r + "solve]"; }});
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
