// C16: polishing only ever improves the answer.
#include "refadmm.h"
#include "hist.h"
struct Pol { bool usable = false, none = false; V x, y, z; double prim = 0, dual = 0; };
// the documented polishing step, densely: guess the active rows from y, solve the regularised reduced KKT system, refine
static Pol model(Ref& m, const V& tx, const V& ty, double delta, int refine) {
  Pol r;
  const Prob& d = m.d;
  int n = d.n, M = d.m;
  std::vector<int> act(M, 0), rows;
  V Ax = matvec(m.p.A, M, n, tx);
  for (int i = 0; i < M; i++) {
    double y = ty[i];
    if (d.l[i] == d.u[i]) act[i] = -1;
    else if (y != 0 && std::fabs(y) < 1e-7 * (1 + m.sy)) return r;            // active or rounding: cannot tell
    else if (y < 0) act[i] = -1;
    else if (y > 0) act[i] = 1;
    if (act[i]) rows.push_back(i);
  }
  if (rows.empty()) { r.usable = r.none = true; return r; }
  int k = (int)rows.size(), N = n + k;
  V K(N * N, 0), Kd, b(N);
  for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) K[i * N + j] = d.P[i * n + j]; b[i] = -d.q[i]; }
  for (int a = 0; a < k; a++) {
    for (int j = 0; j < n; j++) K[(n + a) * N + j] = K[j * N + n + a] = d.A[rows[a] * n + j];
    b[n + a] = act[rows[a]] < 0 ? d.l[rows[a]] : d.u[rows[a]];
  }
  Kd = K;
  for (int i = 0; i < N; i++) Kd[i * N + i] += i < n ? delta : -delta;
  Lu lu;
  lu.factor(Kd, N);
  if (!lu.ok) return r;
  double inv = 0;
  for (int j = 0; j < N; j++) { V e(N, 0.0); e[j] = 1; inv = std::max(inv, ninf(lu.solve(e))); }
  if (inv * (1 + ninf(K)) > 3e6) return r;     // (nearly) singular: the result is decided by rounding
  V s = lu.solve(b);
  for (int it = 0; it < refine; it++) {
    V t = matvec(K, N, N, s);
    for (int i = 0; i < N; i++) t[i] = b[i] - t[i];
    t = lu.solve(t);
    for (int i = 0; i < N; i++) s[i] += t[i];
  }
  V xs(s.begin(), s.begin() + n), ys(M, 0), zs = matvec(d.A, M, n, xs);
  for (int a = 0; a < k; a++) ys[rows[a]] = s[n + a];
  for (int i = 0; i < M; i++) { double w = ys[i] + zs[i], c = std::min(std::max(w, d.l[i]), d.u[i]); zs[i] = c; ys[i] = w - c; }
  r.usable = true;
  for (int j = 0; j < n; j++) r.x.push_back(xs[j] * m.D[j]);
  for (int i = 0; i < M; i++) { r.y.push_back(ys[i] * m.E[i] / m.c); r.z.push_back(zs[i] / m.E[i]); }
  auto me = Ref::measure(m.p, r.x, r.z, r.y);
  r.prim = me.prim; r.dual = me.dual;
  return r;
}
static bool near_vec(const V& a, const V& b, double tol) { double sc = 1 + std::max(ninf(a), ninf(b)); for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= tol * sc)) return false; return true; }
// r: polished, t: its twin without polishing, both just solved
static void judge(Ctx& x, Run& r, Run& t, Ref& m, const OSQPSettings& s, bool exact, const std::string& who) {
  const OSQPInfo &I = *r.s->info, &T = *t.s->info;
  x.evals++;
  auto bad = [&](const char* key, const std::string& msg) { x.viol(key, "%s: %s; %s", who.c_str(), msg.c_str(), m.p.str().c_str()); };
  int sp = (int)I.status_polish;
  x.outcome(strf("%d %d", (int)I.status_val, sp));
  if (I.status_val != T.status_val || I.iter != T.iter || I.rho_updates != T.rho_updates || strcmp(I.status, T.status)) { bad("status", strf("%s after %d iterations with polishing, %s after %d without", I.status, (int)I.iter, T.status, (int)T.iter)); return; }
  if (I.status_val != OSQP_SOLVED && sp != OSQP_POLISH_NOT_PERFORMED) bad("not_solved", strf("polish status %d although the problem is not solved", sp));
  if (I.status_val == OSQP_SOLVED && sp == OSQP_POLISH_NOT_PERFORMED) bad("not_performed", "solved, but polishing was not performed");
  if (sp != OSQP_POLISH_SUCCESS) {
    Snap a, b;
    snap_solver(a, r.s, m.p.n, m.p.m, SN_SOL | SN_INFO);
    snap_solver(b, t.s, m.p.n, m.p.m, SN_SOL | SN_INFO);
    for (size_t k = 0; k < a.nm.size(); k++) if (!strcmp(a.nm[k], "status_polish")) { a.v[k] = b.v[k] = 0; }
    std::string e = snap_diff(a, b);
    if (!e.empty()) bad("unpolished_changed", strf("polish status %d but the result differs from the unpolished one: %s", sp, e.c_str()));
  } else {
    if (!(I.prim_res <= std::max((double)T.prim_res, 1e-9 * (1 + m.sx))) || !(I.dual_res <= std::max((double)T.dual_res, 1e-9 * (1 + m.sx)))) bad("worse", strf("polishing reported successful, residuals went from %.3g/%.3g to %.3g/%.3g", (double)T.prim_res, (double)T.dual_res, (double)I.prim_res, (double)I.dual_res));
    V y = r.y();
    for (int i = 0; i < m.p.m; i++) if ((y[i] > 0 && m.p.u[i] > 1e26) || (y[i] < 0 && m.p.l[i] < -1e26)) bad("sign", strf("multiplier %g at an infinite bound", y[i]));
    Kkt k = kkt(m.p, r.x(), y);
    // y has the sign of the bound Ax sits at: the duality gap then is what the residuals allow
    double lim = 10 * (I.prim_res * (1 + ninf(y)) + I.dual_res * (1 + ninf(r.x()))) * (m.p.n + m.p.m) + 1e-8 * (1 + std::fabs(k.pobj));
    double tg = s.eps_abs + s.eps_rel * std::max({std::fabs(k.xPx), std::fabs(k.qx), std::fabs(k.sc)}) + 1e-8 * (1 + std::fabs(k.pobj));
    if (s.check_dualgap && !(std::fabs(k.gap) <= std::max(tg, std::fabs((double)T.duality_gap) * (1 + 1e-6)))) bad("gap_worse", strf("polishing reported successful, duality gap went from %.3g to %.3g (requested %.3g)", (double)T.duality_gap, k.gap, tg));
    if (!(std::fabs(k.gap) <= lim)) bad("gap", strf("polished residuals %.3g/%.3g but duality gap %.3g", (double)I.prim_res, (double)I.dual_res, k.gap));
  }
  if (!exact || I.status_val != OSQP_SOLVED) return;
  Pol p = model(m, t.x(), t.y(), s.delta, (int)s.polish_refine_iter);
  if (!p.usable) { x.skipped++; return; }
  if (p.none != (sp == OSQP_POLISH_NO_ACTIVE_SET_FOUND)) { bad("active_set", strf("polish status %d, active rows by y=%s", sp, vecstr(t.y()).c_str())); return; }
  if (p.none) return;
  x.states++; x.transitions++;
  double unit = 1e-9 * (1 + ninf(p.x) + ninf(p.y) + m.sx);
  if (sp == OSQP_POLISH_SUCCESS) {
    if (!near_vec(r.x(), p.x, 1e-6)) bad("x", strf("polished x=%s, solution on the active set %s", vecstr(r.x()).c_str(), vecstr(p.x).c_str()));
    if (!near_vec(r.y(), p.y, 1e-6)) bad("y", strf("polished y=%s, multipliers on the active set %s", vecstr(r.y()).c_str(), vecstr(p.y).c_str()));
  } else if (Kkt pk = kkt(m.p, p.x, p.y); (!s.check_dualgap || std::fabs(pk.gap) < 0.5 * std::max(std::fabs((double)T.duality_gap), (double)s.eps_abs)) && p.prim < 0.5 * T.prim_res && p.dual < 0.5 * T.dual_res && T.prim_res > unit && T.dual_res > unit)
    bad("missed", strf("polish status %d although the solution on the active set improves the residuals from %.3g/%.3g to %.3g/%.3g", sp, (double)T.prim_res, (double)T.dual_res, p.prim, p.dual));
}
struct Cfg { std::string name; std::function<void(OSQPSettings&)> f; };
int main(int argc, char** argv) {
  Check c;
  c.id = "C16"; c.level = "exploration";
  c.rule = "each solve run beside a twin without polishing and a dense model of the polishing step (active rows from y, regularised reduced KKT system, refinement); status, acceptance, returned point and residuals judged; histories of updates with polishing switched on and off";
  c.assumptions = {"nearly singular reduced systems are judged by residuals only", "the model comparison is for direct linear solvers"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    static const double deltas[] = {1e-6, 1e-3, 1e-1};
    static const int refs[] = {0, 1, 3, 10};
    static const double epss[] = {1e-3, 1e-1, 1e-8};
    auto addp = [&](const std::string& fam, uint64_t stride, bool full) {
      auto f = std::make_shared<Family>(family(fam));
      uint64_t np = (f->count() + stride - 1) / stride;
      int nv = full ? 3 * 4 * 3 : 4;
      S.push_back({"problems_" + fam, np * nv, [=](uint64_t i, Ctx& x) {
        Dec d(i);
        Prob p = f->get(d.take(np) * stride);
        double de, ep; int rf;
        if (full) { de = deltas[d.take(3)]; rf = refs[d.take(4)]; ep = epss[d.take(3)]; }
        else { int v = d.take(4); de = deltas[v == 3 ? 1 : 0]; rf = refs[v == 1 ? 0 : 2]; ep = epss[v == 2 ? 1 : 0]; }
        for (int v = 0; v < 4; v++) {
          Lib* L = load_lib(v == 1 || v == 3 ? "mkl" : "bi");
          OSQPSettings s = base_settings(L);
          s.scaling = v == 0 ? 0 : v == 1 ? 5 : 10;
          if (v == 2) { s.sigma = 0.1; s.rho_is_vec = 0; }
          if (v == 3) { s.linsys_solver = OSQP_INDIRECT_SOLVER; s.max_iter = 300; }
          s.delta = de; s.polish_refine_iter = rf; s.eps_abs = s.eps_rel = ep;
          s.check_termination = 1;
          s.polishing = 0;
          Run t(L, p, s);
          s.polishing = 1;
          Run r(L, p, s);
          if (r.rc || t.rc) { x.viol("setup", "setup failed"); return; }
          t.solve(); r.solve();
          Ref m(p, s);
          m.sx = m.sy = 0;
          judge(x, r, t, m, s, v != 3, strf("%s%s scaling=%d delta=%g refine=%d eps=%g", L->variant.c_str(), v == 3 ? " indirect" : "", (int)s.scaling, de, rf, ep));
        }
      }, [=](uint64_t i) { Dec d(i); return f->get(d.take(np) * stride).str() + strf(" settings %llu", (unsigned long long)d.r); }});
    };
    addp("n1m1", 1, true);
    addp("n1m2", th ? 1 : 7, true);
    addp("n2m1", th ? 1 : 3, false);
    addp("n2m2", th ? 29 : 301, false);
    addp("n3m2", th ? 7 : 97, false);
    addp("scaled_s", th ? 1 : 5, true);
    // histories
    static std::vector<HProb> HP;
    HP = hist_problems();
    static const std::vector<Op> ops = {op_solve(), op_q(true), op_b(true), op_b(false), op_mat(true, 3, false), op_mat(false, 1, true), op_set("polishing=0", [](OSQPSettings& s) { s.polishing = 0; }), op_set("polishing=1", [](OSQPSettings& s) { s.polishing = 1; }),
      op_set("delta=1e-3", [](OSQPSettings& s) { s.delta = 1e-3; }), op_set("polish_refine_iter=0", [](OSQPSettings& s) { s.polish_refine_iter = 0; }), op_set("max_iter=2", [](OSQPSettings& s) { s.max_iter = 2; })};
    for (int len = 1; len <= (th ? 4 : 3); len++) {
      uint64_t nh = upow(ops.size(), len);
      S.push_back({strf("histories_len%d", len), nh * HP.size(), [=](uint64_t i, Ctx& x) {
        Dec d(i);
        const HProb& hp = HP[d.take(HP.size())];
        auto h = decode_hist(d.r, (int)ops.size(), len);
        h.push_back(0);
        for (int v = 0; v < 3; v++) {
          Lib* L = load_lib(v == 1 ? "mkl" : "bi");
          OSQPSettings s = base_settings(L);
          s.scaling = v == 0 ? 0 : 6; s.polishing = 1; s.check_termination = 5; s.adaptive_rho = 0;
          if (v == 2) { s.sigma = 0.03; s.delta = 1e-5; }
          Mach a(L, hp, s);
          s.polishing = 0;
          Mach b(L, hp, s);
          if (a.setup_rc || b.setup_rc) { x.viol("setup", "setup failed"); return; }
          std::string hs;
          for (int o : h) {
            hs += ops[o].name + ";";
            if (o == 0) { L->osqp_cold_start(a.s()); L->osqp_cold_start(b.s()); }
            OSQPInt ra = ops[o].f(a), rb = 0;
            if (o != 6 && o != 7) rb = ops[o].f(b);
            if (ra != rb) { x.viol("code", "%s %s [%s]: %s returned %d with polishing, %d without", L->variant.c_str(), hp.name.c_str(), hs.c_str(), ops[o].name.c_str(), (int)ra, (int)rb); break; }
            if (o != 0) continue;
            if (!a.s()->settings->polishing) {
              Snap u, w;
              snap_solver(u, a.s(), hp.base.n, hp.base.m, SN_SOL | SN_INFO);
              snap_solver(w, b.s(), hp.base.n, hp.base.m, SN_SOL | SN_INFO);
              std::string e = snap_diff(u, w);
              x.evals++;
              if (!e.empty()) { x.viol("left_behind", "%s %s [%s]: polishing is off but the result differs from a solver that never polished: %s", L->variant.c_str(), hp.name.c_str(), hs.c_str(), e.c_str()); break; }
              continue;
            }
            OSQPSettings cs = a.st;
            Ref m(a.cur, cs);          // scaling of the current data; vector updates keep the older one, so compare the point only without scaling or at refinement
            bool exact = cs.scaling == 0 || cs.polish_refine_iter >= 3;
            size_t before = x.viols.size();
            judge(x, a.r, b.r, m, cs, exact, strf("%s %s [%s] scaling=%d", L->variant.c_str(), hp.name.c_str(), hs.c_str(), (int)cs.scaling));
            x.traces++;
            if (x.viols.size() != before) break;
          }
        }
      }, [=](uint64_t i) { Dec d(i); auto& hp = HP[d.take(HP.size())]; return hp.name + " " + hist_str(ops, decode_hist(d.r, (int)ops.size(), len)) + " solve"; }});
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
