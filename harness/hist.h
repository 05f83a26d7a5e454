// Call histories on one solver: operations, observations, reference model of data/settings.
#pragma once
#include "common.h"
#include <algorithm>
#include <cstdlib>

// ---------------------------------------------------------------- observations
struct Snap {
  std::vector<double> v;
  std::vector<const char*> nm;
  void add(const char* n, double x) { nm.push_back(n); v.push_back(x); }
};
inline bool bit_eq(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b) || (a == 0 && b == 0); }
inline std::string snap_diff(const Snap& a, const Snap& b, double tol = 0) {
  if (a.v.size() != b.v.size()) return strf("different number of observations %zu/%zu", a.v.size(), b.v.size());
  std::string r;
  int k = 0;
  for (size_t i = 0; i < a.v.size(); i++) {
    bool eq = bit_eq(a.v[i], b.v[i]) || (tol > 0 && close(a.v[i], b.v[i], tol, tol));
    if (!eq && k++ < 6) r += strf("%s: %.12g instead of %.12g; ", a.nm[i], a.v[i], b.v[i]);
  }
  if (k > 6) r += strf("(%d differences)", k);
  return r;
}
enum { SN_SOL = 1, SN_INFO = 2, SN_TIMES = 4, SN_SETTINGS = 8 };
inline void snap_solver(Snap& s, const OSQPSolver* v, int n, int m, int what) {
  if ((what & SN_SOL) && v->solution) {
    for (int j = 0; j < n; j++) s.add("x", v->solution->x[j]);
    for (int i = 0; i < m; i++) s.add("y", v->solution->y[i]);
    for (int i = 0; i < m; i++) s.add("prim_inf_cert", v->solution->prim_inf_cert[i]);
    for (int j = 0; j < n; j++) s.add("dual_inf_cert", v->solution->dual_inf_cert[j]);
  }
  const OSQPInfo& I = *v->info;
  if (what & SN_INFO) {
    s.add("status_val", (double)I.status_val);
    s.add("status", (double)(hash64(I.status, strlen(I.status)) >> 16));
    s.add("status_polish", (double)I.status_polish);
    s.add("obj_val", I.obj_val); s.add("dual_obj_val", I.dual_obj_val); s.add("prim_res", I.prim_res); s.add("dual_res", I.dual_res);
    s.add("duality_gap", I.duality_gap); s.add("iter", (double)I.iter); s.add("rho_updates", (double)I.rho_updates);
    s.add("rho_estimate", I.rho_estimate); s.add("primdual_int", I.primdual_int); s.add("rel_kkt_error", I.rel_kkt_error);
  }
  if (what & SN_TIMES) {
    s.add("setup_time", I.setup_time); s.add("solve_time", I.solve_time); s.add("update_time", I.update_time);
    s.add("polish_time", I.polish_time); s.add("run_time", I.run_time);
  }
  if (what & SN_SETTINGS) {
    const OSQPSettings& S = *v->settings;
#define VF_S(f) s.add("settings->" #f, (double)S.f);
    VF_S(device) VF_S(linsys_solver) VF_S(allocate_solution) VF_S(verbose) VF_S(profiler_level) VF_S(warm_starting) VF_S(scaling) VF_S(polishing)
    VF_S(rho) VF_S(rho_is_vec) VF_S(sigma) VF_S(alpha) VF_S(cg_max_iter) VF_S(cg_tol_reduction) VF_S(cg_tol_fraction) VF_S(cg_precond)
    VF_S(adaptive_rho) VF_S(adaptive_rho_interval) VF_S(adaptive_rho_fraction) VF_S(adaptive_rho_tolerance) VF_S(max_iter) VF_S(eps_abs) VF_S(eps_rel)
    VF_S(eps_prim_inf) VF_S(eps_dual_inf) VF_S(scaled_termination) VF_S(check_termination) VF_S(check_dualgap) VF_S(time_limit) VF_S(delta) VF_S(polish_refine_iter)
#undef VF_S
  }
}

// ---------------------------------------------------------------- problems for histories
struct HProb { std::string name; Prob base, alt; };
inline Prob full_pattern(Prob p) {
  p.Pm.assign(p.n * p.n, 1);
  p.Am.assign(p.m * p.n, 1);
  return p;
}
// another problem with the same pattern, every kind of bound changed
inline Prob alternative(const Prob& p) {
  Prob a = p;
  for (int i = 0; i < p.n; i++)
    for (int j = 0; j < p.n; j++) {
      bool in = p.Pm.empty() ? p.P[i * p.n + j] != 0 : p.Pm[i * p.n + j] != 0;
      if (in) a.P[i * p.n + j] = 2 * p.P[i * p.n + j] + (i == j ? 1 : 0);
    }
  for (int j = 0; j < p.n; j++) a.q[j] = 1 - 2 * p.q[j] + j;
  for (size_t k = 0; k < p.A.size(); k++) {
    bool in = p.Am.empty() ? p.A[k] != 0 : p.Am[k] != 0;
    if (in) a.A[k] = p.A[k] == 0 ? 1 : -2 * p.A[k];
  }
  for (int i = 0; i < p.m; i++) {
    double l = p.l[i], u = p.u[i];
    if (l == u) { a.l[i] = l - 1; a.u[i] = INF; }
    else if (isinf_b(l) && isinf_b(u)) { a.l[i] = 0.5; a.u[i] = 0.5; }
    else if (isinf_b(u)) { a.l[i] = -INF; a.u[i] = INF; }
    else if (isinf_b(l)) { a.l[i] = u; a.u[i] = u; }
    else { a.l[i] = -INF; a.u[i] = u + 1; }
  }
  return a;
}
inline std::vector<HProb> hist_problems() {
  std::vector<HProb> R;
  auto add = [&](const char* nm, int n, int m, std::vector<double> P, std::vector<double> q, std::vector<double> A, std::vector<double> l, std::vector<double> u, bool full = true) {
    Prob p; p.n = n; p.m = m; p.P = P; p.q = q; p.A = A; p.l = l; p.u = u;
    if (full) p = full_pattern(p);
    R.push_back({nm, p, alternative(p)});
  };
  add("qp", 2, 2, {2, 1, 1, 2}, {1, -1}, {1, 1, 1, 0}, {1, -1}, {1, 0.5});
  add("lp", 2, 2, {0, 0, 0, 0}, {1, 1}, {1, 0, 0, 1}, {0, -1}, {1, INF});
  add("pinf", 2, 2, {1, 0, 0, 1}, {1, 0}, {1, 1, 1, 1}, {1, -INF}, {INF, -1});
  add("dinf", 2, 1, {0, 0, 0, 0}, {-1, 0}, {0, 1}, {0}, {1});
  add("uncon", 2, 0, {2, 1, 1, 3}, {1, -1}, {}, {}, {});
  add("loose", 1, 1, {1}, {0.1}, {1}, {-10}, {10});
  add("eq", 1, 2, {0}, {1}, {1, 2}, {1, -INF}, {1, INF});
  add("sparse", 3, 2, {1, 0, 0.5, 0, 0, 0, 0.5, 0, 2}, {1, 0, -1}, {1, 0, 1, 0, 2, 0}, {-1, 0}, {1, 1}, false);
  add("badly_scaled", 2, 2, {1000, 0, 0, 0.01}, {1, -100}, {100, 1, 0, 0.01}, {-10, -INF}, {10, 1});
  return R;
}

// ---------------------------------------------------------------- machine
struct Mach {
  Lib* L;
  HProb hp;
  Prob cur;             // data the solver should be working on
  OSQPSettings st;      // settings the solver should have (rho: the caller's last choice)
  Run r;
  OSQPInt setup_rc;
  std::vector<OSQPInt> rcs;
  bool solved_once = false;
  Mach(Lib* lib, const HProb& h, const OSQPSettings& s) : L(lib), hp(h), cur(h.base), st(s), r(lib, h.base, s), setup_rc(r.rc) {}
  OSQPSolver* s() { return r.s; }
  std::vector<double> pvals(const Prob& p) const { std::vector<double> v; for (auto& e : r.P.pos) v.push_back(p.P[e.first * p.n + e.second]); return v; }
  std::vector<double> avals(const Prob& p) const { std::vector<double> v; for (auto& e : r.A.pos) v.push_back(p.A[e.first * p.n + e.second]); return v; }
  void setP(size_t k, double v) { auto e = r.P.pos[k]; cur.P[e.first * cur.n + e.second] = v; cur.P[e.second * cur.n + e.first] = v; }
  void setA(size_t k, double v) { auto e = r.A.pos[k]; cur.A[e.first * cur.n + e.second] = v; }
  OSQPInt settings(const std::function<void(OSQPSettings&)>& f) {
    OSQPSettings n = st;
    f(n);
    n.rho = s()->settings->rho;
    OSQPInt rc = L->osqp_update_settings(s(), &n);
    if (!rc) { double rho = st.rho; st = n; st.rho = rho; }
    return rc;
  }
};
struct Op { std::string name; std::function<OSQPInt(Mach&)> f; };

struct OpSet {
  std::vector<Op> ops;
  void add(const std::string& n, std::function<OSQPInt(Mach&)> f) { ops.push_back({n, f}); }
};
inline Op op_solve() { return {"solve", [](Mach& m) { m.solved_once = true; return m.L->osqp_solve(m.s()); }}; }
inline Op op_cold() { return {"cold_start", [](Mach& m) { m.L->osqp_cold_start(m.s()); return (OSQPInt)0; }}; }
inline Op op_warm(int which) {  // 1 x, 2 y, 3 both
  return {strf("warm_start(%s)", which == 1 ? "x" : which == 2 ? "y" : "x,y"), [which](Mach& m) {
    std::vector<double> x(m.cur.n), y(m.cur.m);
    for (int j = 0; j < m.cur.n; j++) x[j] = 1 - 3 * j;
    for (int i = 0; i < m.cur.m; i++) y[i] = i ? -2 : 1;
    m.st.warm_starting = 1;
    return m.L->osqp_warm_start(m.s(), which & 1 ? x.data() : nullptr, which & 2 ? y.data() : nullptr);
  }};
}
inline Op op_q(bool alt) { return {alt ? "q:=alt" : "q:=base", [alt](Mach& m) { auto q = alt ? m.hp.alt.q : m.hp.base.q; OSQPInt rc = m.L->osqp_update_data_vec(m.s(), q.data(), nullptr, nullptr); if (!rc) m.cur.q = q; return rc; }}; }
inline Op op_b(bool alt, int which = 3) {
  return {strf("%s:=%s", which == 3 ? "l,u" : which == 1 ? "l" : "u", alt ? "alt" : "base"), [alt, which](Mach& m) {
    auto l = alt ? m.hp.alt.l : m.hp.base.l, u = alt ? m.hp.alt.u : m.hp.base.u;
    OSQPInt rc = m.L->osqp_update_data_vec(m.s(), nullptr, which & 1 ? l.data() : nullptr, which & 2 ? u.data() : nullptr);
    if (!rc) { if (which & 1) m.cur.l = l; if (which & 2) m.cur.u = u; }
    return rc;
  }};
}
// matrix values: which 1 P, 2 A, 3 both; full, or one entry through an index list
inline Op op_mat(bool alt, int which, bool partial) {
  return {strf("%s%s:=%s", which == 3 ? "P,A" : which == 1 ? "P" : "A", partial ? "[last,first]" : "", alt ? "alt" : "base"), [=](Mach& m) {
    const Prob& src = alt ? m.hp.alt : m.hp.base;
    auto pv = m.pvals(src), av = m.avals(src);
    std::vector<OSQPInt> pi, ai;
    if (partial) {
      auto sub = [](std::vector<double>& v, std::vector<OSQPInt>& ix) {
        std::vector<double> w;
        if (!v.empty()) { ix.push_back((OSQPInt)v.size() - 1); w.push_back(v.back()); }
        if (v.size() > 1) { ix.push_back(0); w.push_back(v[0]); }
        v = w;
      };
      sub(pv, pi); sub(av, ai);
    } else { for (size_t k = 0; k < pv.size(); k++) pi.push_back(k); for (size_t k = 0; k < av.size(); k++) ai.push_back(k); }
    bool doP = (which & 1) && !pv.empty(), doA = (which & 2) && !av.empty();
    OSQPInt rc = m.L->osqp_update_data_mat(m.s(), doP ? pv.data() : nullptr, doP && partial ? pi.data() : nullptr, doP ? (OSQPInt)pv.size() : 0,
                                           doA ? av.data() : nullptr, doA && partial ? ai.data() : nullptr, doA ? (OSQPInt)av.size() : 0);
    if (!rc) { if (doP) for (size_t k = 0; k < pv.size(); k++) m.setP(pi[k], pv[k]); if (doA) for (size_t k = 0; k < av.size(); k++) m.setA(ai[k], av[k]); }
    return rc;
  }};
}
// lists of no entries: nothing is to change.  The arrays behind them are as long as the counts say (exact) or hold the other problem's values
inline Op op_mat_none(int which, bool exact) {
  return {strf("%s at no entries", which == 3 ? "P,A" : which == 1 ? "P" : "A"), [=](Mach& m) {
    auto pv = m.pvals(m.hp.alt), av = m.avals(m.hp.alt);
    std::vector<OSQPInt> pi, ai;
    for (size_t k = 0; k < pv.size(); k++) pi.push_back(k);
    for (size_t k = 0; k < av.size(); k++) ai.push_back(k);
    pv.push_back(0); av.push_back(0); pi.push_back(0); ai.push_back(0);
    std::unique_ptr<OSQPInt[]> z(new OSQPInt[0]);
    std::unique_ptr<OSQPFloat[]> f(new OSQPFloat[0]);
    bool doP = which & 1, doA = which & 2;
    return m.L->osqp_update_data_mat(m.s(), doP ? (exact ? f.get() : pv.data()) : nullptr, doP ? (exact ? z.get() : pi.data()) : nullptr, 0,
                                     doA ? (exact ? f.get() : av.data()) : nullptr, doA ? (exact ? z.get() : ai.data()) : nullptr, 0);
  }};
}
inline Op op_rho(double v) { return {strf("update_rho(%g)", v), [v](Mach& m) { OSQPInt rc = m.L->osqp_update_rho(m.s(), v); if (!rc) m.st.rho = v; return rc; }}; }
inline Op op_set(const std::string& n, std::function<void(OSQPSettings&)> f) { return {"settings(" + n + ")", [f](Mach& m) { return m.settings(f); }}; }
inline Op op_get() {
  return {"get_solution", [](Mach& m) {
    int n = m.cur.n, mm = m.cur.m;
    std::vector<double> x(n + 1), y(mm + 1), p(mm + 1), d(n + 1);
    OSQPSolution so;
    so.x = x.data(); so.y = y.data(); so.prim_inf_cert = p.data(); so.dual_inf_cert = d.data();
    return m.L->osqp_get_solution(m.s(), &so);
  }};
}
inline Op op_deriv() {
  return {"adjoint_derivative", [](Mach& m) {
    if (!m.L->osqp_adjoint_derivative_compute || !m.cur.m || m.s()->info->status_val != OSQP_SOLVED) return (OSQPInt)0;
    std::vector<double> dx(m.cur.n, 1.0), dy(m.cur.m, 0.5), dq(m.cur.n), dl(m.cur.m), du(m.cur.m);
    OSQPInt rc = m.L->osqp_adjoint_derivative_compute(m.s(), dx.data(), dy.data());
    if (!rc) rc = m.L->osqp_adjoint_derivative_get_vec(m.s(), dq.data(), dl.data(), du.data());
    return rc == OSQP_FUNC_NOT_IMPLEMENTED ? (OSQPInt)0 : rc;  // MKL has none
  }};
}
// history number idx among all sequences of length len over k operations
inline std::vector<int> decode_hist(uint64_t idx, int k, int len) {
  std::vector<int> h(len);
  for (int i = len - 1; i >= 0; i--) { h[i] = (int)(idx % k); idx /= k; }
  return h;
}
inline uint64_t upow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
inline std::string hist_str(const std::vector<Op>& ops, const std::vector<int>& h) {
  std::string s;
  for (int o : h) s += (s.empty() ? "" : " ; ") + ops[o].name;
  return "[" + s + "]";
}
