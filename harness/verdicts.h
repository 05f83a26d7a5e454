// Dense verification of what a final status claims.
#pragma once
#include "common.h"
#include <algorithm>
inline void check_solved(Ctx& x, const std::string& name, Run& r, const OSQPSettings& s, const std::string& what) {
  double f = r.status() == OSQP_SOLVED_INACCURATE ? 10 : 1, ea = f * s.eps_abs, er = f * s.eps_rel;
  auto X = r.x(), Y = r.y();
  Kkt k = kkt(r.pr, X, Y);
  double slack = 1e-9 * (1 + std::max({k.nAx, k.nPx, k.nAty, k.nq}));
  auto bad = [&](const char* key, double got, double lim) {
    x.viol(std::string(key), "%s: %s %.6g exceeds the requested accuracy %.6g; x=%s y=%s iter=%d status_polish=%d; %s", name.c_str(), key, got, lim,
           vecstr(X).c_str(), vecstr(Y).c_str(), (int)r.s->info->iter, (int)r.s->info->status_polish, what.c_str());
  };
  for (double v : X) if (!(std::fabs(v) < 1e300)) { bad("nonfinite_x", v, 0); return; }
  for (double v : Y) if (!(std::fabs(v) < 1e300)) { bad("nonfinite_y", v, 0); return; }
  double tp = (ea + er * k.nAx) / (1 - er) + slack;
  if (!(k.prim <= tp)) bad("primal_residual", k.prim, tp);
  double td = ea + er * std::max({k.nPx, k.nAty, k.nq}) + slack;
  if (!(k.dual <= td)) bad("dual_residual", k.dual, td);
  double ny = ninf(Y);
  bool pol = r.s->info->status_polish == OSQP_POLISH_SUCCESS;
  if (!(k.compl_sign <= 1e-6 * (1 + ny))) bad(pol ? "dual_sign_polished" : "dual_sign", k.compl_sign, 1e-6 * (1 + ny));
  // duality gap: a requested criterion; values of y at infinite bounds are dropped, as documented
  if (s.check_dualgap) {
    double tg = ea + er * std::max({std::fabs(k.xPx), std::fabs(k.qx), std::fabs(k.sc)}) + 1e-8 * (1 + std::fabs(k.xPx) + std::fabs(k.qx) + std::fabs(k.sc) + ny);
    if (!(std::fabs(k.gap) <= tg)) bad(pol ? "duality_gap_polished" : "duality_gap", std::fabs(k.gap), tg);
  }
}

inline void check_cert(Ctx& x, const std::string& name, Run& r, const OSQPSettings& s, const std::string& what) {
  int st = r.status();
  const Prob& p = r.pr;
  bool prim = st == OSQP_PRIMAL_INFEASIBLE || st == OSQP_PRIMAL_INFEASIBLE_INACCURATE;
  double f = (st == OSQP_PRIMAL_INFEASIBLE_INACCURATE || st == OSQP_DUAL_INFEASIBLE_INACCURATE) ? 10 : 1;
  auto v = prim ? r.pc() : r.dc();
  auto other = prim ? r.dc() : r.pc();
  auto bad = [&](const char* key, double got, double lim) {
    x.viol(std::string(prim ? "primal_cert_" : "dual_cert_") + key, "%s: certificate %s: %s = %.8g (limit %.8g) iter=%d; %s", name.c_str(), vecstr(v).c_str(), key, got, lim, (int)r.s->info->iter, what.c_str());
  };
  // documented sentinels elsewhere
  for (double t : r.x()) if (t != OSQP_NAN) bad("x_not_blanked", t, OSQP_NAN);
  for (double t : r.y()) if (t != OSQP_NAN) bad("y_not_blanked", t, OSQP_NAN);
  for (double t : other) if (t != OSQP_NAN) bad("other_cert_not_blanked", t, OSQP_NAN);
  double want = prim ? OSQP_INFTY : -OSQP_INFTY;
  if (r.s->info->obj_val != want) bad("objective", r.s->info->obj_val, want);
  double nv = ninf(v);
  if (!(std::fabs(nv - 1) <= 1e-9)) { bad("norm", nv, 1); return; }
  if (prim) {
    double e = f * s.eps_prim_inf;
    auto a = matTvec(p.A, p.m, p.n, v);
    double na = ninf(a);
    if (!(na <= e * (1 + 1e-6) + 1e-11 * (1 + ninf(p.A)))) bad("AtV", na, e);
    double sup = 0;
    for (int i = 0; i < p.m; i++) {
      if (v[i] > 0) { if (isinf_b(p.u[i])) bad("sign", v[i], 0); else sup += p.u[i] * v[i]; }
      if (v[i] < 0) { if (isinf_b(p.l[i])) bad("sign", v[i], 0); else sup += p.l[i] * v[i]; }
    }
    if (!(sup < 0)) bad("support", sup, 0);
  } else {
    double e = f * s.eps_dual_inf;
    auto Pd = matvec(p.P, p.n, p.n, v), Ad = matvec(p.A, p.m, p.n, v);
    if (!(ninf(Pd) <= e * (1 + 1e-6) + 1e-11 * (1 + ninf(p.P)))) bad("PV", ninf(Pd), e);
    if (!(dot(p.q, v) < 0)) bad("qV", dot(p.q, v), 0);
    double t = e * (1 + 1e-6) + 1e-11 * (1 + ninf(p.A));
    for (int i = 0; i < p.m; i++) {
      if (!isinf_b(p.u[i]) && !(Ad[i] <= t)) bad("AV_above", Ad[i], t);
      if (!isinf_b(p.l[i]) && !(Ad[i] >= -t)) bad("AV_below", Ad[i], -t);
    }
  }
}
