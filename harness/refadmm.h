// The documented algorithm, written densely and independently of the library: the model of C05/C11/C15.
#pragma once
#include "common.h"
#include <algorithm>

typedef std::vector<double> V;
// dense LU with partial pivoting and one refinement step
struct Lu {
  int n = 0;
  V a, a0;
  std::vector<int> piv;
  bool ok = true;
  void factor(const V& m, int n_) {
    n = n_; a = a0 = m; piv.assign(n, 0); ok = true;
    for (int k = 0; k < n; k++) {
      int b = k;
      for (int i = k + 1; i < n; i++) if (std::fabs(a[i * n + k]) > std::fabs(a[b * n + k])) b = i;
      piv[k] = b;
      if (a[b * n + k] == 0) { ok = false; return; }
      if (b != k) for (int j = 0; j < n; j++) std::swap(a[k * n + j], a[b * n + j]);
      for (int i = k + 1; i < n; i++) {
        double f = a[i * n + k] /= a[k * n + k];
        if (f != 0) for (int j = k + 1; j < n; j++) a[i * n + j] -= f * a[k * n + j];
      }
    }
  }
  V sub(V b) const {
    for (int k = 0; k < n; k++) if (piv[k] != k) std::swap(b[k], b[piv[k]]);
    for (int k = 0; k < n; k++) for (int i = k + 1; i < n; i++) b[i] -= a[i * n + k] * b[k];
    for (int k = n - 1; k >= 0; k--) { for (int j = k + 1; j < n; j++) b[k] -= a[k * n + j] * b[j]; b[k] /= a[k * n + k]; }
    return b;
  }
  V solve(const V& b) const {
    V x = sub(b);
    for (int it = 0; it < 2; it++) {
      V r(n);
      for (int i = 0; i < n; i++) { long double s = b[i]; for (int j = 0; j < n; j++) s -= (long double)a0[i * n + j] * x[j]; r[i] = (double)s; }
      V d = sub(r);
      for (int i = 0; i < n; i++) x[i] += d[i];
    }
    return x;
  }
};

struct RefRun {        // what a solve should report
  int status = OSQP_UNSOLVED;
  int iter = 0, rho_updates = 0;
  double rho = 0, rho_estimate = 0;
  V x, y, z;           // caller's units
  V cert;
  double prim_res = 0, dual_res = 0, gap = 0;
  double big = 0, cond = 1, noise = 0, sx = 1, sy = 1;   // sx, sy: size of the caller's units
  bool fragile = false;      // some decision was within rounding of its threshold: nothing is claimed
  int fragile_at = 0;        // iteration of the first such decision (0: none)
  bool estimate_fragile = false;
  std::vector<int> rho_changed_at;
};

struct Ref {
  Prob p, d;              // caller's data, data iterated on
  OSQPSettings s;
  V D, E; double c = 1;
  V x, y, z, dx, dy;      // scaled
  double rho;
  V rhov;
  std::vector<int> type;
  Lu kkt_;
  bool frag = false;
  double cond = 1;        // worst conditioning of the linear systems
  double big = 0;         // largest number met on the way
  int interval = 0;
  std::function<double(int)> toc = [](int) { return 0.0; };   // clock during the solve, at iteration k
  double setup_time = 0;
  double sx = 0, sy = 0;  // (C16: size of the caller's units)

  Ref(const Prob& prob, const OSQPSettings& st) : p(prob), d(prob), s(st) {
    rho = std::min(std::max((double)st.rho, 1e-6), 1e6);
    interval = (int)st.adaptive_rho_interval;
    if (!interval && st.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_ITERATIONS) interval = st.check_termination ? 4 * (int)st.check_termination : 100;
    if (!interval && st.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR) interval = 1;
    equilibrate();
    set_types();
    factor();
    x.assign(p.n, 0); z.assign(p.m, 0); y.assign(p.m, 0);
    dx = x; dy = y;
  }
  void equilibrate() {
    int n = p.n, m = p.m;
    D.assign(n, 1); E.assign(m, 1); c = 1;
    // (column norms of P are those of its stored upper triangle, see known_findings.txt)
    auto lim = [](double v) { return v < 1e-4 ? 1.0 : v > 1e4 ? 1e4 : v; };
    for (int k = 0; k < s.scaling; k++) {
      V dn(n, 0), en(m, 0);
      for (int j = 0; j < n; j++) {
        for (int i = 0; i <= j; i++) dn[j] = std::max(dn[j], std::fabs(d.P[i * n + j]));
        for (int i = 0; i < m; i++) { double a = std::fabs(d.A[i * n + j]); dn[j] = std::max(dn[j], a); en[i] = std::max(en[i], a); }
      }
      for (double& v : dn) v = 1 / std::sqrt(lim(v));
      for (double& v : en) v = 1 / std::sqrt(lim(v));
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) d.P[i * n + j] *= dn[i] * dn[j];
      for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) d.A[i * n + j] *= en[i] * dn[j];
      for (int j = 0; j < n; j++) { d.q[j] *= dn[j]; D[j] *= dn[j]; }
      for (int i = 0; i < m; i++) E[i] *= en[i];
      double avg = 0;
      for (int j = 0; j < n; j++) { double t = 0; for (int i = 0; i <= j; i++) t = std::max(t, std::fabs(d.P[i * n + j])); avg += t; }
      double ct = 1 / lim(std::max(avg / n, lim(ninf(d.q))));
      for (double& v : d.P) v *= ct;
      for (double& v : d.q) v *= ct;
      c *= ct;
    }
    for (int i = 0; i < m; i++) { d.l[i] *= E[i]; d.u[i] *= E[i]; }
  }
  void set_types() {
    type.assign(p.m, 0);
    for (int i = 0; i < p.m; i++) {
      if (d.l[i] < -1e26 && d.u[i] > 1e26) type[i] = -1;
      else if (d.u[i] - d.l[i] < 1e-4) type[i] = 1;
    }
  }
  void factor() {
    int n = p.n, m = p.m, N = n + m;
    rhov.assign(m, rho);
    if (s.rho_is_vec) for (int i = 0; i < m; i++) rhov[i] = type[i] < 0 ? 1e-6 : type[i] > 0 ? 1e3 * rho : rho;
    V K(N * N, 0);
    for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) K[i * N + j] = d.P[i * n + j]; K[i * N + i] += s.sigma; }
    for (int i = 0; i < m; i++) {
      for (int j = 0; j < n; j++) K[(n + i) * N + j] = K[j * N + n + i] = d.A[i * n + j];
      K[(n + i) * N + n + i] = -1 / rhov[i];
    }
    kkt_.factor(K, N);
    // growth when the variables are eliminated first, whatever the pivoting
    double cn = 1;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) cn = std::max(cn, d.A[i * n + j] * d.A[i * n + j] / (d.P[j * n + j] + s.sigma));
    for (int j = 0; j < n; j++) { V e(N, 0.0); e[j] = 1; e = kkt_.solve(e); for (int i = 0; i < n; i++) cn = std::max(cn, std::fabs(e[i]) * (ninf(d.A) * ninf(d.A) + ninf(d.P))); }
    cond = std::max(cond, cn);
  }
  void warm(const double* X, const double* Y) {   // caller's units
    if (X) { for (int j = 0; j < p.n; j++) x[j] = X[j] / D[j]; z = matvec(d.A, p.m, p.n, x); }
    if (Y) for (int i = 0; i < p.m; i++) y[i] = Y[i] / E[i] * c;
  }
  // a matrix update rescales the problem; the iterates stay where they are in the caller's units
  void set_matrices(const V& P, const V& A) {
    V X = ux(), Y = uy(), Z = uz();
    p.P = P; p.A = A;
    d = p;
    equilibrate();
    for (int j = 0; j < p.n; j++) x[j] = X[j] / D[j];
    for (int i = 0; i < p.m; i++) { z[i] = Z[i] * E[i]; y[i] = Y[i] / E[i] * c; }
    set_types();
    factor();
  }
  void set_vectors(const V* q, const V* l, const V* u) {
    if (q) { p.q = *q; for (int j = 0; j < p.n; j++) d.q[j] = c * D[j] * p.q[j]; }
    if (l) { p.l = *l; for (int i = 0; i < p.m; i++) d.l[i] = E[i] * p.l[i]; }
    if (u) { p.u = *u; for (int i = 0; i < p.m; i++) d.u[i] = E[i] * p.u[i]; }
    if (l || u) { set_types(); factor(); }
  }
  void set_rho(double r) { rho = std::min(std::max(r, 1e-6), 1e6); factor(); }
  void cold() { x.assign(p.n, 0); z.assign(p.m, 0); y.assign(p.m, 0); }
  void step() {
    int n = p.n, m = p.m;
    V b(n + m);
    for (int j = 0; j < n; j++) b[j] = s.sigma * x[j] - d.q[j];
    for (int i = 0; i < m; i++) b[n + i] = z[i] - y[i] / rhov[i];
    V t = kkt_.solve(b);
    big = std::max({big, ninf(t), ninf(b)});
    double al = s.alpha;
    for (int j = 0; j < n; j++) { double xn = al * t[j] + (1 - al) * x[j]; dx[j] = xn - x[j]; x[j] = xn; }
    for (int i = 0; i < m; i++) {
      double zt = z[i] + (t[n + i] - y[i]) / rhov[i];
      double w = al * zt + (1 - al) * z[i];
      double zn = std::min(std::max(w + y[i] / rhov[i], d.l[i]), d.u[i]);
      dy[i] = rhov[i] * (w - zn);
      y[i] += dy[i];
      z[i] = zn;
    }
  }
  V ux() const { V r(p.n); for (int j = 0; j < p.n; j++) r[j] = D[j] * x[j]; return r; }
  V uy() const { V r(p.m); for (int i = 0; i < p.m; i++) r[i] = E[i] * y[i] / c; return r; }
  V uz() const { V r(p.m); for (int i = 0; i < p.m; i++) r[i] = z[i] / E[i]; return r; }
  struct Meas { double prim, dual, gap, nAx, nz, nPx, nAty, nq, xPx, qx, sc; };
  static Meas measure(const Prob& q, const V& x, const V& z, const V& y) {
    Meas r;
    V Ax = matvec(q.A, q.m, q.n, x), Px = matvec(q.P, q.n, q.n, x), Aty = matTvec(q.A, q.m, q.n, y);
    r.prim = 0;
    for (int i = 0; i < q.m; i++) r.prim = std::max(r.prim, std::fabs(Ax[i] - z[i]));
    r.dual = 0;
    for (int j = 0; j < q.n; j++) r.dual = std::max(r.dual, std::fabs(Px[j] + q.q[j] + Aty[j]));
    r.nAx = ninf(Ax); r.nz = ninf(z); r.nPx = ninf(Px); r.nAty = ninf(Aty); r.nq = ninf(q.q);
    r.xPx = dot(Px, x); r.qx = dot(q.q, x); r.sc = 0;
    for (int i = 0; i < q.m; i++) {
      if (std::fabs(y[i]) <= 1e-20) continue;
      if (y[i] > 0 && q.u[i] < 1e26) r.sc += q.u[i] * y[i];
      if (y[i] < 0 && q.l[i] > -1e26) r.sc += q.l[i] * y[i];
    }
    r.gap = r.xPx + r.qx + r.sc;
    return r;
  }
  Meas user() const { return measure(p, ux(), uz(), uy()); }
  Meas scaled() const { return measure(d, x, z, y); }
  // a < b, in three values: 1 yes, 0 no, -1 too close to call
  static int less3(double a, double b, double noise) {
    if (std::fabs(a - b) <= 1e-6 * std::max(std::fabs(a), std::fabs(b)) + noise) return -1;
    return a < b;
  }
  static int and3(std::initializer_list<int> l) { int r = 1; for (int v : l) { if (v == 0) return 0; if (v < 0) r = -1; } return r; }
  double noise() const { return 1e-14 * cond * big; }   // what rounding may do to an iterate
  bool scaled_tests() const { return s.scaling && s.scaled_termination; }
  V cert_y() const {      // projected change of y, caller's units up to a positive factor
    const Prob& q = scaled_tests() ? d : p;
    V v = dy;
    if (!scaled_tests()) for (int i = 0; i < p.m; i++) v[i] *= E[i];
    for (int i = 0; i < p.m; i++) { if (v[i] > 0 && q.u[i] > 1e26) v[i] = 0; if (v[i] < 0 && q.l[i] < -1e26) v[i] = 0; }
    return v;
  }
  V cert_x() const { V v = dx; if (!scaled_tests()) for (int j = 0; j < p.n; j++) v[j] *= D[j]; return v; }
  int prim_inf(double eps) {
    const Prob& q = scaled_tests() ? d : p;
    V v = cert_y();
    double nv = ninf(v);
    if (nv == 0) return ninf(dy) < 1e-6 && ninf(dy) > 0 ? -1 : 0;
    double sup = 0, mag = 0;
    for (int i = 0; i < p.m; i++) { double t = v[i] > 0 ? q.u[i] * v[i] : v[i] < 0 ? q.l[i] * v[i] : 0; sup += t; mag += std::fabs(t); }
    double mb = 0;     // largest finite bound
    for (int i = 0; i < p.m; i++) { if (q.u[i] < 1e26) mb = std::max(mb, std::fabs(q.u[i])); if (q.l[i] > -1e26) mb = std::max(mb, std::fabs(q.l[i])); }
    V a = matTvec(q.A, p.m, p.n, v);
    int r = and3({mb == 0 ? 0 : less3(sup, 0, 1e-7 * mag + mb * (1e-7 * nv + 10 * noise() * ninf(rhov) * ninf(E))), less3(ninf(a), eps * nv, 1e-8 * ninf(q.A) * nv)});
    return nv < 1e-6 ? -1 : r;      // differences at rounding level decide nothing
  }
  int dual_inf(double eps) {
    const Prob& q = scaled_tests() ? d : p;
    V v = cert_x();
    double nv = ninf(v);

    if (nv < 1e-6) return -1;
    double qv = dot(q.q, v);
    int r = ninf(q.q) == 0 ? 0 : less3(qv, 0, ninf(q.q) * (1e-7 * nv + 10 * noise() * ninf(D)));
    r = and3({r, less3(ninf(matvec(q.P, p.n, p.n, v)), eps * nv, ninf(q.P) * (1e-8 * nv + 10 * noise() * ninf(D)))});
    V a = matvec(q.A, p.m, p.n, v);
    for (int i = 0; i < p.m; i++) {
      if (q.u[i] < 1e26) r = and3({r, less3(a[i], eps * nv, ninf(q.A) * (1e-8 * nv + 10 * noise() * ninf(D)))});
      if (q.l[i] > -1e26) r = and3({r, less3(-a[i], eps * nv, ninf(q.A) * (1e-8 * nv + 10 * noise() * ninf(D)))});
    }
    return r;
  }
  // the termination test: 0 or the status
  int test(bool approx) {
    double f = approx ? 10 : 1, ea = f * s.eps_abs, er = f * s.eps_rel;
    Meas m = scaled_tests() ? scaled() : user();
    double mag = 1e-8 * (1 + std::max({m.nAx, m.nPx, m.nAty, m.nq})), off = ea + er < 1e-200;
    mag = std::max(mag, noise() * (1 + ninf(p.A) + ninf(p.P)));   // tolerances switched off?
    int pr = p.m == 0 ? 1 : off ? 0 : less3(m.prim, ea + er * std::max(m.nz, m.nAx), mag);
    int du = off ? 0 : less3(m.dual, ea + er * std::max({m.nq, m.nAty, m.nPx}), mag);
    int ga = !s.check_dualgap ? 1 : off ? 0 : less3(std::fabs(m.gap), ea + er * std::max({std::fabs(m.xPx), std::fabs(m.qx), std::fabs(m.sc)}), mag * (1 + std::fabs(m.xPx) + std::fabs(m.qx) + std::fabs(m.sc)));
    int sol = and3({pr, du, ga});
    if (sol < 0) frag = true;
    if (sol > 0) return approx ? OSQP_SOLVED_INACCURATE : OSQP_SOLVED;
    if (s.eps_prim_inf > 1e-200 && pr <= 0) {
      int v = prim_inf(f * s.eps_prim_inf);
      if (v < 0 || (v > 0 && pr < 0)) frag = true;
      if (v > 0) return approx ? OSQP_PRIMAL_INFEASIBLE_INACCURATE : OSQP_PRIMAL_INFEASIBLE;
    }
    if (s.eps_dual_inf > 1e-200 && du <= 0) {
      int v = dual_inf(f * s.eps_dual_inf);
      if (v < 0 || (v > 0 && du < 0)) frag = true;
      if (v > 0) return approx ? OSQP_DUAL_INFEASIBLE_INACCURATE : OSQP_DUAL_INFEASIBLE;
    }
    return 0;
  }
  double estimate(bool& near) const {
    Meas m = scaled();
    double pr = m.prim / (std::max(m.nz, m.nAx) + 1e-30), du = m.dual / (std::max({m.nq, m.nAty, m.nPx}) + 1e-30);
    if ((p.m && (pr < 1e-5 || std::max(m.nz, m.nAx) < 1e-7)) || du < 1e-5 || std::max({m.nq, m.nAty, m.nPx}) < 1e-7) near = true;
    if ((p.m && m.prim < 1e4 * noise()) || m.dual < 1e4 * noise()) near = true;
    double e = rho * std::sqrt(pr / du);
    if (!(e > 1e-6)) e = 1e-6;
    return std::min(e, 1e6);
  }
  RefRun solve(int stop_fragile = 1) {
    RefRun r;
    frag = false;
    double last_kkt = INF;
    auto fr = [&](int it) { if (frag && !r.fragile_at) { r.fragile = true; r.fragile_at = it; } };
    if (!s.warm_starting) cold();
    int it;
    bool tested = false;
    for (it = 1; it <= s.max_iter; it++) {
      step();
      r.iter = it;
      tested = s.check_termination && it % s.check_termination == 0;
      bool adapt = false;
      if (s.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME) {
        if (interval == 0) {
          double t = toc(it);
          if (t > s.adaptive_rho_fraction * setup_time) {
            int mult = s.check_termination ? (int)s.check_termination : 25;
            interval = (int)std::floor((double)it / mult + 0.5) * mult;
            // ties and the direction of rounding are not documented more precisely than "closest multiple"
            interval = std::max(1, std::max(interval, (int)s.check_termination));
          }
        }
        adapt = interval && it % interval == 0;
      } else if (s.adaptive_rho) adapt = interval && it % interval == 0;
      if (tested) {
        int st = test(false);
        fr(it);
        if (st) { r.status = st; break; }
      }
      if (adapt) {
        Meas m = s.scaling && s.scaled_termination ? scaled() : user();
        Meas mu = user();
        double err = std::max(std::max(m.prim, m.dual), mu.gap);     // info->duality_gap is always in the caller's units
        if (s.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR) {
          double thr = s.adaptive_rho_fraction * last_kkt;
          if (std::fabs(err - thr) <= 1e-5 * std::fabs(thr) + 1e-7) { frag = true; }
          adapt = err <= thr;
        }
        if (adapt) {
          bool near = false;
          double e = estimate(near);
          double hi = rho * s.adaptive_rho_tolerance, lo = rho / s.adaptive_rho_tolerance;
          if (near || std::fabs(e - hi) <= 1e-4 * hi || std::fabs(e - lo) <= 1e-4 * lo) frag = true;
          if (e > hi || e < lo) {
            rho = e;
            factor();
            r.rho_updates++;
            r.rho_changed_at.push_back(it);
            last_kkt = err;
          }
        }
        fr(it);
      }
      if (r.fragile && stop_fragile) break;
    }
    if (r.status == OSQP_UNSOLVED) {
      if (!tested) { int st = test(false); fr(r.iter); if (st) r.status = st; }
      if (r.status == OSQP_UNSOLVED) { int st = test(true); fr(r.iter); r.status = st ? st : OSQP_MAX_ITER_REACHED; }
    }
    r.rho = rho; r.big = big; r.cond = cond; r.noise = noise();
    for (double v : D) r.sx = std::max(r.sx, v);
    for (double v : E) r.sy = std::max(r.sy, v / c);
    r.rho_estimate = estimate(r.estimate_fragile);
    Meas m = scaled_tests() ? scaled() : user();
    r.prim_res = m.prim; r.dual_res = m.dual; r.gap = user().gap;
    r.x = ux(); r.y = uy(); r.z = uz();
    if (!has_sol(r.status)) {
      r.cert = r.status == OSQP_PRIMAL_INFEASIBLE || r.status == OSQP_PRIMAL_INFEASIBLE_INACCURATE ? cert_y() : cert_x();
      if (scaled_tests()) {       // tested in scaled units, reported in the caller's
        bool pi = r.status == OSQP_PRIMAL_INFEASIBLE || r.status == OSQP_PRIMAL_INFEASIBLE_INACCURATE;
        for (size_t k = 0; k < r.cert.size(); k++) r.cert[k] *= pi ? E[k] : D[k];
      }
      double nc = ninf(r.cert);
      for (double& v : r.cert) v /= nc;
      cold();
    }
    return r;
  }
};
