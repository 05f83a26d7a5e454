// C25: the adjoint derivatives are the derivatives of the solution.
#include "refadmm.h"
#include "hist.h"

// ---------------------------------------------------------------- oracle: implicit differentiation of the optimality conditions
struct Sens {
  bool usable = false;
  std::string why;
  int n = 0, m = 0;
  V x, y;
  std::vector<int> W;        // active rows
  std::vector<char> eq, act; // act: -1 lower, 1 upper, 2 equality, 0 inactive
  Lu lu;
  double cond = 0;
};
// from a point found by the solver: confirm that it is optimal, non-degenerate and unique on the caller's data
static Sens sens(const Prob& p, const V& x, const V& y) {
  Sens s;
  s.n = p.n; s.m = p.m; s.x = x; s.y = y;
  auto no = [&](const char* w) { s.why = w; return s; };
  double sc = 1 + ninf(x) + ninf(y);
  if (!(sc < 1e4)) return no("large solution");
  V Ax = matvec(p.A, p.m, p.n, x), g = matvec(p.P, p.n, p.n, x), Aty = matTvec(p.A, p.m, p.n, y);
  for (int j = 0; j < p.n; j++) if (std::fabs(g[j] + p.q[j] + Aty[j]) > 1e-7 * sc) return no("not accurate");
  s.act.assign(p.m, 0);
  for (int i = 0; i < p.m; i++) {
    double l = p.l[i], u = p.u[i];
    if (l == u) { s.act[i] = 2; if (std::fabs(Ax[i] - l) > 1e-7 * sc) return no("not accurate"); }
    else {
      double dl = isinf_b(l) ? 1e9 : Ax[i] - l, du = isinf_b(u) ? 1e9 : u - Ax[i];
      if (dl < -1e-7 * sc || du < -1e-7 * sc) return no("not accurate");
      bool al = dl < 1e-6 * sc, au = du < 1e-6 * sc;
      if (al && au) return no("narrow");
      if (!al && dl < 1e-2) return no("nearly active");
      if (!au && du < 1e-2) return no("nearly active");
      if (al && y[i] > -1e-2) return no("not strictly complementary");
      if (au && y[i] < 1e-2) return no("not strictly complementary");
      if (!al && !au && std::fabs(y[i]) > 1e-7 * sc) return no("not accurate");
      s.act[i] = al ? -1 : au ? 1 : 0;
    }
    if (s.act[i]) s.W.push_back(i);
  }
  int k = (int)s.W.size(), N = p.n + k;
  V K(N * N, 0);
  for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) K[i * N + j] = p.P[i * p.n + j];
  for (int a = 0; a < k; a++) for (int j = 0; j < p.n; j++) K[(p.n + a) * N + j] = K[j * N + p.n + a] = p.A[s.W[a] * p.n + j];
  s.lu.factor(K, N);
  if (!s.lu.ok) return no("singular");
  for (int j = 0; j < N; j++) { V e(N, 0.0); e[j] = 1; s.cond = std::max(s.cond, ninf(s.lu.solve(e))); }
  if (!(s.cond * (1 + ninf(K)) < 300)) return no("nearly singular");
  s.usable = true;
  return s;
}
struct Grad { V dq, dl, du, dP, dA; };   // dP n*n, dA m*n, dense
// the chain rule for a function of (x, y) with these partial derivatives; dl + du is what is determined for an equality row
static Grad want(const Sens& s, const V& dx, const V& dy) {
  int k = (int)s.W.size();
  V b(s.n + k), r;
  for (int j = 0; j < s.n; j++) b[j] = dx[j];
  for (int a = 0; a < k; a++) b[s.n + a] = dy[s.W[a]];
  r = s.lu.solve(b);
  V ry(s.m, 0);
  for (int a = 0; a < k; a++) ry[s.W[a]] = r[s.n + a];
  Grad g;
  g.dl.assign(s.m, 0); g.du.assign(s.m, 0);
  for (int j = 0; j < s.n; j++) g.dq.push_back(-r[j]);
  for (int i = 0; i < s.m; i++) {
    if (s.act[i] == -1) g.dl[i] = ry[i];
    if (s.act[i] == 1) g.du[i] = ry[i];
    if (s.act[i] == 2) (s.y[i] < 0 ? g.dl : g.du)[i] = ry[i];
  }
  for (int i = 0; i < s.n; i++) for (int j = 0; j < s.n; j++) g.dP.push_back(-0.5 * (r[i] * s.x[j] + r[j] * s.x[i]));
  for (int i = 0; i < s.m; i++) for (int j = 0; j < s.n; j++) g.dA.push_back(-(s.y[i] * r[j] + ry[i] * s.x[j]));
  return g;
}
// what the library returns
struct Got { OSQPInt rv = 0, rm = 0; V dq, dl, du, dP, dA; };
static Got get(Lib* L, OSQPSolver* s, int n, int m, int pat) {
  Got g;
  g.dq.assign(n, 77); g.dl.assign(m, 77); g.du.assign(m, 77); g.dP.assign(n * n, 77); g.dA.assign(m * n, 77);
  static OSQPFloat none;
  g.rv = L->osqp_adjoint_derivative_get_vec(s, g.dq.data(), m ? g.dl.data() : &none, m ? g.du.data() : &none);
  Csc P, A;
  std::vector<char> mP(n * n), mA(m * n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) mP[i * n + j] = pat == 0 ? i <= j : pat == 1 ? 1 : i == j;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) mA[i * n + j] = pat < 2 ? 1 : (i + j) % 2;
  V z(n * n, 77.0), za(m * n, 77.0);
  csc_from(P, n, n, z, mP, false);
  csc_from(A, m, n, za, mA, false);
  g.rm = L->osqp_adjoint_derivative_get_mat(s, &P.M, &A.M);
  for (size_t k = 0; k < P.pos.size(); k++) g.dP[P.pos[k].first * n + P.pos[k].second] = P.x[k];
  for (size_t k = 0; k < A.pos.size(); k++) g.dA[A.pos[k].first * n + A.pos[k].second] = A.x[k];
  return g;
}
static bool blank(const V& v) { for (double d : v) if (d != 77) return false; return true; }
static void judge(Ctx& x, const Sens& s, const Grad& w, const Got& g, const std::string& who, const Prob& p) {
  double sc = 1 + ninf(w.dq) + ninf(w.dl) + ninf(w.du) + ninf(w.dP) + ninf(w.dA);
  double tol = 1e-6 * sc * (1 + s.cond);
  x.evals++;
  auto cmp = [&](const char* key, const V& a, const V& b) {
    for (size_t i = 0; i < a.size(); i++) {
      if (a[i] == 77) continue;    // not in the requested pattern
      if (!(std::fabs(a[i] - b[i]) <= tol)) { x.viol(key, "%s: %s=%s, derivative of the solution is %s (x=%s y=%s); %s", who.c_str(), key, vecstr(a).c_str(), vecstr(b).c_str(), vecstr(s.x).c_str(), vecstr(s.y).c_str(), p.str().c_str()); return; }
    }
  };
  V sl = g.dl, wl = w.dl, su = g.du, wu = w.du;
  for (int i = 0; i < s.m; i++) if (s.act[i] == 2 && std::fabs(s.y[i]) < 1e-6) { sl[i] += su[i]; wl[i] += wu[i]; su[i] = wu[i] = 0; }   // no multiplier: only the sum is determined
  cmp("dq", g.dq, w.dq); cmp("dl", sl, wl); cmp("du", su, wu); cmp("dP", g.dP, w.dP); cmp("dA", g.dA, w.dA);
}
static OSQPSettings sharp(Lib* L, int v) {
  OSQPSettings s = base_settings(L);
  s.eps_abs = s.eps_rel = 1e-9;
  s.max_iter = 20000;
  s.polishing = v != 3;
  s.scaling = v == 1 ? 0 : v == 2 ? 3 : 10;
  if (v == 3) { s.eps_abs = s.eps_rel = 1e-11; s.rho_is_vec = 0; }
  return s;
}
static OSQPInt compute(Lib* L, OSQPSolver* s, V dx, V dy) { OSQPFloat z = 0; return L->osqp_adjoint_derivative_compute(s, dx.data(), dy.empty() ? &z : dy.data()); }
static V seed(int len, int k, int at) {   // unit vectors, then mixed ones
  V v(len, 0);
  if (k - at >= 0 && k - at < len) v[k - at] = 1;
  return v;
}

int main(int argc, char** argv) {
  Check c;
  c.id = "C25"; c.level = "exploration";
  c.rule = "every problem of the families solved to high accuracy; where the point found is confirmed optimal, strictly complementary and unique, the derivatives for every unit vector of dx and of dy and a mixed seed are compared with implicit differentiation of the optimality conditions (itself compared with finite differences of re-solved problems); every history of calls: requests are answered exactly when there is something to answer, with the derivatives of the solution they belong to, and leave the solver's later behaviour unchanged";
  c.assumptions = {"dP is symmetric: an off-diagonal entry is the derivative for one of the two equal entries of the full matrix", "an equality row's derivative goes to the bound its multiplier points at; when the multiplier is zero only the sum of dl and du is compared",
                   "degenerate, non-unique, badly conditioned or inaccurately solved problems are skipped and counted", "builtin backend (MKL reports that derivatives are not available)"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    auto addp = [&](const std::string& fam, uint64_t stride) {
      auto f = std::make_shared<Family>(family(fam));
      uint64_t np = (f->count() + stride - 1) / stride;
      S.push_back({"problems_" + fam, np, [=](uint64_t i, Ctx& x) {
        Prob p = f->get(i * stride);
        Lib* L = load_lib("bi");
        for (int v = 0; v < 4; v++) {
          OSQPSettings st = sharp(L, v);
          Run r(L, p, st);
          if (r.rc) { x.viol("setup", "setup failed"); return; }
          r.solve();
          V dx0(p.n, 0), dy0(p.m, 0);
          if (r.status() != OSQP_SOLVED && r.status() != OSQP_SOLVED_INACCURATE) {
            OSQPInt rc = compute(L, r.s, dx0, dy0);
            x.evals++;
            if (!rc) x.viol("unsolved_accepted", "status %s but osqp_adjoint_derivative_compute returns 0; %s", r.s->info->status, p.str().c_str());
            Got g = get(L, r.s, p.n, p.m, 0);
            if (!g.rv || !g.rm) x.viol("unsolved_answered", "status %s but the derivatives are delivered (%d %d); %s", r.s->info->status, (int)g.rv, (int)g.rm, p.str().c_str());
            continue;
          }
          Sens s = sens(p, r.x(), r.y());
          if (!s.usable) { x.skipped++; x.count(s.why); continue; }
          x.count("differentiated");
          std::string kinds;
          for (int a : s.act) kinds += strf("%d", a);
          x.outcome(strf("%d %d %s", p.n, p.m, kinds.c_str()));
          // finite differences of the solution itself, to tie the oracle down
          if (v == 0) for (int k = 0; k < p.n + (int)s.W.size(); k++) {
            double h = 1e-4;
            Prob p2 = p;
            V e(p.n + p.m, 0), b(p.n + s.W.size(), 0);
            if (k < p.n) p2.q[k] += h;
            else { int w = s.W[k - p.n]; if (s.act[w] != 1) p2.l[w] += h; if (s.act[w] != -1) p2.u[w] += h; }
            Run t(L, p2, st);
            t.solve();
            if (t.status() != OSQP_SOLVED) continue;
            V tx = t.x(), ty = t.y();
            for (int o = 0; o < p.n + p.m; o++) {
              Grad g = want(s, seed(p.n, o, 0), seed(p.m, o, p.n));
              double d = k < p.n ? g.dq[k] : g.dl[s.W[k - p.n]] + g.du[s.W[k - p.n]];
              double fd = o < p.n ? (tx[o] - s.x[o]) / h : (ty[o - p.n] - s.y[o - p.n]) / h;
              if (std::fabs(fd - d) > 1e-2 * (1 + s.cond) * (1 + std::fabs(d))) x.count("oracle disagrees with finite differences");
              else x.count("oracle confirmed by finite differences");
            }
          }
          Run tw(L, p, st);
          tw.solve();
          int ns = p.n + p.m + 1;
          for (int k = 0; k < ns; k++) {
            V dx = seed(p.n, k, 0), dy = seed(p.m, k, p.n);
            if (k == ns - 1) { for (int j = 0; j < p.n; j++) dx[j] = 0.5 - j; for (int j = 0; j < p.m; j++) dy[j] = 1 + 0.25 * j; }
            V cx = dx, cy = dy;
            OSQPFloat z = 0;
            OSQPInt rc = L->osqp_adjoint_derivative_compute(r.s, dx.data(), p.m ? dy.data() : &z);
            std::string who = strf("settings %d dx=%s dy=%s", v, vecstr(dx).c_str(), vecstr(dy).c_str());
            if (rc) { x.viol("compute_fails", "%s: osqp_adjoint_derivative_compute returns %d; %s", who.c_str(), (int)rc, p.str().c_str()); break; }
            if (!same_bits(cx, dx) || !same_bits(cy, dy)) x.viol("seed_changed", "%s: the caller's vectors were changed", who.c_str());
            Got g = get(L, r.s, p.n, p.m, k % 3);
            if (g.rv || g.rm) { x.viol("get_fails", "%s: get_vec returns %d, get_mat %d; %s", who.c_str(), (int)g.rv, (int)g.rm, p.str().c_str()); break; }
            judge(x, s, want(s, dx, dy), g, who, p);
          }
          // and nothing happened to the solver
          V q2 = p.q;
          for (auto& d : q2) d += 0.25;
          L->osqp_update_data_vec(r.s, q2.data(), nullptr, nullptr); L->osqp_update_data_vec(tw.s, q2.data(), nullptr, nullptr);
          r.solve(); tw.solve();
          Snap a, b;
          snap_solver(a, r.s, p.n, p.m, SN_SOL | SN_INFO | SN_SETTINGS);
          snap_solver(b, tw.s, p.n, p.m, SN_SOL | SN_INFO | SN_SETTINGS);
          std::string e = snap_diff(a, b);
          if (!e.empty()) x.viol("disturbed", "settings %d: after computing derivatives the solver behaves differently: %s; %s", v, e.c_str(), p.str().c_str());
        }
      }, [=](uint64_t i) { return f->get(i * stride).str(); }});
    };
    addp("n1m0", 1); addp("n2m0", 1); addp("n1m1", 1);
    addp("n1m2", 1); addp("n2m1", 1); addp("n2m2", th ? 5 : 17); addp("n3m1", 1); addp("n3m2", th ? 1 : 5); addp("n2m3", th ? 1 : 11); addp("scaled_s", 1);
    // histories
    static std::vector<HProb> HP;
    HP = hist_problems();
    auto addeq = [&](const char* nm, Prob p) { HP.push_back({nm, full_pattern(p), alternative(full_pattern(p))}); };
    { Prob p; p.n = 2; p.m = 2; p.P = {2, 0, 0, 1}; p.q = {0, 0}; p.A = {1, 0, 0, 1}; p.l = {0, 1}; p.u = {0, 1}; addeq("no_multiplier", p); }
    { Prob p; p.n = 2; p.m = 3; p.P = {4, 1, 1, 2}; p.q = {1, 1}; p.A = {1, 1, 1, 0, 0, 1}; p.l = {1, 0, 0}; p.u = {1, 0.7, 0.7}; addeq("mixed", p); }
    static const std::vector<Op> upd = {op_solve(), op_q(true), op_b(true), op_mat(true, 3, false), op_mat(false, 2, true), op_rho(2.5), op_warm(3), op_cold(),
      op_set("max_iter=1", [](OSQPSettings& s) { s.max_iter = 1; }), op_set("max_iter=20000", [](OSQPSettings& s) { s.max_iter = 20000; }), op_set("polishing=0,alpha=1.2", [](OSQPSettings& s) { s.polishing = 0; s.alpha = 1.2; })};
    // operation 0 solve, 1.. others, then compute(a), compute(b), get
    int nu = (int)upd.size(), CA = nu, CB = nu + 1, GET = nu + 2, NO = nu + 3;
    auto onm = [=](int o) { return o < nu ? upd[o].name : o == CA ? std::string("compute(a)") : o == CB ? std::string("compute(b)") : std::string("get"); };
    for (int len = 1; len <= (th ? 5 : 4); len++) {
      uint64_t nh = upow(NO, len);
      int nv = len >= 4 ? 1 : 2;
      S.push_back({strf("histories_len%d", len), nh * HP.size() * nv, [=](uint64_t i, Ctx& x) {
        Dec d(i);
        const HProb& hp = HP[d.take(HP.size())];
        int v = d.take(nv);
        auto h = decode_hist(d.r, NO, len);
        bool any = false;
        for (int o : h) any |= o >= CA;
        if (!any) { x.skipped++; return; }
        Lib* L = load_lib("bi");
        int n = hp.base.n, m = hp.base.m;
        OSQPSettings st = sharp(L, v);
        st.max_iter = 2000;
        Mach a(L, hp, st), b(L, hp, st);
        if (a.setup_rc || b.setup_rc) return;
        bool computed = false, moved = false;
        Grad last; bool have = false; Sens ls;
        std::string hs;
        auto full = h;
        full.push_back(GET); full.push_back(0);
        for (size_t k = 0; k < full.size(); k++) {
          int o = full[k];
          hs += onm(o) + "; ";
          std::string who = strf("%s scaling=%d [%s]", hp.name.c_str(), (int)st.scaling, hs.c_str());
          if (o < nu) {
            OSQPInt ra = upd[o].f(a), rb = upd[o].f(b);
            if (ra != rb) { x.viol("disturbed", "%s: returns %d, without derivative calls %d", who.c_str(), (int)ra, (int)rb); return; }
            moved = true;
            if (o == 0) {
              Snap sa, sb;
              snap_solver(sa, a.s(), n, m, SN_SOL | SN_INFO | SN_SETTINGS);
              snap_solver(sb, b.s(), n, m, SN_SOL | SN_INFO | SN_SETTINGS);
              std::string e = snap_diff(sa, sb);
              if (!e.empty()) { x.viol("disturbed", "%s: differs from a solver without derivative calls: %s", who.c_str(), e.c_str()); return; }
            }
          } else if (o != GET) {
            V dx(n), dy(m);
            for (int j = 0; j < n; j++) dx[j] = o == CA ? 1 + j : j ? -1 : 0;
            for (int j = 0; j < m; j++) dy[j] = o == CA ? 0 : 0.5 - j;
            OSQPInt rc = compute(L, a.s(), dx, dy);
            x.evals++;
            int stt = (int)a.s()->info->status_val;
            bool sol = stt == OSQP_SOLVED || stt == OSQP_SOLVED_INACCURATE;
            if (!sol && !rc) { x.viol("unsolved_accepted", "%s: status '%s' but osqp_adjoint_derivative_compute returns 0", who.c_str(), a.s()->info->status); return; }
            if (sol) ls = sens(a.cur, a.r.x(), a.r.y());
            if (sol && rc && ls.usable) { x.viol("compute_fails", "%s: osqp_adjoint_derivative_compute returns %d", who.c_str(), (int)rc); return; }
            if (sol) {
              computed = !rc; moved = false;
              have = ls.usable;
              if (have) last = want(ls, dx, dy);
            }
          } else {
            Got g = get(L, a.s(), n, m, 0);
            x.evals++;
            if ((g.rv != 0) != (g.rm != 0)) { x.viol("inconsistent", "%s: get_vec returns %d, get_mat %d", who.c_str(), (int)g.rv, (int)g.rm); return; }
            if (!computed && !g.rv) { x.viol("answered_without_compute", "%s: derivatives delivered although none were computed", who.c_str()); return; }
            if (computed && !moved && g.rv) { x.viol("get_fails", "%s: get_vec returns %d", who.c_str(), (int)g.rv); return; }
            if (g.rv && (!blank(g.dq) || !blank(g.dl) || !blank(g.du) || !blank(g.dP) || !blank(g.dA))) x.viol("refused_but_written", "%s: refused with %d but something was written", who.c_str(), (int)g.rv);
            if (!g.rv && have) {
              size_t nv0 = x.viols.size();
              judge(x, ls, last, g, who, a.cur);
              if (x.viols.size() != nv0) return;
            }
            x.outcome(strf("%d%d%d%d", computed, moved, g.rv != 0, have));
          }
        }
        x.traces++;
      }, [=](uint64_t i) { Dec d(i); auto& hp = HP[d.take(HP.size())]; d.take(nv); std::string s; for (int o : decode_hist(d.r, NO, len)) s += onm(o) + "; "; return hp.name + " " + s; }});
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
