// C08: invalid problem data are refused at setup.   C09: settings are validated, defaulted and updated as documented.
#include "hist.h"
#include <array>
static const double NaN = std::nan("");

// ------------------------------------------------------------------ C08
struct Args {          // everything passed to osqp_setup, in exactly sized blocks
  int n = 0, m = 0;
  bool P = true, A = true, q = true, l = true, u = true;
  Prob pr;
  int Pm = 0, Pn = 0, Am = 0, An = 0;            // dimensions written in the structures
  int low_r = -1, low_c = -1;                    // an entry of P below the diagonal
};
struct Corr { std::string name; std::function<bool(Args&)> f; };   // false: does not apply
static std::vector<Corr> corruptions() {
  std::vector<Corr> C;
  auto add = [&](const std::string& n, std::function<bool(Args&)> f) { C.push_back({n, f}); };
  add("nothing", [](Args&) { return true; });
  add("P missing", [](Args& a) { a.P = false; return true; });
  add("A missing", [](Args& a) { a.A = false; return true; });
  add("q missing", [](Args& a) { a.q = false; return true; });
  add("l missing", [](Args& a) { a.l = false; return true; });
  add("u missing", [](Args& a) { a.u = false; return true; });
  for (int v : {0, -1, -1000}) add(strf("n=%d", v), [v](Args& a) { a.n = v; return true; });
  for (int v : {-1, -7}) add(strf("m=%d", v), [v](Args& a) { a.m = v; return true; });
  for (int v : {-1, 1, 5}) {
    add(strf("n%+d", v), [v](Args& a) { a.n += v; return true; });
    add(strf("m%+d", v), [v](Args& a) { a.m += v; return true; });
    add(strf("P->m%+d", v), [v](Args& a) { a.Pm += v; return true; });
    add(strf("P->n%+d", v), [v](Args& a) { a.Pn += v; return true; });
    add(strf("A->m%+d", v), [v](Args& a) { a.Am += v; return true; });
    add(strf("A->n%+d", v), [v](Args& a) { a.An += v; return true; });
  }
  add("P->m,P->n,A->n all -1", [](Args& a) { a.Pm--; a.Pn--; a.An--; return true; });
  for (int r = 1; r < 3; r++) for (int c = 0; c < r; c++) add(strf("P entry at (%d,%d)", r, c), [r, c](Args& a) { if (r >= a.pr.n) return false; a.low_r = r; a.low_c = c; return true; });
  for (int i = 0; i < 3; i++) {
    auto row = [&](const char* nm, double l, double u) { add(strf("row %d: %s", i, nm), [i, l, u](Args& a) { if (i >= a.pr.m) return false; a.pr.l[i] = l; a.pr.u[i] = u; return true; }); };
    row("l=1,u=0", 1, 0); row("l slightly above u", 1 + 1e-12, 1); row("l=inf,u=-inf", INF, -INF); row("l=-inf,u=-1e40", -INF, -1e40); row("l not a number", NaN, 1); row("u not a number", 0, NaN);
    row("l=u", 2, 2); row("free", -INF, INF); row("infinite bounds", -1e300, 1e300); row("l=u=inf", INF, INF);
  }
  return C;
}
static bool well_formed(const Args& a) {
  if (!a.P || !a.A || !a.q) return false;
  if (a.n <= 0 || a.m < 0) return false;
  if (a.Pm != a.n || a.Pn != a.n || a.Am != a.m || a.An != a.n) return false;
  if (a.low_r >= 0) return false;
  if (a.m > 0 && (!a.l || !a.u)) return false;
  for (int i = 0; i < a.m; i++) if (!(a.pr.l[i] <= a.pr.u[i])) return false;
  return true;
}
template <class T> struct Blk {            // exactly sized block: any access outside is caught by the sanitizer
  T* p;
  explicit Blk(const std::vector<T>& v) : p((T*)malloc(v.size() * sizeof(T))) { if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(T)); }
  ~Blk() { free(p); }
};
static void c08_one(Ctx& x, Lib* L, const Prob& p, const std::vector<const Corr*>& cs, const OSQPSettings& s0) {
  Args a;
  a.pr = p; a.n = p.n; a.m = p.m; a.Pm = a.Pn = a.An = p.n; a.Am = p.m;
  std::string name;
  for (auto* c : cs) { if (!c->f(a)) return; name += (name.empty() ? "" : " + ") + c->name; }
  Csc P, A;
  csc_from(P, p.n, p.n, p.P, p.Pm, true);
  csc_from(A, p.m, p.n, p.A, p.Am, false);
  std::vector<OSQPInt> Pp(P.p.begin(), P.p.end()), Pi(P.i.begin(), P.i.begin() + Pp.back()), Ap(A.p.begin(), A.p.end()), Ai(A.i.begin(), A.i.begin() + Ap.back());
  std::vector<OSQPFloat> Px(P.x.begin(), P.x.begin() + Pp.back()), Ax(A.x.begin(), A.x.begin() + Ap.back());
  if (a.low_r >= 0) { int at = Pp[a.low_c + 1]; Pi.insert(Pi.begin() + at, a.low_r); Px.insert(Px.begin() + at, 0.5); for (int j = a.low_c + 1; j <= p.n; j++) Pp[j]++; }
  Blk<OSQPInt> bPp(Pp), bPi(Pi), bAp(Ap), bAi(Ai);
  Blk<OSQPFloat> bPx(Px), bAx(Ax), bq(p.q), bl(a.pr.l), bu(a.pr.u);
  OSQPCscMatrix mP = P.M, mA = A.M;
  mP.m = a.Pm; mP.n = a.Pn; mP.p = bPp.p; mP.i = bPi.p; mP.x = bPx.p; mP.nzmax = Pp.back();
  mA.m = a.Am; mA.n = a.An; mA.p = bAp.p; mA.i = bAi.p; mA.x = bAx.p; mA.nzmax = Ap.back();
  // consistently enlarged dimensions promise more data than the arrays hold, and
  if (a.n == a.Pn && a.n > p.n || a.m == a.Am && a.m > p.m) return;
  bool ok = well_formed(a);
  // consistently shrunk dimensions leave stored entries outside the matrix: not a matrix at all, nothing is promised
  if (ok) for (int c = 0; c < a.An; c++) for (int k = Ap[c]; k < Ap[c + 1]; k++) if (Ai[k] >= a.Am) return;
  OSQPSettings s = s0;
  long live = L->env->live, badf = L->env->bad_free;
  OSQPSolver* v = nullptr;
  OSQPInt rc = L->osqp_setup(&v, a.P ? &mP : nullptr, a.q ? bq.p : nullptr, a.A ? &mA : nullptr, a.l ? bl.p : nullptr, a.u ? bu.p : nullptr, a.m, a.n, &s);
  x.evals++;
  x.outcome(strf("%d %d", (int)rc, ok));
  std::string who = strf("%s %s [%s]", L->variant.c_str(), p.str().c_str(), name.c_str());
  if (ok) {
    if (rc) { x.viol("well_formed_refused", "%s: well-formed, refused with %d", who.c_str(), (int)rc); }
    else {
      OSQPInt n = 0, m = 0;
      L->osqp_get_dimensions(v, &m, &n);
      if (n != a.n || m != a.m) x.viol("dimensions", "%s: solver has dimensions %d,%d", who.c_str(), (int)m, (int)n);
      L->osqp_solve(v);
    }
    if (v) L->osqp_cleanup(v);
  } else {
    if (rc != OSQP_DATA_VALIDATION_ERROR) x.viol(rc ? "wrong_code" : "accepted", "%s: %s %d instead of being refused with %d", who.c_str(), rc ? "refused with" : "accepted,", (int)rc, (int)OSQP_DATA_VALIDATION_ERROR);
    if (v && rc) x.viol("solver_produced", "%s: refused with %d but a solver was handed out", who.c_str(), (int)rc);
    if (!rc && v) L->osqp_cleanup(v);
  }
  if (L->env->live != live) x.viol("leak", "%s: %ld blocks not released", who.c_str(), L->env->live - live);
  if (L->env->bad_free != badf) x.viol("bad_free", "%s: invalid free", who.c_str());
}
static void c08(Check& c) {
  c.rule = "every single and every pair of corruptions of well-formed problem descriptions in exactly sized blocks under sanitizers, on both backends; return code against an independently written predicate, allocation balance, and solve and cleanup of what was accepted";
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    static auto C = corruptions();
    static std::vector<Prob> B;
    B.clear();
    for (int n = 1; n <= 3; n++)
      for (int m = 0; m <= 3; m++)
        for (int full = 0; full < 2; full++) {
          Prob p;
          p.n = n; p.m = m; p.P.assign(n * n, 0); p.A.assign(m * n, 0);
          for (int j = 0; j < n; j++) { p.P[j * n + j] = full || j ? 2 : 0; p.q.push_back(j - 1); }
          for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) p.A[i * n + j] = (i + j) % 2 ? (full ? 1 : 0) : 1; p.l.push_back(-1); p.u.push_back(i == 2 ? INF : 1); }
          if (full) p = full_pattern(p);
          B.push_back(p);
        }
    auto warm = [](Lib* L) { static std::set<Lib*> done; if (!done.insert(L).second) return; OSQPSettings s = base_settings(L); Run r(L, B[3], s); r.solve(); };
    S.push_back({"single_and_pairs", (uint64_t)C.size() * C.size() * B.size(), [=](uint64_t i, Ctx& x) {
      Dec d(i);
      const Prob& p = B[d.take(B.size())];
      int a = d.take(C.size()), b = d.take(C.size());
      for (const char* v : {"bi_asan", "mkl_asan"}) {
        Lib* L = load_lib(v);
        OSQPSettings s = base_settings(L);
        s.max_iter = 20;
        warm(L);
        c08_one(x, L, p, {&C[a], &C[b]}, s);
      }
    }, [=](uint64_t i) { Dec d(i); auto& p = B[d.take(B.size())]; int a = d.take(C.size()), b = d.take(C.size()); return p.str() + " " + C[a].name + " + " + C[b].name; }});
    if (tier == "thorough") {
      std::vector<size_t> sel;
      for (size_t k = 0; k < B.size(); k++) if (B[k].m % 2 == 0 && B[k].n != 2) sel.push_back(k);
      uint64_t K = C.size(), T = K * (K - 1) * (K - 2) / 6;
      auto triple = [K](uint64_t t, int* o) { for (o[0] = 0;; o[0]++) for (o[1] = o[0] + 1; o[1] < (int)K; o[1]++) { uint64_t r = K - 1 - o[1]; if (t < r) { o[2] = o[1] + 1 + (int)t; return; } t -= r; } };
      S.push_back({"triples", T * sel.size(), [=](uint64_t i, Ctx& x) {
        Dec d(i);
        const Prob& p = B[sel[d.take(sel.size())]];
        int o[3];
        triple(d.r, o);
        for (const char* v : {"bi_asan", "mkl_asan"}) { Lib* L = load_lib(v); OSQPSettings s = base_settings(L); s.max_iter = 20; warm(L); c08_one(x, L, p, {&C[o[0]], &C[o[1]], &C[o[2]]}, s); }
      }, [=](uint64_t i) { Dec d(i); auto& p = B[sel[d.take(sel.size())]]; int o[3]; triple(d.r, o); return p.str() + " " + C[o[0]].name + " + " + C[o[1]].name + " + " + C[o[2]].name; }});
    }
    // larger problems, one bad spot anywhere: an entry below the diagonal of P, or one row with crossed bounds
    {
      int NN = tier == "thorough" ? 12 : 7;
      std::vector<std::array<int, 4>> W;      // n, kind, a, b
      for (int n = 4; n <= NN; n++) {
        W.push_back({n, 0, 0, 0});
        for (int r = 1; r < n; r++) for (int c2 = 0; c2 < r; c2++) W.push_back({n, 1, r, c2});
        for (int r = 0; r < n; r++) for (int k = 0; k < 4; k++) W.push_back({n, 2, r, k});
      }
      auto Wp = std::make_shared<std::vector<std::array<int, 4>>>(W);
      S.push_back({"larger", (uint64_t)W.size() * 2, [=](uint64_t i, Ctx& x) {
        auto w = (*Wp)[i / 2];
        Lib* L = load_lib(i % 2 ? "mkl_asan" : "bi_asan");
        OSQPSettings s = base_settings(L);
        s.max_iter = 20;
        warm(L);
        Prob p;
        int n = p.n = p.m = w[0];
        p.P.assign(n * n, 0); p.A.assign(n * n, 0); p.q.assign(n, 1);
        for (int j = 0; j < n; j++) { p.P[j * n + j] = 2; p.A[j * n + j] = 1; p.A[j * n + (j + 1) % n] = -1; p.l.push_back(j % 3 ? -1 : -INF); p.u.push_back(j % 4 ? 1 : INF); }
        Corr none{"as is", [](Args&) { return true; }};
        Corr low{strf("P entry at (%d,%d)", w[2], w[3]), [=](Args& a) { a.low_r = w[2]; a.low_c = w[3]; return true; }};
        Corr bnd{strf("row %d kind %d", w[2], w[3]), [=](Args& a) { double l[4] = {2, 1.0000001, NaN, 0}, u[4] = {-2, 1, 0, NaN}; a.pr.l[w[2]] = l[w[3]]; a.pr.u[w[2]] = u[w[3]]; return true; }};
        c08_one(x, L, p, {w[1] == 0 ? &none : w[1] == 1 ? &low : &bnd}, s);
      }, [=](uint64_t i) { auto w = (*Wp)[i / 2]; return strf("%s n=m=%d kind %d at %d,%d", i % 2 ? "mkl" : "bi", w[0], w[1], w[2], w[3]); }});
    }
    // sparsity patterns: every stored pattern of P (triangular or not) and A up to the stated size
    int N = tier == "thorough" ? 4 : 3;
    for (int n = 1; n <= N; n++) {
      uint64_t np = 1ull << (n * n), na = 1ull << n;
      S.push_back({strf("patterns_n%d", n), np * na * 2, [=](uint64_t i, Ctx& x) {
        Dec d(i);
        unsigned pp = d.take(np), pa = d.take(na);
        int mkl = d.take(2);
        Lib* L = load_lib(mkl ? "mkl_asan" : "bi_asan");
        OSQPSettings s = base_settings(L);
        s.max_iter = 20;
        warm(L);
        // P with arbitrary pattern, diagonally dominant values
        std::vector<OSQPInt> P_p = {0}, P_i, A_p = {0}, A_i;
        std::vector<OSQPFloat> P_x, A_x;
        bool triu = true;
        for (int c = 0; c < n; c++) {
          for (int r = 0; r < n; r++) if (pp >> (c * n + r) & 1) { P_i.push_back(r); P_x.push_back(r == c ? 4 : 0.5); if (r > c) triu = false; }
          P_p.push_back(P_i.size());
          if (pa >> c & 1) { A_i.push_back(0); A_x.push_back(1); }
          A_p.push_back(A_i.size());
        }
        bool psd = true;      // off-diagonal entries need their diagonals
        for (int c = 0; c < n; c++) for (int r = 0; r < c; r++) if (pp >> (c * n + r) & 1) if (!(pp >> (c * n + c) & 1) || !(pp >> (r * n + r) & 1)) psd = false;
        Blk<OSQPInt> bPp(P_p), bPi(P_i), bAp(A_p), bAi(A_i);
        std::vector<double> q(n, 1.0), l(1, -1.0), u(1, 1.0);
        Blk<OSQPFloat> bPx(P_x), bAx(A_x), bq(q), bl(l), bu(u);
        OSQPCscMatrix mP, mA;
        memset(&mP, 0, sizeof mP);
        mP.m = mP.n = n; mP.p = bPp.p; mP.i = bPi.p; mP.x = bPx.p; mP.nzmax = P_i.size(); mP.nz = -1;
        mA = mP; mA.m = 1; mA.p = bAp.p; mA.i = bAi.p; mA.x = bAx.p; mA.nzmax = A_i.size();
        long live = L->env->live;
        OSQPSolver* v = nullptr;
        OSQPInt rc = L->osqp_setup(&v, &mP, bq.p, &mA, bl.p, bu.p, 1, n, &s);
        x.evals++;
        x.outcome(strf("%d %d %d", (int)rc, triu, psd));
        if (!triu ? rc != OSQP_DATA_VALIDATION_ERROR : rc && (psd || rc != OSQP_NONCVX_ERROR)) x.viol("pattern", "%s n=%d P pattern %#x A pattern %#x: returned %d for %s P", L->variant.c_str(), n, pp, pa, (int)rc, triu ? "an upper triangular" : "a not upper triangular");
        if (!rc) L->osqp_solve(v);
        if (v) L->osqp_cleanup(v);
        if (L->env->live != live) x.viol("leak", "%s n=%d P pattern %#x A pattern %#x: %ld blocks not released", L->variant.c_str(), n, pp, pa, L->env->live - live);
      }, [=](uint64_t i) { Dec d(i); unsigned pp = d.take(np), pa = d.take(na); return strf("n=%d P pattern %#x A pattern %#x", n, pp, pa); }});
    }
    // the order in which a column stores its entries carries no meaning: every pattern of P with every order of the rows,
    // against the same problem with its rows in ascending order (setup, solve, then a partial update and another solve)
    {
      static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
      static const unsigned AP[4] = {0x1ff, 0x0db, 0x111, 0x1ae};
      struct Cs { std::vector<OSQPInt> p, i; std::vector<OSQPFloat> x; };
      auto mk = [](unsigned pat, const int* ord, bool P) {
        Cs c; c.p = {0};
        for (int k = 0; k < 3; k++) {
          for (int j = 0; j < 3; j++) { int r = ord[j]; if (pat >> (k * 3 + r) & 1) { c.i.push_back(r); c.x.push_back(P ? (r == k ? 4 + k : 0.5 + 0.25 * r) : 1 + 0.5 * r - 0.25 * k); } }
          c.p.push_back(c.i.size());
        }
        return c;
      };
      int NB = tier == "thorough" ? 4 : 2;   // back ends: direct builtin, direct MKL (thorough: indirect MKL, builtin without scaling)
      int NA = tier == "thorough" ? 4 : 2;
      S.push_back({"entry_order_n3", 512ull * 6 * NA * 6 * NB, [=](uint64_t idx, Ctx& x) {
        Dec d(idx);
        unsigned pp = d.take(512); int po = d.take(6), ai = d.take(NA), ao = d.take(6), be = d.take(NB);
        Lib* L = load_lib(be == 1 || be == 2 ? "mkl_asan" : "bi_asan");
        OSQPSettings s = base_settings(L);
        s.max_iter = 30; s.check_termination = 0; s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_ITERATIONS; s.adaptive_rho_interval = 10; s.warm_starting = 0;
        if (be == 2) s.linsys_solver = OSQP_INDIRECT_SOLVER;
        if (be == 3) s.scaling = 0;
        warm(L);
        bool triu = true, psd = true;
        for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) if (pp >> (c * 3 + r) & 1) { if (r > c) triu = false; if (r != c && (!(pp >> (c * 4) & 1) || !(pp >> (r * 4) & 1))) psd = false; }
        long live = L->env->live;
        double X[2][12];
        OSQPInt rcs[2], rcu[2] = {0, 0};
        for (int k = 0; k < 2; k++) {                    // 0: ascending, 1: the order under test
          Cs P = mk(pp, PERM[k ? po : 0], true), A = mk(AP[ai], PERM[k ? ao : 0], false);
          std::vector<double> q = {1, -2, 0.5}, l = {0.25, -1, -INF}, u = {0.25, 1, 0.5};
          Blk<OSQPInt> bPp(P.p), bPi(P.i), bAp(A.p), bAi(A.i);
          Blk<OSQPFloat> bPx(P.x), bAx(A.x), bq(q), bl(l), bu(u);
          OSQPCscMatrix mP, mA;
          memset(&mP, 0, sizeof mP);
          mP.m = mP.n = 3; mP.p = bPp.p; mP.i = bPi.p; mP.x = bPx.p; mP.nzmax = P.i.size(); mP.nz = -1;
          mA = mP; mA.p = bAp.p; mA.i = bAi.p; mA.x = bAx.p; mA.nzmax = A.i.size();
          OSQPSolver* v = nullptr;
          rcs[k] = L->osqp_setup(&v, &mP, bq.p, &mA, bl.p, bu.p, 3, 3, &s);
          x.evals++;
          if (!rcs[k]) {
            L->osqp_solve(v);
            for (int j = 0; j < 3; j++) { X[k][j] = v->solution->x[j]; X[k][3 + j] = v->solution->y[j]; }
            // new values for the entry of A in row 1 (or its first) and the last diagonal entry of P, each by its own place
            int ka = -1, kp = -1;
            for (int c = 0; c < 3; c++) for (int e = A.p[c]; e < A.p[c + 1]; e++) if (A.i[e] == 1) ka = e;
            for (int c = 0; c < 3; c++) for (int e = P.p[c]; e < P.p[c + 1]; e++) if (P.i[e] == c) kp = e;
            std::vector<OSQPInt> ia(1, ka), ip(1, kp);
            std::vector<double> va(1, -0.75), vp(1, 9.0);
            Blk<OSQPInt> bia(ia), bip(ip);
            Blk<OSQPFloat> bva(va), bvp(vp);
            rcu[k] = L->osqp_update_data_mat(v, kp < 0 ? nullptr : bvp.p, kp < 0 ? nullptr : bip.p, kp < 0 ? 0 : 1, ka < 0 ? nullptr : bva.p, ka < 0 ? nullptr : bia.p, ka < 0 ? 0 : 1);
            L->osqp_solve(v);
            for (int j = 0; j < 3; j++) { X[k][6 + j] = v->solution->x[j]; X[k][9 + j] = v->solution->y[j]; }
          }
          if (v) L->osqp_cleanup(v);
        }
        std::string id = strf("%s%s P pattern %#x rows in order %d%d%d, A pattern %#x rows in order %d%d%d", L->variant.c_str(), be == 2 ? " indirect" : "", pp, PERM[po][0], PERM[po][1], PERM[po][2], AP[ai], PERM[ao][0], PERM[ao][1], PERM[ao][2]);
        if (!triu ? rcs[1] != OSQP_DATA_VALIDATION_ERROR : rcs[1] && (psd || rcs[1] != OSQP_NONCVX_ERROR)) x.viol("order", "%s: returned %d for %s P", id.c_str(), (int)rcs[1], triu ? "an upper triangular" : "a not upper triangular");
        if (rcs[0] != rcs[1] || rcu[0] != rcu[1]) x.viol("order", "%s: setup/update return %d/%d, with ascending rows %d/%d", id.c_str(), (int)rcs[1], (int)rcu[1], (int)rcs[0], (int)rcu[0]);
        else if (!rcs[0] && psd && (be != 2 || (pp & 0x111) == 0x111)) for (int j = 0; j < 12; j++) if  // CG: only where it converges well
         (!(fabs(X[0][j] - X[1][j]) <= (be == 2 ? 1e-2 : 1e-7) * (1 + fabs(X[0][j])))) { x.viol("order", "%s: %s[%d] %s is %.9g, with ascending rows %.9g", id.c_str(), j / 3 % 2 ? "y" : "x", j % 3, j < 6 ? "after the first solve" : "after a partial update", X[1][j], X[0][j]); break; }
        x.outcome(strf("order %d %d %d", (int)rcs[1], triu, psd));
        if (L->env->live != live) x.viol("leak", "%s: %ld blocks not released", id.c_str(), L->env->live - live);
      }, [=](uint64_t i) { Dec d(i); unsigned pp = d.take(512); int po = d.take(6), ai = d.take(NA), ao = d.take(6), be = d.take(NB); return strf("backend %d P pattern %#x order %d A pattern %#x order %d", be, pp, po, AP[ai], ao); }});
    }
    return S;
  };
}

// ------------------------------------------------------------------ C09
struct Fld { std::string name; bool upd; std::vector<double> vals; std::function<void(OSQPSettings&, double)> set; std::function<double(const OSQPSettings&)> get; std::function<bool(double, const Lib*)> ok; };
static std::vector<Fld> fields() {
  std::vector<Fld> F;
  typedef std::function<bool(double, const Lib*)> OK;
#define FLD(f, upd, ok, ...) F.push_back({#f, upd, __VA_ARGS__, [](OSQPSettings& s, double v) { s.f = (decltype(s.f))v; }, [](const OSQPSettings& s) { return (double)s.f; }, ok})
  OK boolean = [](double v, const Lib*) { return v == 0 || v == 1; };
  OK pos = [](double v, const Lib*) { return v > 0; };
  OK nonneg = [](double v, const Lib*) { return v >= 0; };
  OK any = [](double, const Lib*) { return true; };
  const std::vector<double> bv = {0, 1, 2, -1}, posi = {1, 7, 0, -1}, nni = {0, 1, 9, -1}, posf = {1e-12, 0.3, 5, 1e8, 0, -1e-300, -2, NaN};
  FLD(linsys_solver, false, [](double v, const Lib* L) { return v == OSQP_DIRECT_SOLVER || (v == OSQP_INDIRECT_SOLVER && !L->builtin()); }, std::vector<double>{OSQP_DIRECT_SOLVER, OSQP_INDIRECT_SOLVER, OSQP_UNKNOWN_SOLVER, 7});
  FLD(allocate_solution, false, boolean, bv);
  FLD(verbose, true, boolean, bv);
  FLD(profiler_level, true, [](double v, const Lib*) { return v >= 0 && v <= 2; }, std::vector<double>{0, 1, -1, 3});
  FLD(warm_starting, true, boolean, bv);
  FLD(scaling, false, nonneg, nni);
  FLD(polishing, true, boolean, bv);
  FLD(rho, false, pos, posf);
  FLD(rho_is_vec, false, boolean, bv);
  FLD(sigma, false, pos, posf);
  FLD(alpha, true, [](double v, const Lib*) { return v > 0 && v < 2; }, std::vector<double>{1e-3, 1, 1.9999, 0, 2, 2.5, -1, NaN});
  FLD(cg_max_iter, true, pos, posi);
  FLD(cg_tol_reduction, true, pos, posi);
  FLD(cg_tol_fraction, true, [](double v, const Lib*) { return v > 0 && v < 1; }, std::vector<double>{1e-3, 0.999, 0, 1, -1, 2, NaN});
  FLD(cg_precond, true, boolean, std::vector<double>{OSQP_NO_PRECONDITIONER, OSQP_DIAGONAL_PRECONDITIONER, 2, 7});
  FLD(adaptive_rho, false, [](double v, const Lib*) { return v >= 0 && v <= 3; }, std::vector<double>{0, 1, 2, 3, 4, -1});
  FLD(adaptive_rho_interval, false, nonneg, nni);
  FLD(adaptive_rho_fraction, false, pos, posf);
  FLD(adaptive_rho_tolerance, false, [](double v, const Lib*) { return v >= 1; }, std::vector<double>{1, 3, 1e9, 0.999, 0, -1, NaN});
  FLD(max_iter, true, pos, posi);
  FLD(eps_abs, true, nonneg, std::vector<double>{0, 1e-5, 1, -1e-9, NaN});
  FLD(eps_rel, true, nonneg, std::vector<double>{0, 1e-5, 1, -1e-9, NaN});
  FLD(eps_prim_inf, true, pos, std::vector<double>{1e-9, 1, -1e-9, NaN});
  FLD(eps_dual_inf, true, pos, std::vector<double>{1e-9, 1, -1e-9, NaN});
  FLD(scaled_termination, true, boolean, bv);
  FLD(check_termination, true, nonneg, nni);
  FLD(check_dualgap, true, boolean, bv);
  FLD(time_limit, true, pos, std::vector<double>{1e-9, 100, 1e10, 0, -1, NaN});
  FLD(delta, true, pos, posf);
  FLD(polish_refine_iter, true, pos, std::vector<double>{1, 5, -1});
  return F;
}
// what validation should say; setup looks at everything, updates at what they update
static bool in_range(const std::vector<Fld>& F, const OSQPSettings& s, const Lib* L, bool setup) {
  for (auto& f : F) if ((setup || f.upd) && !f.ok(f.get(s), L)) return false;
  return !(s.eps_abs == 0 && s.eps_rel == 0);
}
static bool eqd(double a, double b) { return a == b || (a != a && b != b); }
static Snap result(const OSQPSolver* v, const Prob& p) { Snap s; snap_solver(s, v, p.n, p.m, SN_SOL | SN_INFO); return s; }
static void c09(Check& c) {
  c.rule = "every settings entry at every listed boundary value, alone and in all pairs, at setup and at update, against an independently written predicate; settings stored after acceptance and after refusal; results after an update equal to those of a solver set up with the updated settings";
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    static auto F = fields();
    static std::vector<std::pair<int, double>> V;
    V.clear();
    for (size_t f = 0; f < F.size(); f++) for (double v : F[f].vals) V.push_back({(int)f, v});
    static std::vector<HProb> HP;
    HP = hist_problems();
    auto desc = [](uint64_t a, uint64_t b) { return F[V[a].first].name + strf("=%g, ", V[a].second) + F[V[b].first].name + strf("=%g", V[b].second); };
    S.push_back({"defaults", 2, [](uint64_t i, Ctx& x) {
      Lib* L = load_lib(i ? "mkl" : "bi");
      for (int fill : {0, 0xFF, 0x5A}) {
        OSQPSettings s, w;
        memset(&s, fill, sizeof s);
        L->osqp_set_default_settings(&s);
        OSQPSettings* h = L->OSQPSettings_new();
        x.evals++;
        auto is = [&](const char* n, double got, double want, double heap) { if (got != want) x.viol("default", "%s: default of %s is %.12g instead of %.12g", L->variant.c_str(), n, got, want); if (heap != want) x.viol("default_new", "%s: OSQPSettings_new has %s=%.12g instead of %.12g", L->variant.c_str(), n, heap, want); };
#define D(f, v) is(#f, (double)s.f, v, (double)h->f);
        D(device, 0) D(linsys_solver, OSQP_DIRECT_SOLVER) D(allocate_solution, 1) D(verbose, 1) D(profiler_level, 0) D(warm_starting, 1) D(scaling, 10) D(polishing, 0)
        D(rho, 0.1) D(rho_is_vec, 1) D(sigma, 1e-6) D(alpha, 1.6) D(cg_max_iter, 20) D(cg_tol_reduction, 10) D(cg_tol_fraction, 0.15) D(cg_precond, OSQP_DIAGONAL_PRECONDITIONER)
        D(adaptive_rho, OSQP_ADAPTIVE_RHO_UPDATE_ITERATIONS) D(adaptive_rho_interval, 50) D(adaptive_rho_fraction, 0.4) D(adaptive_rho_tolerance, 5) D(max_iter, 4000) D(eps_abs, 1e-3) D(eps_rel, 1e-3)
        D(eps_prim_inf, 1e-4) D(eps_dual_inf, 1e-4) D(scaled_termination, 0) D(check_termination, 25) D(check_dualgap, 1) D(time_limit, 1e10) D(delta, 1e-6) D(polish_refine_iter, 3)
#undef D
        L->OSQPSettings_free(h);
        (void)w;
      }
      L->osqp_set_default_settings(nullptr);
      L->OSQPSettings_free(nullptr);
      x.outcome("ok");
      // no settings at all
      const Prob& p = HP[0].base;
      Csc P, A;
      csc_from(P, p.n, p.n, p.P, p.Pm, true);
      csc_from(A, p.m, p.n, p.A, p.Am, false);
      OSQPSolver* v = nullptr;
      OSQPInt rc = L->osqp_setup(&v, &P.M, p.q.data(), &A.M, p.l.data(), p.u.data(), p.m, p.n, nullptr);
      if (rc != OSQP_SETTINGS_VALIDATION_ERROR || v) x.viol("missing_settings", "%s: setup without settings returned %d", L->variant.c_str(), (int)rc);
      OSQPSettings s = base_settings(L);
      Run r(L, p, s);
      rc = L->osqp_update_settings(r.s, nullptr);
      if (rc != OSQP_SETTINGS_VALIDATION_ERROR) x.viol("missing_settings_update", "%s: update without settings returned %d", L->variant.c_str(), (int)rc);
    }, [](uint64_t i) { return std::string(i ? "mkl" : "bi"); }});
    uint64_t nv = V.size();
    S.push_back({"setup_pairs", nv * nv * 2, [=](uint64_t i, Ctx& x) {
      Dec d(i);
      Lib* L = load_lib(d.take(2) ? "mkl" : "bi");
      int a = d.take(nv), b = d.take(nv);
      OSQPSettings s = base_settings(L);
      F[V[a].first].set(s, V[a].second);
      F[V[b].first].set(s, V[b].second);
      const Prob& p = HP[0].base;
      OSQPSettings given = s;
      long live = L->env->live;
      {
        Run r(L, p, s);
        x.evals++;
        bool ok = in_range(F, given, L, true);
        x.outcome(strf("%d %d", ok, (int)r.rc));
        if (memcmp(&given, &s, sizeof s)) x.viol("settings_written", "%s %s: setup changed the caller's settings", L->variant.c_str(), desc(a, b).c_str());
        if (ok != !r.rc || (!ok && r.rc != OSQP_SETTINGS_VALIDATION_ERROR)) { x.viol(ok ? "setup_refused" : "setup_accepted", "%s %s: setup returned %d", L->variant.c_str(), desc(a, b).c_str(), (int)r.rc); return; }
        if (ok) {
          for (auto& f : F) {
            double w = f.get(given), g = f.get(*r.s->settings);
            if (f.name == "rho") w = std::min(std::max(w, 1e-6), 1e6);
            if (f.name == "adaptive_rho_interval" && w == 0) continue;       // automatic
            if (!eqd(w, g)) x.viol("setup_stored", "%s %s: stored %s is %.12g instead of %.12g", L->variant.c_str(), desc(a, b).c_str(), f.name.c_str(), g, w);
          }
        }
      }
      if (a == b && L->env->live != live && L->builtin()) x.viol("leak", "%s %s: %ld blocks not released", L->variant.c_str(), desc(a, b).c_str(), L->env->live - live);
    }, [=](uint64_t i) { Dec d(i); d.take(2); int a = d.take(nv), b = d.take(nv); return desc(a, b); }});
    S.push_back({"update_pairs", nv * nv * 3, [=](uint64_t i, Ctx& x) {
      Dec d(i);
      int v = d.take(3), a = d.take(nv), b = d.take(nv);
      Lib* L = load_lib(v ? "mkl" : "bi");
      OSQPSettings s = base_settings(L);
      if (v == 2) { s.linsys_solver = OSQP_INDIRECT_SOLVER; s.cg_precond = OSQP_NO_PRECONDITIONER; }
      Run r(L, HP[0].base, s);
      if (r.rc) { x.viol("setup", "setup failed"); return; }
      OSQPSettings before = *r.s->settings, nw = s;
      // an update that would change every updatable entry
      nw.verbose = 0; nw.warm_starting = 0; nw.polishing = 1; nw.alpha = 1.2; nw.cg_max_iter = 11; nw.cg_tol_reduction = 4; nw.cg_tol_fraction = 0.25; nw.cg_precond = v == 2 ? OSQP_DIAGONAL_PRECONDITIONER : OSQP_NO_PRECONDITIONER;
      nw.max_iter = 17; nw.eps_abs = 0.01; nw.eps_rel = 0.02; nw.eps_prim_inf = 0.03; nw.eps_dual_inf = 0.04; nw.scaled_termination = 1; nw.check_termination = 3; nw.check_dualgap = 0; nw.time_limit = 500; nw.delta = 1e-4; nw.polish_refine_iter = 2;
      // and every setup-only one
      nw.scaling = 2; nw.rho = 7; nw.rho_is_vec = 0; nw.sigma = 0.5; nw.adaptive_rho = 2; nw.adaptive_rho_interval = 9; nw.adaptive_rho_fraction = 0.9; nw.adaptive_rho_tolerance = 2; nw.allocate_solution = 0;
      F[V[a].first].set(nw, V[a].second);
      F[V[b].first].set(nw, V[b].second);
      OSQPSettings given = nw;
      OSQPInt rc = L->osqp_update_settings(r.s, &nw);
      x.evals++;
      bool ok = in_range(F, given, L, false);
      x.outcome(strf("%d %d", ok, (int)rc));
      std::string who = strf("%s%s update %s", L->variant.c_str(), v == 2 ? " indirect" : "", desc(a, b).c_str());
      if (memcmp(&given, &nw, sizeof nw)) x.viol("settings_written", "%s: the update changed the caller's settings", who.c_str());
      if (ok != !rc || (!ok && rc != OSQP_SETTINGS_VALIDATION_ERROR)) { x.viol(ok ? "update_refused" : "update_accepted", "%s: update returned %d", who.c_str(), (int)rc); return; }
      for (auto& f : F) {
        double w = f.get(ok && f.upd ? given : before), g = f.get(*r.s->settings);
        if (!eqd(w, g)) x.viol(ok ? "update_stored" : "refused_but_changed", "%s: %s is %.12g instead of %.12g", who.c_str(), f.name.c_str(), g, w);
      }
    }, [=](uint64_t i) { Dec d(i); d.take(3); int a = d.take(nv), b = d.take(nv); return desc(a, b); }});
    // solves after an update
    static std::vector<int> U;       // valid values of updatable entries that matter for a solve
    U.clear();
    Lib* L0 = nullptr;
    for (size_t k = 0; k < V.size(); k++) { auto& f = F[V[k].first]; if (f.upd && f.name != "verbose" && f.name != "time_limit" && f.name != "profiler_level" && (f.name == "linsys_solver" || f.ok(V[k].second, L0))) U.push_back((int)k); }
    uint64_t nu = U.size();
    S.push_back({"solve_after_update", nu * nu * 4 * (th ? HP.size() : 4) * 2, [=](uint64_t i, Ctx& x) {
      Dec d(i);
      const HProb& hp = HP[d.take(th ? HP.size() : 4)];
      int v = d.take(4), used = d.take(2), a = U[d.take(nu)], b = U[d.take(nu)];
      Lib* L = load_lib(v == 0 || v == 3 ? "bi" : "mkl");
      OSQPSettings s = base_settings(L);
      if (v == 2) { s.linsys_solver = OSQP_INDIRECT_SOLVER; s.max_iter = 60; }
      if (v == 3) { s.scaling = 0; s.eps_rel = 1e-5; s.adaptive_rho = 0; }
      Run r(L, hp.base, s);
      if (r.rc) { x.viol("setup", "setup failed"); return; }
      if (used && v == 2) return;             // the indirect solver keeps its inner iterates
      if (used) { r.solve(); L->osqp_cold_start(r.s); L->osqp_update_rho(r.s, s.rho); }
      OSQPSettings nw = s;
      F[V[a].first].set(nw, V[a].second);
      F[V[b].first].set(nw, V[b].second);
      if (nw.eps_abs == 0 && nw.eps_rel == 0) return;
      OSQPInt rc = L->osqp_update_settings(r.s, &nw);
      if (rc) { x.viol("update_refused", "update %s refused with %d", desc(a, b).c_str(), (int)rc); return; }
      r.solve();
      Run f(L, hp.base, nw);
      if (f.rc) { x.viol("setup", "setup with %s failed", desc(a, b).c_str()); return; }
      f.solve();
      x.evals++; x.traces++;
      Snap p = result(r.s, hp.base), q = result(f.s, hp.base);
      std::string e = snap_diff(p, q);
      x.outcome(strf("%d %d", f.status(), (int)f.s->info->iter));
      if (!e.empty()) x.viol("solve_differs", "%s%s %s, update to %s%s: differs from a solver set up with these settings: %s", L->variant.c_str(), v == 2 ? " indirect" : "", hp.name.c_str(), desc(a, b).c_str(), used ? " after a solve" : "", e.c_str());
    }, [=](uint64_t i) { Dec d(i); auto& hp = HP[d.take(th ? HP.size() : 4)]; d.take(4); d.take(2); int a = U[d.take(nu)], b = U[d.take(nu)]; return hp.name + " " + desc(a, b); }});
    return S;
  };
}
int main(int argc, char** argv) {
  Check c;
  c.level = "exploration";
  c.id = getenv("VF_CHECK") ? getenv("VF_CHECK") : "C09";
  if (c.id == "C08") c08(c); else c09(c);
  return vf_main(argc, argv, c);
}
