// C28: the factorised system always tracks the current data.
#include "common.h"
#include <algorithm>
#include "lin_alg.h"
typedef std::vector<double> V;
typedef std::vector<OSQPInt> VI;
struct F {
  decltype(&::osqp_algebra_init_linsys_solver) init;
  decltype(&::OSQPMatrix_new_from_csc) mnew;
  decltype(&::OSQPMatrix_free) mfree;
  decltype(&::OSQPMatrix_update_values) mupd;
  decltype(&::OSQPVectorf_new) vnew;
  decltype(&::OSQPVectorf_free) vfree;
  decltype(&::OSQPVectorf_from_raw) vset;
  decltype(&::OSQPVectorf_to_raw) vget;
};
static F* fns(const std::string& lib) {
  static std::map<std::string, F*> M;
  F*& f = M[lib];
  if (!f) {
    f = new F; Lib* L = load_lib(lib);
    ((OSQPInt (*)(OSQPInt))L->sym("osqp_algebra_init_libs"))(0);
#define S_(m, n) f->m = (decltype(&::n))L->sym(#n)
    S_(init, osqp_algebra_init_linsys_solver); S_(mnew, OSQPMatrix_new_from_csc); S_(mfree, OSQPMatrix_free); S_(mupd, OSQPMatrix_update_values);
    S_(vnew, OSQPVectorf_new); S_(vfree, OSQPVectorf_free); S_(vset, OSQPVectorf_from_raw); S_(vget, OSQPVectorf_to_raw);
  }
  return f;
}
struct Shape { std::string name; int n, m; std::vector<char> Pm, Am; };
struct Sys {
  std::string lib; F* f; Lib* L;
  int n, m; bool vec, polish, cg;
  OSQPSettings st;
  V P, A, rho; double rs;      // current data, dense
  Csc cp, ca; OSQPMatrix *MP = nullptr, *MA = nullptr; OSQPVectorf *R = nullptr, *B = nullptr;
  LinSysSolver* s = nullptr;
  double pr = 1e-12, dr = 1e-12;
  OSQPInt rc;
  int iter = 1;
  static double pv(int i, int j, int k) { return i == j ? (k ? 3.5 + i : 2 - 0.5 * i) : (k ? -0.75 : 1) / (1 + std::min(i, j)); }
  static double av(int i, int j, int k) { return k ? -1.5 + i + 0.25 * j : 1 + i - 2 * j; }
  Sys(const std::string& l, const Shape& sh, bool v, bool pol, bool c, double sigma) : lib(l), f(fns(l)), L(load_lib(l)), n(sh.n), m(sh.m), vec(v), polish(pol), cg(c) {
    st = base_settings(L);
    st.sigma = pol ? 0.7 : sigma; if (pol) st.delta = sigma; st.linsys_solver = cg ? OSQP_INDIRECT_SOLVER : OSQP_DIRECT_SOLVER; st.rho = 0.5; st.rho_is_vec = v;
    st.cg_max_iter = 50;
    P.assign(n * n, 0); A.assign(m * n, 0);
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (sh.Pm[i * n + j]) P[i * n + j] = P[j * n + i] = pv(i, j, 0);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (sh.Am[i * n + j]) A[i * n + j] = av(i, j, 0);
    rs = 0.5;
    for (int i = 0; i < m; i++) rho.push_back(vec ? (i % 2 ? 20 : 0.5) : 0.5);
    csc_from(cp, n, n, P, sh.Pm, true); csc_from(ca, m, n, A, sh.Am, false);
    MP = f->mnew(&cp.M, 1); MA = f->mnew(&ca.M, 0);
    if (vec) R = f->vnew(rho.data(), m);
    V z(n + m, 0); B = f->vnew(z.data(), n + m);
    rc = f->init(&s, MP, MA, vec ? R : nullptr, &st, &pr, &dr, pol);
  }
  ~Sys() { if (s) s->free(s); f->mfree(MP); f->mfree(MA); if (R) f->vfree(R); f->vfree(B); }
  // P and A entries at the given positions take their k-th value; idx lists or everything
  OSQPInt update(const VI& pi, const VI& ai, int kp, int ka, bool pall, bool aall, bool nullidx) {
    V px, ax; VI p = pi, a = ai;
    if (pall) { p.clear(); for (size_t q = 0; q < cp.pos.size(); q++) p.push_back(q); }
    if (aall) { a.clear(); for (size_t q = 0; q < ca.pos.size(); q++) a.push_back(q); }
    std::map<int, int> seen;
    for (auto q : p) { auto e = cp.pos[q]; double v = pv(e.first, e.second, kp) + 0.125 * seen[q]++; px.push_back(v); P[e.first * n + e.second] = P[e.second * n + e.first] = v; }
    for (auto q : a) { auto e = ca.pos[q]; double v = av(e.first, e.second, ka) + 0.125 * seen[1000 + q]++; ax.push_back(v); A[e.first * n + e.second] = v; }
    bool np = pall && nullidx, na = aall && nullidx;
    if (px.size()) f->mupd(MP, px.data(), np ? nullptr : p.data(), px.size());
    if (ax.size()) f->mupd(MA, ax.data(), na ? nullptr : a.data(), ax.size());
    return s->update_matrices(s, MP, np ? nullptr : p.data(), px.size(), MA, na ? nullptr : a.data(), ax.size());
  }
  OSQPInt setrho(int k) {
    rs = k == 1 ? 7 : k == 2 ? 1e-3 : 0.5;
    for (int i = 0; i < m; i++) rho[i] = vec ? (i % 2 ? rs * 40 : rs) : rs;
    if (vec) f->vset(R, rho.data());
    return s->update_rho_vec(s, vec ? R : nullptr, rs);
  }
  void check(Ctx& x, const std::string& what) {
    for (int k = 0; k <= n + m; k++) {
      V b(n + m, 0), o(n + m);
      if (k < n + m) b[k] = 1; else for (int i = 0; i < n + m; i++) b[i] = 1 - 0.75 * i;
      for (int rep = 0; rep < (cg && !polish ? 2 : 1); rep++) {
        f->vset(B, b.data());
        OSQPInt rc = s->solve(s, B, cg ? iter : k + 1);
        if (cg) iter = 2;
        f->vget(o.data(), B);
        x.evals++;
        if (rc && !cg) { x.viol("solve_rc", "%s: solve returns %d; %s", lib.c_str(), (int)rc, what.c_str()); return; }
      }
      V X(o.begin(), o.begin() + n), Z(o.begin() + n, o.end());
      V r1 = matvec(P, n, n, X);
      double scale = 1 + ninf(X) * (1 + ninf(P) + ninf(A)) + ninf(Z), lim = 1e-9 * scale, err = 0;
      std::string which;
      auto upd = [&](double e, const char* w) { if (!(e <= err)) { err = e; which = w; } };
      auto AX = matvec(A, m, n, X);
      double del = polish ? st.delta : st.sigma;
      if (!cg) {
        V nu(m);
        for (int i = 0; i < m; i++) nu[i] = polish ? Z[i] : rho[i] * (Z[i] - b[n + i]);
        auto at = matTvec(A, m, n, nu);
        for (int j = 0; j < n; j++) upd(std::fabs(r1[j] + del * X[j] + at[j] - b[j]), "stationarity rows");
        for (int i = 0; i < m; i++) upd(std::fabs(AX[i] - (polish ? del * Z[i] : nu[i] / rho[i]) - b[n + i]), "constraint rows");
        lim *= 1 + ninf(rho) * 1e-3;
      } else {
        V t(m); 
        for (int i = 0; i < m; i++) t[i] = (polish ? 1 / del : rho[i]) * (AX[i] - b[n + i]);
        auto at = matTvec(A, m, n, t);
        for (int j = 0; j < n; j++) upd(std::fabs(r1[j] + del * X[j] + at[j] - b[j]), "reduced system");
        double rhs = 0; { V u(m); for (int i = 0; i < m; i++) u[i] = (polish ? 1 / del : rho[i]) * b[n + i]; auto v = matTvec(A, m, n, u); for (int j = 0; j < n; j++) rhs = std::max(rhs, std::fabs(b[j] + v[j])); }
        lim = (polish ? std::max(1e-5 * rhs, 1e-7) : 1e-7) * 1.001 + 1e-10 * scale;
        if (err <= lim) { err = 0; for (int i = 0; i < m; i++) upd(std::fabs(polish ? Z[i] - t[i] : Z[i] - AX[i]), "constraint part"); lim = 1e-9 * scale * (polish ? 1 / del : 1); }
      }
      if (!(err <= lim)) { x.viol(cg ? "cg" : "direct", "%s: solution %s of right-hand side %s violates the %s by %g (limit %g); P=%s A=%s sigma=%g rho=%s polish=%d; %s", lib.c_str(), vecstr(o).c_str(), vecstr(b).c_str(), which.c_str(), err, lim, vecstr(P).c_str(), vecstr(A).c_str(), st.sigma, vecstr(rho).c_str(), polish, what.c_str()); return; }
    }
  }
};
struct Op { std::string name; std::function<OSQPInt(Sys&)> f; };
static VI sub(int nz, int kind) {  // 0 last,first  1 last,0,last  2 middle
  if (!nz) return {};
  if (kind == 0) return nz > 1 ? VI{nz - 1, 0} : VI{0};
  if (kind == 1) return {nz - 1, 0, nz - 1};
  return {nz / 2};
}
static std::vector<Op> alphabet() {
  std::vector<Op> o;
  auto np = [](Sys& s) { return (int)s.cp.pos.size(); };
  auto na = [](Sys& s) { return (int)s.ca.pos.size(); };
  o.push_back({"P all:=1", [](Sys& s) { return s.update({}, {}, 1, 0, true, false, true); }});
  o.push_back({"P[last,first]:=0", [=](Sys& s) { return s.update(sub(np(s), 0), {}, 0, 0, false, false, false); }});
  o.push_back({"A all:=1", [](Sys& s) { return s.update({}, {}, 0, 1, false, true, true); }});
  o.push_back({"A[last,first]:=0", [=](Sys& s) { return s.update({}, sub(na(s), 0), 0, 0, false, false, false); }});
  o.push_back({"P[mid]:=1,A[last,0,last]:=1", [=](Sys& s) { return s.update(sub(np(s), 2), sub(na(s), 1), 1, 1, false, false, false); }});
  o.push_back({"P all:=0,A all:=0", [](Sys& s) { return s.update({}, {}, 0, 0, true, true, true); }});
  o.push_back({"P[last,0,last]:=1,A all:=1 by index", [=](Sys& s) { return s.update(sub(np(s), 1), {}, 1, 1, false, true, false); }});
  o.push_back({"rho:=1", [](Sys& s) { return s.setrho(1); }});
  o.push_back({"rho:=2", [](Sys& s) { return s.setrho(2); }});
  return o;
}
int main(int argc, char** argv) {
  Check c;
  c.id = "C28"; c.level = "model_checking";
  c.rule = "state: the dense (P, A, rho) the solver should represent. After every sequence of update operations up to the depth, for every sparsity pattern, every unit and one full right-hand side satisfies the dense KKT (or, for the iterative solver, reduced) system to rounding (or its tolerance)";
  c.assumptions = {"the iterative solver is given negligible residuals so that its tolerance is the minimum one", "matrices sorted by row inside columns"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    auto ops = std::make_shared<std::vector<Op>>(alphabet());
    struct Dim { int n, m; };
    struct Kd { const char* name; const char* lib; bool vec, cg; };
    for (Kd kd : {Kd{"bi", "bi", true, false}, Kd{"bi scalar rho", "bi", false, false}, Kd{"mkl", "mkl", true, false}, Kd{"mkl scalar rho", "mkl", false, false}, Kd{"mklcg", "mkl", true, true}, Kd{"mklcg scalar rho", "mkl", false, true}}) {
      std::vector<Shape> sh;
      auto all = [&](int n, int m, int stride) {
        int np = n * (n + 1) / 2, na = n * m;
        for (uint64_t t = 0; t < (1ull << (np + na)); t += stride) {
          Shape s{strf("%dx%d pattern %d", m, n, (int)t), n, m, std::vector<char>(n * n, 0), std::vector<char>(n * m, 0)};
          int b = 0;
          for (int i = 0; i < n; i++) for (int j = i; j < n; j++) s.Pm[i * n + j] = t >> b++ & 1;
          for (int e = 0; e < na; e++) s.Am[e] = t >> b++ & 1;
          sh.push_back(s);
        }
      };
      bool mk = std::string(kd.lib) == "mkl";
      all(1, 0, 1); all(1, 1, 1); all(2, 0, 1); all(2, 1, 1); all(2, 2, mk && !th ? 3 : 1); all(1, 2, 1); all(3, 0, 1); all(3, 1, mk && !th ? 7 : 1); all(3, 2, th ? 1 : mk ? 61 : 13);
      for (int big = 0; big < 3; big++) {
        int n = 6, m = 5;
        Shape s{strf("big %d", big), n, m, std::vector<char>(n * n, 0), std::vector<char>(n * m, 0)};
        for (int i = 0; i < n; i++) for (int j = i; j < n; j++) s.Pm[i * n + j] = big == 0 ? (i == 0 || i == j) : big == 1 ? (j == i + 1 || i % 2 == 0 && i == j) : 1;
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) s.Am[i * n + j] = big == 0 ? (i == j || j == i + 1) : big == 1 ? ((i + 2 * j) % 3 == 0) : 1;
        sh.push_back(s);
      }
      auto SH = std::make_shared<std::vector<Shape>>(sh);
      for (int len = 0; len <= (th ? 4 : 3); len++) {
        uint64_t nh = 1; for (int i = 0; i < len; i++) nh *= ops->size();
        S.push_back({std::string(kd.name) + strf(" depth %d", len), SH->size() * nh, [=](uint64_t i, Ctx& x) {
          Dec d(i);
          const Shape& s = (*SH)[d.take(SH->size())];
          Sys y(kd.lib, s, kd.vec, false, kd.cg, 4);
          if (y.rc || !y.s) { x.viol("init", "%s: init returns %d for %s", kd.name, (int)y.rc, s.name.c_str()); return; }
          std::string w = s.name;
          for (int k = 0; k < len; k++) {
            const Op& o = (*ops)[d.take(ops->size())];
            w += " ; " + o.name;
            OSQPInt rc = o.f(y);
            x.transitions++;
            if (rc) { x.viol("update_rc", "%s: %s returns %d", kd.name, w.c_str(), (int)rc); return; }
          }
          y.check(x, w);
          x.states++; x.traces++;
          x.outcome(strf("%s %016llx", kd.name, (unsigned long long)(hash64(y.P.data(), y.P.size() * 8) ^ hash64(y.A.data(), y.A.size() * 8) * 3 ^ hash64(y.rho.data(), y.rho.size() * 8))));
        }, [=](uint64_t i) { return strf("history %d of %s", (int)(i / SH->size()), (*SH)[i % SH->size()].name.c_str()); }});
      }
      if (kd.vec) S.push_back({std::string(kd.name) + " polish", SH->size() * 2, [=](uint64_t i, Ctx& x) {
        Dec d(i);
        const Shape& s = (*SH)[d.take(SH->size())];
        Sys y(kd.lib, s, false, true, kd.cg, d.take(2) ? 4 : 2.5);
        if (y.rc || !y.s) { x.viol("init", "%s: init for polishing returns %d for %s", kd.name, (int)y.rc, s.name.c_str()); return; }
        y.check(x, s.name + " (polishing)");
        y.check(x, s.name + " (polishing, again)");
        x.states++;
      }, [=](uint64_t i) { return (*SH)[i % SH->size()].name; }});
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
