// C19: no sequence of API calls corrupts or leaks memory.
#include "hist.h"
#include <array>
#include <sys/stat.h>
#include <unistd.h>
struct Cfg { std::string name, lib; std::function<void(OSQPSettings&)> f; };

static std::vector<Op> alphabet(Lib* L) {
  std::vector<Op> o;
  o.push_back(op_solve());
  o.push_back({"cold_start", [](Mach& m) { m.L->osqp_cold_start(m.s()); return (OSQPInt)0; }});
  o.push_back(op_warm(1)); o.push_back(op_warm(2));
  o.push_back(op_q(true)); o.push_back(op_b(true));
  o.push_back(op_mat(true, 3, false)); o.push_back(op_mat(false, 2, true)); o.push_back(op_mat(true, 1, true));
  o.push_back(op_mat_none(3, true));
  o.push_back(op_rho(10));
  o.push_back(op_set("max_iter=3", [](OSQPSettings& s) { s.max_iter = 3; s.check_termination = 1; }));
  o.push_back(op_set("polishing toggled", [](OSQPSettings& s) { s.polishing = !s.polishing; s.max_iter = 4000; }));
  o.push_back(op_set("preconditioner toggled", [](OSQPSettings& s) { s.cg_precond = s.cg_precond == OSQP_NO_PRECONDITIONER ? OSQP_DIAGONAL_PRECONDITIONER : OSQP_NO_PRECONDITIONER; }));
  o.push_back(op_get());
  o.push_back({"P:=indefinite", [](Mach& m) {
    auto pv = m.pvals(m.cur);
    if (pv.empty()) return (OSQPInt)0;
    for (auto& v : pv) v = -1000;
    return m.L->osqp_update_data_mat(m.s(), pv.data(), nullptr, (OSQPInt)pv.size(), nullptr, nullptr, 0) ? (OSQPInt)1 : (OSQPInt)0;
  }});
  o.push_back({"bad calls", [](Mach& m) {
    std::vector<double> l(m.cur.m, 2), u(m.cur.m, 1), v(m.r.P.pos.size() + 1, 1);
    OSQPInt r = 0;
    if (m.cur.m) r += m.L->osqp_update_data_vec(m.s(), nullptr, l.data(), u.data());
    r += m.L->osqp_update_data_mat(m.s(), v.data(), nullptr, (OSQPInt)v.size(), nullptr, nullptr, 0);
    r += m.L->osqp_update_rho(m.s(), -1);
    r += m.L->osqp_update_settings(m.s(), nullptr);
    r += m.L->osqp_get_solution(m.s(), nullptr);
    r += m.L->osqp_update_data_vec(m.s(), nullptr, nullptr, nullptr);
    r += m.L->osqp_update_data_mat(m.s(), nullptr, nullptr, 0, nullptr, nullptr, 0);
    r += m.L->osqp_warm_start(m.s(), nullptr, nullptr);
    return r;
  }});
  if (L->builtin()) {
    o.push_back({"derivative compute", [](Mach& m) {
      std::vector<double> dx(m.cur.n, 1.0), dy(m.cur.m, 0.5);
      return m.L->osqp_adjoint_derivative_compute(m.s(), dx.data(), dy.data());
    }});
    o.push_back({"derivative get", [](Mach& m) {
      std::vector<double> dq(m.cur.n), dl(m.cur.m), du(m.cur.m);
      Csc P, A;
      csc_from(P, m.cur.n, m.cur.n, std::vector<double>(m.cur.n * m.cur.n, 1), {}, true);
      csc_from(A, m.cur.m, m.cur.n, std::vector<double>(m.cur.m * m.cur.n, 1), {}, false);
      OSQPInt r = m.L->osqp_adjoint_derivative_get_vec(m.s(), dq.data(), dl.data(), du.data());
      OSQPInt r2 = m.L->osqp_adjoint_derivative_get_mat(m.s(), &P.M, &A.M);
      // what was returned is part of the outcome
      double h = 0;
      if (!r) for (auto* v : {&dq, &dl, &du}) for (double d : *v) h = 3 * h + d;
      if (!r2) { for (double d : P.x) h = 3 * h + d; for (double d : A.x) h = 3 * h + d; }
      m.rcs.push_back(r); m.rcs.push_back(r2); m.rcs.push_back(bit_eq(h, h) && h == h ? (OSQPInt)(hash64(&h, sizeof h) >> 8) : 77);
      return r;
    }});
  }
  return o;
}
static std::vector<Cfg> configs() {
  std::vector<Cfg> C;
  auto add = [&](const std::string& n, const std::string& lib, std::function<void(OSQPSettings&)> f) { C.push_back({lib + ":" + n, lib, f}); };
  for (const char* lib : {"bi_asan", "mkl_asan"}) {
    add("default", lib, [](OSQPSettings& s) { s.max_iter = 200; });
    add("polish,noscale", lib, [](OSQPSettings& s) { s.polishing = 1; s.scaling = 0; s.max_iter = 200; });
    add("scalar rho,kkt", lib, [](OSQPSettings& s) { s.rho_is_vec = 0; s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR; s.max_iter = 60; });
    add("no solution memory", lib, [](OSQPSettings& s) { s.allocate_solution = 0; s.max_iter = 60; });
  }
  add("indirect", "mkl_asan", [](OSQPSettings& s) { s.linsys_solver = OSQP_INDIRECT_SOLVER; s.max_iter = 60; });
  add("indirect,polish,no precond", "mkl_asan", [](OSQPSettings& s) { s.linsys_solver = OSQP_INDIRECT_SOLVER; s.polishing = 1; s.cg_precond = OSQP_NO_PRECONDITIONER; s.scaling = 0; s.rho_is_vec = 0; s.max_iter = 60; });
  return C;
}
// one run of a history under a fill pattern for fresh memory; the observations
static bool one(Ctx& x, Lib* L, const HProb& hp, const Cfg& cf, const std::vector<Op>& ops, const std::vector<int>& h, int fill, Snap& out, const std::string& who) {
  vf_env* e = L->env;
  OSQPSettings s = base_settings(L);
  cf.f(s);
  e->fill = fill;
  e->quarantine = 1;
  e->clock_virtual = 1; e->now_ns = 1000000000LL;
  long live = e->live, badf = e->bad_free;
  {
    Mach m(L, hp, s);
    out.add("setup", (double)m.setup_rc);
    if (!m.setup_rc) {
      bool sol = s.allocate_solution != 0;
      for (int o : h) {
        OSQPInt rc = ops[o].f(m);
        x.transitions++;
        out.add("rc", (double)rc);
        snap_solver(out, m.s(), m.cur.n, m.cur.m, (sol && m.solved_once ? SN_SOL : 0) | (m.solved_once ? SN_INFO | SN_TIMES : 0) | SN_SETTINGS);
        if (!sol) {      // read through the caller's own memory instead
          int n = m.cur.n, mm = m.cur.m;
          std::vector<double> gx(n + 1, 5), gy(mm + 1, 5), gp(mm + 1, 5), gd(n + 1, 5);
          OSQPSolution so{gx.data(), gy.data(), gp.data(), gd.data()};
          if (m.solved_once) {
            L->osqp_get_solution(m.s(), &so);
            for (auto* v : {&gx, &gy, &gp, &gd}) for (double d : *v) out.add("got", d);
          }
        }
      }
      for (OSQPInt r : m.rcs) out.add("returned", (double)r);
    } else if (m.r.s) { L->osqp_cleanup(m.r.s); m.r.s = nullptr; }
  }
  e->fill = -1; e->quarantine = 0;
  if (e->live != live) { x.viol("leak", "%s: %ld blocks not released after cleanup", who.c_str(), e->live - live); e->live = live; return false; }
  if (e->bad_free != badf) { x.viol("bad_free", "%s: %ld invalid frees", who.c_str(), e->bad_free - badf); return false; }
  return true;
}
static void warm_lib(Lib* L, const std::vector<HProb>& HP) {
  static std::set<Lib*> done;
  if (!done.insert(L).second) return;
  for (int pol = 0; pol < 2; pol++) { OSQPSettings s = base_settings(L); s.polishing = pol; Run r(L, HP[0].base, s); r.solve(); }
  if (!L->builtin()) { OSQPSettings s = base_settings(L); s.linsys_solver = OSQP_INDIRECT_SOLVER; Run r(L, HP[0].base, s); r.solve(); }
}

// ------------------------------------------------------------------ calls on nothing, failed setups
static void nulls(Ctx& x, Lib* L, int which, int kind) {
  // kind 0: null solver; 1: zeroed solver structure; 2: what a refused setup handed out
  OSQPSolver z;
  memset(&z, 0, sizeof z);
  OSQPSolver* s = kind == 0 ? nullptr : &z;
  OSQPSolver* rej = (OSQPSolver*)0;
  if (kind == 2) {
    OSQPSettings st = base_settings(L);
    st.alpha = 5;
    double v = 1;
    OSQPInt p[2] = {0, 1}, i[1] = {0};
    OSQPCscMatrix M;
    memset(&M, 0, sizeof M);
    M.m = M.n = 1; M.p = p; M.i = i; M.x = &v; M.nzmax = 1; M.nz = -1;
    L->osqp_setup(&rej, &M, &v, &M, &v, &v, 1, 1, &st);
    s = rej;
  }
  double d[4] = {1, 1, 1, 1};
  OSQPInt rc = OSQP_WORKSPACE_NOT_INIT_ERROR, a = 3, b = 3;
  OSQPSettings st = base_settings(L);
  OSQPSolution so{d, d, d, d};
  OSQPCscMatrix M;
  memset(&M, 0, sizeof M);
  const char* nm = "";
  switch (which) {
    case 0: nm = "solve"; rc = L->osqp_solve(s); break;
    case 1: nm = "get_solution"; rc = L->osqp_get_solution(s, &so); break;
    case 2: nm = "warm_start"; rc = L->osqp_warm_start(s, d, d); break;
    case 3: nm = "update_data_vec"; rc = L->osqp_update_data_vec(s, d, d, d); break;
    case 4: nm = "update_data_mat"; rc = L->osqp_update_data_mat(s, d, nullptr, 1, d, nullptr, 1); break;
    case 5: nm = "update_rho"; rc = L->osqp_update_rho(s, 1); break;
    case 6: nm = "update_settings"; rc = L->osqp_update_settings(s, &st); break;
    case 7: nm = "get_dimensions"; L->osqp_get_dimensions(s, &a, &b); if (a != -1 || b != -1) x.viol("dimensions", "%s kind %d: %d %d", L->variant.c_str(), kind, (int)a, (int)b); break;
    case 8: nm = "cold_start"; L->osqp_cold_start(s); break;
    case 9: nm = "derivative_compute"; rc = L->osqp_adjoint_derivative_compute(s, d, d); break;
    case 10: nm = "derivative_get_vec"; rc = L->osqp_adjoint_derivative_get_vec(s, d, d, d); break;
    case 11: nm = "derivative_get_mat"; rc = L->osqp_adjoint_derivative_get_mat(s, &M, &M); break;
    case 12: {
      nm = "codegen";
      OSQPCodegenDefines cd;
      L->osqp_set_default_codegen_defines(&cd);
      rc = L->osqp_codegen(s, "/nonexistent/", "x", &cd);
      break;
    }
    case 13: nm = "cleanup"; if (kind != 1) { if (L->osqp_cleanup(s)) x.viol("cleanup_code", "cleanup(null) reports an error"); rej = nullptr; } break;
    case 14: nm = "free helpers"; L->OSQPCscMatrix_free(nullptr); L->OSQPSettings_free(nullptr); L->OSQPCodegenDefines_free(nullptr); L->osqp_set_default_settings(nullptr); L->osqp_set_default_codegen_defines(nullptr); break;
  }
  x.evals++;
  bool mklder = !L->builtin() && which >= 9 && which <= 12 && rc == OSQP_FUNC_NOT_IMPLEMENTED;
  if (rc != OSQP_WORKSPACE_NOT_INIT_ERROR && !mklder) x.viol("null_code", "%s: %s on a %s solver returned %d", L->variant.c_str(), nm, kind == 0 ? "null" : kind == 1 ? "not set up" : "refused", (int)rc);
  if (kind == 2 && rej) L->osqp_cleanup(rej);
}

int main(int argc, char** argv) {
  Check c;
  c.id = "C19"; c.level = "exploration";
  c.rule = "every sequence of API calls up to the depth (valid, refused and failing ones alike) on builds with address and undefined-behaviour sanitizers: no report, every block and MKL handle released exactly once after cleanup, and observations that do not depend on what fresh memory contained (two fill patterns for heap blocks; automatic variables pattern-filled against zero-filled)";
  c.assumptions = {"reads inside MKL are seen only through their effect on results"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    static std::vector<HProb> HP;
    HP = hist_problems();
    static std::vector<Cfg> C;
    C = configs();
    for (size_t ci = 0; ci < C.size(); ci++) {
      int depth = th ? 4 : 3;
      for (int len = 2; len <= depth; len++) {
        std::vector<size_t> sel;
        for (size_t k = 0; k < HP.size(); k++)
          if (len <= 2 || (len == 3 && th) || k == 0 || k == 2 || k == 4 || k == 7) if (len < 4 || k == 7 || (k == 0 && (ci == 1 || ci == 9))) sel.push_back(k);
        int K = (int)alphabet(load_lib(C[ci].lib)).size();
        uint64_t nh = upow(K, len);
        auto dec = [=](uint64_t i) { return std::make_pair(sel[i / nh], decode_hist(i % nh, K, len)); };
        S.push_back({C[ci].name + strf("_len%d", len), nh * sel.size(), [=](uint64_t i, Ctx& x) {
          auto d = dec(i);
          Lib* L = load_lib(C[ci].lib);
          warm_lib(L, HP);
          static std::map<Lib*, std::vector<Op>> O;
          auto& ops = O[L];
          if (ops.empty()) ops = alphabet(L);
          std::string who = C[ci].name + " " + HP[d.first].name + " " + hist_str(ops, d.second);
          x.evals++;
          Snap a, b;
          if (!one(x, L, HP[d.first], C[ci], ops, d.second, 0xFF, a, who)) return;
          if (!one(x, L, HP[d.first], C[ci], ops, d.second, 0x2A, b, who)) return;
          std::string df = snap_diff(a, b);
          if (!df.empty()) { x.viol("uninitialised", "%s: results depend on the contents of fresh memory: %s", who.c_str(), df.c_str()); return; }
          x.outcome(strf("%llx", (unsigned long long)hash64(a.v.data(), a.v.size() * 8)));
          // automatic variables: the sanitizer build fills them with a pattern, the plain one with zeros
          if (d.second.size() <= 2) {
            Lib* Z = load_lib(L->builtin() ? "bi_zero" : "mkl_zero");
            warm_lib(Z, HP);
            Snap z;
            if (!one(x, Z, HP[d.first], C[ci], ops, d.second, 0, z, who + " (plain build)")) return;
            df = snap_diff(a, z);
            if (!df.empty()) x.viol("uninitialised_auto", "%s: results depend on the contents of uninitialised variables: %s", who.c_str(), df.c_str());
          }
        }, [=](uint64_t i) { auto d = dec(i); auto ops = alphabet(load_lib(C[ci].lib)); return C[ci].name + " " + HP[d.first].name + " " + hist_str(ops, d.second); }});
      }
    }
    S.push_back({"nothing_to_work_on", 2 * 15 * 3, [](uint64_t i, Ctx& x) { Dec d(i); Lib* L = load_lib(d.take(2) ? "mkl_asan" : "bi_asan"); int w = d.take(15); nulls(x, L, w, d.take(3)); },
                 [](uint64_t i) { Dec d(i); int l = d.take(2), w = d.take(15); return strf("%s call %d kind %d", l ? "mkl" : "bi", w, d.take(3)); }});
    // setups that fail because the linear system solver refuses, then cleanup and another setup
    S.push_back({"refused_factorisation", 2 * 27 * 2 * 2, [](uint64_t i, Ctx& x) {
      Dec d(i);
      Lib* L = load_lib(d.take(2) ? "mkl_asan" : "bi_asan");
      warm_lib(L, hist_problems());
      static const double v[3] = {-5, 0, 2};
      Prob p = hist_problems()[0].base;
      p.P[0] = v[d.take(3)]; p.P[1] = p.P[2] = v[d.take(3)]; p.P[3] = v[d.take(3)];
      OSQPSettings s = base_settings(L);
      s.scaling = d.take(2) ? 10 : 0;
      s.polishing = d.take(2);
      long live = L->env->live, bad = L->env->bad_free;
      {
        Run r(L, p, s);
        x.outcome(strf("%d", (int)r.rc));
        if (!r.rc) r.solve(); else if (r.s) { L->osqp_cleanup(r.s); r.s = nullptr; }
      }
      x.evals++;
      if (L->env->live != live) x.viol("leak", "%s P=[%g %g;%g]: %ld blocks not released", L->variant.c_str(), p.P[0], p.P[1], p.P[3], L->env->live - live);
      if (L->env->bad_free != bad) x.viol("bad_free", "%s P=[%g %g;%g]: invalid free", L->variant.c_str(), p.P[0], p.P[1], p.P[3]);
    }, [](uint64_t i) { return strf("%llu", (unsigned long long)i); }});
    return S;
  };
  return vf_main(argc, argv, c);
}
