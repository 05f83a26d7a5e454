// C20: running out of memory at any allocation is handled.
#include "hist.h"
#include <array>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cstdlib>
struct Cfg { std::string name, lib; std::function<void(OSQPSettings&)> f; bool noA = false; };

static std::vector<Cfg> configs() {
  std::vector<Cfg> C;
  auto add = [&](const std::string& n, const std::string& lib, std::function<void(OSQPSettings&)> f) { C.push_back({lib + ":" + n, lib, f}); };
  for (const char* lib : {"bi_asan", "mkl_asan"}) {
    for (int sc = 0; sc < 2; sc++)
      for (int rv = 0; rv < 2; rv++)
        for (int po = 0; po < 3; po++)
          for (int al = 0; al < 2; al++)
            for (int in = 0; in < (lib[0] == 'm' ? 3 : 1); in++)
              add(strf("scaling=%d rho_is_vec=%d polish=%d alloc=%d%s", sc, rv, po, al, in == 1 ? " indirect" : in == 2 ? " indirect,noprec" : ""), lib, [=](OSQPSettings& s) {
                s.scaling = sc ? 10 : 0; s.rho_is_vec = rv; s.polishing = po > 0; s.polish_refine_iter = po == 2 ? 0 : 3; s.allocate_solution = al; s.max_iter = 300;
                if (in) s.linsys_solver = OSQP_INDIRECT_SOLVER;
                if (in == 2) s.cg_precond = OSQP_NO_PRECONDITIONER;
                s.check_termination = 5;
                if (po == 2) { s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_ITERATIONS; s.adaptive_rho_interval = 5; s.adaptive_rho_tolerance = 1.01; }
              });
  }
  return C;
}
static void clear_dir(const std::string& d) {
  if (DIR* D = opendir(d.c_str())) {
    while (dirent* e = readdir(D)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str());
    closedir(D);
  }
}
struct Scratch {
  std::string d;
  Scratch() { d = std::string(getenv("VF_OUT") ? getenv("VF_OUT") : "out") + "/oom_" + std::to_string(getpid()); mkdir(d.c_str(), 0700); }
  ~Scratch() { if (d.size() > 12) { clear_dir(d); rmdir(d.c_str()); } }
};
// operations under memory failure
struct FOp { std::string name; std::function<OSQPInt(Mach&)> f; bool solve = false; };
static std::vector<FOp> fops(Lib* L) {
  std::vector<FOp> o;
  auto add = [&](const Op& p, bool solve = false) { o.push_back({p.name, p.f, solve}); };
  add(op_solve(), true);
  add(op_q(true)); add(op_b(true));
  add(op_mat(true, 3, false)); add(op_mat(false, 2, true)); add(op_mat(true, 1, true));
  add(op_rho(10));
  add(op_warm(3));
  add(op_set("max_iter=100,polish,rho rule", [](OSQPSettings& s) { s.max_iter = 100; s.polishing = 1; s.adaptive_rho = 1; s.cg_precond = s.cg_precond == OSQP_NO_PRECONDITIONER ? OSQP_DIAGONAL_PRECONDITIONER : OSQP_NO_PRECONDITIONER; }));
  if (L->builtin()) {
    for (int emb = 1; emb <= 2; emb++)
      o.push_back({strf("codegen(embedded=%d)", emb), [emb](Mach& m) {
        static Scratch sc;
        OSQPCodegenDefines d;
        m.L->osqp_set_default_codegen_defines(&d);
        d.embedded_mode = emb;
        d.derivatives_enable = emb == 2;
        OSQPInt rc = m.L->osqp_codegen(m.s(), (sc.d + "/").c_str(), "vf_", &d);
        clear_dir(sc.d);
        return rc;
      }});
    for (int get = 0; get < 2; get++)
      o.push_back({get ? "derivatives: compute and read" : "derivatives: compute", [get](Mach& m) {
        std::vector<OSQPFloat> dx(m.cur.n + 1, 1.0), dy(m.cur.m + 1, -0.5), dl(m.cur.m + 1), du(m.cur.m + 1);
        OSQPInt rc = m.L->osqp_adjoint_derivative_compute(m.s(), dx.data(), dy.data());
        if (rc || !get) return rc;
        Csc P, A;
        csc_from(P, m.cur.n, m.cur.n, std::vector<double>(m.cur.n * m.cur.n, 1.0), std::vector<char>(m.cur.n * m.cur.n, 1), true);
        csc_from(A, m.cur.m, m.cur.n, std::vector<double>(m.cur.m * m.cur.n, 1.0), std::vector<char>(m.cur.m * m.cur.n, 1), false);
        rc = m.L->osqp_adjoint_derivative_get_mat(m.s(), &P.M, &A.M);
        if (rc) return rc;
        return m.L->osqp_adjoint_derivative_get_vec(m.s(), dx.data(), dl.data(), du.data());
      }});
  }
  return o;
}
static std::vector<std::vector<int>> prefixes(bool th) {
  std::vector<std::vector<int>> P{{}, {0}};                 // nothing, or a solve, before
  if (th) for (int a = 1; a < 9; a++) { P.push_back({a}); P.push_back({0, a}); P.push_back({a, 0}); }
  return P;
}
// allocation failure k (mode 0: only k; mode 1: from k on; mode 2: k and k+1)
static void arm(vf_env* e, long k, int mode) {
  e->alloc_count = 0; e->failed = 0;
  e->fail_from = k; e->fail_to = mode == 1 ? (1L << 60) : k + (mode == 2);
}
static void disarm(vf_env* e) { e->fail_from = e->fail_to = 0; }
static void warm_lib(Lib* L) {
  static std::set<Lib*> done;
  if (!done.insert(L).second) return;
  auto HP = hist_problems();
  for (int pol = 0; pol < 2; pol++) { OSQPSettings s = base_settings(L); s.polishing = pol; Run r(L, HP[0].base, s); r.solve(); }
  if (!L->builtin()) { OSQPSettings s = base_settings(L); s.linsys_solver = OSQP_INDIRECT_SOLVER; Run r(L, HP[0].base, s); r.solve(); }
}
struct Env {
  vf_env* e; long live, bad;
  Env(vf_env* x) : e(x) { live = e->live; bad = e->bad_free; e->fill = 0xA5; e->quarantine = 1; e->clock_virtual = 1; e->now_ns = 1000000000LL; disarm(e); }
  ~Env() { disarm(e); e->fill = -1; e->quarantine = 0; }
  bool ok(Ctx& x, const std::string& who) {
    if (e->live != live) { x.viol("leak", "%s: %ld blocks not released after cleanup", who.c_str(), e->live - live); e->live = live; return false; }
    if (e->bad_free != bad) { x.viol("bad_free", "%s: %ld invalid frees", who.c_str(), e->bad_free - bad); return false; }
    return true;
  }
};
static void dbg(const std::string& s) { if (getenv("VF_DBG")) { FILE* f = fopen("/tmp/dbg_oom.txt", "w"); if (f) { fputs(s.c_str(), f); fclose(f); } } }

// every failing allocation of a setup
static void setup_oom(Ctx& x, Lib* L, const Cfg& cf, const HProb& hp) {
  vf_env* e = L->env;
  OSQPSettings s = base_settings(L);
  cf.f(s);
  for (int mode = 0; mode < 3; mode++) {
    for (long k = 1; k < 4000; k++) {
      Env E(e);
      std::string who = strf("%s %s setup with allocation %ld failing%s", cf.name.c_str(), hp.name.c_str(), k, mode == 1 ? " and every later one" : mode == 2 ? " and the next one" : "");
      dbg(who);
      bool stop = false;
      {
        Run r(L, hp.base, s, false);
        arm(e, k, mode);
        r.rc = L->osqp_setup(&r.s, &r.P.M, r.pr.q.data(), &r.A.M, r.pr.l.data(), r.pr.u.data(), r.pr.m, r.pr.n, &s);
        disarm(e);
        x.transitions++;
        if (!e->failed) {
          stop = true;
          if (r.rc) x.viol("setup_fails", "%s: setup fails with %d although no allocation failed", who.c_str(), (int)r.rc);
        } else {
          x.outcome(strf("setup %d", (int)r.rc));
          if (!r.rc) { x.viol("setup_ok", "%s: setup reports success", who.c_str()); return; }
        }
      }
      if (stop) { if (!E.ok(x, who)) return; break; }
      if (!E.ok(x, who)) return;
      x.states++;
    }
    x.traces++;
  }
}
static void op_oom(Ctx& x, Lib* L, const Cfg& cf, const HProb& hp, const std::vector<FOp>& ops, const std::vector<int>& pre, int op) {
  vf_env* e = L->env;
  OSQPSettings s = base_settings(L);
  cf.f(s);
  std::string hs;
  for (int p : pre) hs += ops[p].name + "; ";
  Snap unpolished;
  for (int mode = 0; mode < 3; mode++) {
    for (long k = 1; k < 4000; k++) {
      Env E(e);
      std::string who = strf("%s %s %s%s with allocation %ld failing%s", cf.name.c_str(), hp.name.c_str(), hs.c_str(), ops[op].name.c_str(), k, mode == 1 ? " and every later one" : mode == 2 ? " and the next one" : "");
      dbg(who);
      bool stop = false;
      {
        Mach m(L, hp, s);
        if (m.setup_rc) { x.skipped++; return; }
        for (int p : pre) ops[p].f(m);
        arm(e, k, mode);
        OSQPInt rc = ops[op].f(m);
        disarm(e);
        x.transitions++;
        if (!e->failed) stop = true;
        else {
          x.outcome(strf("%s %d", ops[op].name.c_str(), (int)rc));
          if (!rc) { x.viol("op_ok", "%s: reports success", who.c_str()); return; }
          if (ops[op].solve && m.s()->info->status_polish == OSQP_POLISH_SUCCESS && m.s()->settings->polishing)
            x.viol("polish_success", "%s: polishing is reported successful", who.c_str());
          // and it is reported as failed: the iterations had ended, only polishing was left
          if (ops[op].solve && m.s()->info->status_val == OSQP_SOLVED && m.s()->settings->polishing && m.s()->info->status_polish == OSQP_POLISH_NOT_PERFORMED)
            x.viol("polish_status", "%s: solved, out of memory while polishing, but polishing is reported as not performed", who.c_str());
          // a failed polishing leaves the solution as it was before polishing
          if (ops[op].solve && m.s()->solution && m.s()->settings->polishing && m.s()->info->status_val == OSQP_SOLVED &&
              (m.s()->info->status_polish == OSQP_POLISH_FAILED || m.s()->info->status_polish == OSQP_POLISH_LINSYS_ERROR)) {
            if (unpolished.v.empty()) {
              OSQPSettings s2 = s;
              s2.polishing = 0;
              Mach m2(L, hp, s2);
              for (int p : pre) ops[p].f(m2);
              if (pre.empty()) { ops[op].f(m2); snap_solver(unpolished, m2.s(), hp.base.n, hp.base.m, SN_SOL); }
            }
            Snap now;
            snap_solver(now, m.s(), hp.base.n, hp.base.m, SN_SOL);
            if (!unpolished.v.empty()) {
              std::string df = snap_diff(now, unpolished);
              if (!df.empty()) x.viol("polish_solution", "%s: the solution before polishing is not what is returned: %s", who.c_str(), df.c_str());
              x.count("failed polishing compared");
            }
          }
          // whatever the user does next is either to clean up (mode 0,1) or to solve again and clean up
          if (mode == 0 && k % 2) { ops[0].f(m); }
        }
      }
      if (!E.ok(x, who)) return;
      if (stop) break;
      x.states++;
    }
    x.traces++;
  }
}
static void helper_oom(Ctx& x, Lib* L, int which) {
  vf_env* e = L->env;
  OSQPInt p[3] = {0, 1, 2}, i[2] = {0, 1};
  OSQPFloat v[2] = {1, 2};
  for (int mode = 0; mode < 2; mode++)
    for (long k = 1; k < 100; k++) {
      Env E(e);
      std::string who = strf("%s helper %d with allocation %ld failing (mode %d)", L->variant.c_str(), which, k, mode);
      dbg(who);
      arm(e, k, mode);
      OSQPCscMatrix* M = nullptr; OSQPSettings* S = nullptr; OSQPCodegenDefines* D = nullptr;
      if (which == 0) M = L->OSQPCscMatrix_new(2, 2, 2, v, i, p);
      else if (which < 10) { int m = (which - 1) / 3 + 1, n = (which - 1) % 3 + 1; M = L->OSQPCscMatrix_zeros(m, n); }
      else if (which == 10) M = L->OSQPCscMatrix_identity(2);
      else if (which == 11) M = L->OSQPCscMatrix_diag_scalar(2, 3, 4);
      else if (which == 12) M = L->OSQPCscMatrix_diag_vec(3, 2, v);
      else if (which == 13) S = L->OSQPSettings_new();
      else if (which == 14) D = L->OSQPCodegenDefines_new();
      disarm(e);
      x.transitions++;
      bool failed = e->failed > 0;
      if (failed && (M || S || D)) x.viol("helper_ok", "%s: returns an object", who.c_str());
      if (!failed && !(M || S || D)) x.viol("helper_null", "%s: returns nothing although no allocation failed", who.c_str());
      if (M) L->OSQPCscMatrix_free(M);
      if (S) L->OSQPSettings_free(S);
      if (D) L->OSQPCodegenDefines_free(D);
      if (!E.ok(x, who)) return;
      if (!failed) break;
    }
}

int main(int argc, char** argv) {
  Check c;
  c.id = "C20"; c.level = "fault_enumeration";
  c.case_timeout = 60;
  c.rule = "for every backend, configuration, problem and call (after nothing, a solve or other calls), every allocation k is made to fail alone, together with its successor, and together with all later ones: the call returns an error, nothing crashes (address and undefined-behaviour sanitizers, fresh memory filled with a pattern, freed memory overwritten), and after cleanup every block has been released exactly once";
  c.assumptions = {"memory MKL obtains internally is not failed; its PARDISO entry point is made to report out-of-memory instead"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    static std::vector<HProb> HP;
    HP = hist_problems();
    static std::vector<Cfg> C;
    C = configs();
    std::vector<int> sel = th ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8} : std::vector<int>{0, 4, 5, 7};
    S.push_back({"setup", C.size() * sel.size(), [=](uint64_t i, Ctx& x) {
      const Cfg& cf = C[i / sel.size()];
      Lib* L = load_lib(cf.lib);
      warm_lib(L);
      x.evals++;
      setup_oom(x, L, cf, HP[sel[i % sel.size()]]);
    }, [=](uint64_t i) { return C[i / sel.size()].name + " " + HP[sel[i % sel.size()]].name; }});
    for (const char* lib : {"bi_asan", "mkl_asan"}) {
      std::vector<int> cs;
      for (size_t k = 0; k < C.size(); k++) if (C[k].lib == lib) cs.push_back(k);
      auto PR = prefixes(th);
      std::string ln = lib;
      uint64_t no = ln[0] == 'b' ? 13 : 9;
      std::vector<int> ps = th ? sel : std::vector<int>{0, 4, 7};
      auto dec = [=](uint64_t i) { Dec d(i); int o = d.take(no), p = d.take(PR.size()), h = ps[d.take(ps.size())]; return std::array<int, 4>{o, p, h, cs[d.take(cs.size())]}; };
      S.push_back({std::string("calls_") + lib, no * PR.size() * ps.size() * cs.size(), [=](uint64_t i, Ctx& x) {
        auto d = dec(i);
        Lib* L = load_lib(ln);
        warm_lib(L);
        static std::map<Lib*, std::vector<FOp>> O;
        auto& ops = O[L];
        if (ops.empty()) ops = fops(L);
        x.evals++;
        op_oom(x, L, C[d[3]], HP[d[2]], ops, PR[d[1]], d[0]);
      }, [=](uint64_t i) { auto d = dec(i); auto o = fops(load_lib(ln)); std::string h; for (int p : PR[d[1]]) h += o[p].name + "; "; return C[d[3]].name + " " + HP[d[2]].name + " " + h + o[d[0]].name; }});
    }
    S.push_back({"helpers", 2 * 15, [](uint64_t i, Ctx& x) { Dec d(i); Lib* L = load_lib(d.take(2) ? "mkl_asan" : "bi_asan"); x.evals++; helper_oom(x, L, d.take(15)); }, [](uint64_t i) { return strf("%llu", (unsigned long long)i); }});
    return S;
  };
  return vf_main(argc, argv, c);
}
