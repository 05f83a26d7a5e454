// C07: a rejected call changes nothing.
#include "hist.h"
#include <sys/stat.h>
#include <unistd.h>
struct Cfg { std::string name, lib; std::function<void(OSQPSettings&)> f; };
// an invalid call: returns false when it does not apply to the problem; rc receives what the library said
struct Bad { std::string name; int want; std::function<bool(Mach&, OSQPInt&)> f; };  // want: documented code, -1: any nonzero

static std::vector<Bad> catalogue(Lib* L) {
  std::vector<Bad> B;
  auto add = [&](const std::string& n, int w, std::function<bool(Mach&, OSQPInt&)> f) { B.push_back({n, w, f}); };
  // bounds crossing: both, lower only, upper only; at each row; with and without a (valid) cost vector
  for (int which = 1; which <= 3; which++)
    for (int row = 0; row < 2; row++)
      for (int q = 0; q < 2; q++)
        add(strf("update_data_vec(%s%s%s) with row %d crossing", q ? "q," : "", which & 1 ? "l" : "", which & 2 ? "u" : "", row), OSQP_DATA_VALIDATION_ERROR, [=](Mach& m, OSQPInt& rc) {
          if (row >= m.cur.m) return false;
          std::vector<double> l = m.cur.l, u = m.cur.u, qq(m.cur.n, 77);
          for (int i = 0; i < m.cur.m; i++) if (i != row && which == 3) { l[i] = -3 - i; u[i] = 5 + i; }   // valid new values elsewhere
          if (which == 3) { l[row] = 2; u[row] = 1; }
          else if (which == 1) { if (isinf_b(u[row])) return false; l[row] = u[row] + 1; }
          else { if (isinf_b(l[row])) return false; u[row] = l[row] - 1; }
          rc = m.L->osqp_update_data_vec(m.s(), q ? qq.data() : nullptr, which & 1 ? l.data() : nullptr, which & 2 ? u.data() : nullptr);
          return true;
        });
  // bounds that are not a number, as setup refuses them
  for (int which = 1; which <= 3; which++)
    for (int row = 0; row < 2; row++)
      for (int q = 0; q < 2; q++)
        add(strf("update_data_vec(%s%s%s) with row %d not a number", q ? "q," : "", which & 1 ? "l" : "", which & 2 ? "u" : "", row), OSQP_DATA_VALIDATION_ERROR, [=](Mach& m, OSQPInt& rc) {
          if (row >= m.cur.m) return false;
          std::vector<double> l = m.cur.l, u = m.cur.u, qq(m.cur.n, 77);
          for (int i = 0; i < m.cur.m; i++) if (i != row && which == 3) { l[i] = -3 - i; u[i] = 5 + i; }
          (which == 1 || (which == 3 && q) ? l : u)[row] = NAN;
          rc = m.L->osqp_update_data_vec(m.s(), q ? qq.data() : nullptr, which & 1 ? l.data() : nullptr, which & 2 ? u.data() : nullptr);
          return true;
        });
  // matrices: wrong lengths, missing index lists; a valid part for the other matrix alongside
  struct MB { const char* n; int which, kind; };
  for (int which = 1; which <= 2; which++)
    for (int kind = 0; kind < 3; kind++)
      for (int other = 0; other < 2; other++)
        add(strf("update_data_mat(%s: %s%s)", which == 1 ? "P" : "A", kind == 0 ? "too many" : kind == 1 ? "negative count" : "partial without index", other ? ", other matrix valid" : ""), which, [=](Mach& m, OSQPInt& rc) {
          OSQPInt np = (OSQPInt)m.r.P.pos.size(), na = (OSQPInt)m.r.A.pos.size();
          OSQPInt nb = which == 1 ? np : na;
          if (kind == 2 && nb < 2) return false;
          std::vector<double> v(nb + 2, 9), o((which == 1 ? na : np) + 1, 9);
          std::vector<OSQPInt> ix(nb + 2, 0);
          OSQPInt cnt = kind == 0 ? nb + 1 : kind == 1 ? -1 : nb - 1;
          OSQPInt on = which == 1 ? na : np;
          const OSQPInt* ip = kind == 2 ? nullptr : ix.data();
          if (which == 1) rc = m.L->osqp_update_data_mat(m.s(), v.data(), ip, cnt, other && on ? o.data() : nullptr, nullptr, other ? on : 0);
          else rc = m.L->osqp_update_data_mat(m.s(), other && on ? o.data() : nullptr, nullptr, other ? on : 0, v.data(), ip, cnt);
          return true;
        });
  for (double v : {0.0, -1.0, -1e-300, -INF, (double)NAN})
    add(strf("update_rho(%g)", v), 1, [=](Mach& m, OSQPInt& rc) { rc = m.L->osqp_update_rho(m.s(), v); return true; });
  auto set = [&](const std::string& n, std::function<void(OSQPSettings&)> f) {
    add("update_settings(" + n + ")", OSQP_SETTINGS_VALIDATION_ERROR, [=](Mach& m, OSQPInt& rc) {
      OSQPSettings s = *m.s()->settings;
      // every other updatable entry gets a new valid value, so that a partly applied update shows
      s.max_iter = 3; s.alpha = 1.1; s.eps_abs = s.eps_rel = 0.1; s.polishing = !s.polishing; s.check_termination = 2; s.warm_starting = !s.warm_starting;
      s.scaled_termination = !s.scaled_termination; s.check_dualgap = !s.check_dualgap; s.eps_prim_inf = s.eps_dual_inf = 0.3; s.delta = 1e-3; s.polish_refine_iter = 1; s.cg_max_iter = 3; s.cg_tol_reduction = 2; s.cg_tol_fraction = .3; s.time_limit = 77;
      f(s);
      rc = m.L->osqp_update_settings(m.s(), &s);
      return true;
    });
  };
  set("max_iter=0", [](OSQPSettings& s) { s.max_iter = 0; });
  set("alpha=2", [](OSQPSettings& s) { s.alpha = 2; });
  set("eps_abs=-1", [](OSQPSettings& s) { s.eps_abs = -1; });
  set("eps_abs=eps_rel=0", [](OSQPSettings& s) { s.eps_abs = s.eps_rel = 0; });
  set("polishing=2", [](OSQPSettings& s) { s.polishing = 2; });
  set("check_termination=-1", [](OSQPSettings& s) { s.check_termination = -1; });
  set("time_limit=0", [](OSQPSettings& s) { s.time_limit = 0; });
  set("polish_refine_iter=-1", [](OSQPSettings& s) { s.polish_refine_iter = -1; });
  set("cg_tol_fraction=1", [](OSQPSettings& s) { s.cg_tol_fraction = 1; });
  set("verbose=2", [](OSQPSettings& s) { s.verbose = 2; });
  add("update_settings(NULL)", OSQP_SETTINGS_VALIDATION_ERROR, [](Mach& m, OSQPInt& rc) { rc = m.L->osqp_update_settings(m.s(), nullptr); return true; });
  add("get_solution(NULL)", -1, [](Mach& m, OSQPInt& rc) { rc = m.L->osqp_get_solution(m.s(), nullptr); return true; });
  // another solver being refused
  add("setup of another problem with crossing bounds", OSQP_DATA_VALIDATION_ERROR, [](Mach& m, OSQPInt& rc) {
    if (!m.cur.m) return false;
    Prob p = m.cur;
    p.l[0] = 1; p.u[0] = 0;
    Run r(m.L, p, m.st);
    rc = r.rc;
    return true;
  });
  add("setup of another problem with invalid settings", OSQP_SETTINGS_VALIDATION_ERROR, [](Mach& m, OSQPInt& rc) {
    OSQPSettings s = m.st;
    s.alpha = 0;
    Run r(m.L, m.cur, s);
    rc = r.rc;
    return true;
  });
  if (L->builtin()) {
    add("codegen with invalid defines", OSQP_CODEGEN_DEFINES_ERROR, [](Mach& m, OSQPInt& rc) {
      OSQPCodegenDefines d;
      m.L->osqp_set_default_codegen_defines(&d);
      d.embedded_mode = 3;
      rc = m.L->osqp_codegen(m.s(), "/nonexistent/", "p", &d);
      return true;
    });
    add("codegen without defines", OSQP_CODEGEN_DEFINES_ERROR, [](Mach& m, OSQPInt& rc) { rc = m.L->osqp_codegen(m.s(), "/nonexistent/", "p", nullptr); return true; });
    add("codegen to a missing directory", OSQP_FOPEN_ERROR, [](Mach& m, OSQPInt& rc) {
      OSQPCodegenDefines d;
      m.L->osqp_set_default_codegen_defines(&d);
      rc = m.L->osqp_codegen(m.s(), "/nonexistent/", "p", &d);
      return true;
    });
  }
  return B;
}
static std::vector<Op> alphabet(bool th) {
  std::vector<Op> o;
  o.push_back(op_solve()); o.push_back(op_cold()); o.push_back(op_warm(3));
  o.push_back(op_q(true)); o.push_back(op_b(true)); o.push_back(op_rho(10));
  o.push_back(op_mat(true, 3, false));
  o.push_back(op_set("max_iter=7", [](OSQPSettings& s) { s.max_iter = 7; s.check_termination = 1; }));
  if (th) { o.push_back(op_b(false)); o.push_back(op_set("warm_starting=0", [](OSQPSettings& s) { s.warm_starting = 0; s.max_iter = 4000; })); o.push_back(op_get()); }
  return o;
}
int main(int argc, char** argv) {
  Check c;
  c.id = "C07"; c.level = "exploration";
  c.rule = "every invalid call of the catalogue at every position of every history: documented nonzero code; settings, solution (also as retrieved again) and info right after it as before it; every later return code, solution, info, settings and (virtual) time bitwise as in the twin without the call";
  c.assumptions = {"index lists with out-of-range entries are not validated by the library and not in the catalogue"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    static std::vector<Cfg> C;
    C.clear();
    auto add = [&](const std::string& n, const std::string& lib, std::function<void(OSQPSettings&)> f) { C.push_back({lib + ":" + n, lib, f}); };
    add("default_polish", "bi", [](OSQPSettings& s) { s.polishing = 1; });
    add("noscale", "bi", [](OSQPSettings& s) { s.scaling = 0; s.check_termination = 1; });
    add("scalar_rho", "bi", [](OSQPSettings& s) { s.rho_is_vec = 0; });
    add("default", "mkl", [](OSQPSettings&) {});
    static std::vector<HProb> HP;
    HP = hist_problems();
    auto ops = std::make_shared<std::vector<Op>>(alphabet(th));
    for (size_t ci = 0; ci < C.size(); ci++) {
      int depth = (th ? 3 : 2) - (C[ci].lib == "mkl" && !th) + (ci == 0 && !th);
      for (int len = 0; len <= depth; len++) {
        uint64_t nh = upow(ops->size(), len);
        S.push_back({C[ci].name + strf("_len%d", len), nh * HP.size(), [=](uint64_t i, Ctx& x) {
          Dec d(i);
          const HProb& hp = HP[d.take(HP.size())];
          auto h = decode_hist(d.r, (int)ops->size(), len);
          const Cfg& cf = C[ci];
          Lib* L = load_lib(cf.lib);
          OSQPSettings s0 = base_settings(L);
          cf.f(s0);
          auto bad = catalogue(L);
          auto run = [&](int at, const Bad* b, std::vector<Snap>& out, const char*& skip) {
            L->env->now_ns = 1000000000LL;
            Mach m(L, hp, s0);
            if (m.setup_rc) { skip = "setup"; return; }
            auto look = [&](int what) {
              Snap s;
              snap_solver(s, m.s(), m.cur.n, m.cur.m, what);
              int n = m.cur.n, mm = m.cur.m;
              std::vector<double> gx(n + 1, 5), gy(mm + 1, 5), gp(mm + 1, 5), gd(n + 1, 5);
              OSQPSolution so{gx.data(), gy.data(), gp.data(), gd.data()};
              L->osqp_get_solution(m.s(), &so);
              for (double v : gx) s.add("retrieved x", v);
              for (double v : gy) s.add("retrieved y", v);
              for (double v : gp) s.add("retrieved prim_inf_cert", v);
              for (double v : gd) s.add("retrieved dual_inf_cert", v);
              return s;
            };
            for (int k = 0; k <= len + 1; k++) {
              if (b && k == at) {
                Snap before = look(SN_SOL | SN_INFO | SN_SETTINGS);
                OSQPInt rc = 0;
                if (!b->f(m, rc)) { skip = "n/a"; return; }
                std::string wh = strf("%s %s: %s before call %d of %s", cf.name.c_str(), hp.name.c_str(), b->name.c_str(), at + 1, hist_str(*ops, h).c_str());
                if (b->want >= 0 ? rc != b->want : rc == 0) x.viol("code", "%s returned %d, documented %d", wh.c_str(), (int)rc, b->want);
                std::string df = snap_diff(look(SN_SOL | SN_INFO | SN_SETTINGS), before);
                if (!df.empty()) x.viol("changed", "%s changed at once: %s", wh.c_str(), df.c_str());
              }
              if (k <= len) {
                OSQPInt rc;
                bool solve = k == len || (*ops)[h[k]].name == "solve";
                if (k < len) rc = (*ops)[h[k]].f(m); else rc = L->osqp_solve(m.s());
                Snap s = look(SN_SOL | SN_INFO | SN_SETTINGS | (solve ? SN_TIMES : 0));
                s.add("rc", (double)rc);
                out.push_back(s);
              }
            }
          };
          std::vector<Snap> ref;
          const char* skip = nullptr;
          run(-1, nullptr, ref, skip);
          if (skip) { x.viol("setup", "setup failed for %s", hp.name.c_str()); return; }
          for (auto& b : bad)
            for (int at = 0; at <= len + 1; at++) {
              std::vector<Snap> got;
              skip = nullptr;
              run(at, &b, got, skip);
              if (skip) continue;
              x.evals++;
              for (size_t k = 0; k < got.size() && k < ref.size(); k++) {
                std::string df = snap_diff(got[k], ref[k]);
                if (!df.empty()) { x.viol("later", "%s %s: after the refused %s (before call %d of %s + solve), call %zu differs from the twin without it: %s", cf.name.c_str(), hp.name.c_str(), b.name.c_str(), at + 1, hist_str(*ops, h).c_str(), k + 1, df.c_str()); break; }
              }
            }
          x.outcome(strf("%g", ref.back().v[0]) + hist_str(*ops, h));
        }, [=](uint64_t i) { Dec d(i); auto& hp = HP[d.take(HP.size())]; return hp.name + " " + hist_str(*ops, decode_hist(d.r, (int)ops->size(), len)); }});
      }
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
