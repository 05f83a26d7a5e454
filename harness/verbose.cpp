// C27: verbosity never changes results, and silence is silent.
#include "hist.h"
struct Cfg { std::string name, lib; std::function<void(OSQPSettings&)> f; };

static std::vector<Op> alphabet() {
  std::vector<Op> o;
  o.push_back(op_solve()); o.push_back(op_cold()); o.push_back(op_warm(3));
  o.push_back(op_q(true)); o.push_back(op_b(true)); o.push_back(op_b(false)); o.push_back(op_rho(10));
  o.push_back(op_set("max_iter=1", [](OSQPSettings& s) { s.max_iter = 1; }));
  o.push_back(op_set("max_iter=201,check_termination=0", [](OSQPSettings& s) { s.max_iter = 201; s.check_termination = 0; }));
  o.push_back(op_set("polishing", [](OSQPSettings& s) { s.polishing = 1; s.max_iter = 4000; s.check_termination = 7; }));
  o.push_back(op_set("time_limit=1e-9", [](OSQPSettings& s) { s.time_limit = 1e-9; }));
  o.push_back(op_mat(true, 3, false));
  o.push_back(op_get());
  return o;
}
static void twins(Ctx& x, Lib* L, const HProb& hp, const OSQPSettings& s0, const std::vector<Op>& ops, const std::vector<int>& h, int flip, const std::string& who) {
  vf_env& E = *L->env;
  auto run = [&](bool verbose, std::vector<Snap>& out) {
    OSQPSettings s = s0;
    s.verbose = verbose && flip != 0;
    E.now_ns = 1000000000LL;
    long p0 = E.print_calls;
    Mach m(L, hp, s);
    auto ob = [&](OSQPInt rc, const char* what) {
      Snap sn;
      sn.add("rc", (double)rc);
      if (m.s()) { snap_solver(sn, m.s(), m.cur.n, m.cur.m, SN_SOL | SN_INFO | SN_SETTINGS); }
      for (size_t i = 0; i < sn.v.size(); i++) if (!strcmp(sn.nm[i], "settings->verbose")) sn.v[i] = 0;
      if (!verbose && !rc && E.print_calls != p0) x.viol("not_silent", "%s: %s printed %ld times with verbose=0 (history %s)", who.c_str(), what, E.print_calls - p0, hist_str(ops, h).c_str());
      p0 = E.print_calls;
      out.push_back(sn);
    };
    ob(m.setup_rc, "osqp_setup");
    if (m.setup_rc) return;
    for (size_t k = 0; k <= h.size(); k++) {
      if ((int)k == flip && flip > 0) ob(m.settings([&](OSQPSettings& t) { t.verbose = verbose; }), "osqp_update_settings");
      if (k < h.size()) ob(ops[h[k]].f(m), ops[h[k]].name.c_str());
    }
    ob(L->osqp_solve(m.s()), "osqp_solve");
    L->osqp_cleanup(m.r.s);
    m.r.s = nullptr;
    if (!verbose && E.print_calls != p0) x.viol("not_silent", "%s: osqp_cleanup printed with verbose=0", who.c_str());
  };
  std::vector<Snap> a, b;
  run(false, a);
  run(true, b);
  x.evals++;
  if (a.size() != b.size()) { x.viol("twin", "%s: verbose run took another course", who.c_str()); return; }
  for (size_t k = 0; k < a.size(); k++) {
    std::string d = snap_diff(b[k], a[k]);
    if (!d.empty()) { x.viol("twin", "%s: verbosity%s changes the outcome of call %zu of %s: %s", who.c_str(), flip < 0 ? "" : flip ? strf(" switched before call %d", flip + 1).c_str() : "", k, hist_str(ops, h).c_str(), d.c_str()); break; }
  }
  std::string o;
  for (auto& s : a) for (size_t i = 0; i < s.v.size(); i++) if (!strcmp(s.nm[i], "status_val") || !strcmp(s.nm[i], "iter")) o += strf("%g,", s.v[i]);
  x.outcome(o);
}
int main(int argc, char** argv) {
  Check c;
  c.id = "C27"; c.level = "exploration";
  c.rule = "silent and verbose twins run the same call history; return codes, solution, info and settings after every call are bitwise equal; the silent twin never reaches a printing function during a call that succeeds";
  c.assumptions = {"primal-dual and residual information is compared bitwise; times are not compared"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    static std::vector<Cfg> C;
    C.clear();
    auto add = [&](const std::string& n, const std::string& lib, std::function<void(OSQPSettings&)> f) { C.push_back({lib + ":" + n, lib, f}); };
    add("default", "bi", [](OSQPSettings&) {});
    add("noscale_kkt", "bi", [](OSQPSettings& s) { s.scaling = 0; s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR; s.adaptive_rho_tolerance = 1.1; s.check_termination = 3; s.polishing = 1; });
    add("scalar_rho_check0", "bi", [](OSQPSettings& s) { s.rho_is_vec = 0; s.check_termination = 0; s.max_iter = 240; s.adaptive_rho_interval = 40; });
    add("default", "mkl", [](OSQPSettings&) {});
    static std::vector<HProb> HP;
    HP = hist_problems();
    auto ops = std::make_shared<std::vector<Op>>(alphabet());
    for (size_t ci = 0; ci < C.size(); ci++) {
      int depth = (th ? 4 : 3) - (C[ci].lib == "mkl");
      for (int len = 0; len <= depth; len++) {
        uint64_t nh = upow(ops->size(), len);
        int nf = len + 1;  // where verbosity is switched: -1 at setup, k before call k
        if (len > (th ? 3 : 2)) nf = 1;
        S.push_back({C[ci].name + strf("_len%d", len), nh * HP.size() * nf, [=](uint64_t i, Ctx& x) {
          Dec d(i);
          int f = (int)d.take(nf), p = (int)d.take(HP.size());
          auto h = decode_hist(d.r, (int)ops->size(), len);
          Lib* L = load_lib(C[ci].lib);
          OSQPSettings s0 = base_settings(L);
          C[ci].f(s0);
          twins(x, L, HP[p], s0, *ops, h, f == 0 ? -1 : f, C[ci].name + " " + HP[p].name);
        }, [=](uint64_t i) { Dec d(i); int f = (int)d.take(nf), p = (int)d.take(HP.size()); return HP[p].name + strf(" flip %d ", f) + hist_str(*ops, decode_hist(d.r, (int)ops->size(), len)); }});
      }
    }
    // every problem of the families, every iteration limit
    for (std::string fn : th ? std::vector<std::string>{"n1m1", "n1m2", "n2m1", "scaled_s", "n2m2s"} : std::vector<std::string>{"n1m1", "n2m1", "scaled_s"}) {
      auto f = std::make_shared<Family>(family(fn));
      S.push_back({"problems_" + fn, f->count(), [=](uint64_t i, Ctx& x) {
        Prob p = f->get(i);
        HProb hp{fn, p, p};
        for (auto& cf : C)
          for (int k : {1, 2, 8, 25, 199, 200, 201, 4000}) {
            Lib* L = load_lib(cf.lib);
            OSQPSettings s0 = base_settings(L);
            cf.f(s0);
            s0.max_iter = k;
            if (k == 8) s0.polishing = 1;
            twins(x, L, hp, s0, *ops, {0}, -1, cf.name + strf(" max_iter=%d ", k) + p.str());
          }
      }, [f](uint64_t i) { return f->get(i).str(); }});
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
