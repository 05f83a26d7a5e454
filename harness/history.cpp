// C10: a solve depends on the problem and the starting point only.
#include "hist.h"
#include <unordered_map>
struct Cfg { std::string name, lib; bool data_ops; double tol; std::function<void(OSQPSettings&)> f; };

static std::vector<Op> alphabet(bool data_ops, bool th) {
  std::vector<Op> o;
  o.push_back(op_solve()); o.push_back(op_cold()); o.push_back(op_warm(3)); o.push_back(op_warm(2));
  o.push_back(op_q(true)); o.push_back(op_q(false)); o.push_back(op_b(true)); o.push_back(op_b(false));
  o.push_back(op_rho(10)); o.push_back(op_rho(0.1));
  o.push_back(op_set("max_iter=3", [](OSQPSettings& s) { s.max_iter = 3; }));
  o.push_back(op_set("polishing,check_termination=1", [](OSQPSettings& s) { s.polishing = 1; s.check_termination = 1; }));
  o.push_back(op_set("time_limit=1e-9", [](OSQPSettings& s) { s.time_limit = 1e-9; }));
  o.push_back(op_set("warm_starting=0,no polishing", [](OSQPSettings& s) { s.warm_starting = 0; s.polishing = 0; }));
  o.push_back(op_set("max_iter,time_limit back", [](OSQPSettings& s) { s.max_iter = 4000; s.time_limit = 1e10; }));
  o.push_back(op_deriv());
  if (data_ops) {
    o.push_back(op_mat(true, 1, false)); o.push_back(op_mat(false, 1, false)); o.push_back(op_mat(true, 2, true)); o.push_back(op_mat(false, 2, false));
  }
  return o;
}
static void observe(Snap& s, Mach& m) { snap_solver(s, m.s(), m.cur.n, m.cur.m, SN_SOL | SN_INFO | SN_SETTINGS); }

static std::unordered_map<uint64_t, Snap> refs;
static const Snap& reference(Lib* L, const HProb& hp, const Prob& cur, const OSQPSettings& st, const std::string& cfg, const OSQPSettings& actual) {
  OSQPSettings s = st;
  s.rho = actual.rho;
  std::vector<double> k;
  for (auto* v : {&cur.P, &cur.q, &cur.A, &cur.l, &cur.u}) { k.insert(k.end(), v->begin(), v->end()); k.push_back(7e77); }
#define K(f) k.push_back((double)s.f);
  K(rho) K(alpha) K(max_iter) K(polishing) K(check_termination) K(time_limit) K(warm_starting) K(verbose) K(eps_abs)
  uint64_t h = hash64(k.data(), k.size() * sizeof(double), hash64(cfg.data(), cfg.size()));
  h = hash64(hp.name.data(), hp.name.size(), h);
  auto it = refs.find(h);
  if (it != refs.end()) return it->second;
  HProb fresh{hp.name, cur, cur};
  // settings that only setup looks at come from the original setup, as the caller left them
  OSQPSettings at_setup = s;
  Mach m(L, fresh, at_setup);
  Snap sn;
  if (!m.setup_rc) {
    sn.add("rc", (double)L->osqp_solve(m.s()));
    observe(sn, m);
  }
  return refs.emplace(h, sn).first->second;
}

int main(int argc, char** argv) {
  Check c;
  c.id = "C10"; c.level = "exploration";
  c.rule = "every sequence of API calls up to the depth, then a cold start and a solve: outcome, solution, info and settings identical to a fresh solver with the same data, settings and step size; and every insertion of osqp_get_solution changes nothing and returns the stored solution";
  c.assumptions = {"time-based step-size adaptation excluded (it depends on the clock)", "with scaling on, data updates are limited to vectors and taken back before the comparison (scaling factors are computed at setup only)"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    static std::vector<Cfg> C;
    C.clear();
    auto add = [&](const std::string& n, const std::string& lib, bool d, double tol, std::function<void(OSQPSettings&)> f) { C.push_back({lib + ":" + n, lib, d, tol, f}); };
    add("noscale", "bi", true, 0, [](OSQPSettings& s) { s.scaling = 0; });
    add("scale", "bi", false, 0, [](OSQPSettings& s) {});
    add("noscale_kkt", "bi", true, 0, [](OSQPSettings& s) { s.scaling = 0; s.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR; s.adaptive_rho_fraction = 0.7; s.adaptive_rho_tolerance = 1.5; s.check_termination = 3; });
    add("scalar_rho", "bi", true, 0, [](OSQPSettings& s) { s.scaling = 0; s.rho_is_vec = 0; s.check_termination = 0; s.max_iter = 37; s.adaptive_rho_interval = 5; s.adaptive_rho_tolerance = 2; });
    add("noscale", "mkl", true, 0, [](OSQPSettings& s) { s.scaling = 0; });
    if (th) add("scale", "mkl", false, 0, [](OSQPSettings& s) {});
    static std::vector<HProb> HP;
    HP = hist_problems();
    int depth = th ? 4 : 3;
    for (size_t ci = 0; ci < C.size(); ci++) {
      int dcfg = (C[ci].lib == "mkl") ? depth - 1 : depth;
      for (int len = 0; len <= dcfg; len++) {
        auto ops = std::make_shared<std::vector<Op>>(alphabet(C[ci].data_ops, th));
        uint64_t nh = upow(ops->size(), len);
        auto dec = [=](uint64_t i) { return std::make_pair((size_t)(i / nh), decode_hist(i % nh, (int)ops->size(), len)); };
        S.push_back({C[ci].name + strf("_len%d", len), nh * HP.size(), [=](uint64_t i, Ctx& x) {
          auto d = dec(i);
          const HProb& hp = HP[d.first];
          const Cfg& cf = C[ci];
          Lib* L = load_lib(cf.lib);
          OSQPSettings s0 = base_settings(L);
          cf.f(s0);
          auto run = [&](int g_at, Snap* out, std::string& err) -> bool {
            L->env->now_ns = 1000000000LL;
            Mach m(L, hp, s0);
            if (m.setup_rc) { err = "setup refused"; return false; }
            auto do_get = [&]() {
              int n = m.cur.n, mm = m.cur.m;
              std::vector<double> gx(n + 1, 5), gy(mm + 1, 5), gp(mm + 1, 5), gd(n + 1, 5);
              OSQPSolution so{gx.data(), gy.data(), gp.data(), gd.data()};
              OSQPInt rc = L->osqp_get_solution(m.s(), &so);
              return std::make_tuple(rc, gx, gy, gp, gd);
            };
            for (size_t k = 0; k <= d.second.size(); k++) {
              if ((int)k == g_at) {
                auto g1 = do_get();
                auto g2 = do_get();
                if (g1 != g2) { bool same = same_bits(std::get<1>(g1), std::get<1>(g2)) && same_bits(std::get<2>(g1), std::get<2>(g2)) && same_bits(std::get<3>(g1), std::get<3>(g2)) && same_bits(std::get<4>(g1), std::get<4>(g2));
                  if (!same) x.viol("get_twice", "%s %s after %s: two retrievals in a row differ", cf.name.c_str(), hp.name.c_str(), hist_str(*ops, d.second).c_str()); }
                if (k && (*ops)[d.second[k - 1]].name == "solve") {
                  OSQPSolution& so = *m.s()->solution;
                  auto cmp = [](const std::vector<double>& a, const double* b) { for (size_t i = 0; i + 1 < a.size(); i++) if (!bit_eq(a[i], b[i])) return false; return true; };
                  if (std::get<0>(g1)) x.viol("get_rc", "get_solution returned %d", (int)std::get<0>(g1));
                  if (!cmp(std::get<1>(g1), so.x) || !cmp(std::get<2>(g1), so.y) || !cmp(std::get<3>(g1), so.prim_inf_cert) || !cmp(std::get<4>(g1), so.dual_inf_cert))
                    x.viol("get_differs", "%s %s after %s: osqp_get_solution returns something else than solver->solution (x %s vs %s)", cf.name.c_str(), hp.name.c_str(), hist_str(*ops, d.second).c_str(),
                           vecstr(std::get<1>(g1)).c_str(), vecstr(m.r.x()).c_str());
                }
              }
              if (k < d.second.size()) {
                OSQPInt rc = (*ops)[d.second[k]].f(m);
                if (rc) { err = strf("%s returned %d", (*ops)[d.second[k]].name.c_str(), (int)rc); return false; }
                out->add("rc", (double)rc); observe(*out, m);
              }
            }
            L->osqp_cold_start(m.s());
            out->add("rc", (double)L->osqp_solve(m.s()));
            observe(*out, m);
            return true;
          };
          // 1. history, cold start, solve  ==  fresh solver
          {
            L->env->now_ns = 1000000000LL;
            Mach m(L, hp, s0);
            if (m.setup_rc) { x.viol("setup", "setup refused %s", hp.name.c_str()); return; }
            for (int o : d.second) {
              OSQPInt rc = (*ops)[o].f(m);
              if (rc) { x.viol("rc", "%s %s: %s returned %d in %s", cf.name.c_str(), hp.name.c_str(), (*ops)[o].name.c_str(), (int)rc, hist_str(*ops, d.second).c_str()); return; }
            }
            if (!cf.data_ops && (m.cur.q != hp.base.q || m.cur.l != hp.base.l || m.cur.u != hp.base.u)) {
              L->osqp_update_data_vec(m.s(), hp.base.q.data(), hp.base.l.data(), hp.base.u.data());
              m.cur = hp.base;
            }
            OSQPSettings actual = *m.s()->settings;
            L->osqp_cold_start(m.s());
            Snap sn;
            sn.add("rc", (double)L->osqp_solve(m.s()));
            observe(sn, m);
            const Snap& ref = reference(L, hp, m.cur, m.st, cf.name, actual);
            // reference ran with this history's starting step size; interval chosen at setup is a setting of the original solver
            x.evals++;
            x.outcome(strf("%d %d %d", m.r.status(), (int)m.s()->info->iter, (int)m.s()->info->status_polish));
            Snap a = sn, b = ref;
            // vectors updated under scaling are scaled in another order of operations than at setup
            bool rescaled = false;
            if (!cf.data_ops) for (int o : d.second) rescaled |= (*ops)[o].name.find(":=") != std::string::npos;
            if (rescaled) for (Snap* q : {&a, &b}) for (size_t i = 0; i < q->v.size(); i++) if (!strcmp(q->nm[i], "rho_estimate")) q->v[i] = 0;  // quotient of residuals near zero
            std::string df = snap_diff(a, b, rescaled ? 1e-6 : cf.tol);
            if (!df.empty())
              x.viol("history", "%s problem %s after %s: cold-started solve differs from a fresh solver's: %s", cf.name.c_str(), hp.name.c_str(), hist_str(*ops, d.second).c_str(), df.c_str());
          }
          // 2. retrieving the solution anywhere changes nothing
          if (len <= (x.tier == "thorough" ? 3 : 2)) {
            Snap s1;
            std::string err;
            if (!run(-2, &s1, err)) return;
            for (int g = 0; g <= len; g++) {
              Snap s2;
              if (!run(g, &s2, err)) continue;
              std::string df = snap_diff(s2, s1);
              x.evals++;
              if (!df.empty()) x.viol("get_impure", "%s problem %s: osqp_get_solution before call %d of %s changes what follows: %s", cf.name.c_str(), hp.name.c_str(), g + 1, hist_str(*ops, d.second).c_str(), df.c_str());
            }
          }
        }, [=](uint64_t i) { auto d = dec(i); return HP[d.first].name + " " + hist_str(*ops, d.second); }});
      }
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
