// C17: internal scaling is invisible: verdicts, solutions, certificates, residuals and objectives are in the caller's
// units for every number of scaling iterations, on every power-of-ten rescaling of rows, columns and cost of exactly
// solved problems; matrices updated (rescaled internally) any number of times give the problem a fresh setup gives.
#include "common.h"
#include "hist.h"
#include "verdicts.h"

static const OSQPInt SCALINGS[] = {0, 1, 2, 10, 25};

struct Scale { std::vector<int> r, c; int k = 0; double f = 1; /* extra factor of rows and cost */ };  // powers of ten
static Prob rescale(const Prob& p, const Scale& s) {
  Prob o = p;
  auto ten = [](int e) { return std::pow(10.0, e); };
  for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) o.P[i * p.n + j] = p.P[i * p.n + j] * s.f * ten(s.k + s.c[i] + s.c[j]);
  for (int j = 0; j < p.n; j++) o.q[j] = p.q[j] * s.f * ten(s.k + s.c[j]);
  for (int i = 0; i < p.m; i++) {
    for (int j = 0; j < p.n; j++) o.A[i * p.n + j] = p.A[i * p.n + j] * s.f * ten(s.r[i] + s.c[j]);
    if (!isinf_b(p.l[i])) o.l[i] = p.l[i] * s.f * ten(s.r[i]);
    if (!isinf_b(p.u[i])) o.u[i] = p.u[i] * s.f * ten(s.r[i]);
  }
  return o;
}
static std::string sstr(const Scale& s) {
  std::string t = strf("cost 1e%d rows", s.k);
  for (int v : s.r) t += strf(" 1e%d", v);
  t += " columns";
  for (int v : s.c) t += strf(" 1e%d", v);
  return t;
}
static Scale scale_no(uint64_t i, int n, int m, const std::vector<int>& e) {
  Dec d(i);
  Scale s;
  s.k = e[d.take(e.size())];
  for (int k = 0; k < m; k++) s.r.push_back(e[d.take(e.size())]);
  for (int k = 0; k < n; k++) s.c.push_back(e[d.take(e.size())]);
  return s;
}
static void untouched(Ctx& x, const Run& r, const Prob& orig, const std::string& who) {
  Csc P, A;
  csc_from(P, orig.n, orig.n, orig.P, orig.Pm, true);
  csc_from(A, orig.m, orig.n, orig.A, orig.Am, false);
  bool ok = same_bits(r.P.x, P.x) && same_bits(r.A.x, A.x) && r.P.i == P.i && r.P.p == P.p && r.A.i == A.i && r.A.p == A.p &&
            same_bits(r.pr.q, orig.q) && same_bits(r.pr.l, orig.l) && same_bits(r.pr.u, orig.u);
  if (!ok) x.viol("caller_data_changed", "%s: the caller's arrays were changed; %s", who.c_str(), orig.str().c_str());
}
struct Cfg { std::string name, lib; OSQPInt scaling; bool st, pol; };
static std::vector<Cfg> cfgs(bool th) {
  std::vector<Cfg> C;
  for (std::string lib : {"bi", "mkl"}) for (OSQPInt sc : SCALINGS) {
    C.push_back({strf("%s:scaling=%d", lib.c_str(), (int)sc), lib, sc, false, false});
    if (lib == "bi" || th) {
      C.push_back({strf("%s:scaling=%d,scaled_termination", lib.c_str(), (int)sc), lib, sc, true, false});
      if (sc != 2) C.push_back({strf("%s:scaling=%d,polishing", lib.c_str(), (int)sc), lib, sc, false, true});
    }
  }
  return C;
}
static bool in_range(const Prob& p) {
  auto ok = [](double v) { return v == 0 || (std::fabs(v) > 5e-3 && std::fabs(v) < 5e2); };
  for (double v : p.P) if (!ok(v)) return false;
  for (double v : p.q) if (!ok(v)) return false;
  for (double v : p.A) if (!ok(v)) return false;
  return true;
}
static double sum_abs(const std::vector<double>& v) { double s = 0; for (double t : v) s += std::fabs(t); return s; }

static void one(Ctx& x, const std::vector<Cfg>& C, const Prob& base, const Scale& sc, int width) {
  Exact e = exact_solve(base);
  if (e.t == T_UNKNOWN) { x.skipped++; return; }
  Prob p = rescale(base, sc);
  double k = std::pow(10.0, sc.k);
  std::vector<double> ex(p.n), ey(p.m);
  if (e.t == T_SOLVABLE) {
    for (int j = 0; j < p.n; j++) ex[j] = e.x[j] * std::pow(10.0, -sc.c[j]);
    for (int i = 0; i < p.m; i++) ey[i] = e.y[i] * k * std::pow(10.0, -sc.r[i]);
  }
  for (auto& c : C) {
    Lib* L = load_lib(c.lib);
    OSQPSettings s = base_settings(L);
    s.scaling = c.scaling; s.scaled_termination = c.st; s.polishing = c.pol;
    s.eps_abs = s.eps_rel = 1e-7; s.eps_prim_inf = s.eps_dual_inf = 1e-7; s.max_iter = 4000; s.check_termination = 5;
    Run r(L, p, s);
    std::string who = c.name + " " + sstr(sc);
    if (r.rc) { x.viol("setup_failed", "%s: setup returned %d; %s", who.c_str(), (int)r.rc, p.str().c_str()); continue; }
    x.evals++;
    if (r.solve()) { x.viol("solve_failed", "%s: %s", who.c_str(), p.str().c_str()); continue; }
    int st = r.status();
    x.count(c.name + " " + status_name(st));
    x.outcome(c.name + status_name(st) + strf(" %d %.3g", (int)r.s->info->iter, r.s->info->obj_val));
    untouched(x, r, p, who);
    bool pi = st == OSQP_PRIMAL_INFEASIBLE || st == OSQP_PRIMAL_INFEASIBLE_INACCURATE;
    bool di = st == OSQP_DUAL_INFEASIBLE || st == OSQP_DUAL_INFEASIBLE_INACCURATE;
    bool so = st == OSQP_SOLVED || st == OSQP_SOLVED_INACCURATE;
    std::string tail = p.str();
    auto bad = [&](const char* key, const std::string& msg) { x.viol(key, "%s: %s (status %s, iter %d, polish %d); %s", who.c_str(), msg.c_str(), status_name(st).c_str(), (int)r.s->info->iter, (int)r.s->info->status_polish, tail.c_str()); };
    // moderately badly scaled data must be decided within the iteration limit
    bool easy = width == 0 || (c.scaling >= 10 && in_range(p));
    bool accept_scaled = c.st && c.scaling;   // accuracy is then asked for in the solver's internal units
    if (!accept_scaled) {
      if (so) check_solved(x, who, r, s, tail);
      check_info(x, r, who);
    }
    if (has_sol(st)) {
      // the objectives are the caller's in any case
      auto X = r.x(), Y = r.y();
      Kkt kk = kkt(p, X, Y);
      double so_ = 1e-7 * (1 + std::fabs(kk.xPx) + std::fabs(kk.qx) + std::fabs(kk.sc)) + 1e-9 * ninf(Y);
      if (accept_scaled && !close(r.s->info->obj_val, kk.pobj, 0, so_)) bad("objective_units", strf("obj_val %.10g, the returned x gives %.10g", r.s->info->obj_val, kk.pobj));
      if (so && e.t == T_SOLVABLE) {
        // |p(x) - p*| is bounded by the gap plus the residuals weighted with the exact optimum
        double prim = kk.prim, dual = kk.dual;
        double tol = std::fabs(kk.gap) + prim * (sum_abs(Y) + sum_abs(ey)) + dual * (sum_abs(X) + sum_abs(ex)) + 1e-9 * (k + k * std::fabs(e.obj));
        if (accept_scaled) tol += 1e-2 * k * (1 + std::fabs(e.obj));
        if (!close(r.s->info->obj_val, k * e.obj, 0, tol)) bad("objective", strf("objective %.10g, exact optimum %.10g (allowed %.3g)", r.s->info->obj_val, k * e.obj, tol));
        if (e.x_unique && width == 0 && maxdiff(X, ex) > (accept_scaled ? 5e-2 : 1e-2)) bad("minimiser", strf("x=%s, the minimiser is %s", vecstr(X).c_str(), vecstr(ex).c_str()));
      }
    }
    if (pi || di) {
      OSQPSettings t = s;
      if (accept_scaled) t.eps_prim_inf = t.eps_dual_inf = width == 0 ? 1e-5 : 1e300;
      check_cert(x, who, r, t, tail);
    }
    if (width == 0 || !accept_scaled) {
      if (e.t == T_SOLVABLE && (pi || di) && width == 0) bad("false_infeasible", "the problem has an optimal point");
      if (e.t == T_PRIMAL_INF && so && width == 0) bad("solved_infeasible", "the constraints are contradictory");
      if (e.t == T_DUAL_INF && so && width == 0) bad("solved_unbounded", "the problem is unbounded below");
      if (e.t == T_DUAL_INF && pi) bad("false_primal_infeasible", "the constraints are consistent");
    }
    if (easy && !so && !pi && !di) bad("undecided", strf("no verdict; an exact method says %s", e.t == T_SOLVABLE ? "solvable" : e.t == T_PRIMAL_INF ? "infeasible" : "unbounded"));
  }
}

// ---------------------------------------------------------------- repeated updates
static std::vector<Op> hops() {
  return {op_mat(true, 1, true), op_mat(false, 1, true), op_mat(true, 2, true), op_mat(false, 2, true), op_mat(true, 3, false), op_mat(false, 3, false),
          op_q(true), op_b(true), op_solve()};
}
static const OSQPInt REP[] = {1, 2, 40};

static void repeat(Ctx& x, const HProb& h, const Scale& sc, OSQPInt scaling, const std::string& lib, const std::vector<int>& seq, int rep, int last) {
  Lib* L = load_lib(lib);
  HProb g{h.name, rescale(h.base, sc), rescale(h.alt, sc)};
  auto ops = hops();
  OSQPSettings s = base_settings(L);
  s.scaling = scaling; s.adaptive_rho = 0; s.max_iter = 30; s.check_termination = 0; s.warm_starting = 0; s.eps_abs = s.eps_rel = 1e-12; s.eps_prim_inf = s.eps_dual_inf = 1e-12;
  Mach m(L, g, s);
  std::string who = strf("%s %s scaling=%d %s x%d then %s", lib.c_str(), h.name.c_str(), (int)scaling, hist_str(ops, seq).c_str(), rep, ops[last].name.c_str());
  if (m.setup_rc) { x.viol("setup_failed", "%s", who.c_str()); return; }
  for (int k = 0; k < rep; k++) for (int o : seq) {
    OSQPInt rc = ops[o].f(m);
    x.transitions++;
    if (rc) { x.count("operation refused"); return; }
  }
  if (ops[last].f(m)) { x.count("operation refused"); return; }
  m.L->osqp_solve(m.s());
  x.evals++;
  m.r.pr = g.base;   // Run's copy is what setup was given; Mach never writes to it
  untouched(x, m.r, g.base, who);
  Run f(L, m.cur, s);
  if (f.rc) { x.count("fresh setup refused"); return; }
  f.solve();
  x.outcome(who.substr(0, 4) + strf("%d %.4g", f.status(), f.s->info->obj_val));
  m.r.pr = m.cur;
  check_info(x, m.r, who, "_after_updates");
  // the same point, up to rounding, after the same number of iterations
  auto rel = [](const std::vector<double>& a, const std::vector<double>& b, double t) {
    double d = 0;
    for (size_t i = 0; i < a.size(); i++) { d = std::max(d, std::fabs(a[i] - b[i])); t = std::max(t, std::fabs(b[i])); }
    return d / t;
  };
  if (m.r.status() != f.status()) { if (has_sol(m.r.status()) != has_sol(f.status())) x.viol("verdict_after_updates", "%s: %s, a fresh setup with this data: %s; %s", who.c_str(), status_name(m.r.status()).c_str(), status_name(f.status()).c_str(), m.cur.str().c_str()); return; }
  if (!has_sol(f.status())) return;
  double dx = rel(m.r.x(), f.x(), 1e-3), dy = rel(m.r.y(), f.y(), 1e-5 * (1 + ninf(m.cur.q)));
  if (!(dx < 1e-4 && dy < 1e-4))
    x.viol("point_after_updates", "%s: x=%s y=%s; a fresh setup with this data reaches x=%s y=%s; %s", who.c_str(), vecstr(m.r.x()).c_str(), vecstr(m.r.y()).c_str(), vecstr(f.x()).c_str(), vecstr(f.y()).c_str(), m.cur.str().c_str());
}

int main(int argc, char** argv) {
  Check c;
  c.id = "C17";
  c.level = "exploration";
  c.rule = "for scaling 0,1,2,10,25 on every power-of-ten rescaling of exactly solved problems: verdict, solution, certificate, residuals and objectives are right in the caller's units; after any repeated matrix updates the solver computes what a fresh setup computes; caller's arrays keep their bits";
  c.assumptions = {"problem data from the finite alphabets named in the spaces; rescalings by powers of ten as named", "builtin backend factorisation by the API-compatible QDLDL stand-in; MKL is the real library, single threaded"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    auto C = std::make_shared<std::vector<Cfg>>(cfgs(th));
    struct F { std::string fam; std::vector<int> e; int width; uint64_t stride; };
    std::vector<F> fs = {{"n1m2", {0}, 0, 1}, {"n2m1", {0}, 0, 1}, {"n1m1", {-3, 0, 3}, 1, 1}, {"sc21", {-2, 0, 2}, 1, 1}};
    if (th) fs = {{"n1m2", {0}, 0, 1}, {"n2m1", {0}, 0, 1}, {"n2m2s", {0}, 0, 1}, {"n1m1", {-4, -2, 0, 2, 4}, 1, 1}, {"sc21", {-3, 0, 3}, 1, 1}, {"sc22", {-2, 0, 2}, 1, 1}};
    for (auto& f : fs) {
      Family fam;
      if (f.fam == "sc21" || f.fam == "sc22") {
        fam.name = f.fam; fam.n = 2; fam.m = f.fam == "sc21" ? 1 : 2;
        fam.Ps = {{1, 0, 0, 1}, {2, 1, 1, 2}, {0, 0, 0, 0}, {1, 0, 0, 0}}; fam.qs = {1, -1}; fam.as = {0, 1, -1};
        fam.bs = {{1, 1}, {-1, 1}, {1, INF}, {-INF, -1}};
        if (fam.m == 2) { fam.as = {1, -1}; fam.qs = {1}; }
      } else fam = family(f.fam);
      auto fp = std::make_shared<Family>(fam);
      uint64_t ns = upow(f.e.size(), fp->n + fp->m + 1);
      auto dec = [fp, ns, f](uint64_t i, Scale& s) { s = scale_no(i % ns, fp->n, fp->m, f.e); return fp->get(i / ns); };
      S.push_back({"rescaled:" + f.fam, fp->count() * ns, [=](uint64_t i, Ctx& x) { Scale s; Prob p = dec(i, s); one(x, *C, p, s, f.width); },
                   [=](uint64_t i) { Scale s; Prob p = dec(i, s); return sstr(s) + " of " + p.str(); }});
    }
    auto H = std::make_shared<std::vector<HProb>>(hist_problems());
    auto ops = hops();
    int K = (int)ops.size(), len = th ? 3 : 2;
    for (int l = 1; l <= len; l++) {
      uint64_t nseq = upow(K, l), nr = th ? 3 : 3;
      uint64_t per = nseq * nr * 3 /*last*/ * 5 /*scaling*/ * 2 /*lib*/ * 3 /*rescale*/;
      if (l == 3) per = nseq * 2 * 3 * 2 * 2 * 1;
      auto go = [=](uint64_t i, Ctx* x) -> std::string {
        Dec d(i);
        int h = d.take(H->size());
        auto seq = decode_hist(d.take(nseq), K, l);
        int rep = l == 3 ? (int)(d.take(2) ? 5 : 1) : (int)REP[d.take(3)];
        static const int LAST[] = {1, 3, 4};
        int last = LAST[d.take(3)];   // a partial update of P, of A, or all values of both
        OSQPInt sc = l == 3 ? (d.take(2) ? 10 : 1) : SCALINGS[d.take(5)];
        std::string lib = d.take(2) ? "mkl" : "bi";
        int rs = l == 3 ? 0 : (int)d.take(3);
        Scale s;
        const Prob& b = (*H)[h].base;
        for (int k = 0; k < b.m; k++) s.r.push_back(rs == 0 ? 0 : rs == 1 ? (k ? -2 : 3) : (k ? 4 : -1));
        for (int k = 0; k < b.n; k++) s.c.push_back(rs == 0 ? 0 : rs == 1 ? (k ? 1 : -2) : (k ? -1 : 2));
        s.k = rs == 0 ? 0 : rs == 1 ? 2 : -3;
        if (rs) s.f = 1.3;   // keeps the data off the thresholds of the equilibration, where rounding decides
        if (x) { repeat(*x, (*H)[h], s, sc, lib, seq, rep, last); return ""; }
        return strf("%s %s scaling=%d %s x%d then %s, %s", lib.c_str(), (*H)[h].name.c_str(), (int)sc, hist_str(ops, seq).c_str(), rep, ops[last].name.c_str(), sstr(s).c_str());
      };
      S.push_back({strf("updates_len%d", l), per * H->size(), [=](uint64_t i, Ctx& x) { go(i, &x); }, [=](uint64_t i) { return go(i, nullptr); }});
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
