// C22: every linear-algebra kernel computes its mathematical definition.
#include "common.h"
#include <algorithm>
#include "algebra_vector.h"
#include "algebra_matrix.h"
typedef std::vector<double> V;
typedef std::vector<OSQPInt> VI;
#define KERNELS(X) \
  X(OSQPVectorf_malloc) X(OSQPVectorf_calloc) X(OSQPVectori_malloc) X(OSQPVectori_calloc) X(OSQPVectorf_new) X(OSQPVectori_new) X(OSQPVectorf_copy_new) X(OSQPVectorf_free) X(OSQPVectori_free) \
  X(OSQPVectorf_view) X(OSQPVectorf_view_update) X(OSQPVectorf_view_free) X(OSQPVectorf_length) X(OSQPVectori_length) X(OSQPVectorf_data) X(OSQPVectorf_copy) X(OSQPVectorf_from_raw) X(OSQPVectori_from_raw) \
  X(OSQPVectorf_to_raw) X(OSQPVectori_to_raw) X(OSQPVectorf_set_scalar) X(OSQPVectorf_set_scalar_conditional) X(OSQPVectorf_round_to_zero) X(OSQPVectorf_mult_scalar) X(OSQPVectorf_plus) X(OSQPVectorf_minus) \
  X(OSQPVectorf_add_scaled) X(OSQPVectorf_add_scaled3) X(OSQPVectorf_norm_inf) X(OSQPVectorf_scaled_norm_inf) X(OSQPVectorf_norm_inf_diff) X(OSQPVectorf_norm_1) X(OSQPVectorf_dot_prod) X(OSQPVectorf_dot_prod_signed) \
  X(OSQPVectorf_ew_prod) X(OSQPVectorf_all_leq) X(OSQPVectorf_ew_bound_vec) X(OSQPVectorf_project_polar_reccone) X(OSQPVectorf_in_reccone) X(OSQPVectorf_ew_reciprocal) X(OSQPVectorf_ew_sqrt) X(OSQPVectorf_ew_max_vec) \
  X(OSQPVectorf_ew_min_vec) X(OSQPVectorf_ew_bounds_type) X(OSQPVectorf_set_scalar_if_lt) X(OSQPVectorf_set_scalar_if_gt) \
  X(OSQPMatrix_new_from_csc) X(OSQPMatrix_update_values) X(OSQPMatrix_get_m) X(OSQPMatrix_get_n) X(OSQPMatrix_get_x) X(OSQPMatrix_get_i) X(OSQPMatrix_get_p) X(OSQPMatrix_get_nz) X(OSQPMatrix_mult_scalar) \
  X(OSQPMatrix_lmult_diag) X(OSQPMatrix_rmult_diag) X(OSQPMatrix_AtDA_extract_diag) X(OSQPMatrix_extract_diag) X(OSQPMatrix_Axpy) X(OSQPMatrix_Atxpy) X(OSQPMatrix_col_norm_inf) X(OSQPMatrix_row_norm_inf) \
  X(OSQPMatrix_free) X(OSQPMatrix_submatrix_byrows)
#define KOPT(X) X(OSQPVectorf_norm_2) X(OSQPVectorf_subvector_assign) X(OSQPVectorf_subvector_assign_scalar) X(OSQPVectorf_subvector_byrows) X(OSQPVectorf_concat) \
  X(OSQPMatrix_get_csc) X(OSQPMatrix_copy_new) X(OSQPMatrix_triu_to_symm) X(OSQPMatrix_vstack)
struct K {
  std::string lib;
#define D_(f) decltype(&::f) f = nullptr;
  KERNELS(D_) KOPT(D_)
};
static K* kern(const std::string& v) {
  static std::map<std::string, K*> M;
  K*& k = M[v];
  if (!k) {
    k = new K;
    k->lib = v;
    Lib* L = load_lib(v);
    ((OSQPInt (*)(OSQPInt))L->sym("osqp_algebra_init_libs"))(0);  // as osqp_setup does
#define S_(f) k->f = (decltype(&::f))L->sym(#f);
#define O_(f) k->f = (decltype(&::f))L->sym(#f, false);
    KERNELS(S_) KOPT(O_)
  }
  return k;
}
static const double G = 777.25;
// a float vector with guard entries on both sides
struct GV {
  K* k; OSQPVectorf *big, *v; V in; int n;
  GV(K* kk, const V& a) : k(kk), in(a), n((int)a.size()) {
    V b(n + 4, G);
    std::copy(a.begin(), a.end(), b.begin() + 2);
    big = k->OSQPVectorf_new(b.data(), n + 4);
    v = k->OSQPVectorf_view(big, 2, n);
  }
  ~GV() { k->OSQPVectorf_view_free(v); k->OSQPVectorf_free(big); }
  V all() { V b(n + 4); k->OSQPVectorf_to_raw(b.data(), big); return b; }
  V get() { V b = all(); return V(b.begin() + 2, b.end() - 2); }
  bool guards() { V b = all(); return b[0] == G && b[1] == G && b[n + 2] == G && b[n + 3] == G; }
};
static bool eqv(const V& a, const V& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false;
  return true;
}
struct T {
  Ctx& x; K* k;
  void out(const char* f, const std::string& args, GV& o, const V& want) {
    x.evals++;
    V g = o.get();
    if (!eqv(g, want)) x.viol(f, "%s %s(%s) = %s instead of %s", k->lib.c_str(), f, args.c_str(), vecstr(g).c_str(), vecstr(want).c_str());
    if (!o.guards()) x.viol(f, "%s %s(%s) wrote outside its output", k->lib.c_str(), f, args.c_str());
  }
  void keep(const char* f, const std::string& args, GV& o) {
    if (!eqv(o.get(), o.in) || !o.guards()) x.viol(f, "%s %s(%s) modified an input: %s instead of %s", k->lib.c_str(), f, args.c_str(), vecstr(o.get()).c_str(), vecstr(o.in).c_str());
  }
  void val(const char* f, const std::string& args, double got, double want) {
    x.evals++;
    if (!(got == want)) x.viol(f, "%s %s(%s) = %.17g instead of %.17g", k->lib.c_str(), f, args.c_str(), got, want);
  }
};
static V map1(const V& a, std::function<double(double)> f) { V r; for (double t : a) r.push_back(f(t)); return r; }
static V map2(const V& a, const V& b, std::function<double(double, double)> f) { V r; for (size_t i = 0; i < a.size(); i++) r.push_back(f(a[i], b[i])); return r; }
static const double SC[] = {1, -1, 0, 2, -0.5};

static void vec1(Ctx& x, K* k, const V& a) {
  T t{x, k};
  std::string A = "a=" + vecstr(a);
  int n = (int)a.size();
  double ni = 0, n1 = 0, n2 = 0;
  for (double v : a) { ni = std::max(ni, std::fabs(v)); n1 += std::fabs(v); n2 += v * v; }
  { GV g(k, a); t.val("norm_inf", A, k->OSQPVectorf_norm_inf(g.v), ni); t.val("norm_1", A, k->OSQPVectorf_norm_1(g.v), n1);
    if (k->OSQPVectorf_norm_2) t.val("norm_2", A, k->OSQPVectorf_norm_2(g.v), std::sqrt(n2));
    t.val("length", A, (double)k->OSQPVectorf_length(g.v), n);
    V r(n + 1, G); k->OSQPVectorf_to_raw(r.data(), g.v); x.evals++;
    if (!eqv(V(r.begin(), r.end() - 1), a) || r[n] != G) x.viol("to_raw", "%s to_raw(%s) = %s", k->lib.c_str(), A.c_str(), vecstr(r).c_str());
    if (n && !eqv(V(k->OSQPVectorf_data(g.v), k->OSQPVectorf_data(g.v) + n), a)) x.viol("data", "%s data(%s) wrong", k->lib.c_str(), A.c_str());
    t.keep("norm/length", A, g); }
  { GV g(k, V(n, 5)); k->OSQPVectorf_from_raw(g.v, a.data()); t.out("from_raw", A, g, a); }
  { GV g(k, a), o(k, V(n, 5)); k->OSQPVectorf_copy(o.v, g.v); t.out("copy", A, o, a); t.keep("copy", A, g); }
  { OSQPVectorf* c = k->OSQPVectorf_new(a.data(), n); OSQPVectorf* d = k->OSQPVectorf_copy_new(c); V r(n), s(n);
    k->OSQPVectorf_to_raw(r.data(), c); k->OSQPVectorf_set_scalar(c, 9); k->OSQPVectorf_to_raw(s.data(), d); x.evals++;
    if (!eqv(r, a) || !eqv(s, a) || k->OSQPVectorf_length(d) != n) x.viol("new", "%s new/copy_new(%s)", k->lib.c_str(), A.c_str());
    k->OSQPVectorf_free(c); k->OSQPVectorf_free(d); 
    OSQPVectorf* e = k->OSQPVectorf_calloc(n); V z(n, 1); k->OSQPVectorf_to_raw(z.data(), e); if (!eqv(z, V(n, 0)) || k->OSQPVectorf_length(e) != n) x.viol("calloc", "%s calloc(%d) not zero", k->lib.c_str(), n); k->OSQPVectorf_free(e);
    e = k->OSQPVectorf_malloc(n); if (!e || k->OSQPVectorf_length(e) != n) x.viol("malloc", "%s malloc(%d)", k->lib.c_str(), n); k->OSQPVectorf_set_scalar(e, 1); k->OSQPVectorf_free(e); }
  for (double s : SC) {
    std::string S = A + strf(", sc=%g", s);
    { GV g(k, a); k->OSQPVectorf_set_scalar(g.v, s); t.out("set_scalar", S, g, V(n, s)); }
    { GV g(k, a); k->OSQPVectorf_mult_scalar(g.v, s); t.out("mult_scalar", S, g, map1(a, [&](double v) { return v * s; })); }
    { GV g(k, a), o(k, V(n, 5)); k->OSQPVectorf_set_scalar_if_lt(o.v, g.v, s, 42); t.out("set_scalar_if_lt", S, o, map1(a, [&](double v) { return v < s ? 42 : v; })); t.keep("set_scalar_if_lt", S, g); }
    { GV g(k, a), o(k, V(n, 5)); k->OSQPVectorf_set_scalar_if_gt(o.v, g.v, s, 42); t.out("set_scalar_if_gt", S, o, map1(a, [&](double v) { return v > s ? 42 : v; })); t.keep("set_scalar_if_gt", S, g); }
    { GV g(k, a); k->OSQPVectorf_set_scalar_if_lt(g.v, g.v, s, 42); t.out("set_scalar_if_lt", S + " in place", g, map1(a, [&](double v) { return v < s ? 42 : v; })); }
    { GV g(k, a); k->OSQPVectorf_set_scalar_if_gt(g.v, g.v, s, 42); t.out("set_scalar_if_gt", S + " in place", g, map1(a, [&](double v) { return v > s ? 42 : v; })); }
  }
  { GV g(k, a); k->OSQPVectorf_round_to_zero(g.v, 1.5); t.out("round_to_zero", A, g, map1(a, [](double v) { return std::fabs(v) < 1.5 ? 0 : v; })); }
  V pos = map1(a, [](double v) { return v == 0 ? 4 : std::fabs(v) * 4; });
  { GV g(k, pos), o(k, V(n, 5)); k->OSQPVectorf_ew_reciprocal(o.v, g.v); 
    V w = map1(pos, [](double v) { return 1 / v; }), r = o.get(); x.evals++;
    for (int i = 0; i < n; i++) if (std::fabs(r[i] - w[i]) > 4e-16 * w[i]) x.viol("ew_reciprocal", "%s 1/%g = %.17g", k->lib.c_str(), pos[i], r[i]);
    if (!o.guards()) x.viol("ew_reciprocal", "guards"); t.keep("ew_reciprocal", A, g);
    k->OSQPVectorf_ew_reciprocal(g.v, g.v); r = g.get(); for (int i = 0; i < n; i++) if (std::fabs(r[i] - w[i]) > 4e-16 * w[i]) x.viol("ew_reciprocal", "%s in place 1/%g = %.17g", k->lib.c_str(), pos[i], r[i]); }
  { V sq = map1(pos, [](double v) { return v * v; }); GV g(k, sq); k->OSQPVectorf_ew_sqrt(g.v); V r = g.get(); x.evals++;
    for (int i = 0; i < n; i++) if (std::fabs(r[i] - pos[i]) > 1e-15 * pos[i]) x.viol("ew_sqrt", "%s sqrt(%g) = %.17g", k->lib.c_str(), sq[i], r[i]);
    if (!g.guards()) x.viol("ew_sqrt", "guards"); }
  VI sg; for (double v : a) sg.push_back(v < 0 ? -1 - (OSQPInt)(v < -1) : v > 0 ? 1 + (v > 1) : 0);
  { OSQPVectori* iv = k->OSQPVectori_new(sg.data(), n); VI r(n + 1, 99); k->OSQPVectori_to_raw(r.data(), iv); x.evals++;
    if (VI(r.begin(), r.end() - 1) != sg || r[n] != 99 || k->OSQPVectori_length(iv) != n) x.viol("vectori", "%s int vector round trip of %s", k->lib.c_str(), A.c_str());
    GV g(k, V(n, 5)); k->OSQPVectorf_set_scalar_conditional(g.v, iv, 10, 20, 30); t.out("set_scalar_conditional", A, g, map1(a, [](double v) { return v < 0 ? 10 : v > 0 ? 30 : 20; }));
    VI z(n, 7); k->OSQPVectori_from_raw(iv, z.data()); k->OSQPVectori_to_raw(r.data(), iv); if (n && r[0] != 7) x.viol("vectori", "from_raw"); k->OSQPVectori_free(iv);
    iv = k->OSQPVectori_calloc(n); k->OSQPVectori_to_raw(z.data(), iv); for (auto q : z) if (q) x.viol("vectori", "calloc not zero"); k->OSQPVectori_free(iv);
    iv = k->OSQPVectori_malloc(n); if (k->OSQPVectori_length(iv) != n) x.viol("vectori", "malloc length"); k->OSQPVectori_free(iv); }
  // views: every window
  { GV g(k, a);
    for (int h = 0; h <= n; h++) for (int l = 0; h + l <= n; l++) {
      OSQPVectorf* w = k->OSQPVectorf_view(g.v, h, l);
      V r(l), want(a.begin() + h, a.begin() + h + l); k->OSQPVectorf_to_raw(r.data(), w); x.evals++;
      if (!eqv(r, want) || k->OSQPVectorf_length(w) != l) x.viol("view", "%s view(%s,%d,%d) = %s", k->lib.c_str(), A.c_str(), h, l, vecstr(r).c_str());
      if (n) { k->OSQPVectorf_view_update(w, g.v, n - l, l); k->OSQPVectorf_to_raw(r.data(), w); if (!eqv(r, V(a.end() - l, a.end()))) x.viol("view_update", "%s view_update", k->lib.c_str()); }
      k->OSQPVectorf_view_free(w);
    }
    t.keep("view", A, g);
    if (k->OSQPVectorf_subvector_assign) for (int h = 0; h <= n; h++) for (int l = 0; h + l <= n; l++) {
      V b; for (int i = 0; i < l; i++) b.push_back(10 + i);
      GV o(k, a); V w = a; for (int i = 0; i < l; i++) w[h + i] = -2 * b[i];
      k->OSQPVectorf_subvector_assign(o.v, b.data(), h, l, -2); t.out("subvector_assign", A + strf(",%d,%d", h, l), o, w);
      GV o2(k, a); for (int i = 0; i < l; i++) w[h + i] = 6;
      k->OSQPVectorf_subvector_assign_scalar(o2.v, 6, h, l); t.out("subvector_assign_scalar", A + strf(",%d,%d", h, l), o2, w);
    }
    if (k->OSQPVectorf_subvector_byrows && n <= 4) for (int mask = 0; mask < (1 << n); mask++) {
      VI rows; V want; for (int i = 0; i < n; i++) { rows.push_back((mask >> i & 1) ? (i % 2 ? -1 : 1) : 0); if (mask >> i & 1) want.push_back(a[i]); }
      OSQPVectori* iv = k->OSQPVectori_new(rows.data(), n); OSQPVectorf* r = k->OSQPVectorf_subvector_byrows(g.v, iv); x.evals++;
      V got(k->OSQPVectorf_length(r)); k->OSQPVectorf_to_raw(got.data(), r);
      if (!eqv(got, want)) x.viol("subvector_byrows", "%s subvector_byrows(%s, mask %d) = %s", k->lib.c_str(), A.c_str(), mask, vecstr(got).c_str());
      k->OSQPVectori_free(iv); k->OSQPVectorf_free(r);
    } }
}
static void vec2(Ctx& x, K* k, const V& a, const V& b) {
  T t{x, k};
  std::string A = "a=" + vecstr(a) + ", b=" + vecstr(b);
  int n = (int)a.size();
  double d = 0, dp = 0, dm = 0, ndf = 0, sn = 0; bool leq = true;
  for (int i = 0; i < n; i++) { d += a[i] * b[i]; if (b[i] > 0) dp += a[i] * b[i]; else dm += a[i] * b[i]; ndf = std::max(ndf, std::fabs(a[i] - b[i])); sn = std::max(sn, std::fabs(a[i] * b[i])); leq &= a[i] <= b[i]; }
  { GV g(k, a), h(k, b);
    t.val("dot_prod", A, k->OSQPVectorf_dot_prod(g.v, h.v), d);
    t.val("dot_prod_signed+", A, k->OSQPVectorf_dot_prod_signed(g.v, h.v, 1), dp);
    t.val("dot_prod_signed-", A, k->OSQPVectorf_dot_prod_signed(g.v, h.v, -1), dm);
    t.val("dot_prod_signed0", A, k->OSQPVectorf_dot_prod_signed(g.v, h.v, 0), d);
    t.val("norm_inf_diff", A, k->OSQPVectorf_norm_inf_diff(g.v, h.v), ndf);
    t.val("scaled_norm_inf", A, k->OSQPVectorf_scaled_norm_inf(g.v, h.v), sn);
    t.val("all_leq", A, (double)!!k->OSQPVectorf_all_leq(g.v, h.v), leq);
    for (int i = 0; i < n; i++) for (int w = 0; w < 3; w++) {   // something that is not a number is not less than or equal to anything
      V an = a, bn = b; if (w != 1) an[i] = NAN; if (w) bn[i] = NAN;
      GV gn(k, an), hn(k, bn); t.val("all_leq", A + strf(" with NaN at %d", i), (double)!!k->OSQPVectorf_all_leq(gn.v, hn.v), 0);
    }
    t.keep("reductions", A, g); t.keep("reductions", A, h);
    t.val("dot_prod same", A, k->OSQPVectorf_dot_prod(g.v, g.v), dot(a, a));
    if (k->OSQPVectorf_concat) { OSQPVectorf* c = k->OSQPVectorf_concat(g.v, h.v); V w = a; w.insert(w.end(), b.begin(), b.end()); V r(k->OSQPVectorf_length(c)); k->OSQPVectorf_to_raw(r.data(), c); x.evals++; if (!eqv(r, w)) x.viol("concat", "%s concat(%s)", k->lib.c_str(), A.c_str()); k->OSQPVectorf_free(c); } }
  struct B { const char* n; std::function<void(OSQPVectorf*, OSQPVectorf*, OSQPVectorf*)> f; std::function<double(double, double)> r; bool binplace; };
  std::vector<B> ops = {
    {"plus", [&](OSQPVectorf* o, OSQPVectorf* p, OSQPVectorf* q) { k->OSQPVectorf_plus(o, p, q); }, [](double u, double v) { return u + v; }, false},
    {"minus", [&](OSQPVectorf* o, OSQPVectorf* p, OSQPVectorf* q) { k->OSQPVectorf_minus(o, p, q); }, [](double u, double v) { return u - v; }, false},
    {"ew_prod", [&](OSQPVectorf* o, OSQPVectorf* p, OSQPVectorf* q) { k->OSQPVectorf_ew_prod(o, p, q); }, [](double u, double v) { return u * v; }, false},
    {"ew_max_vec", [&](OSQPVectorf* o, OSQPVectorf* p, OSQPVectorf* q) { k->OSQPVectorf_ew_max_vec(o, p, q); }, [](double u, double v) { return std::max(u, v); }, true},
    {"ew_min_vec", [&](OSQPVectorf* o, OSQPVectorf* p, OSQPVectorf* q) { k->OSQPVectorf_ew_min_vec(o, p, q); }, [](double u, double v) { return std::min(u, v); }, true}};
  for (double s1 : SC) for (double s2 : SC) ops.push_back({"add_scaled", [&, s1, s2](OSQPVectorf* o, OSQPVectorf* p, OSQPVectorf* q) { k->OSQPVectorf_add_scaled(o, s1, p, s2, q); }, [s1, s2](double u, double v) { return s1 * u + s2 * v; }, false});
  for (auto& o : ops) {
    V w = map2(a, b, o.r);
    { GV r(k, V(n, 5)), g(k, a), h(k, b); o.f(r.v, g.v, h.v); t.out(o.n, A, r, w); t.keep(o.n, A, g); t.keep(o.n, A, h); }
    { GV g(k, a), h(k, b); o.f(g.v, g.v, h.v); t.out(o.n, A + " x==a", g, w); t.keep(o.n, A, h); }
    if (o.binplace) { GV g(k, a), h(k, b); o.f(h.v, g.v, h.v); t.out(o.n, A + " x==b", h, w); t.keep(o.n, A, g); }
    { GV g(k, a); o.f(g.v, g.v, g.v); t.out(o.n, A + " all same", g, map2(a, a, o.r)); }
  }
}
static void vec3(Ctx& x, K* k, const V& a, const V& b, const V& c) {  // a any, (b,c) used as bounds too
  T t{x, k};
  std::string A = "a=" + vecstr(a) + ", b=" + vecstr(b) + ", c=" + vecstr(c);
  int n = (int)a.size();
  bool fin = true, ord = true;
  for (int i = 0; i < n; i++) { fin &= std::fabs(a[i]) < 1e20 && std::fabs(b[i]) < 1e20 && std::fabs(c[i]) < 1e20; ord &= b[i] <= c[i]; }
  if (fin) for (double s1 : {1., 0., -2.}) for (double s2 : {1., -1.}) for (double s3 : {1., 0.5}) {
    V w; for (int i = 0; i < n; i++) w.push_back(s1 * a[i] + s2 * b[i] + s3 * c[i]);
    std::string S = A + strf(" scalars %g %g %g", s1, s2, s3);
    { GV r(k, V(n, 5)), g(k, a), h(k, b), m(k, c); k->OSQPVectorf_add_scaled3(r.v, s1, g.v, s2, h.v, s3, m.v); t.out("add_scaled3", S, r, w); t.keep("add_scaled3", S, g); t.keep("add_scaled3", S, h); t.keep("add_scaled3", S, m); }
    { GV g(k, a), h(k, b), m(k, c); k->OSQPVectorf_add_scaled3(g.v, s1, g.v, s2, h.v, s3, m.v); t.out("add_scaled3", S + " x==a", g, w); }
  }
  if (!ord) return;
  auto inf = [](double v) { return std::fabs(v) >= 1e26; };
  V w, pr; VI ty, ty0;
  bool in = true;
  for (int i = 0; i < n; i++) {
    w.push_back(std::min(std::max(a[i], b[i]), c[i]));
    bool li = b[i] < 0 && inf(b[i]), ui = c[i] > 0 && inf(c[i]);
    pr.push_back(li && ui ? 0 : ui ? std::min(a[i], 0.) : li ? std::max(a[i], 0.) : a[i]);
    ty.push_back(li && ui ? -1 : c[i] - b[i] < 0.75 ? 1 : 0);
    if (!ui && a[i] > 1) in = false;
    if (!li && a[i] < -1) in = false;
  }
  { GV r(k, V(n, 5)), g(k, a), h(k, b), m(k, c); k->OSQPVectorf_ew_bound_vec(r.v, g.v, h.v, m.v); t.out("ew_bound_vec", A, r, w); t.keep("ew_bound_vec", A, g); t.keep("ew_bound_vec", A, h); t.keep("ew_bound_vec", A, m); }
  { GV g(k, a), h(k, b), m(k, c); k->OSQPVectorf_ew_bound_vec(g.v, g.v, h.v, m.v); t.out("ew_bound_vec", A + " x==z", g, w); }
  { GV g(k, a), h(k, b), m(k, c); k->OSQPVectorf_project_polar_reccone(g.v, h.v, m.v, 1e26); t.out("project_polar_reccone", A, g, pr); t.keep("project_polar_reccone", A, h); t.keep("project_polar_reccone", A, m); }
  { GV g(k, a), h(k, b), m(k, c); t.val("in_reccone", A, (double)!!k->OSQPVectorf_in_reccone(g.v, h.v, m.v, 1e26, 1), in); t.keep("in_reccone", A, g); }
  for (int pre = -1; pre <= 1; pre++) {
    VI init(n, pre), got(n);
    OSQPVectori* iv = k->OSQPVectori_new(init.data(), n); GV h(k, b), m(k, c);
    OSQPInt ch = k->OSQPVectorf_ew_bounds_type(iv, h.v, m.v, 0.75, 1e26);
    k->OSQPVectori_to_raw(got.data(), iv); k->OSQPVectori_free(iv); x.evals++;
    if (got != ty || !!ch != (ty != init)) x.viol("ew_bounds_type", "%s ew_bounds_type(%s): changed=%d", k->lib.c_str(), A.c_str(), (int)ch);
    t.keep("ew_bounds_type", A, h); t.keep("ew_bounds_type", A, m);
  }
}
// ---------------------------------------------------------------- matrices
struct Mx { int m, n; V d; std::vector<char> mask; bool triu; bool rev; int spare; };
struct MC { Csc c; OSQPMatrix* M; };
static OSQPMatrix* mk(K* k, const Mx& a, Csc& c) {
  csc_from(c, a.m, a.n, a.d, a.mask, a.triu);
  if (a.rev) for (int j = 0; j < a.n; j++) { std::reverse(c.i.begin() + c.p[j], c.i.begin() + c.p[j + 1]); std::reverse(c.x.begin() + c.p[j], c.x.begin() + c.p[j + 1]); std::reverse(c.pos.begin() + c.p[j], c.pos.begin() + c.p[j + 1]); }
  c.M.i = c.i.data(); c.M.x = c.x.data();
  return k->OSQPMatrix_new_from_csc(&c.M, a.triu);
}
static V dense(K* k, const OSQPMatrix* M, bool triu) {
  int m = (int)k->OSQPMatrix_get_m(M), n = (int)k->OSQPMatrix_get_n(M);
  V d(m * n, 0);
  OSQPInt *p = k->OSQPMatrix_get_p(M), *i = k->OSQPMatrix_get_i(M);
  double* v = k->OSQPMatrix_get_x(M);
  for (int j = 0; j < n; j++) for (int q = p[j]; q < p[j + 1]; q++) { d[i[q] * n + j] += v[q]; if (triu && i[q] != j) d[j * n + i[q]] += v[q]; }
  return d;
}
static void matrix(Ctx& x, K* k, const Mx& a) {
  T t{x, k};
  int m = a.m, n = a.n;
  V full = a.d;
  if (a.triu) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) full[i * n + j] = full[j * n + i];
  for (size_t e = 0; e < full.size(); e++) { int i = e / n, j = e % n; if (a.triu && i > j) std::swap(i, j); if (!a.mask[i * n + j]) full[e] = 0; }
  std::string A = strf("%s %dx%d%s %s", a.triu ? "triu" : "general", m, n, a.rev ? " reversed columns" : "", vecstr(full).c_str());
  auto chk = [&](const char* f, const std::string& s, OSQPMatrix* M, const V& want) { x.evals++; V d = dense(k, M, a.triu); if (!eqv(d, want)) x.viol(f, "%s %s(%s): %s instead of %s", k->lib.c_str(), f, s.c_str(), vecstr(d).c_str(), vecstr(want).c_str()); };
  Csc c; OSQPMatrix* M = mk(k, a, c);
  if (!M) { x.viol("new_from_csc", "%s new_from_csc(%s) returns null", k->lib.c_str(), A.c_str()); return; }
  chk("new_from_csc", A, M, full);
  if (k->OSQPMatrix_get_m(M) != m || k->OSQPMatrix_get_n(M) != n || k->OSQPMatrix_get_nz(M) != (OSQPInt)c.pos.size()) x.viol("dimensions", "%s dimensions of %s", k->lib.c_str(), A.c_str());
  auto xs = [&](int len) { std::vector<V> R; if (len == 0) R.push_back({}); else for (int s = 0; s < len; s++) for (double v : {1., -2.}) { V z(len, 0); z[s] = v; R.push_back(z); } V z(len); for (int i = 0; i < len; i++) z[i] = 1 - 3 * i; R.push_back(z); return R; };
  V fy;
  auto mv = [&](bool tr) {
    const char* f = tr ? "Atxpy" : "Axpy";
    int rows = tr ? n : m, cols = tr ? m : n;
    for (auto& xv : xs(cols)) {
      V Ax(rows, 0);
      for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (tr) Ax[j] += full[i * n + j] * xv[i]; else Ax[i] += full[i * n + j] * xv[j];
      for (double al : {1., -1., 0., 2.}) for (double be : {1., -1., 0., 3.}) for (int nan = 0; nan < 2; nan++) {
        if (nan && be != 0) continue;  // with beta zero the old output does not count at all
        V y0(rows); for (int i = 0; i < rows; i++) y0[i] = nan ? NAN : 2 + 5 * i;
        V w(rows); for (int i = 0; i < rows; i++) w[i] = al * Ax[i] + (be == 0 ? 0 : be * y0[i]);
        GV X(k, xv), Y(k, y0);
        if (tr) k->OSQPMatrix_Atxpy(M, X.v, Y.v, al, be); else k->OSQPMatrix_Axpy(M, X.v, Y.v, al, be);
        t.out(f, A + strf(", x=%s, alpha=%g, beta=%g%s", vecstr(xv).c_str(), al, be, nan ? ", y=NaN" : ""), Y, w);
        t.keep(f, A, X);
      }
    }
  };
  mv(false); mv(true);
  { V w(n, 0); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (!a.triu || i <= j) w[j] = std::max(w[j], std::fabs(full[i * n + j]));
    // (w: of the stored entries; for a symmetric matrix the definition wants both triangles)
    V wf(n, 0); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) wf[j] = std::max(wf[j], std::fabs(full[i * n + j]));
    GV o(k, V(n, 5)); k->OSQPMatrix_col_norm_inf(M, o.v);
    if (a.triu && !eqv(w, wf) && eqv(o.get(), w)) x.viol("col_norm_inf_of_symmetric_matrix_ignores_lower_triangle", "%s col_norm_inf(%s) = %s instead of %s", k->lib.c_str(), A.c_str(), vecstr(w).c_str(), vecstr(wf).c_str());
    else t.out("col_norm_inf", A, o, wf); }
  { V w(m, 0); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w[i] = std::max(w[i], std::fabs(full[i * n + j])); GV o(k, V(m, 5)); k->OSQPMatrix_row_norm_inf(M, o.v); t.out("row_norm_inf", A, o, w); }
  if (!a.triu) { V D(m); for (int i = 0; i < m; i++) D[i] = 1 + i; V w(n, 0); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w[j] += full[i * n + j] * full[i * n + j] * D[i];
    GV d(k, D), o(k, V(n, 5)); k->OSQPMatrix_AtDA_extract_diag(M, d.v, o.v); t.out("AtDA_extract_diag", A, o, w); t.keep("AtDA_extract_diag", A, d); }
  if (m == n) { V w(n); for (int i = 0; i < n; i++) w[i] = full[i * n + i]; GV o(k, V(n, 5)); k->OSQPMatrix_extract_diag(M, o.v); t.out("extract_diag", A, o, w); }
  chk("reading", A, M, full);
  if (k->OSQPMatrix_get_csc) { OSQPCscMatrix* g = k->OSQPMatrix_get_csc(M); x.evals++; if (!g || g->m != m || g->n != n || g->p[n] != (OSQPInt)c.pos.size()) x.viol("get_csc", "%s get_csc(%s) shape", k->lib.c_str(), A.c_str()); else { for (size_t q = 0; q < c.pos.size(); q++) if (g->i[q] != c.i[q] || g->x[q] != c.x[q]) x.viol("get_csc", "%s get_csc(%s) entries", k->lib.c_str(), A.c_str()); } if (g) load_lib(k->lib)->OSQPCscMatrix_free(g); }
  if (k->OSQPMatrix_copy_new) { OSQPMatrix* g = k->OSQPMatrix_copy_new(M); chk("copy_new", A, g, full); k->OSQPMatrix_mult_scalar(g, 0); chk("copy_new", A, M, full); k->OSQPMatrix_free(g); }
  if (k->OSQPMatrix_triu_to_symm && a.triu) { OSQPMatrix* g = k->OSQPMatrix_triu_to_symm(M); x.evals++; if (!g || !eqv(dense(k, g, false), full)) x.viol("triu_to_symm", "%s triu_to_symm(%s)", k->lib.c_str(), A.c_str()); if (g) k->OSQPMatrix_free(g); }
  if (!a.triu && m) {
    for (int mask = 0; mask < (1 << m); mask++) {
      VI rows; V want; for (int i = 0; i < m; i++) { rows.push_back((mask >> i & 1) ? (i % 2 ? -1 : 1) : 0); if (mask >> i & 1) want.insert(want.end(), full.begin() + i * n, full.begin() + (i + 1) * n); }
      OSQPVectori* iv = k->OSQPVectori_new(rows.data(), m); OSQPMatrix* R = k->OSQPMatrix_submatrix_byrows(M, iv);
      if (!R) x.viol("submatrix_byrows", "%s submatrix_byrows(%s) returns null", k->lib.c_str(), A.c_str());
      else {
        chk("submatrix_byrows", A + strf(" rows %d", mask), R, want);
        int r = (int)k->OSQPMatrix_get_m(R);  // and products with it
        V xv(n), w(r, 0); for (int j = 0; j < n; j++) xv[j] = 1 + 2 * j;
        for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) w[i] += want[i * n + j] * xv[j];
        GV X(k, xv), Y(k, V(r, NAN)); k->OSQPMatrix_Axpy(R, X.v, Y.v, 1, 0); t.out("submatrix product", A, Y, w);
        V w2(n, 0), yv(r); for (int i = 0; i < r; i++) yv[i] = 2 - i; for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) w2[j] += want[i * n + j] * yv[i];
        GV Y2(k, yv), X2(k, V(n, NAN)); k->OSQPMatrix_Atxpy(R, Y2.v, X2.v, 1, 0); t.out("submatrix product", A, X2, w2);
        if (k->OSQPMatrix_vstack) { OSQPMatrix* S = k->OSQPMatrix_vstack(M, R); V st = full; st.insert(st.end(), want.begin(), want.end()); x.evals++; if (!S || !eqv(dense(k, S, false), st) || k->OSQPMatrix_get_m(S) != m + r) x.viol("vstack", "%s vstack(%s)", k->lib.c_str(), A.c_str()); if (S) k->OSQPMatrix_free(S); }
        k->OSQPMatrix_free(R);
      }
      k->OSQPVectori_free(iv);
    }
    chk("submatrix_byrows", A, M, full);
  }
  k->OSQPMatrix_free(M);
  // modifying operations; products after them see the new values
  auto apply = [&](const char* f, std::function<void(OSQPMatrix*)> op, const V& want) {
    Csc c2; OSQPMatrix* N = mk(k, a, c2); auto px = c2.x;
    op(N); chk(f, A, N, want);
    if (c2.x != px) x.viol(f, "%s %s(%s) changed the matrix it was copied from", k->lib.c_str(), f, A.c_str());
    V xv(n), w(m, 0); for (int j = 0; j < n; j++) xv[j] = 1 + j;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w[i] += want[i * n + j] * xv[j];
    GV X(k, xv), Y(k, V(m, 1)); k->OSQPMatrix_Axpy(N, X.v, Y.v, 1, 0); t.out(f, A + " then product", Y, w);
    k->OSQPMatrix_free(N);
  };
  for (double s : SC) apply("mult_scalar_matrix", [&](OSQPMatrix* N) { k->OSQPMatrix_mult_scalar(N, s); }, map1(full, [&](double v) { return v * s; }));
  { V L(m), R(n); for (int i = 0; i < m; i++) L[i] = i - 1; for (int j = 0; j < n; j++) R[j] = 2 - j;
    if (!a.triu) {
      V w = full; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w[i * n + j] *= L[i];
      apply("lmult_diag", [&](OSQPMatrix* N) { GV l(k, L); k->OSQPMatrix_lmult_diag(N, l.v); t.keep("lmult_diag", A, l); }, w);
      w = full; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w[i * n + j] *= R[j];
      apply("rmult_diag", [&](OSQPMatrix* N) { GV l(k, R); k->OSQPMatrix_rmult_diag(N, l.v); t.keep("rmult_diag", A, l); }, w);
    } else {
      V w = full; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w[i * n + j] *= R[i] * R[j];
      apply("two-sided scaling", [&](OSQPMatrix* N) { GV l(k, R); k->OSQPMatrix_lmult_diag(N, l.v); k->OSQPMatrix_rmult_diag(N, l.v); }, w);
    } }
  { int nz = (int)c.pos.size();
    auto put = [&](V& w, int q, double v) { auto e = c.pos[q]; w[e.first * n + e.second] = v; if (a.triu) w[e.second * n + e.first] = v; };
    V nv(nz), w = full; for (int q = 0; q < nz; q++) { nv[q] = 10 + q; put(w, q, nv[q]); }
    apply("update_values", [&](OSQPMatrix* N) { k->OSQPMatrix_update_values(N, nv.data(), nullptr, nz); }, w);
    for (int p = 0; p < nz; p++) for (int q = 0; q < nz; q++) { V v2 = {20, 30}; VI ix = {p, q}; V w2 = full; put(w2, p, 20); put(w2, q, 30); apply("update_values", [&](OSQPMatrix* N) { k->OSQPMatrix_update_values(N, v2.data(), ix.data(), 2); }, w2); } }
}
static uint64_t upw(uint64_t b, int e) { uint64_t r = 1; while (e-- > 0) r *= b; return r; }
static V take(Dec& d, int n, const V& al) { V v; for (int i = 0; i < n; i++) v.push_back(al[d.take(al.size())]); return v; }
int main(int argc, char** argv) {
  Check c;
  c.id = "C22"; c.level = "exploration";
  c.rule = "every kernel on every operand over small integer alphabets, sizes 0..3 (all sparsity patterns, all scalar special cases, all aliasing patterns) and every length up to 20 with one distinguished entry at every position, equals its dense definition exactly, leaves its inputs and the memory around its output alone";
  c.assumptions = {"bounds exactly at the infinity threshold and |v| exactly at the rounding tolerance are not used (the documentation is ambiguous there)"};
  c.spaces = [](const std::string& tier) {
    std::vector<Space> S;
    bool th = tier == "thorough";
    for (std::string lib : {"bi", "mkl"}) {
      const V AL = {-3, -1, 0, 1, 2}, A3 = {-2, 0, 1}, AB = {-INF, -1, -0.5, 0, 1, INF}, AX = {-2, -1, 0, 0.5, 1, 3};
      for (int n = 0; n <= (th ? 4 : 3); n++) {
        V al = n <= 2 || th ? AL : A3;
        S.push_back({lib + strf(" vec1 n=%d", n), upw((uint64_t)al.size(), n), [=](uint64_t i, Ctx& x) { Dec d(i); vec1(x, kern(lib), take(d, n, al)); }, [=](uint64_t i) { Dec d(i); return vecstr(take(d, n, al)); }});
        V al2 = n <= 2 ? AL : A3;
        if (n <= 3) S.push_back({lib + strf(" vec2 n=%d", n), upw(al2.size(), 2 * n), [=](uint64_t i, Ctx& x) { Dec d(i); V a = take(d, n, al2), b = take(d, n, al2); vec2(x, kern(lib), a, b); }, [=](uint64_t i) { return strf("operands %d", (int)i); }});
        if (n <= 2) S.push_back({lib + strf(" vec3 n=%d", n), upw(AX.size(), n) * upw(AB.size(), 2 * n), [=](uint64_t i, Ctx& x) { Dec d(i); V a = take(d, n, AX), b = take(d, n, AB), cc = take(d, n, AB); vec3(x, kern(lib), a, b, cc); }, [=](uint64_t i) { return strf("operands %d", (int)i); }});
      }
      S.push_back({lib + " long", 21 * 20 * 3, [=](uint64_t i, Ctx& x) {
        Dec d(i); int n = d.take(21), p = d.take(20), w = d.take(3);
        if (n < 4 || p >= n) return;
        K* k = kern(lib);
        V a(n), b(n), e(n);
        for (int j = 0; j < n; j++) { a[j] = 1 + j % 3; b[j] = 2 - j % 5; e[j] = b[j] + j % 3; }
        if (w == 0) a[p] = -50; else if (w == 1) { b[p] = 50; e[p] = 60; } else { b[p] = -INF; e[p] = INF; }
        if (w < 2) { vec1(x, k, a); vec2(x, k, a, b); }
        vec3(x, k, a, b, e);
      }, [](uint64_t i) { return strf("length %d position %d", (int)(i % 21), (int)(i / 21 % 20)); }});
      // matrices: all patterns
      struct Sh { int m, n; bool t; };
      for (Sh s : {Sh{0, 1, 0}, Sh{0, 3, 0}, Sh{1, 1, 0}, Sh{1, 2, 0}, Sh{2, 1, 0}, Sh{1, 3, 0}, Sh{3, 1, 0}, Sh{2, 2, 0}, Sh{2, 3, 0}, Sh{3, 2, 0}, Sh{3, 3, 0}, Sh{4, 2, 0}, Sh{2, 4, 0}, Sh{1, 1, 1}, Sh{2, 2, 1}, Sh{3, 3, 1}, Sh{4, 4, 1}}) {
        std::vector<int> cells;
        for (int i = 0; i < s.m; i++) for (int j = 0; j < s.n; j++) if (!s.t || i <= j) cells.push_back(i * s.n + j);
        int nc = (int)cells.size();
        int base = nc <= 4 ? 4 : nc <= 6 ? (th ? 4 : 3) : 2;   // absent, value, explicit zero, other value
        S.push_back({lib + strf(" %s %dx%d", s.t ? "triu" : "mat", s.m, s.n), upw(base, nc) * 2, [=](uint64_t i, Ctx& x) {
          Dec d(i);
          Mx a{s.m, s.n, V(s.m * s.n, 0), std::vector<char>(s.m * s.n, 0), s.t, false, 0};
          a.rev = d.take(2);
          for (int q = 0; q < nc; q++) { int v = d.take(base); if (v) { a.mask[cells[q]] = 1; a.d[cells[q]] = v == 1 ? (q % 2 ? -2 - q : 1 + q) : v == 2 ? 0 : 0.5; } }
          if (a.rev) { bool any = false; for (int j = 0; j < s.n; j++) { int cnt = 0; for (int r = 0; r < s.m; r++) cnt += a.mask[r * s.n + j]; any |= cnt > 1; } if (!any) return; if (s.t) return; }
          matrix(x, kern(lib), a);
          if (!s.t) x.outcome(strf("%dx%d", s.m, s.n));
        }, [=](uint64_t i) { return strf("pattern %d", (int)i); }});
      }
    }
    return S;
  };
  return vf_main(argc, argv, c);
}
