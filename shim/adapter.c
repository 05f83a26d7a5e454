/* Compiled once per build variant, against that variant's own configuration. */
#include "osqp.h"
#include "adapter.h"
#include <string.h>
#include <stddef.h>
/* the adapter's own memory is not the library's */
extern void* __real_malloc(size_t);
extern void* __real_calloc(size_t, size_t);
extern void  __real_free(void*);
typedef struct { OSQPSolver* s; long long n, m, nP, nA; } ses;
static OSQPFloat* F(const double* v, long long n) { OSQPFloat* r; if (!v) return 0; r = __real_malloc((n + 1) * sizeof *r); for (long long i = 0; i < n; i++) r[i] = (OSQPFloat)v[i]; return r; }
static OSQPInt* I(const long long* v, long long n) { OSQPInt* r; if (!v) return 0; r = __real_malloc((n + 1) * sizeof *r); for (long long i = 0; i < n; i++) r[i] = (OSQPInt)v[i]; return r; }
static void put(const OSQPSettings* s, double* v) {
#define X(f) v[VFA_##f] = (double)s->f;
  VFA_SETTINGS(X)
#undef X
}
static void take(OSQPSettings* s, const double* v) {
#define X(f) s->f = v[VFA_##f];
  VFA_SETTINGS(X)
#undef X
}
static void a_defaults(double* v) { OSQPSettings s; memset(&s, 0, sizeof s); osqp_set_default_settings(&s); put(&s, v); }
static void* a_setup(long long* rc, long long n, long long m, const long long* Pp, const long long* Pi, const double* Px, const double* q,
                     const long long* Ap, const long long* Ai, const double* Ax, const double* l, const double* u, const double* set) {
  ses* h = __real_calloc(1, sizeof *h);
  h->n = n; h->m = m; h->nP = Pp[n]; h->nA = Ap[n];
  OSQPInt *pp = I(Pp, n + 1), *pi = I(Pi, h->nP), *ap = I(Ap, n + 1), *ai = I(Ai, h->nA);
  OSQPFloat *px = F(Px, h->nP), *ax = F(Ax, h->nA), *Q = F(q, n), *l_ = F(l, m), *u_ = F(u, m);
  OSQPCscMatrix P, A;
  OSQPCscMatrix_set_data(&P, n, n, h->nP, px, pi, pp);
  OSQPCscMatrix_set_data(&A, m, n, h->nA, ax, ai, ap);
  OSQPSettings s;
  memset(&s, 0, sizeof s);
  osqp_set_default_settings(&s);
  take(&s, set);
  *rc = osqp_setup(&h->s, &P, Q, &A, l_, u_, m, n, &s);
  __real_free(pp); __real_free(pi); __real_free(ap); __real_free(ai); __real_free(px); __real_free(ax); __real_free(Q); __real_free(l_); __real_free(u_);
  if (*rc) { if (h->s) osqp_cleanup(h->s); __real_free(h); return 0; }
  return h;
}
static long long a_solve(void* p) { return osqp_solve(((ses*)p)->s); }
static long long a_vec(void* p, const double* q, const double* l, const double* u) {
  ses* h = p;
  OSQPFloat *Q = F(q, h->n), *l_ = F(l, h->m), *u_ = F(u, h->m);
  long long r = osqp_update_data_vec(h->s, Q, l_, u_);
  __real_free(Q); __real_free(l_); __real_free(u_);
  return r;
}
static long long a_mat(void* p, const double* Px, const long long* Pidx, long long Pn, const double* Ax, const long long* Aidx, long long An) {
  ses* h = p;
  OSQPFloat *x = F(Px, Pn), *a = F(Ax, An);
  OSQPInt *xi = I(Pidx, Pn), *ai = I(Aidx, An);
  long long r = osqp_update_data_mat(h->s, x, xi, Pn, a, ai, An);
  __real_free(x); __real_free(a); __real_free(xi); __real_free(ai);
  return r;
}
static long long a_rho(void* p, double r) { return osqp_update_rho(((ses*)p)->s, (OSQPFloat)r); }
static long long a_warm(void* p, const double* x, const double* y) {
  ses* h = p;
  OSQPFloat *X = F(x, h->n), *Y = F(y, h->m);
  long long r = osqp_warm_start(h->s, X, Y);
  __real_free(X); __real_free(Y);
  return r;
}
static void a_cold(void* p) { osqp_cold_start(((ses*)p)->s); }
static long long a_settings(void* p, const double* set) {
  OSQPSettings s;
  memset(&s, 0, sizeof s);
  osqp_set_default_settings(&s);
  take(&s, set);
  return osqp_update_settings(((ses*)p)->s, &s);
}
static void a_info(void* p, vfa_info* o) {
  OSQPSolver* s = ((ses*)p)->s;
  OSQPInfo* i = s->info;
  memset(o, 0, sizeof *o);
  o->status = i->status_val; o->status_polish = i->status_polish; o->iter = i->iter; o->rho_updates = i->rho_updates;
  o->obj = i->obj_val; o->dobj = i->dual_obj_val; o->pr = i->prim_res; o->du = i->dual_res; o->gap = i->duality_gap;
  o->rho_est = i->rho_estimate; o->pdint = i->primdual_int; o->rkkt = i->rel_kkt_error;
  o->t_setup = i->setup_time; o->t_solve = i->solve_time; o->t_update = i->update_time; o->t_polish = i->polish_time; o->t_run = i->run_time;
  memcpy(o->str, i->status, 32);
  o->str[31] = 0;
  put(s->settings, o->set);
}
static int a_solution(void* p, double* x, double* y, double* pc, double* dc) {
  ses* h = p;
  OSQPSolution* z = h->s->solution;
  if (!z) return 0;
  for (long long j = 0; j < h->n; j++) { x[j] = z->x[j]; dc[j] = z->dual_inf_cert[j]; }
  for (long long i = 0; i < h->m; i++) { y[i] = z->y[i]; pc[i] = z->prim_inf_cert[i]; }
  return 1;
}
static long long a_deriv(void* p, const double* dx, const double* dy, double* dq, double* dl, double* du) {
  ses* h = p;
  OSQPFloat *x = F(dx, h->n), *y = F(dy, h->m);
  long long r = osqp_adjoint_derivative_compute(h->s, x, y);
  if (!r) {
    OSQPFloat *l = F(dl, h->m), *u = F(du, h->m);
    r = osqp_adjoint_derivative_get_vec(h->s, x, l, u);
    for (long long j = 0; j < h->n; j++) dq[j] = x[j];
    for (long long i = 0; i < h->m; i++) { dl[i] = l[i]; du[i] = u[i]; }
    __real_free(l); __real_free(u);
  }
  __real_free(x); __real_free(y);
  return r;
}
static void a_misc(void* p, vfa_misc* o) {
  memset(o, 0, sizeof *o);
  o->float_size = sizeof(OSQPFloat); o->int_size = sizeof(OSQPInt); o->caps = osqp_capabilities();
  OSQPInt m = -1, n = -1;
  if (p) osqp_get_dimensions(((ses*)p)->s, &m, &n);
  o->m = m; o->n = n;
  o->infty = OSQP_INFTY; o->nan_ = OSQP_NAN; o->dead = OSQP_ZERO_DEADZONE;
  strncpy(o->version, osqp_version(), 63);
  for (int k = 0; k < 16; k++) { const char* e = osqp_error_message(k); if (e) strncpy(o->err[k], e, 127); }
  if (p) {
    OSQPCodegenDefines d;
    osqp_set_default_codegen_defines(&d);
    o->codegen_rc = osqp_codegen(((ses*)p)->s, "/nonexistent_directory/", "vf_", &d);
  }
}
static long long a_close(void* p) { ses* h = p; long long r = osqp_cleanup(h->s); __real_free(h); return r; }
const vfa_api* vfa_get_api(void) {
  static const vfa_api a = {a_defaults, a_setup, a_solve, a_vec, a_mat, a_rho, a_warm, a_cold, a_settings, a_info, a_solution, a_deriv, a_misc, a_close};
  return &a;
}
