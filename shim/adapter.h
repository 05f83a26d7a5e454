/* One binary interface (double, long long) to every build variant of the library. */
#ifndef VF_ADAPTER_H
#define VF_ADAPTER_H
#ifdef __cplusplus
extern "C" {
#endif
#define VFA_SETTINGS(X) X(device) X(linsys_solver) X(allocate_solution) X(verbose) X(profiler_level) X(warm_starting) \
  X(scaling) X(polishing) X(rho) X(rho_is_vec) X(sigma) X(alpha) X(cg_max_iter) X(cg_tol_reduction) X(cg_tol_fraction) \
  X(cg_precond) X(adaptive_rho) X(adaptive_rho_interval) X(adaptive_rho_fraction) X(adaptive_rho_tolerance) X(max_iter) \
  X(eps_abs) X(eps_rel) X(eps_prim_inf) X(eps_dual_inf) X(scaled_termination) X(check_termination) X(check_dualgap) \
  X(time_limit) X(delta) X(polish_refine_iter)
#define VFA_E(f) VFA_##f,
enum { VFA_SETTINGS(VFA_E) VFA_NSET };
typedef struct {
  long long status, status_polish, iter, rho_updates;
  double obj, dobj, pr, du, gap, rho_est, pdint, rkkt, t_setup, t_solve, t_update, t_polish, t_run;
  char str[32];
  double set[VFA_NSET];
} vfa_info;
typedef struct {
  long long float_size, int_size, caps, codegen_rc, deriv_rc, n, m;
  double infty, nan_, dead;
  char version[64];
  char err[16][128];
} vfa_misc;
typedef struct {
  void      (*defaults)(double* set);
  void*     (*setup)(long long* rc, long long n, long long m, const long long* Pp, const long long* Pi, const double* Px, const double* q,
                     const long long* Ap, const long long* Ai, const double* Ax, const double* l, const double* u, const double* set);
  long long (*solve)(void*);
  long long (*vec)(void*, const double* q, const double* l, const double* u);
  long long (*mat)(void*, const double* Px, const long long* Pidx, long long Pn, const double* Ax, const long long* Aidx, long long An);
  long long (*rho)(void*, double);
  long long (*warm)(void*, const double* x, const double* y);
  void      (*cold)(void*);
  long long (*settings)(void*, const double* set);
  void      (*info)(void*, vfa_info*);
  int       (*solution)(void*, double* x, double* y, double* pc, double* dc);
  long long (*deriv)(void*, const double* dx, const double* dy, double* dq, double* dl, double* du);
  void      (*misc)(void*, vfa_misc*);
  long long (*close)(void*);
} vfa_api;
const vfa_api* vfa_get_api(void);
#ifdef __cplusplus
}
#endif
#endif
