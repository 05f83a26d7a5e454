// Shared machinery of the checks: library loading, the exhaustive explorer, problems, exact oracles.
#pragma once
#include "osqp.h"
#include "shim.h"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

// ---------------------------------------------------------------- library under test
struct Lib {
  std::string variant;
  void* h = nullptr;
  vf_env* env = nullptr;
#define VF_API(f) decltype(&::f) f = nullptr;
#define VF_API_LIST(X) \
  X(osqp_setup) X(osqp_solve) X(osqp_cleanup) X(osqp_get_solution) X(osqp_warm_start) X(osqp_cold_start) \
  X(osqp_update_data_vec) X(osqp_update_data_mat) X(osqp_update_rho) X(osqp_update_settings) \
  X(osqp_set_default_settings) X(osqp_capabilities) X(osqp_version) X(osqp_error_message) \
  X(osqp_get_dimensions) X(osqp_codegen) X(osqp_set_default_codegen_defines) \
  X(osqp_adjoint_derivative_compute) X(osqp_adjoint_derivative_get_mat) X(osqp_adjoint_derivative_get_vec) \
  X(OSQPCscMatrix_new) X(OSQPCscMatrix_free) X(OSQPCscMatrix_zeros) X(OSQPCscMatrix_identity) \
  X(OSQPCscMatrix_diag_scalar) X(OSQPCscMatrix_diag_vec) X(OSQPCscMatrix_set_data) \
  X(OSQPSettings_new) X(OSQPSettings_free) X(OSQPCodegenDefines_new) X(OSQPCodegenDefines_free)
  VF_API_LIST(VF_API)
  void* sym(const char* n, bool must = true);
  bool builtin() const { return variant.rfind("bi", 0) == 0; }
};
Lib* load_lib(const std::string& variant);  // cached per process
std::string build_dir();

// ---------------------------------------------------------------- explorer
struct Ctx {
  std::string tier;
  bool replay = false;
  uint64_t evals = 0, states = 0, transitions = 0, traces = 0, skipped = 0;
  std::unordered_set<uint64_t> outcomes;
  std::vector<std::string> samples;
  std::vector<std::pair<std::string, std::string>> viols;  // of the current case
  std::map<std::string, uint64_t> tally;
  // report that the property does not hold in the current case; key identifies what failed, stably
  void viol(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  void outcome(const std::string& s);
  void sample(const std::string& s) { if (samples.size() < 6) samples.push_back(s); }
  void count(const std::string& k) { tally[k]++; }
};
struct Space {
  std::string name;
  uint64_t count;
  std::function<void(uint64_t, Ctx&)> run;
  std::function<std::string(uint64_t)> describe;
};
struct Check {
  std::string id;
  std::string level;  // exploration | model_checking | fault_enumeration
  std::string rule;
  std::vector<std::string> assumptions;
  std::function<std::vector<Space>(const std::string& tier)> spaces;
  double case_timeout = 20;
};
int vf_main(int argc, char** argv, const Check& c);

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string vecstr(const std::vector<double>& v);
uint64_t hash64(const void* p, size_t n, uint64_t seed = 1469598103934665603ULL);

// mixed-radix decoding of case numbers
struct Dec {
  uint64_t r;
  explicit Dec(uint64_t v) : r(v) {}
  unsigned take(uint64_t base) { unsigned d = (unsigned)(r % base); r /= base; return d; }
};

// ---------------------------------------------------------------- problems
static const double INF = 1e30;  // OSQP_INFTY
struct Prob {
  int n = 0, m = 0;
  std::vector<double> P, q, A, l, u;   // P full symmetric n*n row-major, A m*n row-major
  std::vector<char> Pm, Am;            // structural patterns (Pm: upper triangle); empty: nonzeros
  std::string str() const;
};
struct Csc {
  std::vector<OSQPInt> p, i;
  std::vector<OSQPFloat> x;
  OSQPCscMatrix M;
  std::vector<std::pair<int, int>> pos;  // (row, col) of each entry
  Csc() {}
  Csc(const Csc&) = delete;
  Csc& operator=(const Csc&) = delete;
};
void csc_from(Csc& c, int m, int n, const std::vector<double>& dense, const std::vector<char>& mask, bool triu);
inline bool isinf_b(double b) { return std::fabs(b) >= 1e26; }

// A problem bound to a solver
struct Run {
  Lib* L;
  Prob pr;
  Csc P, A;
  OSQPSolver* s = nullptr;
  OSQPInt rc = 0;
  Run(Lib* lib, const Prob& p, const OSQPSettings& st, bool do_setup = true);
  ~Run();
  Run(const Run&) = delete;
  OSQPInt solve() { return L->osqp_solve(s); }
  std::vector<double> x() const, y() const, pc() const, dc() const;
  int status() const { return (int)s->info->status_val; }
};
OSQPSettings base_settings(Lib* L);   // documented defaults, silent

// plain dense helpers
std::vector<double> matvec(const std::vector<double>& A, int m, int n, const std::vector<double>& x);
std::vector<double> matTvec(const std::vector<double>& A, int m, int n, const std::vector<double>& y);
double ninf(const std::vector<double>& v);
double dot(const std::vector<double>& a, const std::vector<double>& b);
double maxdiff(const std::vector<double>& a, const std::vector<double>& b);
bool same_bits(const std::vector<double>& a, const std::vector<double>& b);
inline bool close(double a, double b, double rel, double abs_) {
  if (a == b) return true;
  return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}

// optimality measures on the user's data
struct Kkt {
  double prim, dual, gap, pobj, dobj;   // residuals, duality gap, objectives
  double nAx, nz, nPx, nAty, nq;        // norms for relative tolerances
  double xPx, qx, sc;
  double compl_sign;                    // largest |y_i| pointing at an infinite bound
};
Kkt kkt(const Prob& p, const std::vector<double>& x, const std::vector<double>& y);

// exact oracle (rational arithmetic) for problems with small integer (or half-integer) data
enum Truth { T_SOLVABLE, T_PRIMAL_INF, T_DUAL_INF, T_UNKNOWN };
struct Exact {
  Truth t = T_UNKNOWN;
  bool prim_feasible = false;
  double obj = 0;
  std::vector<double> x, y;   // one KKT point
  bool x_unique = false;
};
Exact exact_solve(const Prob& p);
bool is_psd_int(const std::vector<double>& P, int n, double shift = 0);
double min_eig(std::vector<double> P, int n);

// problem alphabets: every combination of the listed pieces
struct Bnd { double l, u; };
struct Family {
  std::string name;
  int n = 1, m = 1;
  std::vector<std::vector<double>> Ps;   // full symmetric
  std::vector<double> qs, as;            // entries of q and of A
  std::vector<Bnd> bs;
  int pat = 0;                           // 0: stored entries are the nonzeros; 1: all entries stored (explicit zeros)
  uint64_t count() const;
  Prob get(uint64_t idx) const;
};
extern const std::vector<Bnd> BND_ALL, BND_CORE;
std::vector<std::vector<double>> psd_set(int n, bool full);
Family family(const std::string& which);   // named families, see common.cpp
struct Variation { std::string name; std::function<void(OSQPSettings&)> f; };
std::string status_name(int s);
// compare what info says about the returned vectors with a dense evaluation on the caller's data (statuses with a solution)
bool has_sol(int status);
void check_info(Ctx& x, Run& r, const std::string& who, const std::string& tag = "");
std::string expected_status_string(int status);
