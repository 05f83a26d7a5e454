/* Stand-in for QDLDL v0.1.8: same entry points, independent implementation. */
#ifndef QDLDL_H
#define QDLDL_H
#include "qdldl_types.h"
#include "qdldl_version.h"
#ifdef __cplusplus
extern "C" {
#endif
QDLDL_int QDLDL_etree(const QDLDL_int n, const QDLDL_int* Ap, const QDLDL_int* Ai,
                      QDLDL_int* work, QDLDL_int* Lnz, QDLDL_int* etree);
QDLDL_int QDLDL_factor(const QDLDL_int n, const QDLDL_int* Ap, const QDLDL_int* Ai, const QDLDL_float* Ax,
                       QDLDL_int* Lp, QDLDL_int* Li, QDLDL_float* Lx, QDLDL_float* D, QDLDL_float* Dinv,
                       const QDLDL_int* Lnz, const QDLDL_int* etree,
                       QDLDL_bool* bwork, QDLDL_int* iwork, QDLDL_float* fwork);
void QDLDL_Lsolve(const QDLDL_int n, const QDLDL_int* Lp, const QDLDL_int* Li, const QDLDL_float* Lx, QDLDL_float* x);
void QDLDL_Ltsolve(const QDLDL_int n, const QDLDL_int* Lp, const QDLDL_int* Li, const QDLDL_float* Lx, QDLDL_float* x);
void QDLDL_solve(const QDLDL_int n, const QDLDL_int* Lp, const QDLDL_int* Li, const QDLDL_float* Lx,
                 const QDLDL_float* Dinv, QDLDL_float* x);
#ifdef __cplusplus
}
#endif
#endif
