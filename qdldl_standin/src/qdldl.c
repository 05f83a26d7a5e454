/* Stand-in for QDLDL v0.1.8 (sparse LDL' of a quasidefinite upper-triangular CSC matrix).
 * Up-looking LDL', written from the documented interface:
 *  QDLDL_etree : elimination tree and column counts; returns nnz(L), -1 if the matrix is not upper
 *                triangular or has an empty column, -2 on overflow.
 *  QDLDL_factor: returns the number of positive entries of D, or -1 on a zero pivot. */
#include "qdldl.h"

QDLDL_int QDLDL_etree(const QDLDL_int n, const QDLDL_int* Ap, const QDLDL_int* Ai,
                      QDLDL_int* work, QDLDL_int* Lnz, QDLDL_int* etree) {
  QDLDL_int i, j, p, sum = 0;
  for (i = 0; i < n; i++) {
    work[i] = 0; Lnz[i] = 0; etree[i] = -1;
    if (Ap[i] == Ap[i + 1]) return -1;
  }
  for (j = 0; j < n; j++) {
    work[j] = j;
    for (p = Ap[j]; p < Ap[j + 1]; p++) {
      i = Ai[p];
      if (i > j) return -1;
      while (work[i] != j) {
        if (etree[i] == -1) etree[i] = j;
        Lnz[i]++;
        work[i] = j;
        i = etree[i];
      }
    }
  }
  for (i = 0; i < n; i++) {
    if (sum > QDLDL_INT_MAX - Lnz[i]) return -2;
    sum += Lnz[i];
  }
  return sum;
}

QDLDL_int QDLDL_factor(const QDLDL_int n, const QDLDL_int* Ap, const QDLDL_int* Ai, const QDLDL_float* Ax,
                       QDLDL_int* Lp, QDLDL_int* Li, QDLDL_float* Lx, QDLDL_float* D, QDLDL_float* Dinv,
                       const QDLDL_int* Lnz, const QDLDL_int* etree,
                       QDLDL_bool* bwork, QDLDL_int* iwork, QDLDL_float* fwork) {
  /* iwork: [0,n) pattern stack, [n,2n) path buffer, [2n,3n) next free slot in each column of L */
  QDLDL_int *stack = iwork, *path = iwork + n, *next = iwork + 2 * n;
  QDLDL_int i, j, k, p, top, len, positive = 0;

  Lp[0] = 0;
  for (i = 0; i < n; i++) {
    Lp[i + 1] = Lp[i] + Lnz[i];
    next[i] = Lp[i];
    fwork[i] = 0;
    bwork[i] = 0;
    D[i] = 0;
  }
  for (k = 0; k < n; k++) {
    /* row k of L: pattern in topological order */
    QDLDL_float dk = 0;
    top = n;
    bwork[k] = 1;
    for (p = Ap[k]; p < Ap[k + 1]; p++) {
      i = Ai[p];
      if (i == k) { dk += Ax[p]; continue; }
      fwork[i] += Ax[p];
      for (len = 0; i != -1 && i < k && !bwork[i]; i = etree[i]) {
        path[len++] = i;
        bwork[i] = 1;
      }
      while (len > 0) stack[--top] = path[--len];
    }
    bwork[k] = 0;
    for (; top < n; top++) {
      QDLDL_float y, l;
      j = stack[top];
      bwork[j] = 0;
      y = fwork[j];
      fwork[j] = 0;
      for (p = Lp[j]; p < next[j]; p++) fwork[Li[p]] -= Lx[p] * y;
      l = y * Dinv[j];
      dk -= y * l;
      Li[next[j]] = k;
      Lx[next[j]] = l;
      next[j]++;
    }
    if (dk == 0.0) return -1;
    if (dk > 0.0) positive++;
    D[k] = dk;
    Dinv[k] = (QDLDL_float)1 / dk;
  }
  return positive;
}

void QDLDL_Lsolve(const QDLDL_int n, const QDLDL_int* Lp, const QDLDL_int* Li, const QDLDL_float* Lx, QDLDL_float* x) {
  QDLDL_int i, p;
  for (i = 0; i < n; i++)
    for (p = Lp[i]; p < Lp[i + 1]; p++) x[Li[p]] -= Lx[p] * x[i];
}

void QDLDL_Ltsolve(const QDLDL_int n, const QDLDL_int* Lp, const QDLDL_int* Li, const QDLDL_float* Lx, QDLDL_float* x) {
  QDLDL_int i, p;
  for (i = n - 1; i >= 0; i--)
    for (p = Lp[i]; p < Lp[i + 1]; p++) x[i] -= Lx[p] * x[Li[p]];
}

void QDLDL_solve(const QDLDL_int n, const QDLDL_int* Lp, const QDLDL_int* Li, const QDLDL_float* Lx,
                 const QDLDL_float* Dinv, QDLDL_float* x) {
  QDLDL_int i;
  QDLDL_Lsolve(n, Lp, Li, Lx, x);
  for (i = 0; i < n; i++) x[i] *= Dinv[i];
  QDLDL_Ltsolve(n, Lp, Li, Lx, x);
}
