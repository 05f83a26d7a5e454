/* Link-time stand-ins (-Wl,--wrap) for what the library under test asks of its environment. */
#define _GNU_SOURCE
#include "shim.h"
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <signal.h>
#include <stdlib.h>
#ifndef VF_MKL_INT
#define VF_MKL_INT long
#endif

/* the shim's own state lives on pages of its own, so that a check can watch the library's writable data */
typedef struct { void* p; size_t n; int kind; } slot;   /* kind 0: malloc family, 1: MKL_malloc family, 2: MKL handle */
typedef struct { vf_env env; slot* tab; size_t cap, used; char lock; int via_custom; } __attribute__((aligned(4096))) vf_state_t;
static vf_state_t vf_state __attribute__((section("vfshim"))) = { .env = { .fill = -1, .step_ns = 1000 } };
#define E vf_state.env
vf_env* vf_get_env(void) { return &E; }
int vf_locked(void) { return vf_state.lock; }
void vf_own_pages(void** p, size_t* n) { *p = &vf_state; *n = sizeof vf_state; }

extern void* __real_malloc(size_t);
extern void* __real_calloc(size_t, size_t);
extern void* __real_realloc(void*, size_t);
extern void  __real_free(void*);
extern int   __real_clock_gettime(clockid_t, struct timespec*);
extern int   __real_sigaction(int, const struct sigaction*, struct sigaction*);
extern int   __real_vprintf(const char*, va_list);
extern int   __real_sched_yield(void);
extern FILE* __real_fopen(const char*, const char*);
extern void  __real_exit(int) __attribute__((noreturn));
extern void  __real_abort(void) __attribute__((noreturn));

static void point(int kind, long seq) {
  E.point_count++;
  if (E.on_point) E.on_point(kind, seq);
}

/* open-addressing table of live blocks */
#define tab  vf_state.tab
#define cap  vf_state.cap
#define used vf_state.used
#define via_custom vf_state.via_custom
#define LOCK   while (__atomic_test_and_set(&vf_state.lock, __ATOMIC_ACQUIRE)) {}
#define UNLOCK __atomic_clear(&vf_state.lock, __ATOMIC_RELEASE)
static size_t hp(void* p) { uint64_t x = (uint64_t)(uintptr_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; return (size_t)x; }
static void put(void* p, size_t n, int kind);
static void grow(void) {
  slot* old = tab; size_t oc = cap;
  cap = cap ? cap * 2 : 4096; tab = (slot*)__real_calloc(cap, sizeof(slot)); used = 0;
  for (size_t i = 0; i < oc; i++) if (old[i].p && old[i].p != (void*)-1) put(old[i].p, old[i].n, old[i].kind);
  __real_free(old);
}
static void put(void* p, size_t n, int kind) {
  if ((used + 1) * 2 > cap) grow();
  size_t i = hp(p) & (cap - 1);
  while (tab[i].p && tab[i].p != (void*)-1) i = (i + 1) & (cap - 1);
  if (!tab[i].p) used++;
  tab[i].p = p; tab[i].n = n; tab[i].kind = kind;
}
static slot* get(void* p) {
  if (!cap) return 0;
  size_t i = hp(p) & (cap - 1);
  while (tab[i].p) { if (tab[i].p == p) return &tab[i]; i = (i + 1) & (cap - 1); }
  return 0;
}
static void add(void* p, size_t n, int kind) { LOCK; put(p, n, kind); E.live++; E.live_bytes += (long)n; UNLOCK; }
/* takes the block off the books; -1 if it is not on them */
static long take(void* p, int kind) {
  long n = -1;
  LOCK;
  slot* s = get(p);
  if (s && s->kind == kind) { n = (long)s->n; E.live--; E.live_bytes -= n; s->p = (void*)-1; }
  else E.bad_free++;
  UNLOCK;
  return n;
}
/* a request for nothing may be answered with nothing, so it is never made to fail */
static int deny_size(size_t n);
static int deny(void) {
  E.alloc_count++;
  point(VF_PT_ALLOC, E.alloc_count);
  if (E.fail_from && E.alloc_count >= E.fail_from && E.alloc_count <= E.fail_to) { E.failed++; return 1; }
  return 0;
}
static int deny_size(size_t n) { return n ? deny() : 0; }
static void* track(void* p, size_t n) {
  if (p) add(p, n, 0);
  return p;
}
void* __wrap_malloc(size_t n) {
  if (!via_custom) E.direct_mem++;
  if (deny_size(n)) return 0;
  void* p = __real_malloc(n);
  if (p && E.fill >= 0) memset(p, E.fill, n);
  return track(p, n);
}
void* __wrap_calloc(size_t a, size_t b) {
  if (!via_custom) E.direct_mem++;
  if (deny_size(a * b)) return 0;
  return track(__real_calloc(a, b), a * b);
}
void __wrap_free(void* p) {
  if (!p) return;
  if (!via_custom) E.direct_mem++;
  point(VF_PT_FREE, 0);
  long n = take(p, 0);
  if (n < 0) return;
  if (E.quarantine) memset(p, 0xDB, (size_t)n);
  __real_free(p);
}
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (!via_custom) E.direct_mem++;
  if (deny()) return 0;
  if (take(p, 0) < 0) return 0;
  return track(__real_realloc(p, n), n);
}
/* ---- the same for the memory and handles obtained from MKL (weak: absent in builds without it) */
extern int   __real_mkl_sparse_d_create_csc(void**, int, VF_MKL_INT, VF_MKL_INT, VF_MKL_INT*, VF_MKL_INT*, VF_MKL_INT*, double*) __attribute__((weak));
extern int   __real_mkl_sparse_destroy(void*) __attribute__((weak));
extern void  __real_PARDISO(void*, const void*, const void*, const void*, const void*, const void*, const void*, const void*, const void*,
                            void*, const void*, void*, const void*, void*, void*, void*) __attribute__((weak));
static void* mkl_block(size_t n, int align, int zero) {
  if (!n) return 0;                     /* as MKL_malloc(0) */
  if (deny()) return 0;
  void* p = 0;
  if (posix_memalign(&p, align < 16 ? 16 : (size_t)align, n)) return 0;
  if (zero) memset(p, 0, n); else if (E.fill >= 0) memset(p, E.fill, n);
  add(p, n, 1);
  return p;
}
void* __wrap_MKL_malloc(size_t n, int align) { return mkl_block(n, align, 0); }
void* __wrap_MKL_calloc(size_t a, size_t b, int align) { return mkl_block(a * b, align, 1); }
void __wrap_MKL_free(void* p) {
  if (!p) return;
  if (!via_custom) E.direct_mem++;
  point(VF_PT_FREE, 0);
  long n = take(p, 1);
  if (n < 0) return;
  if (E.quarantine) memset(p, 0xDB, (size_t)n);
  __real_free(p);
}
static void handle_new(void* h) { if (h) add(h, 0, 2); }
static void handle_end(void* h) { take(h, 2); }
int __wrap_mkl_sparse_d_create_csc(void** h, int base, VF_MKL_INT m, VF_MKL_INT n, VF_MKL_INT* a, VF_MKL_INT* b, VF_MKL_INT* i, double* x) {
  if (deny()) return 2;                 /* SPARSE_STATUS_ALLOC_FAILED */
  int rc = __real_mkl_sparse_d_create_csc(h, base, m, n, a, b, i, x);
  if (rc == 0) handle_new(*h);
  return rc;
}
int __wrap_mkl_sparse_destroy(void* h) {
  if (h) handle_end(h);
  return __real_mkl_sparse_destroy(h);
}
void __wrap_PARDISO(void* pt, const void* b, const void* c, const void* d, const void* phase, const void* f, const void* g, const void* h, const void* i,
                    void* j, const void* k, void* l, const void* m, void* n, void* o, void* error) {
  VF_MKL_INT ph = *(const VF_MKL_INT*)phase;
  void* key = (char*)pt + 1;
  if (ph == 11) {
    if (deny()) { *(VF_MKL_INT*)error = -2; return; }     /* not enough memory */
    if (!get(key)) handle_new(key);
  }
  if ((ph == 22 || ph == 33) && deny()) { *(VF_MKL_INT*)error = -2; return; }
  if (ph == -1 && get(key)) handle_end(key);
  __real_PARDISO(pt, b, c, d, phase, f, g, h, i, j, k, l, m, n, o, error);
}
int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
  E.clock_count++;
  point(VF_PT_CLOCK, E.clock_count);
  if (!E.clock_virtual) return __real_clock_gettime(c, t);
  E.now_ns += E.step_ns;
  t->tv_sec = E.now_ns / 1000000000LL;
  t->tv_nsec = E.now_ns % 1000000000LL;
  return 0;
}
int __wrap_sigaction(int s, const struct sigaction* a, struct sigaction* o) {
  struct sigaction ta, to;      /* the kernel is not shown the library's memory (it may be watched) */
  int rc;
  E.sigaction_count++;
  if (a) ta = *a;
  point(VF_PT_SIGACTION, E.sigaction_count);
  rc = __real_sigaction(s, a ? &ta : 0, o ? &to : 0);
  if (o && rc == 0) *o = to;
  return rc;
}
int __wrap_sched_yield(void) { point(VF_PT_YIELD, 0); return __real_sched_yield(); }
static int emit(const char* f, va_list ap) {
  char b[4096];
  int n = vsnprintf(b, sizeof b, f, ap);
  E.print_calls++;
  if (!via_custom) E.direct_print++;
  if (n > 0) {
    E.print_bytes += n;
    if (E.print_buf)
      for (int i = 0; i < n && i < (int)sizeof b - 1 && E.print_len + 1 < E.print_cap; i++) E.print_buf[E.print_len++] = b[i];
    if (E.print_buf && E.print_cap) E.print_buf[E.print_len] = 0;
    if (E.print_through) fputs(b, stderr);
  }
  point(VF_PT_PRINT, E.print_calls);
  return n;
}
int __wrap_printf(const char* f, ...) { va_list ap; va_start(ap, f); int n = emit(f, ap); va_end(ap); return n; }
int __wrap_vprintf(const char* f, va_list ap) { return emit(f, ap); }
static int emitf(const char* f, ...) { va_list ap; va_start(ap, f); int n = emit(f, ap); va_end(ap); return n; }
int __wrap_puts(const char* s) { return emitf("%s\n", s); }
int __wrap_putchar(int c) { return emitf("%c", c); }
static ssize_t ck_read(void* c, char* b, size_t n) { return (ssize_t)fread(b, 1, n, (FILE*)c); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
  size_t k = n;
  if ((long)k > E.disk_left) k = E.disk_left > 0 ? (size_t)E.disk_left : 0;
  fwrite(b, 1, k, (FILE*)c);
  E.disk_left -= (long)k;
  E.disk_written += (long)k;
  if (k < n) errno = ENOSPC;
  return (ssize_t)k;
}
static int ck_close(void* c) { E.files_open--; return fclose((FILE*)c); }
FILE* __wrap_fopen(const char* p, const char* m) {
  E.fopen_count++;
  point(VF_PT_FOPEN, E.fopen_count);
  if (E.fopen_fail_at && E.fopen_count == E.fopen_fail_at) { errno = EACCES; return 0; }
  FILE* f = __real_fopen(p, m);
  if (!f || !E.track_files) return f;
  cookie_io_functions_t io = {ck_read, ck_write, 0, ck_close};
  E.files_open++;
  return fopencookie(f, m, io);
}
void __wrap_exit(int c) { E.exit_calls++; point(VF_PT_EXIT, c); __real_exit(c); }
void __wrap_abort(void) { E.exit_calls++; point(VF_PT_EXIT, -1); __real_abort(); }

/* ---- user-supplied memory and printing functions (build variants with OSQP_CUSTOM_MEMORY / OSQP_CUSTOM_PRINTING) */
void* vf_cm_malloc(size_t n) { E.custom_mem++; via_custom++; void* p = __wrap_malloc(n); via_custom--; return p; }
void* vf_cm_calloc(size_t a, size_t b) { E.custom_mem++; via_custom++; void* p = __wrap_calloc(a, b); via_custom--; return p; }
void* vf_cm_realloc(void* p, size_t n) { E.custom_mem++; via_custom++; void* r = __wrap_realloc(p, n); via_custom--; return r; }
void  vf_cm_free(void* p) { E.custom_mem++; via_custom++; __wrap_free(p); via_custom--; }
void vf_cp_print(const char* f, ...) { va_list ap; E.custom_print++; via_custom++; va_start(ap, f); emit(f, ap); va_end(ap); via_custom--; }
void vf_cp_eprint(const char* fn, const char* f, ...) {
  char b[512];
  va_list ap;
  E.custom_print++;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  via_custom++;
  emitf("ERROR in %s: %s\n", fn, b);
  via_custom--;
}
