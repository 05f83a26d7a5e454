/* The environment of the library under test, as the explorer owns it. */
#ifndef VF_SHIM_H
#define VF_SHIM_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { VF_PT_ALLOC = 1, VF_PT_FREE, VF_PT_CLOCK, VF_PT_SIGACTION, VF_PT_PRINT, VF_PT_FOPEN, VF_PT_EXIT, VF_PT_YIELD };
typedef struct {
  /* memory */
  long      alloc_count;  /* allocations requested since reset */
  long      fail_from;    /* fail allocations number fail_from .. fail_to (1-based); 0: none */
  long      fail_to;
  long      failed;       /* allocations that were failed */
  long      live;         /* blocks allocated by the library and not yet freed */
  long      live_bytes;
  long      bad_free;     /* free of a pointer that is not (or no longer) a live block of the library */
  int       fill;         /* fill byte for fresh malloc memory (-1: leave) */
  int       quarantine;   /* overwrite freed blocks */
  /* clock */
  int       clock_virtual;
  long long now_ns;
  long long step_ns;      /* added at each reading */
  long      clock_count;
  /* printing */
  long      print_calls;
  long      print_bytes;
  char*     print_buf; size_t print_cap, print_len;
  int       print_through;
  /* files */
  long      fopen_count, fopen_fail_at;
  int       track_files;      /* files are opened through a stand-in that counts them and can be full */
  long      files_open;
  long      disk_left;        /* bytes that can still be written (track_files) */
  long      disk_written;
  /* signals */
  long      sigaction_count;
  /* every interception point calls this, if set, before it acts */
  void    (*on_point)(int kind, long seq);
  long      point_count;
  long      exit_calls;
  /* builds with memory and printing functions supplied by the user */
  long      custom_mem, custom_print;   /* calls of those functions */
  long      direct_mem, direct_print;   /* calls that went past them */
} vf_env;
#ifdef __cplusplus
}
#endif
#endif
