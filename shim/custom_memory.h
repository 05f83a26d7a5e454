/* memory functions supplied by the user of the library (OSQP_CUSTOM_MEMORY) */
#ifndef VF_CUSTOM_MEMORY_H
#define VF_CUSTOM_MEMORY_H
#ifdef __cplusplus
extern "C" {
#endif
#include <stddef.h>
#define c_malloc  vf_cm_malloc
#define c_calloc  vf_cm_calloc
#define c_free    vf_cm_free
#define c_realloc vf_cm_realloc
void* vf_cm_malloc(size_t n);
void* vf_cm_calloc(size_t a, size_t b);
void* vf_cm_realloc(void* p, size_t n);
void  vf_cm_free(void* p);
#ifdef __cplusplus
}
#endif
#endif
