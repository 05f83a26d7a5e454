/* printing functions supplied by the user of the library (OSQP_CUSTOM_PRINTING) */
#ifndef VF_CUSTOM_PRINTING_H
#define VF_CUSTOM_PRINTING_H
#ifdef __cplusplus
extern "C" {
#endif
#undef c_eprint
#define c_print       vf_cp_print
#define c_eprint(...) vf_cp_eprint(__FUNCTION__, __VA_ARGS__)
void vf_cp_print(const char* format, ...);
void vf_cp_eprint(const char* func, const char* format, ...);
#ifdef __cplusplus
}
#endif
#endif
