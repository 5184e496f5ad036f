#ifndef VT_H
#define VT_H
/* Harness interface.  The same harness source is built twice: instrumented
 * (symbolic exploration, runtime vtrt.cpp) and plain (native replay, vtnative.cpp). */
#ifdef __cplusplus
extern "C" {
#endif
#include <stdbool.h>
double vt_real(const char* name);                        /* unconstrained (finite) real */
long vt_int(const char* name, long lo, long hi);         /* symbolic integer in [lo,hi] */
long vt_choice(const char* name, long n);                /* 0..n-1, forked immediately */
void vt_assume(bool c);
void vt_assert(bool c, const char* msg);
void vt_assert_eq(double a, double b, const char* msg);
void vt_reach(const char* label);                        /* reachability witness */
void vt_program(const char* text);                       /* counts/samples program shapes */
void vt_skip(void);                                      /* end this path (outside the claim) */
bool vt_symbolic(void);                                  /* true in the instrumented build */
const char* vt_scratch(void);                            /* private scratch directory */
void vt_harness(void);                                   /* provided by the harness */
const char* vt_arg(const char* key, const char* dflt);   /* harness options: VT_OPT_<key> */
long vt_conc_int(long v);                                /* force concretisation */
#ifdef __cplusplus
}
#endif
#endif
