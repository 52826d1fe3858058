/* Harness interface.  In the symbolic engine these are intercepted; in the native replay binary they are defined by
 * native_rt.cpp, which takes every input from a counterexample file. */
#ifndef SYMX_H
#define SYMX_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
double   symx_double(const char* name);                      /* any real (finite double) */
int      symx_int(const char* name, int lo, int hi);         /* symbolic integer in [lo,hi] */
unsigned symx_u32(const char* name);
unsigned long symx_u64(const char* name);
int      symx_choose(const char* name, int n);               /* 0..n-1, one path per value */
int      symx_concretize(int v);                             /* fork on every feasible value */
void     symx_assume(int c);
void     symx_assert(int c, const char* label);
void     symx_close(double a, double b, double rtol, double atol, const char* label);   /* |a-b| <= atol + rtol|b| */
void     symx_le(double a, double b, double tol, const char* label);                    /* a <= b + tol */
void     symx_reach(const char* label);
void     symx_observe(const char* name, double v);
void     symx_observe_int(const char* name, long v);
void     symx_fault_begin(int budget);                       /* from here, up to budget malloc/calloc calls may fail */
int      symx_fault_end(void);                               /* number of failures injected */
int      symx_fault_count(void);
size_t   symx_live_allocs(void);                             /* live malloc blocks */
int      symx_symbolic(void);                                /* 1 in the engine, 0 in native replay */
#ifdef __cplusplus
}
#endif
#endif
