/* Harness interface: implemented by the symbolic engine (bitcode) and by rt/native.c (replay of a solver model). */
#ifndef QS_H
#define QS_H
#include <stddef.h>
#include <stdint.h>
void qs_make_symbolic(void* p, size_t n, const char* name);
void qs_assume(int c);
void qs_check(int c, const char* msg);
void qs_fail(const char* msg);
void qs_reach(const char* label);
int  qs_select(int n, const char* name);   /* forks into n concrete alternatives */
void qs_fuel(int n);                        /* bounds the rest of the path (instructions); exceeding = path cut, counted */
void qs_stop(void);                         /* end of path, everything held */
void qs_cut(void);                          /* end of path at a bound */
void qs_readonly(void* p, int on);          /* writes to the whole object become violations */
long qs_param(const char* name, long def);  /* job parameter */
long qs_concretize(long v);                 /* fork over the feasible values */
void qs_trace(const char* key, long v);     /* concrete trace output (self test) */
void qs_print(const char* key, long v);
size_t qs_obj_size(const void* p);
#ifdef QS_NATIVE
void* qs_alloc(size_t n);                   /* exact-size heap block; with QS_GUARD=1 between inaccessible pages */
void qs_free(void* p);
void qs_paint(int v);                       /* overwrite dead host stack */
#else
#include <stdlib.h>
#define qs_alloc malloc
#define qs_free free
#define qs_paint(v) ((void)0)
#endif
static inline int32_t qs_i32(const char* n) { int32_t v; qs_make_symbolic(&v, 4, n); return v; }
static inline int64_t qs_i64(const char* n) { int64_t v; qs_make_symbolic(&v, 8, n); return v; }
static inline uint8_t qs_u8(const char* n) { uint8_t v; qs_make_symbolic(&v, 1, n); return v; }
static inline uint16_t qs_u16(const char* n) { uint16_t v; qs_make_symbolic(&v, 2, n); return v; }
#endif
