/* Virtual files for command-line tools: inputs are registered by name, outputs collected. */
#ifndef VFS_H
#define VFS_H
#include "qs.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <sys/types.h>
#define NVF 32
typedef struct { char name[40]; uint8_t* d; long n, cap, pos; int w, open, opened; } vf_t;
static vf_t vf[NVF]; static int nvf; static int vf_bad; static int vf_errtext;
static vf_t* vf_find(const char* n) { for (int i = 0; i < nvf; i++) if (!strcmp(vf[i].name, n)) return &vf[i]; return NULL; }
static void vf_input(const char* n, const uint8_t* d, long len) { vf_t* f = &vf[nvf++]; strcpy(f->name, n); f->d = qs_alloc(len ? len : 1); memcpy(f->d, d, len); f->n = len; }
static void vf_output(const char* n, long cap) { vf_t* f = &vf[nvf++]; strcpy(f->name, n); f->d = qs_alloc(cap); f->cap = cap; f->w = 1; f->n = 0; }
static int is_vf(FILE* f) { for (int i = 0; i < nvf; i++) if ((FILE*)&vf[i] == f) return 1; return 0; }
#define V(f) ((vf_t*)(f))
FILE* vf_fopen(const char* n, const char* m) { vf_t* f = vf_find(n); if (!f) return NULL; if (*m == 'w') { if (!f->cap) return NULL; f->n = 0; f->w = 1; } f->pos = 0; f->open = 1; f->opened++; return (FILE*)f; }
int vf_fclose(FILE* f) { if (!is_vf(f) || !V(f)->open) vf_bad = 1; V(f)->open = 0; return 0; }
size_t vf_fread(void* p, size_t s, size_t n, FILE* f) { vf_t* v = V(f); long k = (long)(s * n); if (k > v->n - v->pos) k = v->n - v->pos; memcpy(p, v->d + v->pos, k); v->pos += k; return s ? k / s : 0; }
size_t vf_fwrite(const void* p, size_t s, size_t n, FILE* f) { vf_t* v = V(f); long k = (long)(s * n); const uint8_t* b = p; volatile uint8_t x; if (!k) return 0; x = b[0]; x = b[k - 1]; (void)x;
  if (k > v->cap - v->n) qs_cut();
#ifdef QS_WRITE_SIZES
  v->n += k; return n;
#endif
  memcpy(v->d + v->n, p, k); v->n += k; return n; }
int vf_fseek(FILE* f, long o, int w) { V(f)->pos = (w == SEEK_END ? V(f)->n : w == SEEK_CUR ? V(f)->pos : 0) + o; return 0; }
long vf_ftell(FILE* f) { return V(f)->pos; }
void vf_rewind(FILE* f) { V(f)->pos = 0; }
int vf_feof(FILE* f) { return V(f)->pos >= V(f)->n; }
int vf_ferror(FILE* f) { (void)f; return 0; }
int vf_fgetc(FILE* f) { return V(f)->pos < V(f)->n ? V(f)->d[V(f)->pos++] : EOF; }
char* vf_fgets(char* s, int n, FILE* f) { int i = 0, c; while (i + 1 < n && (c = vf_fgetc(f)) != EOF) { s[i++] = c; if (c == '\n') break; } if (!i) return NULL; s[i] = 0; return s; }
int vf_fputc(int c, FILE* f) { if (is_vf(f)) { uint8_t b = c; vf_fwrite(&b, 1, 1, f); } else vf_errtext = 1; return c; }
int vf_fputs(const char* s, FILE* f) { if (is_vf(f)) vf_fwrite(s, 1, strlen(s), f); else vf_errtext = 1; return 0; }
/* formatted output: only that there was some is recorded, the arguments are scanned natively by the real formatter */
static char vf_scratch[8192];
int vf_vfprintf(FILE* f, const char* m, __builtin_va_list ap) { (void)f; vf_errtext = 1;
#ifdef QS_NATIVE
  return vsnprintf(vf_scratch, sizeof vf_scratch, m, ap);
#else
  (void)m; (void)ap; return 0;
#endif
}
int vf_fprintf(FILE* f, const char* m, ...) { (void)f; va_list ap; va_start(ap, m); int r = vf_vfprintf(f, m, ap); va_end(ap); return r; }
int vf_vprintf(const char* m, __builtin_va_list ap) { return vf_vfprintf(NULL, m, ap); }
int vf_printf(const char* m, ...) { va_list ap; va_start(ap, m); int r = vf_vfprintf(NULL, m, ap); va_end(ap); return r; }
int vf_fflush(FILE* f) { (void)f; return 0; }
int vf_remove(const char* n) { vf_t* f = vf_find(n); if (f && f->cap) { f->n = 0; f->opened = 0; return 0; } return -1; }
int vf_mkdir(const char* n, mode_t m) { (void)n; (void)m; return -1; }
time_t vf_time(time_t* t) { if (t) *t = 0; return 0; }
/* ---- text builder ---- */
static uint8_t T[1 << 16]; static int tn; static int t_id;
static void t_reset(void) { tn = 0; }
static void t_s(const char* s) { while (*s) T[tn++] = *s++; }
static void t_c(int c) { T[tn++] = c; }
static void t_n(long v) { char b[24]; int k = 0; if (v < 0) { t_c('-'); v = -v; } do { b[k++] = '0' + v % 10; v /= 10; } while (v); while (k) t_c(b[--k]); }
/* n arbitrary decimal digits; returns their value modulo 2^64 */
static uint64_t t_digits(int n, const char* name) { uint64_t v = 0; uint8_t d[24]; qs_make_symbolic(d, n, name); for (int i = 0; i < n; i++) { qs_assume(d[i] >= '0' && d[i] <= '9'); T[tn++] = d[i]; v = v * 10 + (uint64_t)(d[i] - '0'); } return v; }
/* an arbitrary blank: any control character or space other than NUL and newline */
static void t_ws(const char* name) { uint8_t c = qs_u8(name); qs_assume(c >= 1 && c <= 32 && c != 10); T[tn++] = c; }
static int32_t g32(const uint8_t* p) { return (int32_t)(p[0] | (p[1] << 8) | (p[2] << 16) | ((uint32_t)p[3] << 24)); }
static int gint(const uint8_t* p) { return (int)g32(p); }
#endif
