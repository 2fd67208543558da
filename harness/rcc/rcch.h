/* The compiler proper as a function: source text in, assembly and messages out. */
#ifndef RCCH_H
#define RCCH_H
#include "qs.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <time.h>
int rcc_main(int argc, char** argv);
char vr_std[3];
static uint8_t IN[1 << 14]; static int in_n, in_pos, in_eof, in_chunk;
static uint8_t OUT[1 << 17]; static int on; static uint8_t ERR[1 << 14]; static int en;
static void (*post_fn)(int status); static int post_ran;
static void (*more_fn)(void);  /* decides the rest of the text, when the compiler has read what there is */
static void t_s(const char* s) { while (*s) IN[in_n++] = *s++; }
static void t_c(int c) { IN[in_n++] = c; }
void vr_exit(int code) { if (!post_ran) { post_ran = 1; post_fn(code); } qs_stop(); for (;;) {} }
void vr_abort(void) { qs_fail("the compiler aborts"); qs_stop(); for (;;) {} }
size_t vr_fread(void* p, size_t s, size_t n, FILE* f) { if (f != (FILE*)vr_std) return 0; long k = s * n; if (in_pos == in_n && more_fn) { void (*m)(void) = more_fn; more_fn = NULL; m(); } if (in_chunk && k > in_chunk) k = in_chunk; if (k > in_n - in_pos) { k = in_n - in_pos; in_eof = !more_fn; } memcpy(p, IN + in_pos, k); in_pos += k; return k / s; }
int vr_feof(FILE* f) { return f == (FILE*)vr_std && in_eof; }
FILE* vr_fopen(const char* n, const char* m) { (void)n; (void)m; return NULL; }
FILE* vr_freopen(const char* n, const char* m, FILE* f) { (void)n; (void)m; (void)f; return NULL; }
int vr_fclose(FILE* f) { (void)f; return 0; }
char* vr_fgets(char* s, int n, FILE* f) { (void)s; (void)n; (void)f; return NULL; }
int vr_fseek(FILE* f, long o, int w) { (void)f; (void)o; (void)w; return -1; }
long vr_ftell(FILE* f) { (void)f; return 0; }
void vr_rewind(FILE* f) { (void)f; }
int vr_getc(FILE* f) { uint8_t b; return vr_fread(&b, 1, 1, f) ? b : EOF; }
int vr_fputc(int c, FILE* f) { if (f == (FILE*)(vr_std + 1)) { if (on >= (int)sizeof OUT) qs_cut(); OUT[on++] = c; } else { if (en >= (int)sizeof ERR) qs_cut(); ERR[en++] = c; } return c; }
int vr_fputs(const char* s, FILE* f) { while (*s) vr_fputc(*s++, f); return 0; }
int vr_puts(const char* s) { vr_fputs(s, (FILE*)(vr_std + 1)); vr_fputc('\n', (FILE*)(vr_std + 1)); return 0; }
int vr_putchar(int c) { return vr_fputc(c, (FILE*)(vr_std + 1)); }
static void vr_num(FILE* f, long v, int base, int uns) { char b[24]; int k = 0; unsigned long u = !uns && v < 0 ? -(unsigned long)v : (unsigned long)v; if (!uns && v < 0) vr_fputc('-', f); do { b[k++] = "0123456789abcdef"[u % base]; u /= base; } while (u); while (k) vr_fputc(b[--k], f); }
static void vr_vf(FILE* f, const char* m, va_list ap) { for (; *m; m++) if (*m != '%') vr_fputc(*m, f); else { int l = 0; m++; while (*m == 'l') { l = 1; m++; } switch (*m) { case 'd': vr_num(f, l ? va_arg(ap, long) : va_arg(ap, int), 10, 0); break; case 'u': vr_num(f, l ? va_arg(ap, long) : va_arg(ap, unsigned), 10, 1); break; case 'x': vr_num(f, l ? va_arg(ap, long) : va_arg(ap, unsigned), 16, 1); break; case 's': vr_fputs(va_arg(ap, const char*), f); break; case 'c': vr_fputc(va_arg(ap, int), f); break; default: vr_fputc(*m, f); } } }
int vr_fprintf(FILE* f, const char* m, ...) { va_list ap; va_start(ap, m); vr_vf(f, m, ap); va_end(ap); return 0; }
int vr_printf(const char* m, ...) { va_list ap; va_start(ap, m); vr_vf((FILE*)(vr_std + 1), m, ap); va_end(ap); return 0; }
int vr_noscan(const char* s, const char* f) { (void)s; (void)f; return 0; }
int vr_sprintf(char* s, const char* f, ...) { (void)f; strcpy(s, "1.0"); return 3; }  /* of a floating value in a message */
/* a number that tells which text was converted, 1.0 to 2.0 and exact as a float: the conversion of digits is the C library's */
double vr_strtod(const char* s, char** e) { const char* p = s; uint64_t h = 1; while (*p >= '0' && *p <= '9') p++; if (*p == '.') { p++; while (*p >= '0' && *p <= '9') p++; } if (*p == 'e' || *p == 'E') { const char* q = p + 1; if (*q == '+' || *q == '-') q++; if (*q >= '0' && *q <= '9') { while (*q >= '0' && *q <= '9') q++; p = q; } }
  for (; s < p; s++) h = h * 31 + (uint8_t)*s; if (e) *e = (char*)p; h = 0x3ff0000000000000ull | (h & 0x7fffff) << 29; double d; memcpy(&d, &h, 8); return d; }
time_t vr_time(time_t* t) { if (t) *t = 0; return 0; }
char* vr_ctime(const time_t* t) { (void)t; static char s[] = "Thu Nov 19 22:28:46 2026\n"; return s; }
static const char* rcc_opt;
static void run_rcc(void) { char* av[4]; int ac = 0; static char nm[] = "rcc", tg[] = "-target=bytecode"; av[ac++] = nm; av[ac++] = tg; if (rcc_opt) av[ac++] = (char*)rcc_opt; av[ac] = NULL; in_chunk = qs_param("chunk", 0);
  int st = rcc_main(ac, av); if (!post_ran) { post_ran = 1; post_fn(st); } }
/* ---- looking at what came out ---- */
static int has(const uint8_t* b, int n, const char* s) { int k = strlen(s); for (int i = 0; i + k <= n; i++) if (!memcmp(b + i, s, k)) return 1; return 0; }
/* the data lines behind a label: up to max items */
typedef struct { int kind, size; int64_t v; } item_t;  /* 'b' byte, 's' skip, 'a' address */
static int at_line(int i, const char* s) { int k = strlen(s); return i + k <= on && !memcmp(OUT + i, s, k); }
static int next_line(int i) { while (i < on && OUT[i] != '\n') i++; return i + 1; }
static int64_t number(int* i) { int neg = 0; int64_t v = 0; if (OUT[*i] == '-') { neg = 1; ++*i; } while (*i < on && OUT[*i] >= '0' && OUT[*i] <= '9') v = v * 10 + (OUT[(*i)++] - '0'); return neg ? -v : v; }
static int items(const char* label, item_t* it, int max) { int i = 0, n = 0; char lb[40] = "LABELV "; strcat(lb, label); strcat(lb, "\n");
  while (i < on && !at_line(i, lb)) i = next_line(i); if (i >= on) return -1;
  for (i = next_line(i); i < on && n < max; i = next_line(i)) { if (at_line(i, "byte ")) { it[n].kind = 'b'; int j = i + 5; it[n].size = (int)number(&j); j++; it[n++].v = number(&j); } else if (at_line(i, "skip ")) { it[n].kind = 's'; int j = i + 5; it[n].size = (int)number(&j); it[n++].v = 0; } else if (at_line(i, "address ")) { it[n].kind = 'a'; it[n].v = i + 8; it[n++].size = 4; } else break; }
  return n; }
#endif
