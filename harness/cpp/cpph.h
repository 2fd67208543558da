#ifndef CPPH_H
#define CPPH_H
#include "../asm/vfs.h"
int cpp_main(int argc, char** argv);
static void (*post_fn)(int status);
static int post_ran, vs_chunk, n_msgs;
void vf_exit(int code) { if (!post_ran) { post_ran = 1; post_fn(code); } qs_stop(); for (;;) {} }
void vs_abort(void) { qs_fail("the preprocessor aborts"); qs_stop(); for (;;) {} }
static uint8_t OUT[1 << 16]; static long on;
int vs_open(const char* n, int m, ...) { (void)m; vf_t* f = vf_find(n); if (!f) return -1; f->pos = 0; f->open++; return 3 + (int)(f - vf); }
int vs_creat(const char* n, mode_t m) { (void)m; return vs_open(n, 1); }
int vs_dup2(int a, int b) { (void)a; return b; }
int vs_close(int fd) { if (fd >= 3 && fd < 3 + nvf) vf[fd - 3].open--; return 0; }
ssize_t vs_read(int fd, void* p, size_t n) { if (fd < 3 || fd >= 3 + nvf) return 0; if (vs_chunk && n > (size_t)vs_chunk) n = vs_chunk; return vf_fread(p, 1, n, (FILE*)&vf[fd - 3]); }
ssize_t vs_write(int fd, const void* p, size_t n) { volatile uint8_t x; const uint8_t* b = p; if (n) { x = b[0]; x = b[n - 1]; (void)x; } if (fd != 1) return n; if (on + (long)n > (long)sizeof OUT) qs_cut(); memcpy(OUT + on, p, n); on += n; return n; }
/* messages: every byte that would be printed is read */
int vs_fprintf(FILE* f, const char* m, ...) { (void)f; volatile char x; va_list ap; va_start(ap, m);
  for (; *m; m++) { if (*m == '%') { m++; if (*m == 's') { const char* s = va_arg(ap, const char*); while (*s) s++; } else if (*m == '.') { m += 2; int n = va_arg(ap, int); const char* s = va_arg(ap, const char*); for (int i = 0; i < n; i++) { x = s[i]; if (!s[i]) break; } } else if (*m == 'l') { m++; (void)va_arg(ap, long); } else (void)va_arg(ap, int); } }
  va_end(ap); (void)x; return 0; }
int vs_fputc(int c, FILE* f) { (void)f; if (c == '\n') n_msgs++; return c; }
int vs_fflush(FILE* f) { (void)f; return 0; }
char* vs_ctime(const time_t* t) { (void)t; static char s[] = "Thu Nov 19 22:28:46 2026\n"; return s; }
static const char* opt1; static const char* opt2;
static void cpp_file(const char* n) { vf_input(n, T, tn); t_reset(); }
static void run_cpp(void) { char* av[6]; int ac = 0; av[ac++] = "cpp"; if (opt1) av[ac++] = (char*)opt1; if (opt2) av[ac++] = (char*)opt2; av[ac++] = "a.c"; av[ac] = NULL; cpp_file("a.c"); vs_chunk = qs_param("chunk", 0);
  int st = cpp_main(ac, av); if (!post_ran) { post_ran = 1; post_fn(st); } }
/* ---- the output without #line lines, white space squeezed ---- */
static uint8_t OT[1 << 14]; static int otn;
static int out_keep;   /* do not squeeze */
static void out_text(void) { otn = 0; int bol = 1, blank = 0;
  for (long i = 0; i < on; i++) { uint8_t c = OUT[i];
    if (bol && c == '#' && on - i > 6 && OUT[i + 1] == 'l' && OUT[i + 2] == 'i') { while (i < on && OUT[i] != '\n') i++; continue; }
    if (bol && c == '#') { long j = i + 1; while (j < on && (OUT[j] == ' ' || OUT[j] == '\t')) j++; if (j < on && OUT[j] == '\n') { i = j - 1; continue; } } /* null directive */
    bol = c == '\n' || (bol && (c == ' ' || c == '\t')); if (!out_keep && (c == '\n' || c == ' ' || c == '\t' || c == '\v')) { blank = 1; continue; }
    if (blank && otn) OT[otn++] = ' '; blank = 0; OT[otn++] = c; } }
static int out_is(const char* s) { int n = strlen(s); return n == otn && !memcmp(OT, s, n); }
static void t_u(uint64_t v) { char b[24]; int k = 0; do { b[k++] = '0' + v % 10; v /= 10; } while (v); while (k) t_c(b[--k]); }
#endif
