/* C library stand-ins linked into the bitcode (contracts of the standard functions, "C" locale). */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include "qs.h"
typedef unsigned char uc;
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (uc)*a - (uc)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (uc)*a - (uc)*b; if (!*a) return 0; } return 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while (*a && lc((uc)*a) == lc((uc)*b)) { a++; b++; } return lc((uc)*a) - lc((uc)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { int x = lc((uc)*a), y = lc((uc)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* p = d + strlen(d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return NULL; } }
char* strrchr(const char* s, int c) { const char* r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { size_t k = strlen(n); for (;; h++) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return NULL; } }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
int memcmp(const void* a, const void* b, size_t n) { const uc *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return *x - *y; return 0; }
void* memchr(const void* s, int c, size_t n) { const uc* p = s; for (; n; n--, p++) if (*p == (uc)c) return (void*)p; return NULL; }
extern void* malloc(size_t);
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = malloc(n); if (r) for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* ctype table as glibc lays it out: index -128..255 */
static unsigned short ctab[384]; static const unsigned short* ctabp; static int tup[384], tlo[384]; static const int *tupp, *tlop;
static void ctinit(void) { for (int c = -128; c < 256; c++) { unsigned short f = 0; int u = c;
  if (u >= 0 && u < 128) { int up = u >= 'A' && u <= 'Z', lo = u >= 'a' && u <= 'z', di = u >= '0' && u <= '9';
    if (up) f |= 1 << 8; if (lo) f |= 1 << 9; if (up || lo) f |= 1 << 10; if (di) f |= 1 << 11;
    if (di || (u >= 'a' && u <= 'f') || (u >= 'A' && u <= 'F')) f |= 1 << 12; if (u == ' ' || (u >= 9 && u <= 13)) f |= 1 << 13; if (u >= 32 && u < 127) f |= 1 << 14; if (u > 32 && u < 127) f |= 1 << 15;
    if (u == ' ' || u == 9) f |= 1; if (u < 32 || u == 127) f |= 2; if (u > 32 && u < 127 && !up && !lo && !di) f |= 4; if (up || lo || di) f |= 8; }
  ctab[c + 128] = f; tup[c + 128] = toupper(c); tlo[c + 128] = tolower(c); } ctabp = ctab + 128; tupp = tup + 128; tlop = tlo + 128; }
const unsigned short** __ctype_b_loc(void) { if (!ctabp) ctinit(); return &ctabp; }
const int** __ctype_toupper_loc(void) { if (!ctabp) ctinit(); return &tupp; }
const int** __ctype_tolower_loc(void) { if (!ctabp) ctinit(); return &tlop; }
int isdigit(int c) { return c >= '0' && c <= '9'; } int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); } int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int isupper(int c) { return c >= 'A' && c <= 'Z'; } int islower(int c) { return c >= 'a' && c <= 'z'; } int isprint(int c) { return c >= 32 && c < 127; } int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int dig(int c) { if (isdigit(c)) return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
/* *over: magnitude does not fit in 64 bits (can only happen from 16 digits on) */
static unsigned long ull(const char* s, char** e, int base, int* neg, int* any, int* over) { const char* p = s; *neg = 0; *any = 0; *over = 0; while (isspace((uc)*p)) p++; if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig((uc)p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; int d, n = 0; while ((d = dig((uc)*p)) < base) { if (++n >= 16 && (v > ~0ul / base || v * base > ~0ul - (unsigned long)d)) *over = 1; v = v * base + d; p++; *any = 1; } if (e) *e = (char*)(*any ? p : s); return v; }
unsigned long strtoul(const char* s, char** e, int b) { int n, a, o; unsigned long v = ull(s, e, b, &n, &a, &o); if (o) return ~0ul; return n ? -v : v; }
long strtol(const char* s, char** e, int b) { int n, a, o; unsigned long v = ull(s, e, b, &n, &a, &o); if (o || (v >> 63)) { if (n) return (long)(1ul << 63); return o || (v >> 63) ? (long)(~0ul >> 1) : 0; } return n ? -v : v; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); } unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); } long atol(const char* s) { return strtol(s, 0, 10); } long long atoll(const char* s) { return strtol(s, 0, 10); }
int abs(int v) { return v < 0 ? (int)-(unsigned)v : v; } long labs(long v) { return v < 0 ? (long)-(unsigned long)v : v; }
char* strerror(int e) { (void)e; return (char*)"error"; }
char* strpbrk(const char* s, const char* a) { for (; *s; s++) if (strchr(a, *s)) return (char*)s; return NULL; }
size_t strnlen(const char* s, size_t n) { size_t k = 0; while (k < n && s[k]) k++; return k; }
/* exact for the short decimal literals harnesses use (value < 2^53, |exponent| <= 22) */
double strtod(const char* s, char** e) { const char* p = s; while (isspace((uc)*p)) p++; int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++; double v = 0, sc = 1; while (isdigit((uc)*p)) v = v * 10 + (*p++ - '0'); if (*p == '.') { p++; while (isdigit((uc)*p)) { v = v * 10 + (*p++ - '0'); sc *= 10; } } int ex = 0; if (*p == 'e' || *p == 'E') { const char* q = p + 1; int en = 0; if (*q == '-') { en = 1; q++; } else if (*q == '+') q++; if (isdigit((uc)*q)) { while (isdigit((uc)*q)) ex = ex * 10 + (*q++ - '0'); if (en) ex = -ex; p = q; } } if (e) *e = (char*)p; double t = 1; for (int i = 0; i < (ex < 0 ? -ex : ex); i++) t *= 10; v = ex < 0 ? v / (sc * t) : (v * t) / sc; return neg ? -v : v; }
double atof(const char* s) { return strtod(s, 0); }
static void swp(char* a, char* b, size_t n) { while (n--) { char t = *a; *a++ = *b; *b++ = t; } }
void qsort(void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) { char* p = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; j--) swp(p + (j - 1) * sz, p + j * sz, sz); }
/* bounded formatter: %d %i %u %x %X %s %c %ld %lu %lx %% %f(as 0) with width/zero padding */
int vsnprintf(char* o, size_t cap, const char* f, va_list ap) { size_t k = 0;
#define PUT(ch) do { char ch_ = (ch); if (k + 1 < cap) o[k] = ch_; k++; } while (0)
  for (; *f; f++) { if (*f != '%') { PUT(*f); continue; } f++; int zero = 0, width = 0, lg = 0, left = 0; while (*f == '0' || *f == '-' || *f == '+' || *f == ' ' || *f == '#') { if (*f == '0') zero = 1; if (*f == '-') left = 1; f++; } while (isdigit((uc)*f)) width = width * 10 + *f++ - '0'; int prec = -1; if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit((uc)*f)) prec = prec * 10 + *f++ - '0'; } while (*f == 'l' || *f == 'z' || *f == 'h') { if (*f != 'h') lg = 1; f++; }
    char tmp[32]; int n = 0; (void)left;
    switch (*f) { case '%': PUT('%'); break; case 'c': PUT((char)va_arg(ap, int)); break;
    case 's': { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; for (int q = 0; s[q] && (prec < 0 || q < prec); q++) PUT(s[q]); } break;
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': { unsigned long v; int neg = 0; if (*f == 'd' || *f == 'i') { long x = lg ? va_arg(ap, long) : va_arg(ap, int); neg = x < 0; v = neg ? -(unsigned long)x : (unsigned long)x; } else v = lg || *f == 'p' ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); unsigned base = *f == 'o' ? 8 : (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : 10; do { unsigned d = v % base; tmp[n++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v); int tot = n + neg; if (!zero) for (; tot < width; tot++) PUT(' '); if (neg) PUT('-'); if (zero) for (; tot < width; tot++) PUT('0'); while (n) PUT(tmp[--n]); } break;
    case 'f': case 'g': case 'e': case 'E': case 'G': (void)va_arg(ap, double); PUT('0'); break; default: PUT(*f); } }
  if (cap) o[k < cap ? k : cap - 1] = 0; return (int)k; }
int snprintf(char* o, size_t cap, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, cap, f, ap); va_end(ap); return r; }
int vsprintf(char* o, const char* f, va_list ap) { return vsnprintf(o, (size_t)1 << 30, f, ap); }
int sprintf(char* o, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, (size_t)1 << 30, f, ap); va_end(ap); return r; }
__attribute__((weak)) void qs_exit_hook(int code) { (void)code; }
void exit(int code) { qs_exit_hook(code); qs_stop(); for (;;) {} }
void _exit(int code) { exit(code); }
char* getenv(const char* n) { (void)n; return NULL; }
