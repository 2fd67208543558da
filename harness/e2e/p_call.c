/* calls, recursion, variable arguments, small types as parameters and results */
static int fact(int n) { return n <= 1 ? 1 : n * fact(n - 1); }
static int fib(int n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); }
static int t_fact(int a, int b, int c) { return fact(a & 7) + b + c; }
static int t_fib(int a, int b, int c) { return fib(a & 3) * b + c; }
static int odd(int n); static int even(int n) { return n == 0 ? 1 : odd(n - 1); } static int odd(int n) { return n == 0 ? 0 : even(n - 1); }
static int t_mutual(int a, int b, int c) { return even(a & 7) * 2 + odd(b & 7) + c; }
static int many(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j) { return a + b * 2 + c * 3 + d * 4 + e * 5 + f * 6 + g * 7 + h * 8 + i * 9 + j * 10; }
static int t_many(int a, int b, int c) { return many(a, b, c, 1, a + b, b - c, 2, c, 3, a ^ c); }
static int id(int x) { return x; }
static int t_nested(int a, int b, int c) { return many(id(a), many(b, 1, id(2), 3, 4, id(c), 6, 7, 8, 9), id(id(c)), 1, 2, 3, many(1, 2, 3, 4, 5, 6, 7, 8, 9, id(a)), 4, 5, id(b)); }
static char fc(char x) { return x + 1; }
static unsigned char fuc(unsigned char x) { return x + 1; }
static short fs(short x) { return x * 3; }
static unsigned short fus(unsigned short x) { return x - 1; }
static int t_small(int a, int b, int c) { return fc(a) + fuc(b) * 3 + fs(c) * 5 + fus(a) * 7; }
static int t_small2(int a, int b, int c) { unsigned char x = fuc(fuc(a)); short y = fs(fus(b)); char z = fc(y); return x + y * 3 + z * 5 + fuc(c) % 7; }
static int mixd(char a, int b, short c, unsigned char d, float f) { return a + b * 2 + c * 3 + d * 4 + (int)f; }
static int t_mixd(int a, int b, int c) { return mixd(a, b, c, a ^ b, (float)(c & 255)); }
static int knr(a, b, c) char a; short b; unsigned char c; { return a + b * 3 + c * 5; }
static int t_knr(int a, int b, int c) { return knr(a, b, c); }
static void add(int* r, int v) { *r = *r * 3 + v; }
static int t_void(int a, int b, int c) { int r = 0; add(&r, a); add(&r, b); add(&r, c); return r; }
static int order(int* n) { return ++*n; }
static int t_order(int a, int b, int c) { int n = a; int x = order(&n); x = x * 3 + order(&n); return x + n + b + c; }
static float ff(float x, int y) { return x + y; }
static int t_float(int a, int b, int c) { union { float f; int i; } u; u.f = ff((float)(a & 1023), b & 1023) + ff(1.5f, c & 15); return u.i; }
#ifdef Q3_VM
typedef char* va_list;
#define va_start(ap, v) (ap = (char*)&v + sizeof(v))
#define va_arg(ap, t) ((ap += sizeof(t)), *(t*)(ap - sizeof(t)))
#define va_end(ap) (ap = 0)
#else
#include <stdarg.h>
#endif
static int sumn(int n, ...) { va_list ap; int r = 0; va_start(ap, n); while (n-- > 0) r = r * 3 + va_arg(ap, int); va_end(ap); return r; }
static int t_va(int a, int b, int c) { return sumn(3, a, b, c) + sumn(0) + sumn(1, c) * 5 + sumn(5, a, b, c, 1, a & b); }
static int t_vachar(int a, int b, int c) { char x = a; unsigned char y = b; short z = c; return sumn(3, x, y, z); }
static int ack(int m, int n) { return m == 0 ? n + 1 : n == 0 ? ack(m - 1, 1) : ack(m - 1, ack(m, n - 1)); }
static int t_ack(int a, int b, int c) { return ack(a & 1, b & 3) + c; }
static int depth(int n, int* p) { int x = n; int y[4]; if (n == 0) return *p; y[n & 3] = x + *p; return depth(n - 1, &y[n & 3]) + x; }
static int t_depth(int a, int b, int c) { return depth(a & 3, &b) + c; }
static int gcd(int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a; }
static int t_gcd(int a, int b, int c) { return gcd((a & 7) + 1, (b & 7) + 1) + c; }
static unsigned rot(unsigned x, int n) { return n ? x << n | x >> (32 - n) : x; }
static int t_rot(int a, int b, int c) { return rot(a, b & 31) ^ rot(c, 7); }
static int pop(unsigned x) { x = x - ((x >> 1) & 0x55555555u); x = (x & 0x33333333u) + ((x >> 2) & 0x33333333u); x = (x + (x >> 4)) & 0x0f0f0f0fu; return x * 0x01010101u >> 24; }
static int t_pop(int a, int b, int c) { return pop(a) + pop(b ^ c) * 100; }
static int t_crc(int a, int b, int c) { unsigned h = 5381; h = h * 33 ^ (a & 255); h = h * 33 ^ (b & 255); h = (h << 5) + h + (unsigned char)c; return h; }
static int t_sort(int a, int b, int c) { int v[3], i, j; v[0] = a; v[1] = b; v[2] = c; for (i = 0; i < 2; i++) for (j = 0; j < 2 - i; j++) if (v[j] > v[j + 1]) { int t = v[j]; v[j] = v[j + 1]; v[j + 1] = t; } return v[0] ^ (v[1] << 1) ^ (v[2] << 2); }
static int t_atoi(int a, int b, int c) { char s[4]; int i, r = 0; s[0] = a; s[1] = b; s[2] = c; s[3] = 0; for (i = 0; s[i] >= '0' && s[i] <= '9'; i++) r = r * 10 + s[i] - '0'; return r; }
static int t_itoa(int a, int b, int c) { char s[8]; int n = 0, r = 0; a &= 15; do { s[n++] = '0' + a % 10; a /= 10; } while (a); while (n) r = r * 256 + s[--n]; return r + b + c; }
static int t_upper(int a, int b, int c) { char x = a; if (x >= 'a' && x <= 'z') x -= 'a' - 'A'; return x + (b >= 'A' && b <= 'Z' ? b | 32 : c); }
static int t_swapb(int a, int b, int c) { unsigned u = a; u = u >> 24 | (u >> 8 & 0xff00) | (u << 8 & 0xff0000) | u << 24; return u + b + c; }
static int t_abs(int a, int b, int c) { return (a < 0 ? -a : a) + (b < c ? c - b : b - c); }
static int t_clamp(int a, int b, int c) { return a < b ? b : a > c ? c : a; }
static int t_mask(int a, int b, int c) { return (a & 0xff) + (b & 0xffff) * 3 + (c & 0x80000000) + (a & ~0xff) + (b | 0x7f) + (c ^ -1); }
static int t_sext(int a, int b, int c) { return ((a << 24) >> 24) + ((b << 16) >> 16) + (int)((unsigned)c << 16 >> 16); }
static int t_div(int a, int b, int c) { return a / 3 + b / 7 + c / -5 + a / 16 + b / 2 + c % 10 + a % 8 + (unsigned)b / 10 + (unsigned)c % 1000 + (unsigned)a / 32 + (unsigned)b % 64; }
static int t_uchdiv(int a, int b, int c) { return (unsigned char)a / 3 + (unsigned short)b % 7 + (char)c / 5 + ((unsigned char)b > 100) + ((unsigned char)(a + b) == 5) + ((unsigned short)c >> 3); }
