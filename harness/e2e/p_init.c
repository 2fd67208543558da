/* initialised data */
struct m { int i; char c; char d; int j; };
struct m x1 = { 1, 2, 3, 5 }; char z1 = 7; struct m y1 = { 11, 12 };
struct { char n[8]; int v; } tab[3] = { { "one", 1 }, { "two", 2 }, { "threexx", -3 } };
static struct { char c; struct m in[2]; char e; } nest = { 'a', { { 1, 'b', 'c', 2 }, { 3, 'd' } }, 'e' };
static char s5[5] = "abcde", s9[] = "with\0nul", *ptrs[] = { "p0", "p1", s5 + 1, 0, &s9[6] };
static int grid[3][4] = { { 1, 2, 3, 4 }, { 5 }, { 6, 7 } }, flat[2][2][2] = { 1, 2, 3, 4, 5, 6, 7 }, len[] = { 9, 8, 7, 6, 5 };
static int *ip = &grid[1][2], **ipp = &ip; static struct m *mp = &nest.in[1]; static char* sp = s5 + 3;
static float fl[] = { 1.5f, -2, 1e3f, 0 }; struct fm { char c; float f; int k; } fms[2] = { { 1, 2.5f, 3 }, { 4, -0.0f, 6 } };
static unsigned int big[] = { 0xffffffffu, 0x80000000u, 1u << 31, (unsigned)-2 }; static signed char neg[] = { -1, -128, 127 }; static unsigned char pos[] = { 255, 128, 0 };
static int sz[] = { sizeof(struct m), sizeof nest, sizeof s9, sizeof ptrs / sizeof ptrs[0], (int)sizeof(len), sizeof(grid[0]) };
static int exprs[] = { 1 + 2 * 3, (7 & 5) << 2, ~0, !3, 5 ? 6 : 7, 'a' + 1, '\377', -7 / 2, -7 % 3, 7 > 2, 3 == 4 };
typedef int (*fn)(int); static int inc(int v) { return v + 1; } static int dbl(int v) { return v * 2; }
static struct { char* name; fn f; int k; } ops[] = { { "inc", inc, 1 }, { "dbl", dbl, 2 }, { 0 } };
static union { int i; char c[4]; } un = { 0x01020304 }; static struct { int a : 3; unsigned b : 5; int c : 20; } bf = { -2, 21, -300 };
static char zero[6]; int common; extern int ext; int ext = 77; static int tent; static int tent = 5; static struct m* self = &x1; static char** cpp_ = &ptrs[1];
static int t_m(int a, int b, int c) { struct m* p = a & 1 ? &x1 : &y1; return p->i + p->c * 3 + p->d * 5 + p->j * 7 + z1; }
static int t_tab(int a, int b, int c) { int i = (a & 3) % 3; return tab[i].v * 3 + tab[i].n[b & 7]; }
static int t_nest(int a, int b, int c) { struct m* p = &nest.in[a & 1]; return nest.c + p->i * 3 + p->c * 5 + p->d * 7 + p->j * 9 + nest.e + mp->c + self->i; }
static int t_str(int a, int b, int c) { return s5[(a & 7) % 5] * 3 + s9[b & 7] + s9[8] * 5 + *sp; }
static int t_ptrs(int a, int b, int c) { int i = a & 3; if (i == 3) i = 4; return ptrs[i][b & 1] * 3 + (ptrs[3] == 0) + cpp_[0][1]; }
static int t_grid(int a, int b, int c) { return grid[(a & 3) % 3][b & 3] * 3 + flat[a & 1][b & 1][c & 1] * 5 + len[(c & 7) % 5]; }
static int t_addr(int a, int b, int c) { return *ip + (ip - &grid[0][0]) * 3 + (*ipp == ip) + (*ipp)[-2]; }
static int t_fl(int a, int b, int c) { float f = fl[a & 3] * 2 + fms[b & 1].f; return f > c ? fms[c & 1].c : fms[c & 1].k; }
static int t_uns(int a, int b, int c) { return (int)big[a & 3] + (big[1] > big[2]) + neg[(b & 3) % 3] * 3 + pos[(c & 3) % 3]; }
static int t_sz(int a, int b, int c) { int i = (a & 7) % 6; return sz[i] * 3 + exprs[(b & 15) % 11]; }
static int t_ops(int a, int b, int c) { int r = a, i; for (i = 0; ops[i].name; i++) if (ops[i].name[0] == ((b & 1) ? 'i' : 'd')) r = ops[i].f(r) + ops[i].k; return r; }
static int t_un(int a, int b, int c) { return un.c[a & 3] * 3 + un.i + bf.a + (int)bf.b * 5 + bf.c; }
static int t_zero(int a, int b, int c) { return zero[(a & 7) % 6] + common + ext + tent; }
static int t_autos(int a, int b, int c) { int v[3] = { 1, 2 }; char s[6] = "hey"; struct m q = x1; int w = a, u = w + b; v[2] = c; return v[a & 1] + v[1] * 3 + s[b & 3] + s[5] + q.c + u; }
static int t_statics(int a, int b, int c) { static char s[] = "local"; static int k[2] = { 4, -4 }; static char* p = "lit"; return s[(a & 7) % 6] + k[b & 1] + p[c & 3]; }
static int t_lit(int a, int b, int c) { return "literal"[a & 7] * 3 + *("xyz" + (b & 3)) + sizeof "four" + ("a" "b" "\x63" "\144")[c & 3]; }
static int t_esc(int a, int b, int c) { char* p = "\n\t\\\"\'\a\b\f\r\v\0\1\12\x7f\xff?"; return p[a & 15]; }
