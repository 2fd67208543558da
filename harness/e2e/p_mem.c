/* pointers, arrays, structures, unions, initialisers */
typedef struct { int x, y; } pt;
typedef struct { char c; short s; int i; unsigned char u; float f; } mixed;
struct list { int v; struct list* next; };
static int ga[8] = { 1, 2, 3, 5, 8, 13, 21, 34 };
static int gz[6];
static int g2[3][4] = { { 1, 2, 3, 4 }, { 5, 6 }, { 9, 10, 11, 12 } };
static char gs[] = "hello, world";
static const char* gn[] = { "zero", "one", "two", "three" };
static pt gp[3] = { { 1, 2 }, { 3, 4 }, { -5, -6 } };
static pt* gpp = &gp[1];
static int* gip = ga + 3;
static const char* gsp = "abcdef" + 2;
static unsigned char guc[5] = { 200, 100, 255, 0, 7 };
static char gsc[4] = { -1, 'x', 127, -128 };
static float gf[3] = { 1.5f, -2.25f, 1e6f };
static unsigned gu[3] = { 0xffffffffu, 0x80000000u, 7 };
static int gsz = sizeof(ga) / sizeof(ga[0]);
static int genum;
enum e { E0, E1, E5 = 5, E6, EM = -3, EM2 };
static int fadd(int a, int b) { return a + b; }
static int fsub(int a, int b) { return a - b; }
static int (*gfp[2])(int, int) = { fadd, fsub };
static union { int i; char c[4]; unsigned char u[4]; short s[2]; float f; } gun;
static int t_idx(int a, int b, int c) { return ga[a & 7] + ga[b & 7] * c; }
static int t_idx2(int a, int b, int c) { int i = a & 1, j = b & 3; g2[i + 1][j] = c; return g2[i][j] + g2[2][3 - j] * 3; }
static int t_idxneg(int a, int b, int c) { int* p = ga + 4; return p[-(a & 3)] + *(p + (b & 3)) + *(c & 1 ? p : p - 1); }
static int t_ptrdiff(int a, int b, int c) { int *p = ga + (a & 7), *q = &ga[b & 7]; return (p - q) * 10 + (p < q) + (p == q) * 2 + (p >= q) * 4 + c; }
static int t_ptrdiffs(int a, int b, int c) { pt *p = gp + (a & 1), *q = gp + 2; return (q - p) + (p != q) + (c & (p > q)) + b; }
static int t_ptrinc(int a, int b, int c) { int *p = ga, r = 0; p += a & 3; r = *p++; r = r * 5 + *++p; r = r * 5 + *p--; r = r * 5 + (*p)++ + --*p; return r + b + c; }
static int t_strlen(int a, int b, int c) { const char* p = gn[a & 3]; int n = 0; while (*p++) n++; return n + b + c; }
static int t_strcmp(int a, int b, int c) { const char *p = gn[a & 3], *q = gn[b & 3]; while (*p && *p == *q) p++, q++; return *p - *q + c; }
static int t_str(int a, int b, int c) { return gs[a & 7] + "literal"[b & 3] + sizeof gs + sizeof "xyz" + c + gsp[1]; }
static int t_stresc(int a, int b, int c) { static char s[] = "a\n\t\\\"\101\x42\0z\377"; return s[a & 7] * 3 + s[8 + (b & 1)] + sizeof s + c; }
static int t_strcat(int a, int b, int c) { char buf[20]; char* p = buf; const char* q = "one" "two"; while ((*p++ = *q++) != 0) ; p[-1] = a; p[0] = b; return buf[6] + buf[7] * 2 + buf[3] + c; }
static int t_struct(int a, int b, int c) { pt p, q; p.x = a; p.y = b; q = p; q.x += c; gp[1] = q; return p.x + q.x * 3 + gp[1].y * 5 + gpp->x; }
static int t_structcmp(int a, int b, int c) { mixed m, n; m.c = a; m.s = b; m.i = c; m.u = a; m.f = 2.5f; n = m; n.c++; n.s--; return n.c + n.s * 3 + n.i + m.u * 7 + (int)(n.f * 2); }
static pt mk(int a, int b) { pt r; r.x = a; r.y = b; return r; }
static int sum(pt p, int k, pt q) { p.x += k; return p.x + p.y * 2 + q.x * 3 + q.y * 4; }
static int t_structret(int a, int b, int c) { pt p; p = mk(a, b); return p.x * 3 + p.y + mk(b, c).y + sum(mk(c, a), b, p) + p.x; }
static pt ident(pt p) { return p; }
static int t_structarg(int a, int b, int c) { pt p, q; p.x = a; p.y = b; q = ident(ident(p)); p.x = c; return q.x + q.y * 3 + p.x * 5 + sum(p, 1, ident(q)); }
static mixed mm(int a) { mixed m; m.c = a; m.s = a >> 1; m.i = a * 3; m.u = a; m.f = 1.0f; return m; }
static int t_structbig(int a, int b, int c) { mixed x = mm(a), y; y = mm(b); if (c & 1) x = y; return x.c + x.s + x.i + x.u + (int)x.f; }
typedef struct { int v[9]; char t[3]; } big;
static big gb; static big mb(int a) { big r; int i; for (i = 0; i < 9; i++) r.v[i] = a + i; r.t[0] = a; r.t[1] = 5; r.t[2] = -a; return r; }
static int bs(big b, int i) { b.v[0] = 1; return b.v[i] + b.t[1] + b.t[2]; }
static int t_big(int a, int b, int c) { big x, y[2]; x = mb(a); y[1] = x; gb = y[1]; y[0] = gb; y[0].v[3] = c; return bs(x, 8) + y[0].v[3] + y[1].v[3] + y[0].t[0]; }
static int bi(big b, int i) { b.v[0] = 1; return b.v[i] ^ b.t[1]; }
static int t_bigidx(int a, int b, int c) { gb = mb(a); gb.v[5] = c; return bi(gb, b & 7); }
static int t_structarr(int a, int b, int c) { int i = a & 1; gp[i].x = b; gp[i + 1].y = c; return gp[0].x + gp[0].y * 2 + gp[1].x * 3 + gp[1].y * 4 + gp[2].x * 5 + gp[2].y * 6; }
static int t_inner(int a, int b, int c) { struct o { int k; struct { char n; pt p[2]; } in; } o, *q = &o; o.k = a; q->in.n = b; q->in.p[a & 1].x = c; q->in.p[1 - (a & 1)].x = 7; o.in.p[1].y = 1; return q->in.p[0].x * 3 + o.in.p[1].x + q->in.n + q->k; }
static int t_list(int a, int b, int c) { struct list n[3], *p; int r = 0; n[0].v = a; n[1].v = b; n[2].v = c; n[0].next = &n[2]; n[2].next = &n[1]; n[1].next = 0; for (p = n; p; p = p->next) r = r * 3 + p->v; return r; }
static int t_union(int a, int b, int c) { gun.i = a; gun.c[b & 3] = c; return gun.i + gun.u[1] + gun.s[1] * 3 + gun.c[3]; }
static int t_union2(int a, int b, int c) { union { struct { short l, h; } s; int i; } u; u.i = a; u.s.h = b; u.s.l ^= c; return u.i; }
static int t_fp(int a, int b, int c) { int (*f)(int, int) = a & 1 ? fadd : fsub; return f(b, c) + (*f)(c, 1) + gfp[(a >> 1) & 1](b, 3) * 2 + (f == fadd); }
static int t_ptrptr(int a, int b, int c) { int x = a, y = b, *p = &x, **q = &p; **q += c; *q = &y; **q -= c; return x * 3 + y + *p; }
static int swap(int* x, int* y) { int t = *x; *x = *y; *y = t; return t; }
static int t_swap(int a, int b, int c) { int v[3]; v[0] = a; v[1] = b; v[2] = c; swap(v, v + 1); swap(&v[1], &v[2]); return v[0] * 3 + v[1] * 5 + v[2] * 7 + swap(&a, &b) + a; }
static int t_alias(int a, int b, int c) { int x = a, *p = &x; int y = x + b; *p = c; y += x + b; *p += y; return x * 3 + y; }
static int t_alias2(int a, int b, int c) { int i = a & 3; ga[i] = b; ga[b & 3] = c; return ga[i] * 3 + ga[0] + ga[1]; }
static int t_cse(int a, int b, int c) { int x = (a + b) * c, y = (a + b) * c + 1; a++; x += (a + b) * c; return x * 3 + y; }
static int t_csemem(int a, int b, int c) { int r = ga[a & 7] + ga[a & 7]; ga[a & 7]++; r = r * 3 + ga[a & 7] + ga[b & 7]; gz[1] = c; r += gz[1]; gz[a & 1] = 9; return r + gz[1]; }
static int bump(void) { return ++genum; }
static int t_csecall(int a, int b, int c) { int r; genum = a; r = genum + b; bump(); r = r * 3 + genum + b; r += bump() * c + genum; return r; }
static int t_csechar(int a, int b, int c) { unsigned char *p = guc + (a & 3); int r = *p + *p; *p += b; r = r * 3 + *p; *p = *p + c; return r + *p * 5; }
static int t_uchararr(int a, int b, int c) { guc[a & 3] = b; guc[2]++; guc[1] -= c; return guc[0] + guc[1] * 3 + guc[2] * 5 + guc[3] * 7 + guc[4]; }
static int t_schararr(int a, int b, int c) { gsc[a & 3] += b; return gsc[0] + gsc[1] * 3 + gsc[2] * 5 + gsc[3] * 7 + c; }
static int t_shortarr(int a, int b, int c) { short v[4]; unsigned short w[2]; int i; for (i = 0; i < 4; i++) v[i] = a + i * b; w[0] = w[1] = c; w[c & 1]++; v[a & 3] <<= 2; return v[0] + v[1] * 3 + v[2] * 5 + v[3] * 7 + w[0] + w[1] * 3; }
static int t_gsz(int a, int b, int c) { return gsz + sizeof(pt) * 3 + sizeof(mixed) + sizeof(int[5]) + sizeof(short) + sizeof a + sizeof(char) + sizeof(gun) + b + c; }
static int t_float(int a, int b, int c) { return (int)(gf[0] * 4) + (int)gf[1] + (gf[2] > 5) + a + b + c; }
static int t_gu(int a, int b, int c) { return (gu[a & 1] > (unsigned)b) + (gu[1] >> 4) + gu[2] + c; }
static int t_enum(int a, int b, int c) { enum e x = a; switch (x) { case E0: return 1; case E1: return 2; case E5: return E6; case EM: return EM2; default: return b + c; } }
static int t_static(int a, int b, int c) { static int n = 5; static char k = 'k'; n += a; k += b; { static int n = 7; n -= c; k ^= n; } return n * 3 + k; }
static int t_autoinit(int a, int b, int c) { int v[4] = { 1, 2, 3 }; char s[6] = "abc"; pt p[2] = { { 4, 5 }, { 6 } }; v[a & 3] = b; s[c & 3] = 'z'; return v[0] + v[1] * 2 + v[2] * 3 + v[3] * 4 + s[0] + s[1] * 3 + s[2] * 5 + s[3] + s[5] + p[0].y + p[1].x * 7 + p[1].y; }
static int t_scope(int a, int b, int c) { int x = a; { int x = b; { int x = c; a += x; } a += x * 3; } for (b = 0; b < 2; b++) { int y = x + b; a ^= y; } return a + x * 5; }
static int t_volatile(int a, int b, int c) { volatile int v = a; register int r = b; const int k = 7; v += r; v *= k; return v + c; }
static int t_cast(int a, int b, int c) { int v[2]; char* p = (char*)v; v[0] = a; v[1] = b; p += c & 7; return *p + *(unsigned char*)p * 3 + *(int*)(char*)&v[1]; }
static int t_voidp(int a, int b, int c) { int x = a; void* p = &x; *(int*)p += b; return *(int*)p * 3 + (p != 0) + !p + c; }
static int t_null(int a, int b, int c) { int* p = 0; if (a & 1) p = &b; if (p) return *p; return p == 0 ? c : 1; }
static int t_arr2(int a, int b, int c) { char m[3][5]; int i, j; for (i = 0; i < 3; i++) for (j = 0; j < 5; j++) m[i][j] = a + i * j; m[b & 1][c & 3] = 9; return m[0][1] + m[1][2] * 3 + m[2][4] * 5 + (*(m + 1))[3] + sizeof m[0]; }
static int t_arr3(int a, int b, int c) { int m[2][2][3], *p = &m[0][0][0], i; for (i = 0; i < 12; i++) p[i] = a * i; return m[b & 1][c & 1][2] + m[1][0][a & 1] + (int)sizeof(m[0]); }
static int sumv(int v[], int n) { int r = 0; while (n-- > 0) r += *v++; return r; }
static int t_arrparm(int a, int b, int c) { int v[4]; v[0] = a; v[1] = b; v[2] = c; v[3] = 1; return sumv(v, 4) + sumv(v + 1, 2) * 3; }
static int t_rowp(int a, int b, int c) { int (*r)[4] = g2 + (a & 1); return r[1][b & 3] + (*r)[c & 3] + sumv(*r, 4); }
static int t_preidx(int a, int b, int c) { int i = 0, v[6]; v[i++] = a; v[i++] = b; v[i] = c; v[++i] = 7; v[4] = v[5] = v[i--]; return v[0] + v[1] * 3 + v[2] * 5 + v[3] * 7 + v[4] + v[i] * 11; }
static int t_structinc(int a, int b, int c) { pt *p = gp, v; v.x = a; v.y = b; p->x++; (p++)->y += c; p->x = --v.y; return gp[0].x + gp[0].y + gp[1].x * 3 + v.y; }
