/* control flow */
static int t_dense(int a, int b, int c) { switch (a) { case 0: return 10; case 1: return b; case 2: return c; case 3: b++; case 4: return b + 4; case 5: break; case 6: return -6; case 7: return 77; case 8: return b - c; default: return 99; } return 55; }
static int t_sparse(int a, int b, int c) { switch (a) { case -2147483647 - 1: return 1; case -1000000: return 2; case -1: return 3; case 0: return 4; case 3: return 5; case 100: return b; case 65536: return 7; case 0x7fffffff: return 8; } return c; }
static int t_neg(int a, int b, int c) { switch (a) { case -3: return 1; case -2: return 2; case -1: return 3; case 0: return 4; case 1: return 5; case 2: return 6; } return b ^ c; }
static int t_uns(int a, int b, int c) { switch ((unsigned)a) { case 0u: return 1; case 0x80000000u: return 2; case 0xffffffffu: return 3; case 0xfffffffeu: return 4; case 0xfffffffdu: return 5; case 0xfffffffcu: return 6; case 7: return b; } return c; }
static int t_chr(int a, int b, int c) { char x; x = a; switch (x) { case 'a': return 1; case 'b': return 2; case 'c': return 3; case '\n': return 4; case '\377': return 5; case -128: return 6; } return b + c; }
static int t_uchr(int a, int b, int c) { unsigned char x; x = a; switch (x) { case 255: return 1; case 254: return 2; case 253: return 3; case 252: return 4; case 128: return b; case 127: return c; case 0: return 7; } return 9; }
static int t_shortsw(int a, int b, int c) { short x; x = a; switch (x) { case 32767: return 1; case -32768: return 2; case 0: return 3; case 1: case 2: case 3: case 4: case 5: return b; } return c; }
static int t_mid(int a, int b, int c) { int r = 0; switch (a & 7) { case 0: r += 1; default: r += 2; case 3: r += 4; break; case 5: r += 8; case 6: r += 16; } return r * 3 + (b ^ c); }
static int t_nest(int a, int b, int c) { switch (a & 3) { case 0: switch (b & 3) { case 1: return 11; case 2: break; default: return 12; } return 13; case 1: switch (c) { case 5: case 6: case 7: return 14; } case 2: return 15; } return 16; }
static int t_swloop(int a, int b, int c) { int i, r = 0; for (i = 0; i < 4; i++) { switch ((a >> i) & 3) { case 0: continue; case 1: r += b; break; case 2: r ^= c; if (r < 0) goto out; break; case 3: r = -r; } r++; } out: return r; }
static int t_swempty(int a, int b, int c) { switch (a) { } switch (b) { default: c++; } switch (a) { case 1:; } return c; }
static int t_swone(int a, int b, int c) { switch (a) { case 5: return b; } return c; }
static int t_swtwo(int a, int b, int c) { switch (a) { case 5: return b; case -5: return 1; } return c; }
static int t_swcut(int a, int b, int c) { switch (a) { case 10: case 11: case 12: case 13: return 1; case 20: case 21: case 22: case 23: return 2; case 30: return 3; case 1000: case 1001: case 1002: case 1003: case 1004: return b; case 2000: return c; } return 0; }
static int t_swbig(int a, int b, int c) { switch (a) { case 1: return 3; case 2: return 1; case 3: return 4; case 4: return 1; case 5: return 5; case 6: return 9; case 7: return 2; case 8: return 6; case 9: return 5; case 10: return 3; case 11: return 5; case 12: return 8; case 13: return 9; case 14: return 7; case 15: return 9; case 17: return 3; case 18: return 2; case 19: return 3; case 20: return 8; } return b + c; }
static int t_swexpr(int a, int b, int c) { switch ((a + b) * 2) { case 0: return 1; case 2: return 2; case 4: return 3; case -2: return 4; case 6: return c; } return 5; }
static int t_swside(int a, int b, int c) { switch (a++) { case 1: return a; case 2: return a + b; case 3: a += c; } return a; }
static int t_swwhile(int a, int b, int c) { int n = 0; while (n < 5) { switch (n ^ (a & 3)) { case 0: n += 2; continue; case 1: n++; break; case 2: b += n; default: n++; } c += n; } return b * 3 + c; }
static int t_goto(int a, int b, int c) { int n = 0; again: if (n > 3) goto end; if (a & (1 << n)) { b += c; n++; goto again; } n += 2; goto again; end: return b + n; }
static int t_gotoin(int a, int b, int c) { int i = 0; if (a > 0) goto in; for (i = 0; i < 3; i++) { b++; in: b ^= c; if (b & 64) break; } return b + i; }
static int t_dowhile(int a, int b, int c) { int n = 0; do { n++; if (a < 0) { a = -(a + 1); continue; } a >>= 1; } while (a > b && n < 4); return n + a + c; }
static int t_forempty(int a, int b, int c) { int n = 0; for (;;) { if (++n > (a & 3)) break; } for (; n < 6; ) n += 2; return n + b + c; }
static int t_forcomma(int a, int b, int c) { int i, j; for (i = 0, j = 4; i < j; i++, j--) { a += i * b; c -= j; } return a ^ c ^ i; }
static int t_and(int a, int b, int c) { return a && b && c; }
static int t_or(int a, int b, int c) { return a || b || c; }
static int t_mix(int a, int b, int c) { return (a && b) || (c && !a); }
static int t_mix2(int a, int b, int c) { return (a || b) && (c || !b) ? a : c; }
static int t_side(int a, int b, int c) { int n = 0; if (a > 0 && n++ >= 0 && b > 0 || n-- > 0 && c) return n + 10; return n; }
static int t_short(int a, int b, int c) { int n = 0; (void)(a && (n = b)); (void)(c || (n += 5)); return n; }
static int t_cond(int a, int b, int c) { return a ? b ? 1 : 2 : c ? 3 : 4; }
static int t_condval(int a, int b, int c) { return (a > b ? a : b) - (b < c ? b : c); }
static int t_condside(int a, int b, int c) { int x = 0, y = 0; a > b ? x++ : y++; c ? (x += 2) : (y += 3); return x * 10 + y; }
static int t_condchar(int a, int b, int c) { char x = a; unsigned char y = b; return c ? x : y; }
static int t_condu(int a, int b, int c) { unsigned u = b; return (c ? a : u) > 5; }
static int t_comma(int a, int b, int c) { return (a++, b += a, c), (a + b) ^ c; }
static int t_assigncond(int a, int b, int c) { int x; if ((x = a & b) != 0) return x; if ((x = c) < 0) return -1; return x; }
static int t_chain(int a, int b, int c) { int x, y, z; x = y = z = a ^ b; x += y += z += c; return x + y * 3 + z * 5; }
static int t_chainc(int a, int b, int c) { char x; int y; unsigned short z; y = x = z = a; return y + x * 2 + z * 3 + b + c; }
static int t_not(int a, int b, int c) { return !a + !!b * 2 + !(c > 3) * 4; }
static int t_iftrue(int a, int b, int c) { if (1) a++; if (0) a = 99; else b++; while (0) c = 5; do c++; while (0); for (; 0;) a = 7; return a + b * 3 + c * 5; }
static int t_ifconst(int a, int b, int c) { if (3 > 2 && a) return b; if (0 || c) return 2; if (a && 0) return 3; return (1 ? a : b) + (0 ? a : b) + (2 > 3 || b); }
static int t_ret(int a, int b, int c) { if (a) { if (b) return c; } else { if (c) return b; else return -1; } return 0; }
static int t_elseif(int a, int b, int c) { if (a == 1) b = 5; else if (a == 2) b = 6; else if (a < 0) { if (b) c = 1; } else c = 9; return b + c * 2; }
static int t_cmpchain(int a, int b, int c) { return (a < b) == (b < c); }
static int t_cmpval(int a, int b, int c) { int x = a < b, y = b == c; return x + y + (x && y) + (x > y); }
static int t_loop2(int a, int b, int c) { int i, j, r = 0; for (i = 0; i < 3; i++) for (j = i; j < 3; j++) { if (((a >> i) ^ (b >> j)) & 1) continue; if (c == i + j) break; r = r * 3 + i + j; } return r; }
static int t_break2(int a, int b, int c) { int i, r = 0; for (i = 0; i < 5; i++) { while (1) { if (a & 1) break; r += b; a |= 1; } a >>= 1; if (c == i) break; r++; } return r + i; }
static int t_unsloop(int a, int b, int c) { unsigned i; int r = 0; for (i = (a & 3); i-- > 0;) r += b + i; return r ^ c; }
static int t_charloop(int a, int b, int c) { unsigned char i; int n = 0; for (i = 250 + (a & 3); i != 1 && n < 9; i++) n++; return n + b + c; }
static int t_shloop(int a, int b, int c) { short i = 32766; int n = 0; while (i > 0 && n < 4) { i += 1; n++; } return n + i + a + b + c; }
static int t_deep(int a, int b, int c) { return ((((((a + 1) * 2 - b) ^ c) | ((a - b) | (c + 3))) ^ ((a & ~b) | (c ^ 7))) << 1) ^ (((a | b) ^ (b & c)) | ((c ^ a) & (a ^ b ^ (c << (a & 3))))); }
