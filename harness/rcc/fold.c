/* L01: a constant expression has the value the machine computes */
#include "rcch.h"
extern int cap_n, cap_size[8]; extern uint64_t cap_v[8]; void cap_on(void);
typedef int32_t i32; typedef uint32_t u32; typedef int8_t i8; typedef uint8_t u8; typedef int16_t i16; typedef uint16_t u16;
static u32 a, b, c;
/* an unsigned constant of any 32-bit value, in octal: A, B or C in a text */
static u32 oct(const char* nm) { static uint8_t dg[3][11]; static uint8_t have[3]; int l = nm[0] - 'a'; u32 v = 0; t_c('('); t_c('0');
  for (int i = 10; i >= 0; i--) { if (!have[l]) { uint8_t d; if (l < 2 && !(qs_param(l ? "wb" : "wa", 0x7ff) >> i & 1)) d = (uint32_t)qs_param(l ? "pb" : "pa", 0) >> (3 * i) & 7; else d = qs_u8(nm); qs_assume(d < (i == 10 ? 4 : 8)); dg[l][i] = d; } t_c('0' + dg[l][i]); v |= (u32)dg[l][i] << (3 * i); }
  have[l] = 1; t_c('u'); t_c(')'); return v; }
static void text(const char* t) { for (; *t; t++) { if (*t == 'A') a = oct("a"); else if (*t == 'B') b = oct("b"); else if (*t == 'C') c = oct("c"); else t_c(*t); } }
static int def; static u32 want; static int wsize; static int tpl, mode;
static void w(int ok, int64_t v) { def = ok; want = (u32)v; }
#define FIT(v) ((int64_t)(v) == (int64_t)(i32)(v))
/* ---- binary operators: the left and the right operand of one of the types ---- */
static const char* TY[] = { "int", "unsigned", "char", "unsigned char", "short", "unsigned short" };
static const char* OP[] = { "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||" };
static const int BITS[] = { 32, 32, 8, 8, 16, 16 };
/* the operand promoted: *u if it stays unsigned */
static int64_t sx(u32 v) { uint64_t r = v; if (r & 0x80000000u) return r | ~(uint64_t)0 << 32; return r; }
static u32 prom(u32 v, int ty, int* u) { *u = ty == 1; switch (ty) { case 2: return (u32)(i32)(i8)v; case 3: return (u8)v; case 4: return (u32)(i32)(i16)v; case 5: return (u16)v; } return v; }
static void binary(int op, u32 x, int xu, u32 y, int yu) { int u = xu || yu; i32 s = (i32)x, t = (i32)y; int64_t sl, tl; if (op >= 2 && op <= 4 && !u) { sl = sx(x); tl = sx(y); }
  switch (op) {
  case 0: u ? w(1, x + y) : w(FIT((int64_t)s + t), x + y); break;
  case 1: u ? w(1, x - y) : w(FIT((int64_t)s - t), x - y); break;
  case 2: u ? w(1, (uint64_t)x * y) : w(FIT(sl * tl), sl * tl); break;
  case 3: if (!y) { w(0, 0); break; } if (u) { w(1, (uint64_t)x / y); break; } if (s == INT32_MIN && t == -1) { w(0, 0); break; } w(1, sl / tl); break;
  case 4: if (!y) { w(0, 0); break; } if (u) { w(1, (uint64_t)x % y); break; } if (s == INT32_MIN && t == -1) { w(0, 0); break; } w(1, sl % tl); break;
  case 5: w(1, x & y); break; case 6: w(1, x | y); break; case 7: w(1, x ^ y); break;
  case 8: if (y > 31) { w(0, 0); break; } w(xu || (s >= 0 && FIT((int64_t)s << y)), x << y); break;
  case 9: if (y > 31) { w(0, 0); break; } w(1, xu ? (int64_t)(x >> y) : (int64_t)(s >> y)); break;
  case 10: w(1, x == y); break; case 11: w(1, x != y); break;
  case 12: w(1, u ? x < y : s < t); break; case 13: w(1, u ? x <= y : s <= t); break; case 14: w(1, u ? x > y : s > t); break; case 15: w(1, u ? x >= y : s >= t); break;
  case 16: w(1, x && y); break; case 17: w(1, x || y); break; } }
static void post(int st) { int u, v;
  qs_check(st == 0 || st == 1, "exit status 0 or 1");
  if (mode == 0) { int op = qs_param("op", 0), lt = qs_param("lt", 0), rt = qs_param("rt", 0); u32 x = prom(a, lt, &u), y = prom(b, rt, &v); binary(op, x, u, y, v); }
  if (mode == 1) { /* conversion of a conversion */ int t1 = qs_param("lt", 0), t2 = qs_param("rt", 0); u32 x = prom(prom(a, t2, &u), t1, &u); w(1, x); }
  if (mode == 2) { int t1 = qs_param("lt", 0); u32 x = prom(a, t1, &u); switch (qs_param("op", 0)) { case 0: w(u || x != 0x80000000u, -x); break; case 1: w(1, ~x); break; case 2: w(1, !x); break; case 3: w(1, x); break; } }
  if (mode == 3) { i32 s = (i32)a, t = (i32)b, r = (i32)c; switch (tpl) {
    case 0: w(1, a ? b : c); break; case 1: w(1, s < t ? s : t); break; case 2: w(1, a + b - b); break; case 3: w(1, a + b + c); break; case 4: w(1, (a & b) | (~a & c)); break; case 5: w(1, (i8)(s > t) + (i8)a); break;
    case 6: w(1, a * 8u); break; case 7: w(1, a / 16u); break; case 8: w(1, a % 32u); break; case 9: w(1, s / 8); break; case 10: w(1, s % 8); break; case 11: w(1, (i16)(a + b)); break; case 12: w(1, (u8)(a << 3) >> 1); break;
    case 13: w(1, (a << 5) >> 3); break; case 14: w(FIT(-(int64_t)s) && FIT(-(int64_t)s + t), (u32)-s + b); break; case 15: w(1, !(a == b) && !(s < r)); break; case 16: w(1, (a ^ b) ^ b); break; case 17: w(1, (u32)(u16)a * (u32)(u8)b); break;
    case 18: w(1, ~(i8)a); break; case 19: w(1, (i16)a * (i16)b); break; case 20: w(1, (int64_t)(a > 5u) + (s > -5)); break; case 21: w(1, -a); break; case 22: w(1, ((u8)a << 24) >> 8 == (((u32)(u8)a << 24) >> 8) ? (i32)((u32)(u8)a << 24) >> 8 : 0); def = !((u8)a & 0x80); break; case 23: w(1, a >= 0u || b); break;
    case 24: w(1, a < 0u); break; case 25: w(1, (s & 7) == 3 ? 1 : 2); break; } }
  if (mode == 4) { int x = has(OUT, on, "CNSTI4 7\n"), y = has(OUT, on, "CNSTI4 9\n"); qs_check(st == 0, "a defined expression is accepted"); if (x == y) { qs_reach("not folded"); return; } qs_check(x == (int)(want != 0), "a condition known to the compiler selects as at run time"); qs_reach("value"); return; }
  if (!def) { qs_reach("undefined"); return; }
  qs_check(st == 0, "a constant expression whose value is defined is accepted");
  qs_check(cap_n >= 1, "a value is emitted"); if (cap_n < 1) return;
  u32 got = (u32)cap_v[0]; qs_check(cap_size[0] == wsize, "of the size of the variable");
  if (wsize == 1) qs_check((u8)got == (u8)want, "the value of a constant expression"); else if (wsize == 2) qs_check((u16)got == (u16)want, "the value of a constant expression"); else qs_check(got == want, "the value of a constant expression");
  qs_reach("value"); }
static const char* MIX[] = { "A ? B : C", "(int)A < (int)B ? (int)A : (int)B", "A + B - B", "A + B + C", "(A & B) | (~A & C)", "(char)((int)A > (int)B) + (char)A", "A * 8", "A / 16", "A % 32", "(int)A / 8", "(int)A % 8", "(short)(A + B)", "(unsigned char)(A << 3) >> 1",
  "(A << 5) >> 3", "-(int)A + (int)B", "!(A == B) && !((int)A < (int)C)", "(A ^ B) ^ B", "(unsigned)(unsigned short)A * (unsigned char)B", "~(char)A", "(short)A * (short)B", "(A > 5) + ((int)A > -5)", "-A", "((unsigned char)A << 24) >> 8", "A >= 0 || B", "A < 0", "((int)A & 7) == 3 ? 1 : 2" };
void qs_main(void) { mode = qs_param("mode", 0); tpl = qs_param("tpl", 0); post_fn = post; qs_fuel(4000000); cap_on();
  static const char* DST[] = { "int", "unsigned", "short", "char" }; int d = qs_param("dst", 0); wsize = d == 2 ? 2 : d == 3 ? 1 : 4;
  int en_ = qs_param("enum", 0); if (en_) { t_s("enum { K = (int)("); wsize = 4; } else { t_s(DST[d]); t_s(" k = "); }
  int lt = qs_param("lt", 0), rt = qs_param("rt", 0), op = qs_param("op", 0);
  if (mode == 0) { t_s("("); t_s(TY[lt]); text(")A "); t_s(OP[op]); t_s(" ("); t_s(TY[rt]); text(")B"); }
  if (mode == 1) { t_s("("); t_s(TY[lt]); t_s(")("); t_s(TY[rt]); text(")A"); }
  if (mode == 2) { t_c("-~!+"[op]); t_s("("); t_s(TY[lt]); text(")A"); }
  if (mode == 3) text(MIX[tpl]);
  if (mode == 4) { /* inside a function: folded only when it cannot overflow */ int sa = qs_param("sa", 0), sb = qs_param("sb", 0), arith = op < 10; in_n = 0; t_s("int f(void) { return ((");
    t_s(lt ? "" : sa ? "-(int)" : "(int)"); text("A "); t_s(OP[op]); t_s(rt ? " " : sb ? " -(int)" : " (int)"); text("B)"); if (arith) text(lt || rt ? " == C" : " == (int)C"); t_s(" ? 7 : 9); }\n");
    qs_assume(lt || a <= 0x7fffffff); qs_assume(rt || b <= 0x7fffffff); qs_assume(!arith || lt || rt || c <= 0x7fffffff);
    binary(op, sa && !lt ? -a : a, lt, sb && !rt ? -b : b, rt); qs_assume(def); if (arith) want = want == c; run_rcc(); return; }
  t_s(en_ ? ") }; int k = K;\n" : ";\n");
  run_rcc(); }
