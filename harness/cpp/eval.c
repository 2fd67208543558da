/* C01: which groups #if/#elif/#else select, against an evaluator of C's constant expressions of our own. */
#include "cpph.h"
/* ---- values: bits, unsignedness, and whether the value is undefined (all may be symbolic) ---- */
typedef struct { uint64_t v; int u, bad; } val;
enum { MUL, DIV, MOD, ADD, SUB, SHL, SHR, LT, GT, LE, GE, EQ, NE, AND, XOR, OR, LAND, LOR, NBIN };
static const char* BS[] = { "*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||" };
static const int PREC[] = { 10, 10, 10, 9, 9, 8, 8, 7, 7, 7, 7, 6, 6, 5, 4, 3, 2, 1 };
static uint64_t sx(int c) { return (uint64_t)0 - (uint64_t)(c != 0); }
static int neg(uint64_t a) { return (int)(a >> 63); }
static uint64_t mabs(uint64_t a) { uint64_t m = sx(neg(a)); return (a ^ m) - m; }
static uint64_t pick(int c, uint64_t a, uint64_t b) { uint64_t m = sx(c); return (a & m) | (b & ~m); }
static val bin(int o, val a, val b) {
  val r; int u = a.u | b.u; uint64_t x = a.v, y = b.v; r.bad = a.bad | b.bad; r.u = u; r.v = 0;
  switch (o) {
  case MUL: r.v = x * y; r.bad |= !u & ((mabs(x) >> 31 != 0) | (mabs(y) >> 31 != 0)); break;
  case DIV: case MOD: if (y == 0) { r.bad = 1; break; } if (u) { r.v = o == DIV ? x / y : x % y; break; } if (y == ~(uint64_t)0) { r.bad |= x == (uint64_t)1 << 63; r.v = o == DIV ? -x : 0; break; }
      r.v = o == DIV ? (uint64_t)((int64_t)x / (int64_t)y) : (uint64_t)((int64_t)x % (int64_t)y); break;
  case ADD: r.v = x + y; r.bad |= !u & neg(~(x ^ y) & (x ^ r.v)); break;
  case SUB: r.v = x - y; r.bad |= !u & neg((x ^ y) & (x ^ r.v)); break;
  case SHL: r.u = a.u; r.bad |= y > 63; y &= 63; r.v = x << y; r.bad |= !a.u & (neg(x) | neg(r.v) | ((r.v >> y) != x)); break;
  case SHR: r.u = a.u; r.bad |= y > 63; y &= 63; r.v = x >> y; r.bad |= !a.u & neg(x); break;
  case LT: r.u = 0; r.v = u ? x < y : (int64_t)x < (int64_t)y; break;
  case GT: r.u = 0; r.v = u ? x > y : (int64_t)x > (int64_t)y; break;
  case LE: r.u = 0; r.v = u ? x <= y : (int64_t)x <= (int64_t)y; break;
  case GE: r.u = 0; r.v = u ? x >= y : (int64_t)x >= (int64_t)y; break;
  case EQ: r.u = 0; r.v = x == y; break;
  case NE: r.u = 0; r.v = x != y; break;
  case AND: r.v = x & y; break;
  case XOR: r.v = x ^ y; break;
  case OR: r.v = x | y; break;
  case LAND: r.u = 0; r.bad = a.bad | ((x != 0) & b.bad); r.v = (x != 0) & (y != 0); break;
  case LOR: r.u = 0; r.bad = a.bad | ((x == 0) & b.bad); r.v = (x != 0) | (y != 0); break; }
  return r; }
static val un(int c, val a) { val r = a; if (c == '-') { r.v = -a.v; r.bad |= !a.u & (a.v == (uint64_t)1 << 63); } if (c == '~') r.v = ~a.v; if (c == '!') { r.v = a.v == 0; r.u = 0; } return r; }
static val cond(val c, val a, val b) { val r; r.v = pick(c.v != 0, a.v, b.v); r.u = a.u | b.u; r.bad = c.bad | (int)pick(c.v != 0, a.bad, b.bad); return r; }
/* ---- the expression as a sequence of items, built while the text is written ---- */
enum { VAL = 100, UN, LPAR, RPAR, QU, CO, END_ };
static struct { int k, o; val v; } it[64]; static int ni, ip;
static val e_cond(void);
static val e_un(void) {
  if (it[ip].k == UN) { int o = it[ip++].o; return un(o, e_un()); }
  if (it[ip].k == LPAR) { ip++; val v = e_cond(); if (it[ip].k != RPAR) qs_fail("harness: )"); ip++; return v; }
  if (it[ip].k != VAL) qs_fail("harness: operand"); return it[ip++].v; }
static val e_bin(int min) { val a = e_un(); while (it[ip].k < VAL && PREC[it[ip].k] >= min) { int o = it[ip++].k; a = bin(o, a, e_bin(PREC[o] + 1)); } return a; }
static val e_cond(void) { val c = e_bin(1); if (it[ip].k != QU) return c; ip++; val a = e_cond(); if (it[ip].k != CO) qs_fail("harness: :"); ip++; return cond(c, a, e_cond()); }
/* ---- operands ---- */
static int sp; static const char* NM[] = { "a", "b", "c", "d", "e", "k" };
static void blank(void) { if (sp & 1) t_c(' '); sp = sp >> 1 | (sp & 1) << 4; }
static uint64_t dig(int lo, int hi, const char* nm) { uint8_t c = qs_u8(nm); qs_assume(c >= lo && c <= hi); T[tn++] = c; return c; }
static uint64_t hexdig(const char* nm) { uint8_t c = qs_u8(nm); qs_assume((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')); T[tn++] = c; uint64_t l = (c | 32) - 'a' + 10, d = c - '0'; return pick(c <= '9', d, l); }
static void operand(int kind, const char* nm) { val r; r.u = r.bad = 0; r.v = 0; blank();
  switch (kind) {
  case 0: r.v = dig('0', '9', nm) - '0'; break;
  case 1: r.v = (dig('1', '9', nm) - '0') * 10; r.v += dig('0', '9', nm) - '0'; break;
  case 2: t_s("922337203685477580"); r.v = 9223372036854775800u + dig('0', '7', nm) - '0'; break;
  case 3: t_s("1844674407370955161"); r.v = 18446744073709551610u + dig('0', '5', nm) - '0'; t_s(tn & 1 ? "u" : "UL"); r.u = 1; break;
  case 4: r.v = dig('0', '9', nm) - '0'; t_c(tn & 1 ? 'u' : 'U'); r.u = 1; break;
  case 5: t_s("0x7ffffff"); r.v = 0x7ffffff0 + hexdig(nm); break;
  case 6: t_c('0'); r.v = (dig('0', '7', nm) - '0') * 8; r.v += dig('0', '7', nm) - '0'; break;
  case 7: t_s("429496729"); r.v = 4294967290u + dig('0', '9', nm) - '0'; t_s("L"); break;
  case 8: t_s("undefinedName"); break;
  case 9: t_s("M"); r.v = 7; break; }
  it[ni].k = VAL; it[ni++].v = r; }
static const int MIX[] = { 0, 4, 2, 1, 3, 5, 7, 6 };
static int nopd, mix, c3;
static void opd(void) { int k = nopd++; operand(k == c3 ? 9 : MIX[(mix >> (3 * k)) & 7], NM[k % 5]); }
static void item(int k, int o, const char* s) { blank(); /* keep tokens apart */
  if (tn && (T[tn - 1] == s[0] || (strchr("<>&|", T[tn - 1]) && strchr("<>&|=", s[0])) || (T[tn - 1] == '!' && s[0] == '=') || (T[tn - 1] == '/' && s[0] == '*')) && strchr("<>&|=!+-*/", s[0])) t_c(' ');
  it[ni].k = k; it[ni++].o = o; t_s(s); }
static const char UNS_[] = "-~!+";
static void expr(const char* f) { for (; *f; f++) switch (*f) {
  case 'v': opd(); break;
  case 'o': { int o = qs_select(NBIN, "operator"); item(o, 0, BS[o]); break; }
  case 'p': { static const int R[] = { SUB, LAND, GT, MUL, LOR, EQ, SHL, XOR, DIV, OR }; int o = R[qs_select(qs_param("ops", 10), "operator")]; item(o, 0, BS[o]); break; }
  case 'u': { int o = qs_select(4, "unary"); char s[2] = { UNS_[o], 0 }; item(UN, UNS_[o], s); break; }
  case 'm': item(UN, '-', "-"); break;
  case '(': item(LPAR, 0, "("); break;
  case ')': item(RPAR, 0, ")"); break;
  case '?': item(QU, 0, "?"); break;
  case ':': item(CO, 0, ":"); break;
  case '/': item(DIV, 0, "/"); break;
  case '&': item(LAND, 0, "&&"); break;
  case '|': item(LOR, 0, "||"); break;
  case '0': t_s(" 0"); it[ni].k = VAL; it[ni].v.v = it[ni].v.u = it[ni].v.bad = 0; ni++; break; } }
static const char* FORM[] = { "vov", "vovov", "(vov)ov", "vo(vov)", "v?vov:v", "vov?v:vov", "v?v:vov", "uvov", "vouv", "u(vov)", "vouvov", "v?v:v?v:v", "v?v?v:v:v", "(v?v:v)?v:v", "v?(v?v:v):v", "uuv", "uuuv", "v&v/0", "v|v/0", "v?v/0:v", "v?v:v/0", "vo(v?v:v)", "(v?v:v)ov", "((v))o(v)",
  /* 24: */ "vpvpvpv", "vp(vpv)pv", "(vpv)p(vpv)", "vpv?vpv:vpv", "vpvpvpvpv", "u(vpv)pu(vpv)", "v?v:vpv?vpv:v", "v?v?vpv:v:v?v:v",
  /* 32: */ "vpvpv", "(vpv)pv", "vp(vpv)", "uvpv", "vpuvpv" };
static val want; static int yes, no;
static void post(int st) { int y = 0, n = 0; out_text(); y = out_is("yes"); n = out_is("no"); qs_check(y || n, "exactly one group selected");
  qs_check(st == 0, "no error reported"); qs_check(y == (want.v != 0), "the group its condition selects"); qs_reach(y ? "yes" : "no"); }
static void finish(void) { t_s("\nyes\n#else\nno\n#endif\n"); run_cpp(); }
/* ---- numbers and character constants ---- */
static void spelling(int kind) { uint64_t v = 0; int i, n; val a; a.u = a.bad = 0;
  t_s("#if ");
  switch (kind) {
  case 0: n = 1 + qs_select(qs_param("digits", 4), "digits"); v = dig('1', '9', "n") - '0'; for (i = 1; i < n; i++) v = v * 10 + dig('0', '9', "n") - '0'; break;
  case 1: n = 1 + qs_select(qs_param("digits", 4), "digits"); t_c('0'); for (i = 0; i < n; i++) v = v * 8 + dig('0', '7', "n") - '0'; break;
  case 2: n = 1 + qs_select(qs_param("digits", 4) - 1, "digits"); t_s(qs_select(2, "x") ? "0x" : "0X"); for (i = 0; i < n; i++) v = v * 16 + hexdig("n"); break;
  case 3: { uint8_t c = qs_u8("ch"); qs_assume(c >= 32 && c < 127 && c != '\\' && c != '\'' && c != '?'); t_c('\''); T[tn++] = c; t_c('\''); v = c; break; }
  case 4: { static const char E[] = "abfnrtv'\"?\\", W[] = "\a\b\f\n\r\t\v'\"?\\"; i = qs_select(11, "escape"); t_s("'\\"); t_c(E[i]); t_c('\''); v = W[i]; break; }
  case 5: n = 1 + qs_select(3, "digits"); t_s("'\\"); for (i = 0; i < n; i++) v = v * 8 + dig('0', n == 3 && !i ? '1' : '7', "n") - '0'; t_c('\''); break;
  case 6: n = 1 + qs_select(2, "digits"); t_s("'\\x"); for (i = 0; i < n; i++) v = v * 16 + hexdig("n"); qs_assume(v < 128); t_c('\''); break;
  case 7: { static const char* S[] = { "u", "U", "l", "L", "ul", "LU", "Lu", "lu" }; v = dig('1', '9', "n") - '0'; t_s(S[qs_select(8, "suffix")]); break; } }
  static const char* R[] = { " == ", "<", " >", "- 1 <" }; i = qs_select(3, "relation"); t_s(R[i]); uint64_t k = qs_u16("k") % 0x3000, d = 0, e[5]; int nd = 5;
  k = 0; for (n = 0; n < nd; n++) { uint8_t c = qs_u8("k"); qs_assume(c >= (n ? '0' : '1') && c <= '9'); T[tn++] = c; k = k * 10 + c - '0'; } (void)d; (void)e;
  t_s(" + 0 - 10000 "); k -= 10000; want.v = i == 0 ? v == k : i == 1 ? v < k : v > k; want.bad = 0; finish(); }
/* ---- groups ---- */
static char sel[64]; static int nsel, ntag, depth; static struct { int outer, taken, els, cur; } G[12]; static int def[4];
static int on_(void) { return !depth || G[depth].cur; }
static void post_groups(int st) { out_text(); qs_check(st == 0, "no error reported"); sel[nsel] = 0; qs_check(out_is(sel), "exactly the selected lines are output"); qs_reach(nsel ? "text" : "no text"); }
static void tag(void) { char s[3] = { 't', (char)('a' + ntag++), 0 }; t_s(s); t_c('\n'); if (on_()) { if (nsel) sel[nsel++] = ' '; sel[nsel++] = s[0]; sel[nsel++] = s[1]; } }
static int decide(uint64_t c) { volatile int r = 0; if (c) r = 1; return r; }
static const char* MN[] = { "P", "if", "endif", "line" };
static int cexpr(void) { int k = qs_select(qs_param("conds", 4), "condition"), n;
  switch (k) {
  case 0: { uint64_t d = dig('0', '2', "cond") - '0'; return d != 0; }
  case 1: n = qs_select(qs_param("names", 2), "name"); t_s("defined "); t_s(MN[n]); return def[n];
  case 2: n = qs_select(qs_param("names", 2), "name"); t_s("!defined("); t_s(MN[n]); t_s(")"); return !def[n];
  case 3: { uint64_t d = dig('0', '9', "cond") - '0'; t_s(" % 3 == 1"); return d % 3 == 1; } }
  return 0; }
static void groups(void) { int n = qs_param("n", 5);
  if (qs_param("pre", 0)) { t_s("#define P x\n"); def[0] = 1; }
  for (int i = 0; i < n; i++) { int k = qs_select(qs_param("kinds", 8), "line"), m; t_s(i & 1 ? " # " : "#");
    switch (k) {
    case 0: if (depth >= 8) qs_cut(); t_s("if "); m = cexpr(); { int o = on_(); depth++; G[depth].outer = o; G[depth].els = 0; G[depth].cur = o && m; G[depth].taken = m; } break;
    case 1: if (!depth || G[depth].els) qs_cut(); t_s("elif "); m = cexpr(); G[depth].cur = G[depth].outer && !G[depth].taken && m; if (m) G[depth].taken = 1; break;
    case 2: if (!depth || G[depth].els) qs_cut(); t_s("else"); G[depth].els = 1; G[depth].cur = G[depth].outer && !G[depth].taken; break;
    case 3: if (!depth) qs_cut(); t_s("endif"); depth--; break;
    case 4: if (depth >= 8) qs_cut(); m = qs_select(2, "ifdef"); { int nn = qs_select(qs_param("names", 2), "name"), o = on_(), c; t_s(m ? "ifdef " : "ifndef "); t_s(MN[nn]); c = m ? def[nn] : !def[nn]; depth++; G[depth].outer = o; G[depth].els = 0; G[depth].cur = o && c; G[depth].taken = c; } break;
    case 5: m = qs_select(qs_param("names", 2), "name"); t_s("define "); t_s(MN[m]); t_s(" x"); if (on_()) def[m] = 1; break;
    case 6: m = qs_select(qs_param("names", 2), "name"); t_s("undef "); t_s(MN[m]); if (on_()) def[m] = 0; break;
    case 7: if (on_()) t_s(" "); else { static const char* J[] = { "P", "error x", "1 + 2", "5 \"x.c\"", "!", "(P", "elsewhere \"a\"", "include \"none.h\"", "define", "if3 (", "line" }; t_s(J[qs_select(11, "junk")]); } break; }
    t_c('\n'); tag(); }
  while (depth) { t_s("#endif /* */ \n"); depth--; tag(); }
  post_fn = post_groups; run_cpp(); }
/* deep nesting with one condition per level */
static void deep(void) { int n = qs_param("n", 8), sk = 0, shape = qs_param("shape", 0); for (int i = 0; i < n; i++) { t_s("#if "); uint64_t d = dig('0', '1', "cond") - '0'; t_c('\n'); int o = on_(); depth++; G[depth].outer = o; G[depth].els = 0; G[depth].cur = o && decide(d); G[depth].taken = d != 0; tag(); if (shape) { t_s("#else\n"); G[depth].cur = o && !decide(d); tag(); } } (void)sk;
  while (depth) { if (!shape) { t_s("#else\n"); G[depth].cur = G[depth].outer && !G[depth].taken; tag(); } t_s("#endif\n"); depth--; tag(); } post_fn = post_groups; run_cpp(); }
void qs_main(void) {
  int mode = qs_param("mode", 0); post_fn = post; mix = qs_param("mix", 0); c3 = qs_param("c3", -1); sp = qs_param("blanks", 9); qs_fuel(6000000);
  if (mode == 0) { int rel = qs_param("rel", 4); t_s("#define M 7\n#if "); int r = qs_select(rel, "relation"); const char* f = FORM[qs_param("form", 0)];
    if (r) { t_c('('); expr(f); t_c(')'); } else expr(f);
    it[ni].k = END_; ip = 0; want = e_cond(); if (it[ip].k != END_) qs_fail("harness: end");
    if (r) { static const int RO[] = { 0, EQ, LT, GT, GE }; ni = 0; t_s(BS[RO[r]]); operand(qs_param("kk", 1), "k"); want = bin(RO[r], want, it[0].v); }
    qs_assume(!want.bad); finish(); }
  if (mode == 1) spelling(qs_param("kind", 0));
  if (mode == 2) groups();
  if (mode == 3) deep();
}
