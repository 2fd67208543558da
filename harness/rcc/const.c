/* L02: what a constant in a program denotes */
#include "rcch.h"
/* ` and a letter: any one character of the class */
static const char* CLASS(int c) { switch (c) { case 'D': return "0123456789"; case 'O': return "01234567"; case 'H': return "0123456789abcdefABCDEF"; case 'S': return "uUlL;"; case 'N': return "0123456789abfxXuUlL.eE+-;"; case 'F': return "0123456789.eEfFlL+-;"; case 'C': return "ab0178xn\\'\" ?;\n"; case 'Q': return "'\"\\abfnrtvx?cgyzXe018\n"; case 'G': return "0123456789abcdefABCDEFgG'\"\\"; case 'X': return "xX"; } return ""; }
static const char* INTS[] = { "`D", "`D`D", "`D`D`D", "`D`S", "`D`S`S", "`D`S`S`S", "`N`N", "`N`N`N", "214748364`D", "21474836`D`D`S", "429496729`D", "42949672`D`D`S", "42949`D7296", "`D294967296", "2147483`D`D`D", "9223372036854775`D`D`D", "1844674407370955`D`D`D`D", "18446744073709551`D`D`D", "0`O`O`O", "0`D`D", "037777777`O`O`O", "017777777`O`O`S", "0`O7777777777", "020000000000`O`S", "02000000000000000000`O`O`O", "0`X`H", "0`X`H`H`H", "0x`H", "0`X`S", "0xffff`H`H`H`H", "0x7fffff`H`H`S", "0x8000000`H`S", "0x`Hffffff`H", "0x1`H0000000`S", "0xffffffff`Hfffff`H`H", "00000000`O`O", "0x0000000000`H`H`S", "0000000000000000000000000`O`O", "0x000000000000000000000`H`H" };
static const char* FLTS[] = { "`D.`D`D", "`D.`De`D", "`De`D`F", ".`D`D`F", "`D.`F`F", "`D`F`F", "`F`F`F", "1`D.5`F", "`De-`D`F", "`De+`D`F", "0.1`D`D`F", "16777`D17`F", "3.4`DE3`D`F", "00`D.`F", "09`F`D", "1e-4`D`F" };
static const char* CHRS[] = { "`C", "\\`Q", "`C`C", "\\`O`C", "\\`O`O`O", "\\`O`O`O`C", "\\x`G", "\\x`G`G", "\\x`G`G`G", "\\x0`G`G`G", "", "\\`Q`C", "a\\`Q" };
static const char* STRS[] = { "`C", "`C`C", "`C`C`C", "\\`Q", "\\`Q`C", "\\`O`C`C", "\\`O`O`O`C", "\\x`G`G", "\\x`G`G`G", "a\" \"`C`C", "\\x`G\" \"`G`C", "\\`O\" \"`O`C", "ab`Ccd\\`Qef", "\\0`C\\0`C", "`C\"\n\t \"`C", "ab\\\\`C`C" };
static uint8_t sp[96]; static int spn;  /* the spelling */
static void hole(const char* t) { char nm[8] = "ch0"; int k = 0; for (; *t; t++) if (*t == '`') { const char* c = CLASS(*++t); int n = strlen(c); nm[2] = '0' + k++; uint8_t b = qs_u8(nm); int ok = 0; for (int i = 0; i < n; i++) ok |= b == (uint8_t)c[i]; qs_assume(ok); sp[spn++] = b; } else sp[spn++] = *t; }
static void put(void) { for (int i = 0; i < spn; i++) IN[in_n++] = sp[i]; }
static int dig(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
static int mode, status_;
/* ---- integers ---- */
static int i_ok, i_big, i_uns; static uint64_t i_v;   /* a C integer constant; too large for 32 bits; unsigned; value */
static int cut_n;  /* the constant ends at the first ; */
static void int_oracle(void) { int base = 10, i = 0, n = 0; i_v = 0; i_big = 0; i_ok = 0; i_uns = 0;
  if (sp[0] == '0') { base = 8; if (cut_n > 1 && (sp[1] == 'x' || sp[1] == 'X')) { base = 16; i = 2; } }
  for (; i < cut_n && dig(sp[i]) < base; i++, n++) { i_v = i_v * base + dig(sp[i]); if (i_v >> 32) { i_big = 1; i_v &= 0xffffffff; } }
  if (!n) return; int us = 0, ls = 0; for (; i < cut_n; i++) { if ((sp[i] == 'u' || sp[i] == 'U') && !us) us = 1; else if ((sp[i] == 'l' || sp[i] == 'L') && !ls) ls = 1; else return; }
  i_ok = 1; i_uns = us || i_v > 0x7fffffff; }
static int f_ok; static double f_v;
static void flt_oracle(void) { int i = 0, dg = 0, fl = 0; f_ok = 0; while (i < cut_n && sp[i] >= '0' && sp[i] <= '9') i++, dg++; if (i < cut_n && sp[i] == '.') { i++; fl = 1; while (i < cut_n && sp[i] >= '0' && sp[i] <= '9') i++, dg++; } if (!dg) return;
  if (i < cut_n && (sp[i] == 'e' || sp[i] == 'E')) { i++; fl = 1; int ed = 0; if (i < cut_n && (sp[i] == '+' || sp[i] == '-')) i++; while (i < cut_n && sp[i] >= '0' && sp[i] <= '9') i++, ed++; if (!ed) return; } if (!fl) return;
  static char b[96]; for (int j = 0; j < i; j++) b[j] = sp[j]; b[i] = 0; if (i < cut_n && (sp[i] == 'f' || sp[i] == 'F' || sp[i] == 'l' || sp[i] == 'L')) i++; if (i != cut_n) return;
  f_ok = 1; f_v = vr_strtod(b, NULL); }
/* ---- characters and strings ---- */
static int c_n, c_bad, c_wide, c_odd; static int c_v[96];   /* characters; ill-formed; a value beyond 255; an escape C does not define */
static void chr_oracle(int q) { int i = 0; c_n = 0; c_bad = c_wide = c_odd = 0;
  for (;;) { if (i >= spn || sp[i] == '\n') { c_bad = 1; return; }
    if (sp[i] == q) { /* closes; behind it white space and perhaps another string */ i++; if (q == '\'') { if (i != spn) c_bad = 2; return; } while (i < spn && (sp[i] == ' ' || sp[i] == '\n' || sp[i] == '\t')) i++; if (i == spn) return; if (sp[i] != '"') { c_bad = 2; return; } i++; continue; }
    if (sp[i] != '\\') { c_v[c_n++] = sp[i++]; continue; }
    i++; if (i >= spn) { c_bad = 1; return; } int c = sp[i++]; switch (c) { case 'a': c = 7; break; case 'b': c = 8; break; case 'f': c = 12; break; case 'n': c = 10; break; case 'r': c = 13; break; case 't': c = 9; break; case 'v': c = 11; break; case '\'': case '"': case '\\': case '?': break;
    case '\n': c_bad = 3; return;   /* the preprocessor has joined the lines */
    case 'x': { int k = 0, v = 0; while (i < spn && dig(sp[i]) < 16) { v = v * 16 + dig(sp[i++]); k++; if (v > 0xffff) v = 0xffff; } if (!k) { c_bad = 2; return; } if (v > 255) c_wide = 1; c = v; break; }
    default: if (c >= '0' && c <= '7') { int v = c - '0', k = 1; while (k < 3 && i < spn && dig(sp[i]) < 8) { v = v * 8 + dig(sp[i++]); k++; } if (v > 255) c_wide = 1; c = v; } else c_odd = 1; }
    c_v[c_n++] = c; } }
static void post(int st) { item_t it[40]; qs_check(st == 0 || st == 1, "exit status 0 or 1");
  if (mode == 0) { int_oracle(); flt_oracle();
    if (f_ok) return;  /* the spelling of a floating constant: not here */
    if (!i_ok) { qs_check(st == 1 && en > 0, "a spelling that is not an integer constant is an error"); qs_reach("invalid"); return; }
    if (i_big) { qs_check(en > 0, "a constant that does not fit 32 bits is diagnosed"); qs_reach("too large"); return; }
    qs_check(st == 0, "a constant that fits is accepted"); qs_check(en == 0, "a constant that fits is not diagnosed");
    int n = items("k", it, 4); qs_check(n >= 1 && it[0].kind == 'b' && it[0].size == 4, "an int is emitted"); if (n < 1) return; qs_check((uint32_t)it[0].v == (uint32_t)i_v, "the value of an integer constant");
    n = items("t", it, 4); if (n < 1) { qs_fail("an int is emitted"); return; } qs_check((uint32_t)it[0].v == (i_uns ? 0x7fffffffu : 0), "the type of an integer constant is signed or unsigned as in C");
    qs_reach("value"); }
  if (mode == 1) { int_oracle(); flt_oracle(); if (i_ok) return;
    if (!f_ok) { qs_check(st == 1 && en > 0, "a spelling that is not a constant is an error"); qs_reach("invalid"); return; }
    qs_check(st == 0, "a floating constant is accepted"); if (en) return; /* out of range: diagnosed */
    float f = (float)f_v; uint32_t b; memcpy(&b, &f, 4); int n = items("k", it, 4); if (n < 1) { qs_fail("a float is emitted"); return; } qs_check(it[0].size == 4 && (uint32_t)it[0].v == b, "the value of a floating constant"); qs_reach("value"); }
  if (mode == 2) { chr_oracle('\''); if (c_bad == 3) return;
    if (!c_bad && c_n == 0) return;
    if (c_bad) { qs_check(st == 1 && en > 0, "an ill-formed character constant is an error"); qs_reach("invalid"); return; }
    if (c_n > 1 || c_odd) { if (c_odd) qs_check(en > 0, "an unknown escape is diagnosed"); return; }
    if (c_wide) { qs_check(en > 0, "a character that does not fit is diagnosed"); qs_reach("too large"); return; }
    qs_check(st == 0 && en == 0, "a character constant is accepted"); int n = items("k", it, 4); if (n < 1) { qs_fail("an int is emitted"); return; } qs_check(it[0].v == (int8_t)c_v[0], "the value of a character constant"); n = items("t", it, 4); if (n < 1) { qs_fail("an int is emitted"); return; } qs_check(it[0].v == 4, "a character constant is an int"); qs_reach("value"); }
  if (mode == 3) { chr_oracle('"'); if (c_bad == 3) return;
    if (c_bad) { qs_check(st == 1 && en > 0, "an ill-formed string is an error"); qs_reach("invalid"); return; }
    if (c_odd) { qs_check(en > 0, "an unknown escape is diagnosed"); return; } if (c_wide) { qs_check(en > 0, "a character that does not fit is diagnosed"); return; }
    qs_check(st == 0 && en == 0, "a string is accepted"); int n = items("k", it, 40), m = 0, bad = 0; static uint8_t got[64]; for (int i = 0; i < n; i++) { if (it[i].kind == 's') { for (int j = 0; j < it[i].size && m < 60; j++) got[m++] = 0; } else { if (it[i].size != 1) bad = 1; got[m++] = (uint8_t)it[i].v; } }
    qs_check(!bad && m == c_n + 1, "the length of a string"); if (m == c_n + 1) { for (int i = 0; i < c_n; i++) qs_check(got[i] == (uint8_t)c_v[i], "the characters of a string"); qs_check(got[c_n] == 0, "a string ends with a null character"); } qs_reach("value"); } }
void qs_main(void) { mode = qs_param("mode", 0); int t = qs_param("tpl", 0); post_fn = post; qs_fuel(qs_param("fuel", 8000000));
  hole(mode == 0 ? INTS[t] : mode == 1 ? FLTS[t] : mode == 2 ? CHRS[t] : STRS[t]);
  for (cut_n = 0; cut_n < spn && sp[cut_n] != ';'; cut_n++) {}
  if (mode < 2) { for (int i = cut_n + 1; i < spn; i++) qs_assume(sp[i] == ';'); for (int i = 0; i < cut_n; i++) if (sp[i] == '+' || sp[i] == '-') qs_assume(i > 0 && (sp[i - 1] == 'e' || sp[i - 1] == 'E') && !(sp[0] == '0' && (sp[1] == 'x' || sp[1] == 'X'))); qs_assume(cut_n > 0 && (sp[0] == '.' ? cut_n > 1 && dig(sp[1]) < 10 : dig(sp[0]) < 10)); spn = cut_n;
    t_s(mode ? "float k = " : "unsigned k = "); put(); t_s(";\n"); if (!mode) { t_s("int t = (0 * "); put(); t_s(" - 1) / 2;\n"); } }
  else if (mode == 2) { t_s("int k = '"); put(); t_s("';\n"); sp[spn++] = '\''; t_s("int t = sizeof '"); spn--; put(); t_s("';\n"); spn++; }
  else { t_s("char k[] = \""); put(); t_s("\";\n"); sp[spn++] = '"'; }
  run_rcc(); }
