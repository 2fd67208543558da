/* A02: numbers and a+b-c expressions, in every place that takes an operand. */
#include "asm.h"
static const char* S[] = { "f", "cl", "d1", "d2", "l1", "l2", "b1" };
static uint32_t SV[] = { 0, 1, 4, 8, 0, 0, 0 };
static void post(int st) { check_image(st); }
static uint32_t term(int n, const char* nm) { return (uint32_t)t_digits(n, nm); }
static int forced;
static const int LEN[] = { 10, 2, 18, 11, 1, 9, 15 };
/* numbers only: forms 0,1; expressions: the rest */
static uint32_t operand(int form) {
  int n = forced ? forced : LEN[qs_select((int)qs_param("lens", 7), "length")]; uint32_t v = 0; int s;
  if (form >= 8) { s = qs_select(7, "symbol"); t_s(S[s]); v = SV[s]; n = n > 11 ? 11 : n; }
  switch (form) {
  case 0: return term(n, "a");
  case 1: t_c('-'); return -term(n, "a");
  case 2: v = term(n, "a"); t_c('+'); return v + term(3, "b");
  case 3: v = term(n, "a"); t_c('-'); return v - term(3, "b");
  case 4: v = term(2, "a"); t_c('+'); v += term(n, "b"); t_c('-'); return v - term(1, "c");
  case 5: v = term(1, "a"); t_c('-'); v -= term(2, "b"); t_c('+'); return v + term(n, "c");
  case 6: t_c('-'); v = -term(3, "a"); t_c('+'); return v + term(n, "b");
  case 7: t_c('-'); v = -term(n, "a"); t_c('-'); return v - term(2, "b");
  case 8: return v;
  case 9: t_c('+'); return v + term(n, "a");
  case 10: t_c('-'); return v - term(n, "a");
  case 11: t_c('+'); v += term(n, "a"); t_c('-'); return v - term(2, "b");
  case 12: t_c('-'); v -= term(2, "a"); t_c('+'); v += term(n, "b"); t_c('+'); return v + term(1, "c"); }
  return 0; }
void qs_main(void) {
  int ctx = qs_param("ctx", 0), form = qs_select((ctx == 2 || ctx == 3 || ctx == 4) ? 2 : 13, "form"); uint32_t v;
  post_fn = post; xd = 4;
  if (ctx == 4) { t_s("code\nequ ee "); v = operand(form); t_s("\nproc f 0 0\n\tADDRGP4 ee\nendproc f 0 0\n"); i4(ENTER, 8); i4(CONST, v); i0(PUSH); i4(LEAVE, 8); in_file(); run_asm(0); return; }
  static const int nl = 3; SV[4] = 16; SV[5] = 18; SV[6] = 16 + al4(nl);
  t_s("code\nproc f 0 0\n"); i4(ENTER, 8); t_s("LABELV cl\n");
  if (ctx == 0) { t_s("CNSTI4"); t_ws("blank"); i4(CONST, operand(form)); t_ws("blank"); t_s("; note\n"); }
  if (ctx == 1) { t_s("ADDRGP4 "); i4(CONST, operand(form)); t_c('\n'); }
  if (ctx == 6) { t_s("EQI4 "); i4(EQ, operand(form)); t_c('\n'); }
  if (ctx == 7) { t_s("proc g 0 0\n ADDRLP4 "); i4(ENTER, 8); i4(LOCAL, 8 + operand(form)); t_s("\nADDRFP4 "); forced = 5; if (form >= 8) form = 9; i4(LOCAL, 16 + operand(form)); t_c('\n'); }
  t_s("endproc f 0 0\n"); i0(PUSH); i4(LEAVE, 8);
  t_s("data\nalign 4\nLABELV d1\nbyte 4 ");
  if (ctx == 2) v = operand(form); else { v = 7; t_c('7'); }
  w32(XD + xd, v); xd += 4; t_s("\nalign 4\nLABELV d2\naddress ");
  if (ctx == 5) v = operand(form); else { v = 4; t_s("d1"); }
  w32(XD + xd, v); xd += 4; t_s("\nbyte 4 0\n"); w32(XD + xd, 0); xd += 4;
  t_s("lit\nLABELV l1\nbyte 1 1\nbyte 1 ");
  if (ctx == 3) v = operand(form); else { v = 2; t_c('2'); }
  XL[0] = 1; XL[1] = v; XL[2] = 0; xl = nl; t_s("\nLABELV l2\nbyte 1 0\nbss\nalign 4\nLABELV b1\nskip 4\n"); xb = 4;
  in_file(); run_asm(0); }
