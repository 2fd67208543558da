/* A06: frame sizes, locals, parameters and arguments of procedures. */
#include "asm.h"
static int mode; static int o_enter, o_l0, o_l1, o_f0, o_f1, o_ret, o_end; static uint32_t L, A, x, y, L2, A2; static int pos; static int o_enter2, o_l2, o_f2, o_end2;
static uint32_t num(int pre, int n, const char* nm) { uint32_t p10 = 1; for (int i = 0; i < n; i++) p10 *= 10; if (pre) t_n(pre); return pre * p10 + (uint32_t)t_digits(n, nm); }
static int ins(int op, int n) { int p = pos; pos += 1 + n; (void)op; return p; }
static void post(int st) {
  if (mode == 0) {
    uint32_t sz = 8 + ((L + 3) & ~3u) + ((A + 3) & ~3u), sz2 = 8 + ((L2 + 3) & ~3u) + ((A2 + 3) & ~3u); int ok = sz < 32767 && sz2 < 32767;
    if (!ok) { qs_reach("too large"); qs_check(st != 0 && !produced(), "a frame of 32k or more is diagnosed"); return; }
    qs_check(st == 0 && produced(), "procedure assembles"); if (!produced()) return; qs_reach("frame");
    const uint8_t* c = outf->d + gint(outf->d + 8); uint32_t E = (uint32_t)g32(c + o_enter + 1), E2 = (uint32_t)g32(c + o_enter2 + 1);
    qs_check(c[o_enter] == ENTER && c[o_ret] == LEAVE && c[o_end] == LEAVE && c[o_l0] == LOCAL && c[o_l1] == LOCAL && c[o_f0] == LOCAL && c[o_f1] == LOCAL && c[o_enter2] == ENTER && c[o_end2] == LEAVE && c[o_l2] == LOCAL && c[o_f2] == LOCAL, "opcodes");
    qs_check(E % 4 == 0 && E2 % 4 == 0, "frame size is a multiple of four"); qs_check(E >= 8 + L + A && E < 32768 && E2 >= 8 + L2 + A2, "frame holds locals and arguments");
    qs_check((uint32_t)g32(c + o_ret + 1) == E && (uint32_t)g32(c + o_end + 1) == E && (uint32_t)g32(c + o_end2 + 1) == E2, "every LEAVE undoes its ENTER");
    uint32_t l0 = (uint32_t)g32(c + o_l0 + 1), l1 = (uint32_t)g32(c + o_l1 + 1), f0 = (uint32_t)g32(c + o_f0 + 1), f1 = (uint32_t)g32(c + o_f1 + 1);
    qs_check(l0 >= 8 + A && l0 + L <= E, "locals lie between the argument area and the end of the frame"); qs_check(l1 - l0 == x, "offsets of locals add up");
    qs_check(f0 == E + 8 && f1 - f0 == y, "parameters lie in the caller's argument area"); qs_check((uint32_t)g32(c + o_f2 + 1) == E2 + 8 + y && (uint32_t)g32(c + o_l2 + 1) >= 8 + A2, "frame state does not leak into the next procedure"); }
  else { int n = mode - 1000; const uint8_t* c;
    if (n > 62) { qs_reach("too many"); qs_check(st != 0 && !produced(), "more than 62 arguments are diagnosed"); return; }
    qs_check(st == 0 && produced(), "call assembles"); if (!produced()) return; qs_reach("args"); c = outf->d + gint(outf->d + 8) + 5;
    for (int r = 0; r < 2; r++) { for (int k = 0; k < n; k++) { qs_check(c[0] == CONST && c[5] == ARG && c[6] == 8 + 4 * k, "argument k goes to slot k"); c += 7; } qs_check(c[0] == CONST && c[5] == CALL && c[6] == POP, "call"); c += 7; } } }
void qs_main(void) {
  int dl = qs_param("dl", 5), da = qs_param("da", 5), n = qs_param("n", 0); post_fn = post;
  if (!n) { mode = 0;
    t_s("code\nproc f "); L = num(qs_param("lp", 0), dl, "locals"); t_c(' '); A = num(qs_param("ap", 0), da, "args"); t_s("\nADDRLP4 0\nADDRLP4 "); x = (uint32_t)t_digits(4, "local"); t_s("\nADDRFP4 0\nADDRFP4 "); int yp = tn; y = (uint32_t)t_digits(3, "param"); t_s("\nRETI4\nLABELV $1\nendproc f 0 0\n");
    o_enter = ins(ENTER, 4); o_l0 = ins(LOCAL, 4); o_l1 = ins(LOCAL, 4); o_f0 = ins(LOCAL, 4); o_f1 = ins(LOCAL, 4); o_ret = ins(LEAVE, 4); ins(PUSH, 0); o_end = ins(LEAVE, 4);
    t_s("proc g "); L2 = (uint32_t)t_digits(3, "locals2"); t_c(' '); A2 = (uint32_t)t_digits(2, "args2"); t_s("\nADDRLP4 0\nADDRFP4 "); for (int k = 0; k < 3; k++) t_c(T[yp + k]);
    t_s("\nendproc g 0 0\n"); o_enter2 = ins(ENTER, 4); o_l2 = ins(LOCAL, 4); o_f2 = ins(LOCAL, 4); ins(PUSH, 0); o_end2 = ins(LEAVE, 4); }
  else { mode = 1000 + n; t_s("code\nproc f 0 300\n");
    for (int r = 0; r < 2; r++) { for (int k = 0; k < n; k++) { t_s("CNSTI4 "); t_n(k); t_s(k & 1 ? "\nARGI4\n" : "\nARGP4\n"); } t_s("ADDRGP4 f\nCALLI4\npop\n"); }
    t_s("endproc f 0 300\n"); }
  in_file(); run_asm(0); }
