/* A05: arbitrary text in the input: no access outside the assembler's objects, and it ends. */
#include "asm.h"
static void post(int st) { qs_reach(st ? "rejected" : "accepted"); qs_check(st ? !produced() || outf->n > 0 : produced(), "ends with an image or a failure status"); }
static const char* DIR[] = { "CNSTI4", "CVII4", "ASGNB", "ARGI4", "CALLV", "ADDRFP4", "ADDRLP4", "proc", "endproc", "address", "equ", "align", "skip", "byte", "LABELV", "RETI4", "line", "code", "bss", "data", "lit", "INDIRB", "CVFF4", "byte 1", "byte 4", "byte 3" };
#define NDIR ((int)(sizeof DIR / sizeof DIR[0]))
static const char* PRE[] = { "", "code\nproc f 4 4\n", "data\nLABELV a\n", "lit\nLABELV a\n", "bss\nLABELV a\n", "data\nLABELV a\nbyte 4 1\nbyte 1 2\n" };
static const char* POST[] = { "", "\nbyte 1 5\n", "\nbyte 4 5\naddress 3", "\nCNSTI4 5\n", "\nskip 2\nbyte 1 7\nalign 4\nLABELV q\nbyte 4 9\n" };
static void any(int n, const char* nm) { for (int i = 0; i < n; i++) T[tn++] = qs_u8(nm); }
void qs_main(void) {
  int mode = qs_param("mode", 0), n = qs_param("n", 2); post_fn = post; qs_fuel(qs_param("fuel", 3000000));
  if (mode == 0) { /* a directive with n arbitrary bytes behind it */
    t_s(PRE[qs_param("pre", 0)]); t_s(DIR[qs_param("dir", 0)]); if (qs_param("blank", 1)) t_c(' '); any(n, "text"); t_s(POST[qs_param("post", 0)]); }
  if (mode == 1) { any(n, "text"); int parts = qs_param("parts", 1); qs_assume(T[0] % parts == qs_param("part", 0)); }                     /* n arbitrary bytes */
  if (mode == 2) { /* one very long line (or token) around the line buffer's size */
    int len = 1020 + qs_select(9, "length"), kind = qs_select(6, "kind"); const char* h = kind == 0 ? "" : kind == 1 ? "CNSTI4 " : kind == 2 ? "proc " : kind == 3 ? "LABELV $" : kind == 4 ? "equ " : "address a-"; t_s(PRE[qs_param("pre", 0)]); t_s(h);
    uint8_t c = qs_u8("fill"); for (int i = strlen(h); i < len; i++) T[tn++] = i == len - 2 ? c : kind == 5 ? '1' : 'a'; t_s("\nCNSTI4 1\n"); if (qs_select(2, "again")) { for (int i = 0; i < len; i++) t_c('x'); } }
  if (mode == 3) { /* segment ends: signed operands around 0, the segment size and the 32-bit limits */
    static const char* PFX[] = { "", "-", "163", "1638", "-163", "21474836", "-21474836", "214748364", "42949672", "429496729", "-42949672", "819" };
    static const char* DD[] = { "skip ", "align ", "byte 4 ", "address " };
    t_s(PRE[qs_param("pre", 2)]); if (qs_param("twice", 0)) { t_s("skip 16380\n"); } t_s(DD[qs_param("dir", 0)]); t_s(PFX[qs_param("pfx", 0)]); (void)t_digits(n, "amount"); t_s(POST[qs_param("post", 1)]); }
  if (mode == 4) { /* arbitrary bytes in a list file */
    static const char* LP[] = { "", "-o ", "a.asm ", "-", "\"", "//", "/*", "-o out a.asm ", "\na\n\"" };
    t_s(LP[qs_param("pre", 0)]); any(n, "text"); if (qs_select(2, "tail")) t_s(" a "); vf_input("l.q3asm", T, tn); t_reset(); t_s("code\nCNSTI4 1\n"); list_file = "l"; }
  in_file(); run_asm(qs_param("buckets", 0)); }
