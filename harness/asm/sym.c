/* A03: references reach their definition; duplicates and undefined names fail without output. */
#include "asm.h"
#define ND 4
#define NR 3
static struct { char n[4]; int file, kind; } D[ND]; static uint32_t DV[ND]; static struct { char n[4]; int file; } R[NR]; static int at[NR], atdata[NR];
static int nd, nr;
/* names: one letter, "pad" common characters, one letter */
static void put_name(const char* n) { t_c(n[0]); for (int i = 0; i < qs_param("pad", 0); i++) t_c("long_name_"[i % 10]); if (qs_param("len", 2) > 1) t_c(n[1]); }
static void t_s2(const char* n) { put_name(n); }
static void name(char* n, int len, const char* nm) {
  uint8_t c[2]; c[0] = 0; c[1] = 0;
  static const char F[] = "a$b_Z";
  int al = (int)qs_param("alpha", 3); c[0] = F[qs_select(al, "initial")];
  static int nn; int fr = (qs_param("free", 15) >> nn++) & 1;
  if (fr) c[1] = qs_u8(nm);
  if (fr) qs_assume((c[1] >= 'a' && c[1] <= 'z') || (c[1] >= '0' && c[1] <= '9') || c[1] == '_'); else c[1] = qs_select(2, "second") ? 'x' : 'y';
  n[0] = c[0]; n[1] = len > 1 ? c[1] : 0; n[2] = 0; }
static int same_sym(const char* a, int fa, const char* b, int fb) { if (a[0] != b[0] || a[1] != b[1] || a[2] != b[2]) return 0; if (a[0] == '$') return fa == fb; return 1; }
static void post(int st) {
  int dup = 0, undef = 0; uint32_t want[NR];
  for (int i = 0; i < nd; i++) for (int j = 0; j < i; j++) dup |= same_sym(D[i].n, D[i].file, D[j].n, D[j].file);
  for (int r = 0; r < nr; r++) { int f = 0; want[r] = 0; for (int i = 0; i < nd; i++) if (same_sym(R[r].n, R[r].file, D[i].n, D[i].file)) { f = 1; want[r] = DV[i]; } undef |= !f; }
  if (dup) { qs_reach("duplicate"); qs_check(st != 0, "a duplicate definition makes the assembly fail"); qs_check(!produced(), "no image for duplicate definitions"); return; }
  if (undef) { qs_reach("undefined"); qs_check(st != 0, "an undefined symbol makes the assembly fail"); qs_check(!produced(), "no image with undefined symbols"); return; }
  qs_reach("resolved"); qs_check(st == 0 && produced(), "resolved program assembles"); if (!produced()) return;
  const uint8_t* p = outf->d; int co = gint(p + 8), dof = gint(p + 16); qs_check(gint(p + 4) == xi, "instructionCount");
  for (int r = 0; r < nr; r++) qs_check((uint32_t)g32(p + (atdata[r] ? dof : co) + at[r]) == want[r], "reference has the value of its definition"); }
static void def(int file, int kind) { D[nd].file = file; D[nd].kind = kind; name(D[nd].n, qs_param("len", 2), "def"); const char* s = D[nd].n; nd++;
  if (kind == 0) { t_s("code\nproc "); t_s2(s); t_s(" 0 0\n"); DV[nd - 1] = xi; xc += 5; xi++; t_s("endproc "); t_s2(s); t_s(" 0 0\n"); xi += 2; xc += 6; }
  if (kind == 1) { t_s("code\nLABELV "); t_s2(s); t_c('\n'); DV[nd - 1] = xi; }
  if (kind == 2) { t_s("data\nalign 4\nLABELV "); t_s2(s); t_s("\nbyte 4 5\n"); DV[nd - 1] = xd; xd += 4; }
  if (kind == 3) { t_s("lit\nalign 1\nLABELV "); t_s2(s); t_s("\nbyte 1 65\nbyte 1 0\n"); DV[nd - 1] = 0x10000 + xl; xl += 2; }
  if (kind == 4) { t_s("bss\nalign 1\nLABELV "); t_s2(s); t_s("\nskip 3\n"); DV[nd - 1] = 0x20000 + xb; xb += 3; }
  if (kind == 5) { t_s("code\nequ "); t_s2(s); t_s(" -7\n"); DV[nd - 1] = (uint32_t)-7; } }

static void ref(int file, int data) { R[nr].file = file; name(R[nr].n, qs_param("len", 2), "ref"); const char* s = R[nr].n; int r = nr++;
  if (data) { t_s("data\nalign 4\nLABELV w"); t_c('0' + r); t_s("zz\naddress "); put_name(s); t_c('\n'); at[r] = xd; atdata[r] = 1; xd += 4; }
  else { t_s("code\nADDRGP4 "); put_name(s); t_c('\n'); at[r] = xc + 1; xc += 5; xi++; } }
void qs_main(void) {
  int k = qs_param("kinds", 0), order = qs_param("order", 0), k0 = k % 6, k1 = k / 6 % 6; post_fn = post; xd = 4; xi = xc = 0;
  if (order == 0) { ref(0, 0); def(0, k0); in_file(); def(1, k1); ref(1, 0); in_file(); }
  if (order == 1) { def(0, k0); def(0, k1); in_file(); ref(1, 1); in_file(); }
  if (order == 2) { ref(0, 1); in_file(); def(1, k0); ref(1, 0); in_file(); def(2, k1); in_file(); }
  if (order == 4) { def(0, k0); in_file(); for (int i = 1; i <= qs_param("gap", 8); i++) { if (i == 1) t_s("; nothing\n"); in_file(); } def(n_in, k1); ref(n_in, 1); in_file(); }
  if (order == 3) { def(0, k0); ref(0, 0); in_file(); def(1, k1); ref(1, 1); in_file(); }
  for (int i = 0; i < nd; i++) if (DV[i] < 0x40000000) DV[i] = DV[i] >= 0x20000 ? DV[i] - 0x20000 + al4(xd) + al4(xl) : DV[i] >= 0x10000 ? DV[i] - 0x10000 + al4(xd) : DV[i];
  run_asm(qs_param("buckets", 1)); }
