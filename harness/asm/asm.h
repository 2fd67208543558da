#ifndef ASM_H
#define ASM_H
#include "vfs.h"
#include "vm/vmh.h"
int q3asm_main(int argc, char** argv);
/* ---- run the assembler's own main over virtual files ---- */
static void (*post_fn)(int status);
static int post_ran;
void vf_exit(int code) { if (!post_ran) { post_ran = 1; post_fn(code); } qs_stop(); for (;;) {} }
#define OUTCAP (1 << 20)
#define MAXIN 24
static int n_in; static char in_name[MAXIN][8];
static void in_file(void) { strcpy(in_name[n_in], "a.asm"); in_name[n_in][0] += n_in; vf_input(in_name[n_in++], T, tn); t_reset(); }
static vf_t* outf;
static char* list_file;
static void run_asm(int buckets) {
  char* av[MAXIN + 12]; int ac = 0; char bk[8]; av[ac++] = "q3asm"; av[ac++] = "-o"; av[ac++] = "out";
  if (buckets) { int k = 0; if (buckets > 9) bk[k++] = '0' + buckets / 10; bk[k++] = '0' + buckets % 10; bk[k] = 0; av[ac++] = "-b"; av[ac++] = bk; }
  if (list_file) { av[ac++] = "-f"; av[ac++] = list_file; }
  for (int i = 0; i < n_in; i++) av[ac++] = in_name[i];
  av[ac] = NULL; vf_output("out.qvm", OUTCAP); outf = vf_find("out.qvm");
  int st = q3asm_main(ac, av); if (!post_ran) { post_ran = 1; post_fn(st); } }
static int produced(void) { return outf->opened && outf->n > 0; }
/* ---- expected image ---- */
static uint8_t XC[1 << 14], XD[1 << 14], XL[1 << 14]; static int xc, xd, xl, xb, xi;
static void e1(int b) { XC[xc++] = b; }
static void e4(uint32_t v) { w32(XC + xc, (int32_t)v); xc += 4; }
static void i0(int op) { e1(op); xi++; }
static void i4(int op, uint32_t v) { e1(op); e4(v); xi++; }
static void i1(int op, int v) { e1(op); e1(v); xi++; }
static int al4(int v) { return (v + 3) & ~3; }
static void same(const uint8_t* a, const uint8_t* b, int n, const char* msg) { uint8_t d = 0; for (int i = 0; i < n; i++) d |= a[i] ^ b[i]; qs_check(d == 0, msg); }
/* header and contents of the output against the expected segments */
static void check_image(int status) {
  qs_reach("image");
  qs_check(status == 0, "assembly of a valid program succeeds"); qs_check(produced() && !outf->open, "an image is written");
  const uint8_t* o = outf->d; long n = outf->n; if (n < 32) { qs_fail("image has a header"); return; }
  qs_check(g32(o) == VM_MAGIC, "magic"); qs_check(gint(o + 4) == xi, "instructionCount is the number of instructions");
  int co = gint(o + 8), cl = gint(o + 12), dof = gint(o + 16), dl = gint(o + 20), ll = gint(o + 24), bl = gint(o + 28);
  qs_check(co >= 32 && cl >= xc && cl <= xc + 3, "codeLength covers the emitted code"); qs_check(dof >= co + cl && dl == al4(xd) && ll == al4(xl), "data and lit lengths"); qs_check(bl == al4(xb) + STACKSZ, "bss holds the program's bss and the stack");
  qs_check(n == (long)dof + dl + ll, "image size is what the header says");
  if (n != (long)dof + dl + ll || co < 32 || cl < xc || dof < co + cl) return;
  same(o + co, XC, xc, "code bytes"); same(o + dof, XD, xd, "data bytes"); same(o + dof + dl, XL, xl, "lit bytes"); }
#endif
