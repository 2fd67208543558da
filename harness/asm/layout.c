/* A04: objects keep their declared contents, alignment and separateness in the image and in the loaded VM. */
#include "asm.h"
#define MAXO 5
static struct { int seg, al, n, sz, kind; uint8_t b[64]; uint8_t chk[64]; int tgt; int ref; } o[MAXO]; static int no;
static vm_t vm;
intptr_t syscalls(vm_t* v, intptr_t* a) { (void)v; (void)a; return 0; }
static void val1(int i) { t_s("byte 1 "); uint32_t v = (uint32_t)t_digits(3, "byte"); t_c('\n'); o[i].b[o[i].sz] = (uint8_t)v; o[i].chk[o[i].sz++] = 1; }
static void val4(int i, int neg) { t_s("byte 4 "); if (neg) t_c('-'); uint32_t v = (uint32_t)t_digits(10, "word"); if (neg) v = -v; t_c('\n'); w32(o[i].b + o[i].sz, v); for (int k = 0; k < 4; k++) o[i].chk[o[i].sz++] = 1; }
static void skp(int i, int n) { t_s("skip "); t_n(n); t_c('\n'); for (int k = 0; k < n; k++) { o[i].b[o[i].sz] = 0; o[i].chk[o[i].sz++] = 1; } }
static void adr(int i, int t) { t_s("address x"); t_c('0' + t); t_s("\n"); o[i].tgt = t; o[i].ref = o[i].sz; for (int k = 0; k < 4; k++) o[i].chk[o[i].sz++] = 0; }
static const char* SEG[] = { "data", "lit", "bss" };
static int cur = -1;
static void object(int seg, int al, int kind) {
  int i = no++; o[i].seg = seg; o[i].al = al; o[i].kind = kind; o[i].tgt = -1; o[i].sz = 0;
  if (cur != seg) { t_s(SEG[seg]); t_c('\n'); cur = seg; }
  t_s("export x"); t_c('0' + i); t_s("\nalign "); t_n(al); t_s("\nLABELV x"); t_c('0' + i); t_c('\n');
  if (seg == 2) { skp(i, kind == 0 ? 1 : kind == 1 ? 4 : kind == 2 ? 33 : kind); return; }
  switch (kind) {
  case 0: val1(i); break;
  case 1: val4(i, 0); break;
  case 2: val1(i); skp(i, 3); val4(i, 1); break;
  case 3: val4(i, 0); val1(i); val1(i); break;
  case 4: adr(i, i ? i - 1 : 1); break;
  case 5: val1(i); val1(i); val1(i); break;
  case 6: val4(i, 1); skp(i, 9); break;
  case 8: val1(i); val1(i); break;
  case 9: adr(i, 0); adr(i, 1); break;
  case 7: val1(i); skp(i, 3); adr(i, 0); val1(i); skp(i, 7); break; } }
#define NK 8
static void post(int st) {
  qs_check(st == 0, "valid program assembles"); qs_check(produced(), "an image is written"); if (!produced()) return; qs_reach("image");
  const uint8_t* p = outf->d; int co = gint(p + 8), dl = gint(p + 20), ll = gint(p + 24), bl = gint(p + 28);
  qs_check(gint(p + 4) == xi, "instructionCount");
  if (VM_Create(&vm, "x", p, (int)outf->n, syscalls) != 0) { qs_fail("the VM loads the image"); return; }
  uint32_t a[MAXO], total = (uint32_t)dl + ll + bl;
  qs_check(vm.dataMask + 1u >= total, "memory holds data, lit, bss and stack");
  for (int i = 0; i < no; i++) a[i] = (uint32_t)g32(p + co + 5 + i * 5 + 1);   /* the addresses the code uses */
  for (int i = 0; i < no; i++) {
    qs_check(a[i] != 0, "no object at address zero"); qs_check(a[i] % o[i].al == 0, "object is aligned"); qs_check(a[i] + o[i].sz <= total - STACKSZ, "object lies below the stack");
    for (int j = 0; j < i; j++) qs_check(a[i] + o[i].sz <= a[j] || a[j] + o[j].sz <= a[i], "objects do not overlap");
    if (a[i] + o[i].sz > total) return;
    uint8_t d = 0; for (int k = 0; k < o[i].sz; k++) if (o[i].chk[k]) d |= vm.dataBase[a[i] + k] ^ o[i].b[k];
    qs_check(d == 0, "contents of the object in VM memory");
    if (o[i].tgt >= 0) qs_check((uint32_t)g32(vm.dataBase + a[i] + o[i].ref) == a[o[i].tgt], "address directive holds the object's address"); } }
void qs_main(void) {
  int n = qs_param("n", 2), lo = qs_param("lo", 0); post_fn = post;
  for (int i = 0; i < n; i++) { int k = i == 0 ? lo : qs_select(3 * 2 * NK, "object"); if (i == n - 1 && qs_param("last", -1) >= 0) k = qs_param("last", 0); object(k % 3, k / 3 % 2 ? 4 : 1, k / 6); }
  object(qs_param("cseg", 0), 4, 1); object(1, 1, (int[]){ 5, 8, 0, 1 }[qs_param("tail", 0)]);
  t_s("code\nproc f 0 0\n"); xi++;
  for (int i = 0; i < no; i++) { t_s("ADDRGP4 x"); t_c('0' + i); t_c('\n'); xi++; }
  t_s("endproc f 0 0\n"); xi += 2;
  in_file(); run_asm(0); }
