/* V19: two VMs with the same image and memory, separately allocated: the same result, memory, errors and system call arguments. */
#include "vmh.h"
static vm_t vmb; static intptr_t sa[2][4][16]; static int sn[2], who; static int32_t sr[4];
static intptr_t h_syscall(vm_t* v, intptr_t* args) { int i, k = sn[who]++; if (k < 4) { for (i = 0; i < 16; i++) sa[who][k][i] = args[i]; return sr[k]; } return 0; }
void qs_main(void) {
  int lo = qs_param("lo", 0), hi = qs_param("hi", NOPS - 1), two = qs_param("two", 0), sled = qs_select(4, "sled"), i; static const int sl[4] = { 0, 3, 254, 255 };
  int x1 = lo + qs_select(hi - lo + 1, "x1"), x2 = two ? qs_select(NOPS, "x2") : NOPS; int32_t v1 = 0, n = qs_param("n", 24); uint32_t a = 0; int pops = qs_select(3, "pops"), D, e[2], le[2], res[2]; uint32_t j = qs_i32("j"), s;
  if (qs_param("noleave", 1)) qs_assume(x1 != LEAVE && x2 != LEAVE);
  if (two) qs_assume(x2 != JUMP && x2 != CALL && x2 != ENTER && x1 != JUMP && x1 != CALL && x1 != ENTER && x2 != BLOCK_COPY && !(x2 >= STORE1 && x2 <= ARG) && x1 != BLOCK_COPY);
  c_reset(); if (x1 == ENTER) { n = v1 = qs_i32("v1"); if (sled) qs_assume(0); if (n >= 0 && n < 460) { qs_assume(n >= 16 && n % 4 == 0); n = v1 = qs_concretize(n); } }
  o4(ENTER, n);
  for (i = 0; i < sl[sled]; i++) o0(PUSH);
  for (i = 0; i < pops; i++) o0(POP);
  if (sled == 1) { o4(CONST, a = qs_i32("a")); o4(CONST, qs_i32("b")); }
  if (sled == 1 && (x1 == JUMP || x1 == CALL)) { static const int tg[5] = { -2, -1, 1, 5, 6 }; int32_t b; int k = qs_select(7, "target"); if (k < 5) b = ci + tg[k]; else { b = qs_i32("b2"); qs_assume(b < -2 || b >= ci + 8); } if (k < 2) b = tg[k]; if (k == 5) { qs_assume(x1 == CALL); b = 0; } w32(cb + cn - 4, b); }
  if (x1 < NOPS && x1 != ENTER) ox(x1, v1 = x1 >= EQ && x1 <= GEF ? ci + 2 : qs_i32("v1")); 
  if (x2 < NOPS) ox(x2, x2 >= EQ && x2 <= GEF ? ci + 2 : qs_i32("v2"));
  o1(ARG, 8); o1(ARG, 12); o4(CONST, -3); o0(CALL); o4(LEAVE, n); o0(UNDEF);
  int bss = qs_param("bss", 500); mkimg(0, 0, 0, 0, bss); qs_make_symbolic(sr, sizeof sr, "sysret");
  al_fill = 0x11; int r = VM_Create(&vm, "t.qvm", img, img_len, h_syscall); qs_check(r == 0, "loads"); if (r) return;
  D = vm.dataMask + 1; qs_make_symbolic(vm.dataBase, D, "mem");
  uint8_t* m0 = qs_alloc(D); memcpy(m0, vm.dataBase, D);
  int32_t c = qs_i32("cmd");
  qs_assume(j < (uint32_t)D);
  { /* programs that overwrite the saved return addresses execute operands; that is left out here */
    uint32_t F = vm.programStack - 60 - n, p = x1 >= STORE1 && x1 <= STORE4 ? a & (D - 1) : x1 == ARG ? F + (uint8_t)v1 : x1 == BLOCK_COPY ? a : 0, l = x1 == BLOCK_COPY ? (uint32_t)v1 : 4;
    if ((x1 >= STORE1 && x1 <= STORE4) || x1 == ARG || (x1 == BLOCK_COPY && l < (uint32_t)D && p < (uint32_t)D)) qs_assume((p + l <= F || p >= F + 8) && (p + l <= F + n || p >= F + n + 8)); }
  who = 0; err_n = 0; qs_fuel(qs_param("fuel", 6000) + 60 * sl[sled]); qs_paint(0x33); res[0] = VM_Call(&vm, c, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); e[0] = err_n; le[0] = vm.lastError; s = vm.dataBase[j]; int bk = vm.breakCount;
  qs_fuel(-1); al_fill = 0xee; r = VM_Create(&vmb, "t.qvm", img, img_len, h_syscall); qs_check(r == 0, "loads"); if (r) return;
  memcpy(vmb.dataBase, m0, D);
  who = 1; err_n = 0; qs_paint(0xcc); res[1] = VM_Call(&vmb, c, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); e[1] = err_n; le[1] = vmb.lastError;
  qs_check(res[0] == res[1], "same result"); qs_check(e[0] == e[1] && le[0] == le[1], "same errors"); qs_check(vmb.dataBase[j] == s, "same memory"); qs_check(sn[0] == sn[1], "same number of system calls"); qs_check(bk == vmb.breakCount, "same breaks");
  for (i = 0; i < sn[0] && i < 4; i++) qs_check(memcmp(sa[0][i], sa[1][i], sizeof sa[0][i]) == 0, "same system call arguments");
  qs_reach(sn[0] ? "compared with system call" : "compared"); }
