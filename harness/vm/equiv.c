/* V20: the same program on two builds of the interpreter linked into one program (second build: public names prefixed b_). */
#include "vmh.h"
int b_VM_Create(vm_t*, const char*, const uint8_t*, int, intptr_t (*)(vm_t*, intptr_t*)); intptr_t b_VM_Call(vm_t*, int, ...); void b_VM_Free(vm_t*);
static vm_t vmb; static intptr_t sa[2][4][16]; static int sn[2], who; static int32_t sr[4]; static uint32_t Fr, j; static int dbg;
static intptr_t h_syscall(vm_t* v, intptr_t* args) { int i, k = sn[who]++; if (k < 4) { for (i = 0; i < 16; i++) sa[who][k][i] = args[i]; return sr[k]; } return 0; }
void qs_main(void) {
  int lo = qs_param("lo", 0), hi = qs_param("hi", NOPS - 1), two = qs_param("two", 0), sled = qs_select(qs_param("sleds", 3), "sled"), i; static const int sl[3] = { 0, 2, 254 };
  int x1 = lo + qs_select(hi - lo + 1, "x1"), x2 = two ? qs_select(NOPS, "x2") : NOPS, D, e[2], le[2], res[2]; uint32_t s; int32_t a = qs_i32("a"), b = qs_i32("b"); int n = qs_param("n", 24); int32_t v1 = 0;
  dbg = qs_param("debug", 0); j = qs_i32("j");
  if (qs_param("noleave", 1)) qs_assume(x1 != LEAVE && x2 != LEAVE);
  if (x1 == LSH || x1 == RSHI || x1 == RSHU) qs_assume((uint32_t)b < 32); if (two) qs_assume(x2 != LSH && x2 != RSHI && x2 != RSHU && x2 != JUMP && x2 != CALL && x2 != ENTER && x1 != JUMP && x1 != CALL && x1 != ENTER && x2 != BLOCK_COPY && !(x2 >= STORE1 && x2 <= ARG));
 
  c_reset(); if (x1 == ENTER) { n = v1 = qs_i32("v1"); if (sled != 0) qs_assume(0); if (n >= 0 && n < 460) { qs_assume(n >= 16 && n % 4 == 0); n = v1 = qs_concretize(n); } } o4(ENTER, n);
  for (i = 0; i < sl[sled]; i++) o0(PUSH);
  o4(CONST, a); o4(CONST, b);
  if (x1 == JUMP || x1 == CALL) { static const int tg[7] = { -2, -1, 4, 5, 7, 8, 0 }; int k = qs_select(8, "target"); if (k < 7) b = sl[sled] + tg[k] * 1; else { b = qs_i32("b2"); qs_assume(b < -2 || b >= ci + 6); }
    if (k < 2) b = tg[k]; if (k == 6) { qs_assume(!dbg && x1 == CALL); b = 0; } w32(cb + cn - 4, b); }
  if (x1 < NOPS && x1 != ENTER) ox(x1, v1 = x1 >= EQ && x1 <= GEF ? ci + 2 : qs_i32("v1"));
  if (x2 < NOPS && x2 != ENTER) ox(x2, x2 >= EQ && x2 <= GEF ? ci + 2 : qs_i32("v2"));
  o1(ARG, 8); o4(CONST, -3); o0(CALL); o4(LEAVE, n); o0(UNDEF);
  int bss = qs_param("bss", 500); mkimg(0, 0, 0, 0, bss); qs_make_symbolic(sr, sizeof sr, "sysret");
  int r = VM_Create(&vm, "t.qvm", img, img_len, h_syscall); qs_check(r == 0, "loads"); if (r) return;
  D = vm.dataMask + 1; qs_make_symbolic(vm.dataBase, D, "mem");
  r = b_VM_Create(&vmb, "t.qvm", img, img_len, h_syscall); qs_check(r == 0, "loads in the other build"); if (r) return;
  qs_check(vmb.dataMask == vm.dataMask && vmb.programStack == vm.programStack && vmb.instructionCount == vm.instructionCount, "same layout");
  memcpy(vmb.dataBase, vm.dataBase, D);
  int32_t c = qs_i32("cmd"); qs_assume(j < (uint32_t)D);
  if (dbg) { /* the debug build keeps the caller's frame address in the second word of a frame: keep programs off it */
    Fr = vm.programStack - 60 - n; qs_assume(j < Fr + 4 || j >= Fr + 8); uint32_t p;
    p = (uint32_t)b & (D - 1); if (x1 >= LOAD1 && x1 <= LOAD4) qs_assume(p + 4 <= Fr + 4 || p >= Fr + 8);
    if (x1 == BLOCK_COPY) qs_assume(0); if (two && ((x2 >= LOAD1 && x2 <= LOAD4) || x2 == BLOCK_COPY || x2 == ENTER)) qs_assume(0);
    /* arguments of the system call include it */ }
  { /* the saved return addresses belong to the calling convention: programs that overwrite them execute operands */
    uint32_t F = vm.programStack - 60 - n, p = x1 >= STORE1 && x1 <= STORE4 ? (uint32_t)a & (D - 1) : x1 == ARG ? F + (uint8_t)v1 : x1 == BLOCK_COPY ? (uint32_t)a : 0, l = x1 == BLOCK_COPY ? (uint32_t)v1 : 4;
    if ((x1 >= STORE1 && x1 <= STORE4) || x1 == ARG || (x1 == BLOCK_COPY && l < (uint32_t)D && p < (uint32_t)D)) qs_assume((p + l <= F || p >= F + 8) && (p + l <= F + n || p >= F + n + 8)); }
  who = 0; err_n = 0; qs_fuel(qs_param("fuel", 6000) + 60 * sl[sled]); res[0] = VM_Call(&vm, c, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); e[0] = err_n; le[0] = vm.lastError; s = vm.dataBase[j];
  qs_fuel(-1); who = 1; err_n = 0; res[1] = b_VM_Call(&vmb, c, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); e[1] = err_n; le[1] = vmb.lastError;
  if (dbg && (le[1] == VM_STACK_MISALIGNED || le[1] == VM_OP_LOAD4_MISALIGNED || (le[1] != le[0] && le[1] == VM_PC_OUT_OF_RANGE) || (le[1] != le[0] && le[1] == VM_STACK_OVERFLOW))) { qs_reach("debug check"); return; }
  qs_check(res[0] == res[1], "same result"); qs_check(e[0] == e[1] && le[0] == le[1], "same errors"); qs_check(vmb.dataBase[j] == s, "same memory"); qs_check(sn[0] == sn[1], "same number of system calls"); qs_check(vm.breakCount == vmb.breakCount, "same breaks");
  for (i = 0; i < sn[0] && i < 4; i++) { int k; for (k = 0; k < 16; k++) qs_check(sa[0][i][k] == sa[1][i][k], "same system call arguments"); }
  VM_Free(&vm); b_VM_Free(&vmb);
  qs_check(al_live == 0 && !al_bad, "both builds free their memory");
  qs_reach("compared"); }
