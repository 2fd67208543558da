/* V09/V14: loads, stores and block copies; two system calls read VM memory before and after the instruction. */
#include "vmh.h"
static int phase, op; static uint32_t addr, src, n; static int32_t val; static uint32_t j; static uint8_t old_j, old_s; static int32_t old_w; static int32_t F; static int D; static int in_d, in_s;
static intptr_t h_syscall(vm_t* v, intptr_t* args) {
  uint32_t p = addr & (uint32_t)(D - 1); int k = op == LOAD1 || op == STORE1 ? 1 : op == LOAD2 || op == STORE2 ? 2 : 4; uint8_t* b = vm.dataBase;
  if (phase == 0) { phase = 1; F = (int32_t)args[2];
    qs_assume(j < (uint32_t)D && (j < (uint32_t)F || j >= (uint32_t)F + 12)); /* linkage words and the argument slot of this frame change by the probes themselves */
    old_j = b[j];
    if (op == BLOCK_COPY) { in_d = addr < (uint32_t)D && (uint64_t)addr + n <= (uint64_t)D - 1; in_s = src < (uint32_t)D && (uint64_t)src + n <= (uint64_t)D - 1;
      if (j - addr < n && in_d && in_s) { uint32_t q = src + (j - addr); qs_assume(q < (uint32_t)F || q >= (uint32_t)F + 12); old_s = b[q]; } }
    else { qs_assume(p + k <= (uint32_t)D);
      if (op >= LOAD1 && op <= LOAD4) { qs_assume(p + k <= (uint32_t)F || p >= (uint32_t)F + 12); old_w = b[p] | (k > 1 ? b[p + 1] << 8 : 0) | (k > 2 ? (b[p + 2] << 16) | ((uint32_t)b[p + 3] << 24) : 0); } }
    return 0; }
  phase = 2;
  if (op >= LOAD1 && op <= LOAD4) { qs_check((int32_t)args[1] == old_w, "a load returns the addressed bytes, little-endian, zero-extended"); qs_check(b[j] == old_j, "a load changes no memory"); qs_reach("load"); }
  else if (op == BLOCK_COPY) {
    if (in_d && in_s) { qs_check(err_n == 0, "a valid block copy reports no error"); if (j - addr < n) { qs_check(b[j] == old_s, "block copy moves the source bytes"); qs_reach("copied"); } else qs_check(b[j] == old_j, "block copy changes nothing outside the destination"); qs_reach("valid"); }
    else if ((uint64_t)addr + n > (uint64_t)D || (uint64_t)src + n > (uint64_t)D) { qs_check(err_n > 0, "an out-of-range block copy is reported"); qs_check(b[j] == old_j, "an out-of-range block copy copies nothing"); qs_reach("range error"); }
    else { if (err_n) qs_check(b[j] == old_j, "a rejected block copy copies nothing"); qs_reach("edge"); } }
  else { uint32_t d = j - p; if (d < (uint32_t)k) { qs_check(b[j] == (uint8_t)((uint32_t)val >> (8 * d)), "a store writes the low bytes, little-endian"); qs_reach("stored"); } else { qs_check(b[j] == old_j, "a store changes no other byte"); qs_reach("other byte"); } }
  qs_stop(); return 0; }
void qs_main(void) {
  int lo = qs_param("lo", LOAD1), hi = qs_param("hi", STORE4), bss = qs_param("bss", 1000); op = lo + qs_select(hi - lo + 1, "op"); int fr = 16 + 4 * qs_select(2, "fr");
  addr = qs_i32("addr"); val = qs_i32("val"); src = qs_i32("src"); n = qs_i32("n"); j = qs_i32("j");
#ifdef DEBUG_VM
  if (op == LOAD4) qs_assume((addr & 3) == 0);   /* reported by the debug build */
#endif
  c_reset(); o4(ENTER, fr);
  o4(LOCAL, 0); o1(ARG, 12); o4(CONST, -1); o0(CALL); o0(POP);
  if (op >= LOAD1 && op <= LOAD4) { o4(CONST, addr); o0(op); o1(ARG, 8); }
  else if (op == BLOCK_COPY) { o4(CONST, addr); o4(CONST, src); o4(BLOCK_COPY, n); }
  else { o4(CONST, addr); o4(CONST, val); o0(op); }
  o4(CONST, -1); o0(CALL); o4(LEAVE, fr);
  load_bss(bss); D = vm.dataMask + 1;
  qs_check(D >= bss && D < 2 * bss, "memory size");
  qs_make_symbolic(vm.dataBase, D, "mem");
  err_n = 0;
  CALL0();
  qs_fail("both system calls are reached"); }
