/* V16: whatever a program stores, memory handed out as a string ends inside the allocation. */
#include "vmh.h"
static int D;
static intptr_t h_syscall(vm_t* v, intptr_t* args) {
  size_t a = al_size(vm.dataBase), i; int z = 0; for (i = D; i < a; i++) z |= vm.dataBase[i] == 0;
  qs_check(a > (size_t)D && z, "there is a zero byte behind the last byte of data memory"); qs_reach("guard");
  return qs_i32("ret"); }
void qs_main(void) {
  int two = qs_select(5, "x1"), i; static const int st[5] = { STORE4, STORE2, STORE1, ARG, BLOCK_COPY }; int k = st[two];
  c_reset(); o4(ENTER, qs_i32("n"));
  for (i = 0; i < 2; i++) { if (k != ARG) o4(CONST, qs_i32("addr")); o4(CONST, qs_i32("val")); if (k == ARG) { o1(ARG, qs_u8("k")); } else if (k == BLOCK_COPY) o4(BLOCK_COPY, qs_i32("len")); else o0(k); }
  o4(CONST, -1); o0(CALL); o4(CONST, qs_i32("addr")); o0(STORE4); o4(CONST, -1); o0(CALL); o0(UNDEF);
  load_bss(qs_param("bss", 1000)); D = vm.dataMask + 1; qs_make_symbolic(vm.dataBase, D, "mem");
  if (qs_select(2, "anyps")) { int32_t ps = qs_i32("ps"); qs_assume(ps >= vm.stackBottom - 4 && ps <= D); vm.programStack = ps; }
  CALL0();
  h_syscall(&vm, 0); }
