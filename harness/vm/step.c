/* V01/V02/V22: arbitrary instructions with arbitrary operands from an arbitrary VM state (memory contents, program
   stack position, operand stack depth). Memory safety of every access is checked by the engine; the system call
   checks that the program stack stays where frames may lie. */
#include "vmh.h"
static intptr_t h_syscall(vm_t* v, intptr_t* args) {
  int i; intptr_t s = 0;
  qs_check(v == &vm, "the system call gets the running VM");
  qs_check(vm.programStack >= vm.stackBottom - 4 && vm.programStack <= vm.dataMask + 1, "program stack stays inside the stack area");
  for (i = 0; i < 16; i++) s ^= args[i];
  qs_reach("syscall");
  if (qs_param("stop", 1)) qs_stop();
  return (int)s ^ qs_i32("sysret"); }
static void prog(int sled, int x1, int x2) {
  int i;
  c_reset();
  o4(ENTER, qs_i32("n"));
  for (i = 0; i < sled; i++) o0(PUSH);
  if (qs_param("consts", 2) > 0) o4(CONST, qs_i32("a"));
  if (qs_param("consts", 2) > 1) { int32_t b = qs_i32("b");
    if (sled && (x1 == CALL || x1 == JUMP)) { if (sled > 10) qs_assume((uint32_t)b < 3 || (uint32_t)b >= (uint32_t)sled); if ((uint32_t)b < (uint32_t)ci + 8) b = qs_concretize(b); }
    o4(CONST, b); }
  if (x1 < NOPS) ox(x1, x1 >= EQ && x1 <= GEF ? ci + 2 : qs_i32("v1"));
  if (x2 < NOPS) ox(x2, x2 >= EQ && x2 <= GEF ? ci + 2 : qs_i32("v2"));
  o4(CONST, -3); o0(CALL); o4(CONST, qs_i32("r"));
  if (qs_param("tail", 0)) o4(LEAVE, qs_i32("m"));
  o0(UNDEF); }
void qs_main(void) {
  int bss = qs_param("bss", STACKSZ), sled = qs_param("sled", 0), lo = qs_param("lo", 0), hi = qs_param("hi", NOPS - 1), two = qs_param("two", 0), D;
  int x1 = lo + qs_select(hi - lo + 1, "x1"), x2 = two ? qs_select(NOPS, "x2") : NOPS;
  if (qs_param("noleave", 1)) qs_assume(x1 != LEAVE && x2 != LEAVE);
  prog(sled, x1, x2);
  load_bss(bss);
  D = vm.dataMask + 1;
  qs_make_symbolic(vm.dataBase, vm.dataAlloc, "mem");
  if (qs_param("anyps", 1)) { int32_t ps = qs_i32("ps"); qs_assume(ps >= vm.stackBottom - 4 && ps <= D); vm.programStack = ps; }
  int ps0 = vm.programStack;
  qs_fuel(qs_param("fuel", 4000) + sled * 60);
  err_n = 0;
  intptr_t r = VM_Call(&vm, qs_i32("cmd"), qs_i32("c1"), 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12);
  qs_check(r >= -2147483647L - 1 && r <= 2147483647L, "result is a 32-bit value");
  qs_check(vm.programStack == ps0, "program stack restored");
  if (err_n) qs_check(vm.lastError == err_last() && !err_zero, "error is recorded"), qs_reach("error"); else qs_reach("no error");
  qs_check(vm.dataMask + 1 == D, "data mask unchanged"); }
