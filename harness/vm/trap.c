/* V18: division and modulus with every operand pair, at every operand stack position used; no host trap. */
#include "vmh.h"
static intptr_t h_syscall(vm_t* v, intptr_t* args) { return qs_i32("sysret"); }
void qs_main(void) {
  int op = DIVI + qs_select(4, "op"); int32_t a = qs_i32("a"), b = qs_i32("b"), s = qs_i32("s"); uint32_t ua = a, ub = b; int32_t e = 0; int src = qs_select(4, "src");
  c_reset(); o4(ENTER, 24); o4(CONST, s);
  if (src == 0) { o4(CONST, a); o4(CONST, b); }
  else if (src == 1) { o4(LOCAL, 32); o0(LOAD4); o4(LOCAL, 36); o0(LOAD4); }       /* from the call arguments */
  else if (src == 2) { o4(CONST, a); o4(CONST, 0); o4(CONST, b); o0(ADD); }           /* divisor computed */
  else { o4(CONST, a); o4(CONST, ~b); o0(BCOM); }
  o0(op); o4(CONST, 256); o0(POP); o0(ADD); o4(LEAVE, 24);
  load_bss(STACKSZ); int ps = vm.programStack;
  int ret = VM_Call(&vm, a, b, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
  qs_check(vm.programStack == ps && vm.callLevel == 0, "VM state restored");
  if (b == 0) { qs_check(err_n > 0 && !err_zero && vm.lastError == err_last(), "division by zero is reported"); qs_check(ret == -1, "and ends the call"); qs_reach("zero"); return; }
  switch (op) { case DIVI: e = b == -1 ? (int32_t)(0u - ua) : a / b; break; case MODI: e = b == -1 ? 0 : a % b; break; case DIVU: e = ua / ub; break; default: e = ua % ub; }
  qs_check(err_n == 0 && ret == (int32_t)((uint32_t)s + (uint32_t)e), "quotient or remainder"); qs_reach("value"); }
