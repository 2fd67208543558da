/* V22: operand stack balance at the end of the entry function; unlimited pushes and pops. */
#include "vmh.h"
static intptr_t h_syscall(vm_t* v, intptr_t* args) { return qs_i32("sysret"); }
void qs_main(void) {
  int big = qs_param("big", 0), i, push, pop, kind, net; int32_t v = qs_i32("v");
  if (!big) { push = qs_select(6, "push"); pop = qs_select(6, "pop"); } else { static const int P[8][2] = { { 255, 0 }, { 254, 3 }, { 0, 254 }, { 1, 200 }, { 255, 254 }, { 200, 255 }, { 100, 99 }, { 128, 0 } }; int k = qs_select(8, "p"); push = P[k][0]; pop = P[k][1]; }
  kind = qs_select(4, "kind");
  c_reset(); o4(ENTER, 16);
  int popfirst = qs_select(2, "order");
  if (popfirst) for (i = 0; i < pop; i++) o0(POP);
  for (i = 0; i < push; i++) { if (kind == 0) o0(PUSH); else if (kind == 1) o4(CONST, v); else if (kind == 2) o4(LOCAL, v); else { o4(CONST, -1); o0(CALL); } }
  if (!popfirst) for (i = 0; i < pop; i++) o0(POP);
  o4(LEAVE, 16);
  net = push - pop;
  load_bss(STACKSZ); int ps = vm.programStack; int ret = CALL0();
  if (net == 1) { qs_check(err_n == 0 || popfirst, "one result is no error"); if (kind == 1 && !popfirst) qs_check(ret == v, "result"); qs_reach("balanced"); }
  else { qs_check(err_n > 0 && !err_zero && vm.lastError == err_last(), "an unbalanced operand stack is reported"); qs_reach("unbalanced"); }
  qs_check(vm.programStack == ps && vm.callLevel == 0, "VM state restored"); }
