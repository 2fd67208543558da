/* V13: errors of every kind, also in nested frames and nested VM calls; afterwards the VM works like a fresh one. */
#include "vmh.h"
static int nest_on; static vm_t vm2; static int32_t nested_r; static int inner_level, reported;
static intptr_t h_syscall(vm_t* v, intptr_t* args) {
  if (nest_on && args[0] == 0) { int lv = v->callLevel, ps = v->programStack, e0 = err_n; nested_r = VM_Call(v, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); if (err_n > e0) { reported = 1; } qs_check(v->callLevel == lv, "call level restored after the nested call"); qs_check(v->programStack == ps, "program stack restored after the nested call"); }
  return args[1] + 1; }
#define G 256
/* the faulty part, K kinds */
static void faulty(int kind, int32_t x) {
  switch (kind) {
  case 0: o0(UNDEF); break;
  case 1: qs_assume(x < 0 || x > 1000); o4(CONST, x); o0(JUMP); break;
  case 2: qs_assume(x > 1000); o4(CONST, x); o0(CALL); break;
  case 3: qs_assume(x > STACKSZ || x < 0); o4(ENTER, x); break;
  case 4: qs_assume(x < -1 || x > 100000); o4(LOCAL, 16); o4(CONST, x); o0(STORE4); o4(LEAVE, 16); break;
  case 5: qs_assume(x > 4096 || x < 0); o4(LEAVE, x); break;
  case 6: qs_assume(x > 0x20000 || x < 0); o4(CONST, G); o4(CONST, x); o4(BLOCK_COPY, 4); o4(CONST, 5); o4(LEAVE, 16); break;
  case 7: o4(CONST, x); o4(CONST, 0); o0(DIVI); break;
  case 8: o4(CONST, x); o4(CONST, 0); o0(MODU); break;
  case 9: o4(CONST, x); o4(CONST, x); o4(LEAVE, 16); break;     /* two results */
  case 10: o4(LEAVE, 16); break;                                 /* no result */
  case 11: o4(CONST, 1); o4(CONST, x); o4(CONST, 0); o0(MODI); break;
  case 12: o4(CONST, 1); o4(CONST, x); o4(CONST, 0); o0(DIVU); break;
  } }
#define KINDS 13
void qs_main(void) {
  int kind = qs_select(KINDS, "kind"), deep = qs_select(2, "deep"), i; int32_t x = qs_i32("x"), a = qs_i32("a"), b = qs_i32("b");
  nest_on = qs_select(2, "nested");
  /* vmMain(cmd, p): 0: good; 2: fault; 3: system call 0 (which may call 2), then its result */
  c_reset(); o4(ENTER, 16);
  o4(LOCAL, 24); o0(LOAD4); o4(CONST, 2); int b2 = cn + 1; o4(EQ, 0);
  o4(LOCAL, 24); o0(LOAD4); o4(CONST, 3); int b3 = cn + 1; o4(EQ, 0);
  /* good: [G] = [G] + p * 3; return sys(1, [G]) */
  o4(CONST, G); o4(CONST, G); o0(LOAD4); o4(LOCAL, 28); o0(LOAD4); o4(CONST, 3); o0(MULI); o0(ADD); o0(STORE4);
  o4(CONST, G); o0(LOAD4); o1(ARG, 8); o4(CONST, -2); o0(CALL); o4(LEAVE, 16);
  w32(cb + b3, ci); o4(CONST, 40); o1(ARG, 8); o4(CONST, -1); o0(CALL); o4(LEAVE, 16);
  w32(cb + b2, ci);
  if (deep) { int fx = cn + 1; o4(CONST, 0); o0(CALL); o4(LEAVE, 16); w32(cb + fx, ci); o4(ENTER, 16); }
  faulty(kind, x); o4(CONST, 1); o4(LEAVE, 16);
  if (deep && (kind == 9 || kind == 10)) qs_stop();   /* balanced over two frames */
  load_bss(STACKSZ);
  w32(vm.dataBase + G, b);
  int ps = vm.programStack; qs_fuel(40000);
  int ret;
  if (nest_on) { ret = CALLC(3); qs_check(reported, "the nested error is reported"); qs_check(ret == 41, "the outer call continues after a nested error"); }
  else { ret = CALLC(2); qs_check(err_n > 0, "the error is reported"); if (kind != 6 && kind != 9 && kind != 10) qs_check(ret == -1, "the call returns -1"); }
  qs_check(!err_zero, "error codes are not zero");
  if (!nest_on) qs_check(vm.lastError == err_last(), "lastError is the reported code");
  for (i = 0; i < err_n && i < 8; i++) qs_check(err_code[i] < 0, "error codes are the documented ones");
  qs_check(vm.programStack == ps, "program stack as before"); qs_check(vm.callLevel == 0, "call level as before");
  /* a following call behaves as on a fresh VM with the same memory */
  int r2 = VM_Create(&vm2, "t.qvm", img, img_len, h_syscall); qs_check(r2 == 0, "second VM"); if (r2) return;
  memcpy(vm2.dataBase, vm.dataBase, vm.dataMask + 1);
  err_n = 0; nest_on = 0;
  int y1 = VM_Call(&vm, 0, a, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); int e1 = err_n;
  err_n = 0; int y2 = VM_Call(&vm2, 0, a, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
  qs_check(e1 == 0 && err_n == 0 && y1 == y2, "the next call works as on a fresh VM");
  uint32_t g0 = kind == 6 ? 0 : 0; (void)g0;
  qs_check(memcmp(vm.dataBase + G, vm2.dataBase + G, 64) == 0, "same memory");
  if (kind != 6) qs_check((uint32_t)y1 == (uint32_t)b + (uint32_t)a * 3u + 1u, "and computes the right result");
  VM_Free(&vm2); VM_Free(&vm); qs_check(al_live == 0 && al_bad == 0, "VM_Free releases everything"); qs_check(err_n == 0, "no error from VM_Free");
  qs_reach("done"); if (nest_on == 0) qs_reach("nested"); }
