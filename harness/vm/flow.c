/* V02: a call, jump, branch or return with an arbitrary target continues at that instruction or ends with an error.
   The code behind the transfer is N triples CONST/POP/BREAK: which of them ran tells where execution continued. */
#include "vmh.h"
#define N 4
static int calls; static intptr_t lastid;
static intptr_t h_syscall(vm_t* v, intptr_t* args) { calls++; lastid = args[0]; return 5; }
static int expect_brk, expect_bad;
/* t: instruction number, first: number of the first triple instruction */
static int landing(int32_t t, int first, int count) {
  int k;
  if (t < 0 || t >= count) return 0;
  k = (int)qs_concretize(t) - first;
  if (k < 0) { qs_assume(0); }
  expect_brk = k < 3 * N ? N - k / 3 : 0; expect_bad = (k < 3 * N && k % 3 == 1) || k == 3 * N + 1;
  return 1; }
void qs_main(void) {
  int how = qs_select(4, "how"), i, first, count, ok = 1, op; int32_t t = qs_i32("t"); int tail = qs_param("tail", 0);
  static const int poison[4] = { LEAVE, CALL, UNDEF, BREAK };
  c_reset();
  o4(ENTER, 16);
  if (how == 0) { o4(CONST, t); o0(JUMP); }
  else if (how == 1) { o4(CONST, t); o0(CALL); }
  else if (how == 2) { op = EQ + qs_select(16, "br"); int32_t a = qs_i32("a"); o4(CONST, a); o4(CONST, qs_i32("b")); o4(op, t); o0(UNDEF); }
  else { o4(LOCAL, 16); o4(CONST, t); o0(STORE4); o4(LEAVE, 16); }
  first = ci;
  for (i = 0; i < N; i++) { o4(CONST, poison[i]); o0(POP); o0(BREAK); }
  o4(CONST, 7); o4(LEAVE, 16);
  count = ci;
  /* bytes behind the counted instructions belong to the code segment but are no instructions */
  for (i = 0; i < tail; i++) { o0(BREAK); }
  if (tail > 1) { o4(CONST, 9); o4(LEAVE, 16); }
  ci = count;
  mkimg(0, 0, 0, 0, STACKSZ);
  int r = VM_Create(&vm, "t.qvm", img, img_len, h_syscall);
  if (how == 2 && (t < 0 || t >= count)) { qs_check(r == -1 && err_n > 0, "a branch to a non-existing instruction is rejected"); qs_reach("rejected"); return; }
  qs_check(r == 0, "image loads"); if (r) return;
  if (how == 3) {
    qs_fuel(2500);
    if (t >= 0 && t <= vm.codeLength + 64) qs_concretize(t);
    int ret = CALL0();
    if (t == -1) qs_check(err_n > 0 || ret == 0, "return to the host");
    if (t < -1 || t >= vm.codeLength) { qs_check(err_n > 0 && ret == -1, "a return outside the code is reported"); qs_reach("bad return"); }
    qs_reach("return"); return; }
  if (how == 1 && t < 0) {
    int ret = CALL0();
    qs_check(calls == 1 && lastid == -1 - (intptr_t)t, "a negative target is a system call");
    qs_check(vm.breakCount == N && ret == 7, "and continues behind the call"); qs_reach("syscall"); return; }
  ok = landing(t, first, count);
  if (how == 2) qs_fuel(3000);
  int ret = CALL0();
  if (!ok) { qs_check(err_n > 0 && ret == -1 && vm.lastError == err_last() && vm.breakCount == 0, "an invalid target ends the call with an error"); qs_reach("invalid"); return; }
  if (how == 2 && err_n && vm.breakCount == 0 && err_last() == VM_BAD_INSTRUCTION) { qs_reach("not taken"); return; }
  qs_check(vm.breakCount == expect_brk, "continues exactly at the target instruction");
  qs_check(!!err_n == expect_bad, "instructions are executed whole");
  if (!expect_bad) qs_check(ret == 7, "result");
  qs_reach("valid"); }
