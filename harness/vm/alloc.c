/* V17: allocation failures, pairing of allocations and frees, VM_Free in every state. */
#include "vmh.h"
static int inside; static vm_t before;
static intptr_t h_syscall(vm_t* v, intptr_t* args) {
  int e0 = err_n, l0 = al_live; before = *v; VM_Free(v); inside++;
  qs_check(err_n == e0 + 1 && !err_zero && v->lastError == err_last(), "VM_Free on a running VM is an error");
  before.lastError = v->lastError; qs_check(al_live == l0 && memcmp(&before, v, sizeof before) == 0, "and changes nothing");
  return 21; }
void qs_main(void) {
  int bad = qs_select(6, "bad"); int32_t v = qs_i32("v"); al_fail = qs_select(6, "fail") - 1;
  uint8_t data[8], lit[4]; qs_make_symbolic(data, 8, "data"); qs_make_symbolic(lit, 4, "lit");
  c_reset(); o4(ENTER, 16); o4(CONST, v);
  if (bad == 1) o0(NOPS); else if (bad == 2) { o4(CONST, 1); o4(EQ, 1000); } else { o4(CONST, -1); o0(CALL); o0(ADD); }
  o4(LEAVE, 16);
  if (bad == 3) ci++; 
  mkimg(data, 8, lit, 4, 5000);
  if (bad == 4) w32(img, 0x1234); if (bad == 5) { img_len = 20; }
  qs_make_symbolic(&vm, sizeof vm, "garbage");       /* VM_Create must not rely on the old contents */
  int r = VM_Create(&vm, "some/long/name/of/a/file/that/is/longer/than/the/field/in/the/struct/t.qvm", img, img_len, h_syscall);
  if (r == 0) {
    qs_check(bad == 0, "a malformed image is rejected"); qs_check(err_n == 0, "no error");
    int ret = CALL0(); qs_check(inside == 1 && ret == (int32_t)((uint32_t)v + 21u), "the VM keeps running after the refused VM_Free");
    err_n = 0; int n = al_live; qs_check(n > 0, "allocated"); VM_Free(&vm); qs_check(al_live == 0 && al_bad == 0 && err_n == 0, "VM_Free frees every block once, with its type"); qs_reach("freed");
  } else {
    qs_check(r == -1, "VM_Create returns 0 or -1"); qs_check(err_n > 0 && !err_zero, "a failure is reported"); qs_check(bad || al_fail >= 0, "a valid image loads when memory is available");
    qs_check(al_live == 0 && al_bad == 0, "a failing VM_Create leaves no allocation behind"); if (bad) qs_reach("bad image"); else qs_reach("failed allocation"); }
  err_n = 0; VM_Free(&vm); VM_Free(&vm); VM_Free(NULL); qs_check(al_live == 0 && al_bad == 0 && err_n == 0, "VM_Free on a freed or NULL VM does nothing");
  /* misuse of VM_Create */
  qs_check(VM_Create(NULL, "t", img, img_len, h_syscall) == -1 && err_n > 0 && !err_zero, "VM_Create without VM"); err_n = 0;
  vm_t z; memset(&z, 0, sizeof z); qs_check(VM_Create(&z, "t", img, img_len, NULL) == -1 && err_n > 0 && !err_zero && al_live == 0, "VM_Create without system calls"); err_n = 0;
  memset(&z, 0, sizeof z); qs_check(VM_Create(&z, "t", NULL, img_len, h_syscall) == -1 && err_n > 0 && !err_zero && al_live == 0, "VM_Create without image"); }
