/* T01: the image made from a program by the compiler and the assembler, run by the virtual machine, gives what the C source gives */
#include "../vm/vmh.h"
#include TABLE
static intptr_t sys(vm_t* vm, intptr_t* args) { (void)vm; (void)args; qs_fail("a system call that is not in the program"); return 0; }
void qs_main(void) {
  int p = qs_param("prog", 0), lo = qs_param("lo", 0), n = qs_param("n", 1), calls = qs_param("calls", 1); static vm_t vm;
  if (!P[p].n) { qs_fail(P[p].why); qs_stop(); }
  if (VM_Create(&vm, "t01", P[p].img, P[p].n, sys)) { qs_fail("the image is not accepted"); qs_stop(); }
  int k = lo + (n > 1 ? qs_select(n, "function") : 0); qs_fuel(qs_param("fuel", 3000000));
  while (calls--) { int a = qs_i32("a"), b = qs_i32("b"), c = qs_i32("c");
    int want = P[p].ref(k, a, b, c); int got = (int)VM_Call(&vm, k, a, b, c, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
    if (err_n) { qs_fail("the virtual machine stops with an error"); qs_stop(); }
    qs_check(got == want, "the result is what C says"); }
  qs_reach("called"); }
