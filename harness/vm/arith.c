/* V06/V07/V08/V18: one arithmetic, branch or conversion instruction on arbitrary operands. */
#include "vmh.h"
static intptr_t h_syscall(vm_t* v, intptr_t* args) { qs_fail("no system call in this program"); return 0; }
static float asf(int32_t v) { float f; memcpy(&f, &v, 4); return f; }
static int32_t asi(float f) { int32_t v; memcpy(&v, &f, 4); return v; }
static int isnanb(int32_t v) { return ((uint32_t)v & 0x7fffffffu) > 0x7f800000u; }
static int unary(int op) { return op == SEX8 || op == SEX16 || op == NEGI || op == BCOM || op == NEGF || op == CVIF || op == CVFI; }
static void arith(int op) {
  int32_t a = qs_i32("a"), b = qs_i32("b"), s = qs_i32("s"), s2 = qs_i32("s2"); uint32_t ua = a, ub = b; int32_t r = 0; int fl = 0, trap = 0; int64_t p;
  if (op == LSH || op == RSHI || op == RSHU) qs_assume(ub < 32);
  c_reset(); o4(ENTER, 16); o4(CONST, s); o4(CONST, 4096);
  if (!unary(op)) o4(CONST, a);
  o4(CONST, b); o0(op); o0(STORE4);          /* [4096] = result */
  o4(CONST, 4100); o0(IGNORE); o4(CONST, s2); o0(STORE4); o4(LEAVE, 16);
  load_bss(STACKSZ);
  if (op == DIVI || op == DIVU || op == MODI || op == MODU) {
    if (b == 0) { int ret; ret = CALL0(); qs_check(err_n > 0 && err_last() != 0 && vm.lastError == err_last(), "division by zero is reported"); qs_check(ret == -1, "division by zero ends the call"); qs_check(m32(4096) == 0 && m32(4100) == 0, "division by zero stores nothing"); qs_reach("div0"); return; } }
  switch (op) {
  case NEGI: r = (int32_t)(0u - ub); break; case ADD: r = (int32_t)(ua + ub); break; case SUB: r = (int32_t)(ua - ub); break;
  case MULI: case MULU: r = (int32_t)(ua * ub); break;
  case DIVI: r = b == -1 ? (int32_t)(0u - ua) : a / b; break; case MODI: r = b == -1 ? 0 : a % b; break;
  case DIVU: r = (int32_t)(ua / ub); break; case MODU: r = (int32_t)(ua % ub); break;
  case BAND: r = a & b; break; case BOR: r = a | b; break; case BXOR: r = a ^ b; break; case BCOM: r = ~b; break;
  case LSH: r = (int32_t)(ua << ub); break; case RSHU: r = (int32_t)(ua >> ub); break;
  case RSHI: r = (int32_t)((ua >> ub) | (a < 0 && ub ? ~(0xffffffffu >> ub) : 0)); break;
  case SEX8: r = (int32_t)((ub & 0xff) ^ 0x80) - 0x80; break; case SEX16: r = (int32_t)((ub & 0xffff) ^ 0x8000) - 0x8000; break;
  case NEGF: r = (int32_t)(ub ^ 0x80000000u); fl = 1; break;
  case ADDF: r = asi(asf(a) + asf(b)); fl = 1; break; case SUBF: r = asi(asf(a) - asf(b)); fl = 1; break;
  case MULF: r = asi(asf(a) * asf(b)); fl = 1; break; case DIVF: r = asi(asf(a) / asf(b)); fl = 1; break;
  case CVIF: r = asi((float)b); break;
  case CVFI: { float f = asf(b); if (f > -2147483904.0f && f < 2147483648.0f) r = (int32_t)f; else trap = 1; } break;
  }
  int ret = CALL0(); int32_t got = m32(4096);
  qs_check(err_n == 0, "no error is reported");
  if (fl) qs_check(got == r || (isnanb(got) && isnanb(r)), "float result is IEEE-754");
  else if (!trap) qs_check(got == r, "result is the two's-complement result");
  qs_check(ret == s, "entries below the operands are unchanged and exactly the operands are consumed");
  qs_check(m32(4100) == s2, "the following instruction sees the same stack");
  qs_reach("arith"); }
static void branch(int op) {
  int32_t a = qs_i32("a"), b = qs_i32("b"), s = qs_i32("s"); int c = 0; int back = qs_select(2, "back");
  c_reset();
  /* 0 ENTER 1 JUMP over / backward target block at 3.. */
  o4(ENTER, 16);                                      /* 0 */
  o4(CONST, 8); o0(JUMP);                             /* 1 2 */
  o4(CONST, 4100); o4(CONST, 77); o0(STORE4); o4(LEAVE, 16); o0(IGNORE);  /* 3 4 5 6 7: backward target */
  o4(CONST, s); o4(CONST, a); o4(CONST, b); o4(op, back ? 3 : 16);   /* 8..11 */
  o4(CONST, 4096); o4(CONST, 55); o0(STORE4); o4(LEAVE, 16);         /* 12..15 fall through */
  o4(CONST, 4100); o4(CONST, 78); o0(STORE4); o4(LEAVE, 16);         /* 16.. forward target */
  load_bss(STACKSZ);
  int sa = a < 0, sb = b < 0; uint32_t ua = a, ub = b; float fa = asf(a), fb = asf(b);
  switch (op) { case EQ: c = a == b; break; case NE: c = a != b; break; case LTI: c = a < b; break; case LEI: c = a <= b; break; case GTI: c = a > b; break; case GEI: c = a >= b; break;
    case LTU: c = ua < ub; break; case LEU: c = ua <= ub; break; case GTU: c = ua > ub; break; case GEU: c = ua >= ub; break;
    case EQF: c = fa == fb; break; case NEF: c = !(fa == fb); break; case LTF: c = fa < fb; break; case LEF: c = fa <= fb; break; case GTF: c = fb < fa; break; case GEF: c = fb <= fa; break; }
  int ret = CALL0();
  qs_check(err_n == 0, "no error is reported");
  qs_check(ret == s, "both operands are removed and nothing else");
  qs_check(m32(4096) == (c ? 0 : 55), "continues at the next instruction exactly when the comparison is false");
  qs_check(m32(4100) == (c ? (back ? 77 : 78) : 0), "continues at the target exactly when the comparison is true");
  if (c) qs_reach("taken"); else qs_reach("not taken"); }
void qs_main(void) {
  int lo = qs_param("lo", 0), hi = qs_param("hi", 0); int op = lo + qs_select(hi - lo + 1, "op");
  if (op >= EQ && op <= GEF) branch(op); else arith(op); 
  VM_Free(&vm); }
