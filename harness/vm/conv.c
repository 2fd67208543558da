/* V10/V11/V12: frames, arguments, calls, VM_Call, system calls. mode selects the program. */
#include "vmh.h"
static int mode, calls, nest; static intptr_t sargs[16]; static intptr_t sret; static int32_t nested_cmd, nested_r; static int32_t na[12]; static int scribble; static int ps_in;
static intptr_t h_syscall(vm_t* v, intptr_t* args) {
  int i; calls++;
  qs_check(v == &vm, "the VM is passed to the system call");
  for (i = 0; i < 16; i++) sargs[i] = args[i];
  if (nest > 0) { nest--; int ps = vm.programStack;
    nested_r = VM_Call(v, 1, na[0], na[1], na[2], na[3], na[4], na[5], na[6], na[7], na[8], na[9], na[10], na[11]);
    qs_check(vm.programStack == ps, "nested call restores the program stack"); }
  if (scribble) { uint8_t* q = VM_ArgPtr(sargs[1], v); w32(q, qs_i32("scr")); }
  return sret; }
#define G 256
static void st(int a) { (void)a; }
/* [G+4*i] = LOCAL k */
static void save_local(int i, int32_t k) { o4(CONST, G + 4 * i); o4(LOCAL, k); o0(STORE4); }
static void v10(void) {
  int32_t n = qs_i32("n"), m = qs_i32("m"), k = qs_i32("k"), s = qs_i32("s"), r = qs_i32("r"), a0 = qs_i32("a0"), a1 = qs_i32("a1"), av = qs_i32("av"); uint8_t ak = qs_u8("ak"); int w = qs_select(2, "via");
  /* ak: outgoing argument position inside the frame, clear of the linkage words and of the other argument slots */
  qs_assume(n >= 32 && n <= 4096 && m >= 8 && m <= 4096 && ak >= 16 && ak + 4 <= n);
#ifdef DEBUG_VM
  qs_assume(((n | m | ak) & 3) == 0);   /* the debug build reports misaligned frames and addresses */
#endif
  c_reset();
  o4(ENTER, n); save_local(0, 0); save_local(1, k);
  o4(CONST, s);                                 /* stays below the call */
  o4(CONST, a0); o1(ARG, 8); o4(CONST, a1); o1(ARG, 12); o4(CONST, av); o1(ARG, ak);
  int fix = cn + 1; o4(CONST, 0); o0(CALL); int after = ci; (void)after;
  o4(CONST, G + 8); o0(PUSH); o0(POP);          /* address under ... */
  o0(POP);                                      /* drop it again: result on top, s below */
  o0(SUB);                                      /* s - r */
  o4(CONST, 77); o0(POP);
  save_local(2, 0);
  o4(CONST, G + 12); o4(LOCAL, ak); o0(LOAD4); o0(STORE4);
  o4(LEAVE, n);
  int f = ci; w32(cb + fix, f);
  o4(ENTER, m); save_local(4, 0);
  o4(CONST, G + 20); o4(LOCAL, m + 8); o0(LOAD4); o0(STORE4);
  o4(CONST, G + 24); o4(LOCAL, m + 12); o0(LOAD4); o0(STORE4);
  if (w) { o4(LOCAL, 8 > m - 4 ? 4 : m - 4); o4(CONST, 0x5a5a5a5a); o0(STORE4); }  /* write the callee's own last local */
  o4(CONST, r); o4(LEAVE, m);
  load_bss(STACKSZ);
  int ps = vm.programStack;
  int ret = CALL0();
  qs_check(err_n == 0, "no error"); qs_check(vm.programStack == ps, "program stack balanced");
  int32_t F = m32(G), Fm = m32(G + 16);
  qs_check(m32(G + 4) == (int32_t)((uint32_t)F + (uint32_t)k), "LOCAL k is frame + k");
  qs_check(F - Fm == m, "ENTER opens a frame of its size below the caller's");
  qs_check(m32(G + 8) == F, "the frame is the same after the call");
  qs_check(m32(G + 20) == a0 && m32(G + 24) == a1, "arguments are found by the callee in order");
  qs_check(m32(G + 12) == av, "ARG k stores to frame + k");
  qs_check(ret == (int32_t)((uint32_t)s - (uint32_t)r), "execution resumes behind the call with the result on top of the caller's entries");
  qs_reach("v10"); }
/* recursion: f(d, x) = d == 0 ? x : f(d-1, x ^ c) + d */
static void v10rec(void) {
  int32_t x = qs_i32("x"), c = qs_i32("c"), e = x; int d = qs_select(qs_param("depth", 4), "d"), i; int n = 8 + 4 * qs_select(6, "fr"); 
  if (n < 16) n = 16;
  c_reset();
  o4(ENTER, n); o4(CONST, d); o1(ARG, 8); o4(CONST, x); o1(ARG, 12); o4(CONST, 7); o0(CALL); /* 0..6 */
  c_reset(); o4(ENTER, n); o4(CONST, d); o1(ARG, 8); o4(CONST, x); o1(ARG, 12); int fx = cn + 1; o4(CONST, 0); o0(CALL); o4(LEAVE, n);
  int f = ci; w32(cb + fx, f);
  o4(ENTER, n); o4(LOCAL, n + 8); o0(LOAD4); o4(CONST, 0); int bx = cn + 1; o4(NE, 0); o4(LOCAL, n + 12); o0(LOAD4); o4(LEAVE, n);
  w32(cb + bx, ci);
  o4(LOCAL, n + 8); o0(LOAD4); o4(CONST, 1); o0(SUB); o1(ARG, 8);
  o4(LOCAL, n + 12); o0(LOAD4); o4(CONST, c); o0(BXOR); o1(ARG, 12);
  o4(CONST, f); o0(CALL); o4(LOCAL, n + 8); o0(LOAD4); o0(ADD); o4(LEAVE, n);
  load_bss(STACKSZ); int ps = vm.programStack; int ret = CALL0();
  for (i = d; i > 0; i--) e ^= c;
  uint32_t ue = e; for (i = 1; i <= d; i++) ue += i;
  qs_check(err_n == 0 && ret == (int32_t)ue, "recursive calls keep their frames apart"); qs_check(vm.programStack == ps, "balanced"); qs_reach("rec"); }
static void pushpop(void) {
  int32_t a = qs_i32("a"), b = qs_i32("b"); int k = qs_select(6, "k"), i; c_reset(); o4(ENTER, 16); o4(CONST, a);
  for (i = 0; i < k; i++) o0(PUSH);
  o4(CONST, b);
  for (i = 0; i < k + 1; i++) o0(POP);
  o4(LEAVE, 16); load_bss(STACKSZ); int ret = CALL0(); qs_check(err_n == 0 && ret == a, "PUSH adds one entry, POP removes one"); qs_reach("pushpop"); }
/* entry: vmMain(cmd, a0..a11): stores all at G + 64*cmd' and returns r; cmd 0 performs a system call in between */
static void v11(void) {
  int32_t cmd = qs_i32("cmd"), a[12], r1 = qs_i32("r1"); int i; int n = 8 + 4 * qs_select(8, "fr"); if (n < 16) n = 16;
  int D = qs_param("bss", STACKSZ);
  qs_make_symbolic(a, sizeof a, "args"); qs_make_symbolic(na, sizeof na, "nargs"); nest = qs_select(2, "nest");
  if (nest) qs_assume(cmd != 1);
  c_reset(); o4(ENTER, n);
  o4(LOCAL, n + 8); o0(LOAD4); o4(CONST, 1); int bx = cn + 1; o4(EQ, 0);
  o4(CONST, -7); o0(CALL); o0(POP);
  for (i = 0; i < 13; i++) { o4(CONST, G + 4 * i); o4(LOCAL, n + 8 + 4 * i); o0(LOAD4); o0(STORE4); }
  o4(CONST, r1); o4(LEAVE, n);
  w32(cb + bx, ci);
  for (i = 0; i < 13; i++) { o4(CONST, G + 64 + 4 * i); o4(LOCAL, n + 8 + 4 * i); o0(LOAD4); o0(STORE4); }
  o4(LOCAL, n + 12); o0(LOAD4); o4(LEAVE, n);
  load_bss(D); int ps = vm.programStack; sret = qs_i64("sret");
  int nested = nest;
  intptr_t ret = VM_Call(&vm, cmd, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
  qs_check(err_n == 0, "no error"); qs_check(vm.programStack == ps, "program stack restored"); qs_check(vm.callLevel == 0, "call level restored");
  if (cmd == 1) { for (i = 0; i < 13; i++) qs_check(m32(G + 64 + 4 * i) == (i ? a[i - 1] : cmd), "arguments arrive in order"); qs_check((int32_t)ret == a[0], "result returned"); }
  else {
    for (i = 0; i < 13; i++) qs_check(m32(G + 4 * i) == (i ? a[i - 1] : cmd), "arguments arrive in order"); qs_check((int32_t)ret == r1, "result returned"); qs_check(calls == 1, "one system call");
    if (nested) { for (i = 0; i < 13; i++) qs_check(m32(G + 64 + 4 * i) == (i ? na[i - 1] : 1), "nested arguments arrive in order"); qs_check(nested_r == na[0], "nested result"); qs_reach("nested"); } }
  qs_check(ret >= -2147483647L - 1 && ret <= 2147483647L, "the result is the 32-bit value");
  /* once more on the same VM */
  err_n = 0; nest = 0; ret = VM_Call(&vm, 1, a[3], 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); qs_check((int32_t)ret == a[3] && !err_n, "a second call works the same");
  qs_reach("v11");
  /* NULL and not loaded */
  err_n = 0; qs_check(VM_Call(NULL, cmd, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) == -1 && err_n > 0 && !err_zero, "NULL VM");
  VM_Free(&vm); err_n = 0; qs_check(CALLC(cmd) == -1 && err_n > 0 && !err_zero && vm.lastError == err_last(), "VM not loaded"); }
static void v12(void) {
  int32_t id = qs_i32("id"), a[15], s = qs_i32("s"); int i, n = 72 + 4 * qs_select(3, "fr"); qs_assume(id < 0);
  qs_make_symbolic(a, sizeof a, "a"); sret = qs_i64("sret"); nest = qs_select(2, "nest"); scribble = nest ? 0 : qs_select(2, "scr"); if (nest) qs_make_symbolic(na, sizeof na, "nargs");
  int nested = nest;
  c_reset(); o4(ENTER, n);
  o4(LOCAL, n + 8); o0(LOAD4); o4(CONST, 1); int bx = cn + 1; o4(EQ, 0);
  o4(CONST, s);
  for (i = 0; i < 15; i++) { o4(CONST, a[i]); o1(ARG, 8 + 4 * i); }
  if (scribble == 1) { o4(LOCAL, 0); o1(ARG, 8); }         /* host overwrites the word at our frame's start */
  o4(CONST, id); o0(CALL); o0(BREAK);
  o4(CONST, G); o0(PUSH); o0(POP); o0(POP);
  o4(CONST, 3); o0(POP);
  o0(SUB); o4(LEAVE, n);
  w32(cb + bx, ci); o4(LOCAL, n + 12); o0(LOAD4); o4(LEAVE, n);
  load_bss(STACKSZ); int ps = vm.programStack;
  int ret = CALL0();
  qs_check(err_n == 0, "no error"); qs_check(calls == 1, "exactly one system call"); qs_check(sargs[0] == -1 - (intptr_t)id, "word 0 is the call number");
  for (i = scribble; i < 15; i++) qs_check(sargs[1 + i] == (intptr_t)a[i], "argument words are sign-extended, in order");
  qs_check(vm.breakCount == 1, "resumes behind the CALL"); qs_check(ret == (int32_t)((uint32_t)s - (uint32_t)sret), "the 32-bit result is on top of the stack");
  qs_check(vm.programStack == ps, "balanced"); if (nested) { qs_check(nested_r == na[0], "nested result"); qs_reach("nested"); }
  qs_reach("v12"); }
void qs_main(void) {
  mode = qs_param("mode", 0);
  if (mode == 10) { int k = qs_select(3, "prog"); if (k == 0) v10(); else if (k == 1) v10rec(); else pushpop(); }
  else if (mode == 11) v11(); else v12(); }
