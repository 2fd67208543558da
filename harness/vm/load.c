/* V03/V04: every byte of the image symbolic, exact-size read-only buffer; V05: a loaded image is represented faithfully. */
#include "vmh.h"
static intptr_t h_syscall(vm_t* v, intptr_t* args) { return 0; }
/* the QVM format, stated independently */
static int hdr_ok(const uint8_t* b, int len) {
  int64_t ic, co, cl, dof, dl, ll, bl;
  if ((len <= HEADER) | (r32(b) != VM_MAGIC)) return 0;
  ic = r32(b + 4); co = r32(b + 8); cl = r32(b + 12); dof = r32(b + 16); dl = r32(b + 20); ll = r32(b + 24); bl = r32(b + 28);
  return !((ic <= 0) | (cl <= 0) | (co < 0) | (dof < 0) | (dl < 0) | (ll < 0) | (bl < 0) | (bl > 10485760) | (co + cl > len) | (dof + dl + ll > len) | (ic > cl)); }
/* branches only on the operand width class, so that it adds few paths */
static int valid(const uint8_t* b, int len) {
  int32_t ic, co, cl; int p = 0, cnt;
  if (!hdr_ok(b, len)) return 0;
  ic = r32(b + 4); co = r32(b + 8); cl = r32(b + 12);
  for (cnt = 0; cnt < ic; cnt++) {
    int op, four, one, br, sz;
    if (p >= cl) return 0;
    op = b[co + p]; p++; br = (op >= EQ) & (op <= GEF);
    if (op >= NOPS) return 0;
    four = (op == ENTER) | (op == LEAVE) | (op == CONST) | (op == LOCAL) | br | (op == BLOCK_COPY); one = op == ARG;
    if (four) sz = 4; else if (one) sz = 1; else sz = 0;
    if (p + sz > cl) return 0;
    if (four) { int32_t t = r32(b + co + p); if (br & ((t < 0) | (t >= ic))) return 0; }
    p += sz; }
  return 1; }
static void anyimg(void) {
  int L = qs_param("len", 40), fix = qs_param("fix", 0), i; uint8_t* b = qs_alloc(L); qs_make_symbolic(b, L, "img"); uint8_t copy[256]; 
  if (fix & 1) for (i = 0; i < 4; i++) b[i] = VM_MAGIC >> (8 * i) & 255;
  if (fix & 2) w32(b + 8, HEADER), w32(b + 12, L - HEADER);        /* code directly behind the header */
  if (fix & 4) w32(b + 16, 0), w32(b + 20, 0), w32(b + 24, 0), w32(b + 28, 0);
  if (fix & 64) { w32(b + 4, 2); for (i = HEADER; i < L; i++) if (i < L - 1) b[i] = BREAK; }
  if (fix & 128) w32(b + 28, 0);
  if (fix & 8) qs_assume(r32(b + 4) >= -2 && r32(b + 4) <= L);
  memcpy(copy, b, L); qs_readonly(b, 1);
  int len = L; if (qs_param("anylen", 0)) { len = qs_i32("length"); qs_assume(len <= L); }
  if (fix & 16) qs_assume(!hdr_ok(b, len)); if (fix & 32) qs_assume(hdr_ok(b, len));
  if (fix & 256) { qs_assume(r32(b + 4) <= 2); qs_concretize(r32(b + 8)); qs_concretize(r32(b + 12)); }
  int r = VM_Create(&vm, "t.qvm", b, len, h_syscall);
  qs_check(r == 0 || r == -1, "VM_Create returns 0 or -1");
  { int ch = 0; for (i = 0; i < L; i++) ch |= copy[i] ^ b[i]; qs_check(ch == 0, "the image is not modified"); }
  if (qs_param("oracle", 1)) { int v = fix & 16 ? 0 : valid(copy, len); 
    if (v) { qs_check(r == 0, "a well-formed image loads"); qs_reach("valid image"); } else { qs_check(r == -1, "a malformed image is rejected"); qs_reach("malformed image"); } }
  if (r) { qs_check(err_n > 0 && !err_zero, "a failure is reported"); qs_check(al_live == 0 && al_bad == 0, "a failing VM_Create leaves no allocation behind"); qs_reach("rejected"); }
  else { qs_check(err_n == 0, "no error"); qs_reach("loaded");
    if (qs_param("run", 0)) { qs_fuel(3000); CALL0(); }
    VM_Free(&vm); qs_check(al_live == 0 && al_bad == 0, "VM_Free frees everything"); } }
static void faithful(void) {
  int dl = 4 * qs_select(4, "dl"), ll = qs_select(4, "ll"); uint8_t data[16], lit[4]; int32_t bss = qs_i32("bss"), n = qs_i32("n"), k = qs_i32("k"), c = qs_i32("c"), m = qs_i32("m"); uint8_t ak = qs_u8("ak"); uint32_t j = qs_i32("j"); int op, i;
  if (dl == 12) dl = 16; qs_make_symbolic(data, 16, "data"); qs_make_symbolic(lit, 4, "lit"); qs_assume(bss >= 0 && bss <= 10485760);
  c_reset(); o4(ENTER, n); o4(CONST, c); o1(ARG, ak); o4(LOCAL, k); o0(BREAK); o4(LEAVE, m); op = qs_select(2, "br"); if (op) { o4(LTU, 3); }
  mkimg(data, dl, lit, ll, bss); load();
  int64_t sum = (int64_t)dl + ll + bss, D = (int64_t)vm.dataMask + 1;
  qs_check(D >= sum && (D & (D - 1)) == 0 && D >= 1, "the memory size is a power of two that holds all segments"); qs_check(D == 1 || D / 2 < sum, "and the smallest one");
  qs_check(vm.dataBase != NULL && al_size(vm.dataBase) >= (size_t)D, "memory is allocated");
  qs_assume(j < D);
  if (j < (uint32_t)dl) { qs_check(vm.dataBase[j] == data[j], "data segment"); qs_reach("data"); }
  else if (j < (uint32_t)(dl + ll)) { qs_check(vm.dataBase[j] == lit[j - dl], "string segment"); qs_reach("lit"); }
  else { qs_check(vm.dataBase[j] == 0, "every other byte is zero"); qs_reach("bss"); }
  qs_check(vm.instructionCount == ci, "instruction count"); }
static int phase; static intptr_t a1;
/* operands: a program using every operand-carrying instruction, from images with different code positions */
static intptr_t op_sys(vm_t* v, intptr_t* args) { phase++; a1 = args[1]; return 0; }
static void operands(void) {
  int pre = qs_select(5, "pre"), i; int32_t c = qs_i32("c"), k = qs_i32("k"), n = qs_i32("n"); uint8_t ak = qs_u8("ak"); 
  qs_assume(n >= 300 && n <= 2000);
#ifdef DEBUG_VM
  qs_assume(((n | ak) & 3) == 0);   /* reported by the debug build */
#endif
  c_reset(); o4(ENTER, n); for (i = 0; i < pre; i++) o0(IGNORE);
  o4(CONST, c); o1(ARG, 8);  o4(CONST, -1); o0(CALL); o0(POP);
  o4(LOCAL, 0); o4(LOCAL, k); o0(SUB); o1(ARG, 12);
  o4(CONST, 0x1234); o1(ARG, ak);
  o4(CONST, 4096); o4(LOCAL, ak); o0(LOAD4); o0(STORE4);
  o4(CONST, 4100); o4(LOCAL, 12); o0(LOAD4); o0(STORE4);
  o4(CONST, 1); o4(CONST, 1); int b = cn + 1; o4(NE, 0); o4(CONST, 5); o4(CONST, 5); int b2 = cn + 1; o4(EQ, 0); o0(UNDEF);
  w32(cb + b, ci); o0(UNDEF);
  w32(cb + b2, ci); o4(CONST, c); o4(LEAVE, n);
  mkimg(0, 0, 0, 0, STACKSZ); int r = VM_Create(&vm, "t.qvm", img, img_len, op_sys); qs_check(r == 0, "loads"); if (r) return;
  qs_assume(ak >= 16);
  int ret = CALL0();
  qs_check(err_n == 0 && ret == c, "CONST has the operand of the image"); qs_check(phase == 1 && (int32_t)a1 == c, "ARG 8");
  qs_check(m32(4096) == 0x1234, "ARG has the unsigned one-byte operand"); qs_check(m32(4100) == (int32_t)(0u - (uint32_t)k), "LOCAL has the operand of the image");
  qs_reach("operands"); }
void qs_main(void) { int m = qs_param("mode", 3); if (m == 3) anyimg(); else if (m == 5) faithful(); else operands(); }
