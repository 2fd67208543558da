/* V15/V16: helpers for the host, called with arbitrary 64-bit arguments. */
#include "vmh.h"
static intptr_t h_syscall(vm_t* v, intptr_t* args) { return 0; }
static void range(void) {
  int64_t addr = qs_i64("addr"); uint64_t len = qs_i64("len"); uint64_t D = (uint64_t)vm.dataMask + 1, a = (uint64_t)addr;
  int r = VM_MemoryRangeValid(addr, len, &vm);
  qs_check(r == 0 || r == -1, "returns 0 or -1");
  if (r == 0) { qs_check(addr != 0, "NULL is never valid"); qs_check(a < D && len <= D - a, "the whole range lies in data memory"); qs_check(err_n == 0, "no error for a valid range"); qs_reach("valid"); }
  if (addr != 0 && a < D && len < D - a) { qs_check(r == 0, "ranges that end before the last byte are valid"); qs_reach("accepted"); }
  if (r == -1) qs_reach("invalid");
  if (r == -1 && addr != 0) qs_check(err_n > 0 && !err_zero, "a rejected range is reported");
  qs_check(VM_MemoryRangeValid(addr, len, NULL) == -1, "no VM"); }
static void ptr(void) {
  int64_t addr = qs_i64("addr"); uint8_t* p = VM_ArgPtr(addr, &vm);
  qs_check(p == (addr ? vm.dataBase + ((uint64_t)addr & (uint64_t)vm.dataMask) : NULL), "address translation"); qs_reach("ptr");
  if (!addr) { qs_check(VM_ArgPtr(0, NULL) == NULL, "NULL stays NULL"); } else { qs_check(VM_ArgPtr(addr, NULL) == NULL && err_n > 0, "no VM"); }
  int32_t x = qs_i32("x"); float f = VM_IntToFloat(x), g; memcpy(&g, &x, 4); int32_t y = VM_FloatToInt(g), z; memcpy(&z, &f, 4);
  if (((uint32_t)x & 0x7fffffffu) <= 0x7f800000u) { qs_check(z == x, "VM_IntToFloat keeps the bits"); qs_check(y == x, "VM_FloatToInt keeps the bits"); }
  else { qs_check(f != f && ((uint32_t)y & 0x7fffffffu) > 0x7f800000u, "NaN stays NaN"); }
  qs_reach("float"); }
void qs_main(void) {
  c_reset(); o4(ENTER, 8); o4(CONST, 1); o4(LEAVE, 8);
  int32_t bss = qs_i32("bss"); qs_assume(bss >= 0 && bss <= 10485760);
  load_bss(bss); err_n = 0;
  if (qs_param("mode", 0) == 0) range(); else ptr(); }
