/* V21: the standalone host's system calls with arbitrary argument words and memory. */
#include "vmh.h"
#include <stdarg.h>
intptr_t systemCalls(vm_t* vm, intptr_t* args);
static int D, printed, exited, which; static uint32_t j; static uint8_t old_j;
static int in_vm(const void* p) { return (uintptr_t)p >= (uintptr_t)vm.dataBase && (uintptr_t)p < (uintptr_t)vm.dataBase + D; }
static int out(const char* f, va_list ap) {
  qs_check(!in_vm(f), "VM memory is not used as a format string");
  if (f[0] == '%' && f[1] == 's' && f[2] == 0) { const char* s = va_arg(ap, const char*); 
    if (s) { qs_check(in_vm(s), "printed strings start in VM memory"); const uint8_t* g = vm.dataBase + D; qs_check(g[0] == 0 || g[1] == 0 || g[2] == 0 || g[3] == 0, "printed strings end inside VM memory"); } printed++; return qs_i32("plen"); }
  return 0; }
int h_printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = out(f, ap); va_end(ap); return r; }
int h_fprintf(void* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = out(f, ap); va_end(ap); return r; }
void h_exit(int c) { qs_check(c != 0, "an error ends the host with a code"); qs_check(vm.dataBase[j] == old_j, "a rejected call has no effect"); qs_reach("host exit"); qs_stop(); }
void qs_main(void) {
  intptr_t args[16]; int32_t w[16]; int i; uint32_t a, s; int64_t n;
  c_reset(); o4(ENTER, 8); o4(CONST, 1); o4(LEAVE, 8); mkimg(0, 0, 0, 0, qs_param("bss", 250));
  int r = VM_Create(&vm, "t.qvm", img, img_len, systemCalls); qs_check(r == 0, "loads"); if (r) return; D = vm.dataMask + 1;
  qs_make_symbolic(vm.dataBase, D, "mem"); qs_make_symbolic(w, sizeof w, "w"); j = qs_i32("j"); qs_assume(j < (uint32_t)D); old_j = vm.dataBase[j];
  for (i = 0; i < 16; i++) args[i] = w[i];
  which = qs_select(5, "which"); if (which < 4) { qs_assume(w[0] == which); args[0] = which; } else qs_assume(w[0] < 0 || w[0] > 3);
  a = w[1]; s = w[2]; n = w[3];
  int okd = w[1] > 0 && w[1] < D && n >= 0 && w[1] + n < D, oks = w[2] > 0 && w[2] < D && n >= 0 && w[2] + n < D;
  int bad = w[1] == 0 || w[1] < 0 || w[1] >= D || n < 0 || w[1] + n > D, bads = w[2] == 0 || w[2] < 0 || w[2] >= D || n < 0 || w[2] + n > D;
  uint8_t sb = 0; if (which == 3 && okd && oks) { if (j - a < (uint64_t)n) sb = vm.dataBase[s + (j - a)]; 
}
  intptr_t ret = systemCalls(&vm, args);
  uint8_t nj = vm.dataBase[j];
  if (which < 2) { qs_check(nj == old_j, "printing changes no memory"); qs_reach("print"); qs_check(printed == 1, "prints once"); }
  else if (which == 2) { qs_check(ret == w[1], "memset returns its first argument"); if (okd) { qs_check(nj == (j - a < (uint64_t)n ? (uint8_t)w[2] : old_j), "memset sets exactly the range"); qs_reach("memset"); } else if (bad) { qs_check(nj == old_j, "an invalid memset has no effect"); qs_reach("memset refused"); } }
  else if (which == 3) { qs_check(ret == w[1], "memcpy returns its first argument"); if (okd && oks) { qs_check(nj == (j - a < (uint64_t)n ? sb : old_j), "memcpy copies exactly the range"); qs_reach("memcpy"); } else if (bad || bads) { qs_check(nj == old_j, "an invalid memcpy has no effect"); qs_reach("memcpy refused"); } }
  else { qs_check(nj == old_j, "an unknown call has no effect"); qs_reach("unknown"); } }
