/* Shared by the VM harnesses: host callbacks with bookkeeping, image builder, memory helpers.
   The opcode numbering is stated here independently of vm.c (from the QVM file format). */
#ifndef VMH_H
#define VMH_H
#include "qs.h"
#include <string.h>
#include <stdlib.h>
#include "src/vm/vm.h"
enum { UNDEF, IGNORE, BREAK, ENTER, LEAVE, CALL, PUSH, POP, CONST, LOCAL, JUMP, EQ, NE, LTI, LEI, GTI, GEI, LTU, LEU, GTU, GEU, EQF, NEF, LTF, LEF, GTF, GEF,
  LOAD1, LOAD2, LOAD4, STORE1, STORE2, STORE4, ARG, BLOCK_COPY, SEX8, SEX16, NEGI, ADD, SUB, DIVI, DIVU, MODI, MODU, MULI, MULU, BAND, BOR, BXOR, BCOM, LSH, RSHI, RSHU,
  NEGF, ADDF, SUBF, DIVF, MULF, CVIF, CVFI, NOPS };
static int opsize(int op) { if (op == ARG) return 1; if (op == ENTER || op == LEAVE || op == CONST || op == LOCAL || (op >= EQ && op <= GEF) || op == BLOCK_COPY) return 4; return 0; }
#define HEADER 32
#define STACKSZ 0x10000
/* ---- host callbacks ---- */
static int err_n, err_code[32], err_zero;
void Com_Error(vmErrorCode_t level, const char* error) { if (err_n < 32) err_code[err_n] = level; err_n++; if (level == 0) err_zero = 1; (void)error; }
static int err_last(void) { return err_n ? err_code[(err_n < 32 ? err_n : 32) - 1] : 0; }
#define MAXA 16
static struct { void* p; size_t n; int type; int live; vm_t* vm; } al[MAXA];
static int al_n, al_live, al_fail = -1, al_bad, al_fill = -1;
void* Com_malloc(size_t size, vm_t* vm, vmMallocType_t type) {
  if (al_n == al_fail) { al_n++; return NULL; }
  void* p = qs_alloc(size); if (!p) { al_n++; return NULL; }
  if (al_n < MAXA) { al[al_n].p = p; al[al_n].n = size; al[al_n].type = type; al[al_n].live = 1; al[al_n].vm = vm; }
#ifdef QS_NATIVE
  if (al_fill >= 0) memset(p, al_fill, size);
#endif
  al_n++; al_live++; return p; }
void Com_free(void* p, vm_t* vm, vmMallocType_t type) {
  int i; (void)vm; if (!p) { al_bad = 1; return; }
  for (i = 0; i < al_n && i < MAXA; i++) if (al[i].p == p && al[i].live) { if (al[i].type != (int)type) al_bad = 2; al[i].live = 0; al_live--; qs_free(p); return; }
  al_bad = 3; }
static size_t al_size(void* p) { int i; for (i = 0; i < al_n && i < MAXA; i++) if (al[i].p == p && al[i].live) return al[i].n; return 0; }
#if defined(QS_ENGINE) && (defined(DEBUG_VM) || defined(QS_FILE_STUBS))
/* the debug build looks for a symbol map: there is none */
#include <stdio.h>
FILE* fopen(const char* n, const char* m) { (void)n; (void)m; return NULL; }
int fclose(FILE* f) { (void)f; return 0; }
int fseek(FILE* f, long o, int w) { (void)f; (void)o; (void)w; return -1; }
long ftell(FILE* f) { (void)f; return -1; }
void rewind(FILE* f) { (void)f; }
size_t fread(void* p, size_t s, size_t n, FILE* f) { (void)p; (void)s; (void)n; (void)f; return 0; }
int fprintf(FILE* f, const char* m, ...) { (void)f; (void)m; return 0; }
#endif
/* ---- image builder ---- */
static uint8_t cb[16384]; static int cn, ci;
static void w32(uint8_t* p, int32_t v) { p[0] = v; p[1] = (uint32_t)v >> 8; p[2] = (uint32_t)v >> 16; p[3] = (uint32_t)v >> 24; }
static int32_t r32(const uint8_t* p) { return (int32_t)(p[0] | (p[1] << 8) | (p[2] << 16) | ((uint32_t)p[3] << 24)); }
static void c_reset(void) { cn = ci = 0; }
static int o0(int op) { cb[cn++] = op; return ci++; }
static int o4(int op, int32_t v) { cb[cn++] = op; w32(cb + cn, v); cn += 4; return ci++; }
static int o1(int op, uint8_t v) { cb[cn++] = op; cb[cn++] = v; return ci++; }
/* an instruction with the operand width it has in the format */
static int ox(int op, int32_t v) { int s = opsize(op); return s == 4 ? o4(op, v) : s == 1 ? o1(op, (uint8_t)v) : o0(op); }
static uint8_t* img; static int img_len;
static void mkimg(const uint8_t* data, int dl, const uint8_t* lit, int ll, int bss) {
  int doff = HEADER + cn; img_len = doff + dl + ll; img = qs_alloc(img_len);
  w32(img, VM_MAGIC); w32(img + 4, ci); w32(img + 8, HEADER); w32(img + 12, cn); w32(img + 16, doff); w32(img + 20, dl); w32(img + 24, ll); w32(img + 28, bss);
  memcpy(img + HEADER, cb, cn); if (dl) memcpy(img + doff, data, dl); if (ll) memcpy(img + doff + dl, lit, ll); }
static vm_t vm;
/* VM_Call always reads twelve further arguments */
#define CALLC(c) VM_Call(&vm, (c), 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
#define CALL0() CALLC(0)
static intptr_t h_syscall(vm_t* v, intptr_t* args);
static void load(void) { int r = VM_Create(&vm, "t.qvm", img, img_len, h_syscall); qs_check(r == 0, "a well-formed image loads"); if (r) qs_stop(); qs_check(err_n == 0, "no error on load"); }
static void load_bss(int bss) { mkimg(0, 0, 0, 0, bss); load(); }
static int32_t m32(int a) { return r32(vm.dataBase + a); }
#endif
