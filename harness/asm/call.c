/* A06: assembled calls executed by the VM: parameters, locals and results survive, for all values. */
#include "asm.h"
static vm_t vm; static int32_t arg[4]; static int np, pick, keep;
intptr_t syscalls(vm_t* v, intptr_t* a) { (void)v; (void)a; return 0; }
static void post(int st) {
  qs_check(st == 0 && produced(), "program assembles"); if (!produced()) return;
  if (VM_Create(&vm, "x", outf->d, (int)outf->n, syscalls) != 0) { qs_fail("the VM loads the image"); return; }
  qs_fuel(200000); int32_t r = (int32_t)VM_Call(&vm, arg[0], arg[1], arg[2], arg[3]);
  qs_reach("returned"); qs_check(err_n == 0, "no error while running"); uint32_t g = (uint32_t)(pick < 4 ? arg[pick] : 1000 + pick);
  qs_check((uint32_t)r == (g ^ (uint32_t)arg[keep]), "result of the call combined with a local that was live across it"); }
void qs_main(void) {
  np = qs_param("np", 6); pick = qs_param("pick", 0); keep = qs_param("keep", 1); int gl = qs_param("gl", 12), ga = qs_param("ga", 8), l = qs_param("l", 16); post_fn = post;
  for (int i = 0; i < 4; i++) arg[i] = qs_i32("arg");
  t_s("code\nexport vmMain\nproc vmMain "); t_n(l); t_c(' '); t_n(4 * np); t_c('\n');
  for (int i = 0; i < 4; i++) { t_s("ADDRLP4 "); t_n(4 * i); t_s("\nADDRFP4 "); t_n(4 * i); t_s("\nINDIRI4\nASGNI4\n"); }
  for (int i = 0; i < np; i++) { if (i < 4) { t_s("ADDRLP4 "); t_n(4 * i); t_s("\nINDIRI4\nARGI4\n"); } else { t_s("CNSTI4 "); t_n(1000 + i); t_s("\nARGI4\n"); } }
  t_s("ADDRGP4 g\nCALLI4\nADDRLP4 "); t_n(4 * keep); t_s("\nINDIRI4\nBXORI4\nRETI4\nLABELV $1\nendproc vmMain 0 0\n");
  t_s("import h\nexport g\nproc g "); t_n(gl); t_c(' '); t_n(ga); t_c('\n');
  for (int i = 0; i < gl / 4; i++) { t_s("ADDRLP4 "); t_n(4 * i); t_s("\nCNSTI4 -1\nASGNI4\n"); }
  for (int i = 0; i < ga / 4; i++) t_s("CNSTI4 77\nARGI4\n");
  if (ga) t_s("ADDRGP4 h\nCALLV\npop\n");
  t_s("ADDRFP4 "); t_n(4 * pick); t_s("\nINDIRI4\nRETI4\nLABELV $2\nendproc g 0 0\nproc h 4 0\nADDRLP4 0\nADDRFP4 0\nINDIRI4\nASGNI4\nLABELV $3\nendproc h 0 0\n");
  in_file(); run_asm(0); }
