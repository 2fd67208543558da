/* A01: every mnemonic with every operand value is encoded as the VM decodes it. */
#include "asm.h"
/* operand: 0 none written, 1 32-bit value, 2 none and ignored by the assembler, 3 block size (rounded up to 4), 4 conversion width 1, 5 conversion width 2, 6 width operand that is dropped, 7 ignored with width */
static const struct { const char* n; int op, k; } M[] = {
  { "BREAK", BREAK, 0 },
  { "CNSTF4", CONST, 1 }, { "CNSTI4", CONST, 1 }, { "CNSTP4", CONST, 1 }, { "CNSTU4", CONST, 1 }, { "CNSTI2", CONST, 1 }, { "CNSTU2", CONST, 1 }, { "CNSTI1", CONST, 1 }, { "CNSTU1", CONST, 1 }, { "ADDRGP4", CONST, 1 },
  { "EQF4", EQF, 1 }, { "EQI4", EQ, 1 }, { "EQU4", EQ, 1 }, { "GEF4", GEF, 1 }, { "GEI4", GEI, 1 }, { "GEU4", GEU, 1 }, { "GTF4", GTF, 1 }, { "GTI4", GTI, 1 }, { "GTU4", GTU, 1 }, { "LEF4", LEF, 1 }, { "LEI4", LEI, 1 }, { "LEU4", LEU, 1 }, { "LTF4", LTF, 1 }, { "LTI4", LTI, 1 }, { "LTU4", LTU, 1 }, { "NEF4", NEF, 1 }, { "NEI4", NE, 1 }, { "NEU4", NE, 1 },
  { "ASGNB", BLOCK_COPY, 3 },
  { "ASGNF4", STORE4, 0 }, { "ASGNI4", STORE4, 0 }, { "ASGNP4", STORE4, 0 }, { "ASGNU4", STORE4, 0 }, { "ASGNI2", STORE2, 0 }, { "ASGNU2", STORE2, 0 }, { "ASGNI1", STORE1, 0 }, { "ASGNU1", STORE1, 0 },
  { "INDIRB", 0, 2 }, { "INDIRF4", LOAD4, 0 }, { "INDIRI4", LOAD4, 0 }, { "INDIRP4", LOAD4, 0 }, { "INDIRU4", LOAD4, 0 }, { "INDIRI2", LOAD2, 0 }, { "INDIRU2", LOAD2, 0 }, { "INDIRI1", LOAD1, 0 }, { "INDIRU1", LOAD1, 0 },
  { "CVFI4", CVFI, 6 }, { "CVIF4", CVIF, 6 }, { "CVII4", SEX8, 4 }, { "CVII4", SEX16, 5 },
  { "CVII1", 0, 7 }, { "CVII2", 0, 7 }, { "CVIU4", 0, 7 }, { "CVPU4", 0, 7 }, { "CVUI4", 0, 7 }, { "CVUP4", 0, 7 }, { "CVUU4", 0, 7 }, { "CVUU1", 0, 7 }, { "CVUU2", 0, 7 },
  { "NEGF4", NEGF, 0 }, { "NEGI4", NEGI, 0 }, { "ADDF4", ADDF, 0 }, { "ADDI4", ADD, 0 }, { "ADDP4", ADD, 0 }, { "ADDU4", ADD, 0 }, { "SUBF4", SUBF, 0 }, { "SUBI4", SUB, 0 }, { "SUBP4", SUB, 0 }, { "SUBU4", SUB, 0 }, { "LSHI4", LSH, 0 }, { "LSHU4", LSH, 0 }, { "MODI4", MODI, 0 }, { "MODU4", MODU, 0 }, { "RSHI4", RSHI, 0 }, { "RSHU4", RSHU, 0 }, { "BANDI4", BAND, 0 }, { "BANDU4", BAND, 0 }, { "BCOMI4", BCOM, 0 }, { "BCOMU4", BCOM, 0 }, { "BORI4", BOR, 0 }, { "BORU4", BOR, 0 }, { "BXORI4", BXOR, 0 }, { "BXORU4", BXOR, 0 }, { "DIVF4", DIVF, 0 }, { "DIVI4", DIVI, 0 }, { "DIVU4", DIVU, 0 }, { "MULF4", MULF, 0 }, { "MULI4", MULI, 0 }, { "MULU4", MULU, 0 },
  { "JUMPV", JUMP, 0 },
  /* handled outside the table */
  { "pop", POP, 0 }, { "CALLV", CALL, 0 }, { "CALLI4", CALL, 0 }, { "CALLU4", CALL, 0 }, { "CALLF4", CALL, 0 }, { "CALLP4", CALL, 0 }, { "CALLB", CALL, 0 },
};
#define NM ((int)(sizeof M / sizeof M[0]))
static void insn(int k, int digits, int neg) {
  t_s(M[k].n);
  uint64_t v = 0;
  switch (M[k].k) {
  case 0: i0(M[k].op); break;
  case 1: case 3: t_ws("blank"); if (neg) t_c('-'); v = t_digits(digits, "operand"); if (neg) v = -v; if (M[k].k == 3) v = (v + 3) & ~3u; i4(M[k].op, (uint32_t)v); break;
  case 2: break;
  case 4: t_s(" 1"); i0(M[k].op); break;
  case 5: t_s(" 2"); i0(M[k].op); break;
  case 6: t_s(" 4"); i0(M[k].op); break;
  case 7: t_s(k & 1 ? " 1" : " 4"); break; }
  t_c('\n'); }
static void post(int st) { check_image(st); }
void qs_main(void) {
  int lo = qs_param("lo", 0), hi = qs_param("hi", NM - 1), digits = qs_param("digits", 10), all = qs_param("all", 0), neg = qs_param("neg", 0);
  post_fn = post; xd = 4;
  t_s("code\nproc f 4 8\n"); i4(ENTER, 20);
  if (hi >= NM) hi = NM - 1;
  if (all) { for (int k = lo; k <= hi; k++) insn(k, k == lo + (hi - lo) / 2 ? digits : 1 + k % 3, neg && (k - lo) % 7 == 0); }
  else { int a = qs_param("one", -1); if (a < 0) a = lo + qs_select(hi - lo + 1, "first"); insn(a, digits, neg); insn(lo + qs_select(hi - lo + 1, "second"), 2, 0); }
  t_s("endproc f 4 8\n"); i0(PUSH); i4(LEAVE, 20);
  in_file(); run_asm(0); }
