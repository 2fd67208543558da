/* What the compiler hands to its code generator as an initial value. */
#include "c.h"
extern Interface bytecodeIR;
int cap_n, cap_size[8]; unsigned long cap_v[8];
static void defconst(int suffix, int size, Value v) { if (cap_n < 8) { cap_size[cap_n] = size; cap_v[cap_n++] = suffix == P ? (unsigned long)v.p : v.u; } }
void cap_on(void) { bytecodeIR.defconst = defconst; }
