/* The portable build of the interpreter: as a compiler that does not define __GNUC__ sees it. */
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#undef __GNUC__
#include "src/vm/vm.c"
