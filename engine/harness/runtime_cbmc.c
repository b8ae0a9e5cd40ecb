/* Contracts of the C run time (install/init/runtime.c), checked with CBMC from an arbitrary state (--nondet-static): no loops, all inputs. */
#include <stdint.h>
#include <stdio.h>
#include <errno.h>
#include "shared.h"
intptr_t getBlocks(void); void setBlocks(intptr_t); void setStackBase(intptr_t); int isStackBase(intptr_t);
intptr_t getRuntime(void); void setRuntime(intptr_t); int errnum(void); void debug(char *, char *, ...);
intptr_t nondet_ptr(void); int nondet_int(void);

/* the state as the library observes it: block list, run time, and whether probe is the stack base */
static intptr_t b0, r0, probe; static int s0;
static void observe(void) { b0 = getBlocks(); r0 = getRuntime(); probe = nondet_ptr(); s0 = isStackBase(probe); }
#define B __CPROVER_assert(getBlocks() == b0, "leaves the block list alone")
#define R __CPROVER_assert(getRuntime() == r0, "leaves the run time alone")
#define S __CPROVER_assert(isStackBase(probe) == s0, "leaves the stack base alone")
void h_get(void) { observe(); __CPROVER_assert(getBlocks() == b0, "getBlocks is stable"); __CPROVER_assert(getRuntime() == r0, "getRuntime is stable");
  __CPROVER_assert(s0 == 0 || s0 == 1, "isStackBase is a boolean"); S; B; R; }
void h_setBlocks(void) { intptr_t x = nondet_ptr(); observe(); setBlocks(x); __CPROVER_assert(getBlocks() == x, "setBlocks sets the block list"); R; S; }
void h_setRuntime(void) { intptr_t x = nondet_ptr(); observe(); setRuntime(x); __CPROVER_assert(getRuntime() == x, "setRuntime sets the run time"); B; S; }
void h_setStackBase(void) { intptr_t x = nondet_ptr(), y = nondet_ptr(); observe(); setStackBase(x); __CPROVER_assert(isStackBase(y) == (x == y), "isStackBase tells exactly the base"); B; R; }
void h_errnum(void) { observe(); int e = nondet_int(); errno = e; __CPROVER_assert(errnum() == e, "errnum is errno"); B; R; S; }
void h_debug(void) { observe(); debugGc = 0; debug("gc", "x"); B; R; S; __CPROVER_assert(debugGc == 0, "debug leaves the flag alone"); }
