/* Force-included when dbgcv.c is compiled, with -funsigned-char: the same
 * treatment the project's test build gives it (uint_8* and char* are mixed). */
#include <inttype.h>
#define uint_8 char
