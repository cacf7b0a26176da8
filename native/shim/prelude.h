/* Force-included in every file of the native builds (see native/build.py).
 * Only declares what the MinGW headers declare and glibc does not. */
#ifndef VERIF_PRELUDE_H
#define VERIF_PRELUDE_H
#include <stddef.h>
#include <stdint.h>
char *strupr(char *);
#endif
