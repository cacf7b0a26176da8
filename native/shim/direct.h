/* Native-build stand-in for the Windows <direct.h> that dbgcv.c includes. */
#ifndef VERIF_DIRECT_H
#define VERIF_DIRECT_H
#include <unistd.h>
#define _getcwd getcwd
#ifndef _MAX_PATH
#define _MAX_PATH 260
#endif
extern char *_pgmptr;
#endif
