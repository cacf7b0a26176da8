# sourced by demo.sh, cwd = the repository: builds the assembler natively in a scratch directory $W
: ${XF=}
set -e
R=$PWD; W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf -- "$W"' EXIT
unset UASM JWASM ASM INCLUDE
mkdir "$W/shim" "$W/o"
cat > "$W/shim/direct.h" <<'X'
#ifndef DEMO_DIRECT_H
#define DEMO_DIRECT_H
#include <unistd.h>
#define _getcwd getcwd
#ifndef _MAX_PATH
#define _MAX_PATH 260
#endif
extern char *_pgmptr;
#endif
X
printf '#include <stddef.h>\n#include <stdint.h>\nchar *strupr(char *);\n' > "$W/shim/pre.h"
printf '#include <inttype.h>\n#define uint_8 char\n' > "$W/shim/cv.h"
printf 'char verif_pgm[] = "uasm";\nchar *_pgmptr = verif_pgm;\n' > "$W/shim/shim.c"
F="$XF -O1 -w -fcommon -std=gnu11 -D__UNIX__ -DNDEBUG -I$R/H -isystem $W/shim -include $W/shim/pre.h"
{ echo main; grep -o '\$(OUTD)/[A-Za-z0-9_]*\.o' "$R/gccmod.inc" | sed 's/.*\///; s/\.o$//'; } | sort -u |
 while read n; do [ -f "$R/$n.c" ] || continue
  x=; [ "$n" = dbgcv ] && x="-funsigned-char -include $W/shim/cv.h"
  echo "gcc $F $x -c $R/$n.c -o $W/o/$n.o"; done | xargs -P8 -I{} sh -c '{}'
gcc $XF "$W"/o/*.o "$W/shim/shim.c" -o "$W/uasm"
cd "$W"; set +e
asm() { timeout 20 ./uasm -q "$@" > out.txt 2>&1; }      # asm OPTIONS FILE
bytes() { od -An -tx1 -v "$1" | tr -d ' \n'; }
