/* LD_PRELOAD library for C24: every stream the assembler opens becomes a stdio stream over a cookie, so that buffering
 * and error reporting are the C library's own while the system calls below can be made to fail.
 * FAULT=<index of the fopen call>:<o|r|w|c>:<bytes before the failure>:<errno>:<0 persistent|1 once>
 * FAULTLOG=<file>: one line for every open, close and injected failure. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/stat.h>
struct ck { int fd, idx, hit; long nr, nw; FILE *f; };
#define IS(c) ((c)->idx == ftgt || ftgt == -2) /* -2: a full disk, every file */
static long all;
static struct ck *tab[4096]; static int nopen = -1, ftgt = -1, ferr, fonce; static char fkind; static long fat; static int logfd = -1; static FILE *(*ropen)(const char *, const char *);
static void say(const char *fmt, ...) { char b[1200]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a); if (logfd >= 0 && write(logfd, b, n)) ; }
static void init(void) {
    if (nopen >= 0) return; nopen = 0;
    char *p = getenv("FAULTLOG"); if (p) logfd = open(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    p = getenv("FAULT"); if (p) sscanf(p, "%d:%c:%ld:%d:%d", &ftgt, &fkind, &fat, &ferr, &fonce);
    ropen = dlsym(RTLD_NEXT, "fopen");
}
static ssize_t rd(void *v, char *b, size_t n) {
    struct ck *c = v;
    if (c->idx == ftgt && fkind == 'r' && c->nr + (long)n > fat && !(c->hit && fonce == 1)) {
        if (c->nr < fat) n = fat - c->nr; else { if (!c->hit++) say("hit read %d\n", c->idx); errno = ferr; return -1; }
    }
    ssize_t k = read(c->fd, b, n); if (k > 0) c->nr += k; return k;
}
static ssize_t wr(void *v, const char *b, size_t n) {
    struct ck *c = v;
    if (IS(c) && fkind == 'w' && (ftgt == -2 ? all : c->nw) + (long)n > fat && !(c->hit && fonce)) {
        if ((ftgt == -2 ? all : c->nw) < fat) n = fat - (ftgt == -2 ? all : c->nw);
        else { if (!c->hit++) say("hit write %d\n", c->idx); errno = ferr; return 0; }
    }
    ssize_t k = write(c->fd, b, n); if (k > 0) c->nw += k, all += k; else k = 0; return k;
}
static int sk(void *v, off64_t *o, int w) {
    struct ck *c = v;
    off64_t r = lseek64(c->fd, *o, w); if (r < 0) return -1; *o = r; return 0;
}
static int cl(void *v) {
    struct ck *c = v; int r = close(c->fd); say("close %d r=%ld w=%ld\n", c->idx, c->nr, c->nw); tab[c->idx] = 0;
    if (c->idx == ftgt && fkind == 'c') { say("hit close %d\n", c->idx); errno = ferr; r = -1; }
    return r;
}
FILE *fopen(const char *path, const char *mode) {
    init(); int i = nopen++;
    if (i >= 4096) return ropen(path, mode);
    if (i == ftgt && fkind == 'o') { say("hit open %d %s\n", i, path); errno = ferr; return NULL; }
    int fl = mode[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND); if (strchr(mode, '+')) fl = (fl & ~3) | O_RDWR;
    int fd = open(path, fl, 0666); say("open %d %c %d %s\n", i, mode[0], fd < 0 ? -errno : 0, path);
    if (fd < 0) return NULL;
    struct ck *c = calloc(1, sizeof *c); c->fd = fd; c->idx = i; tab[i] = c;
    cookie_io_functions_t io = { rd, wr, sk, cl };
    return c->f = fopencookie(c, mode, io);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int fileno(FILE *f) { for (int i = 0; i < 4096; i++) if (tab[i] && tab[i]->f == f) return tab[i]->fd; return f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : -1; }
