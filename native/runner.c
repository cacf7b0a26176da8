/* runner 32|64 IMAGE BASE OUTSIZE: loads a flat image at BASE and calls its first byte with
   edi/rdi = output buffer; writes what lies between the buffer and the returned address (eax/rax).
   The image may only write to memory: seccomp's strict mode ends the process on any system call
   but write/exit; an alarm ends endless loops. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/resource.h>
unsigned char *out; unsigned long outsize, base;
/* with a fifth argument the image is single-stepped: the 8 bytes at BASE+8 are the address of a function
   (Microsoft convention) called with the general registers (gregset_t) and the FXSAVE area before each instruction */
#include <ucontext.h>
void (__attribute__((ms_abi)) *hook)(void *, void *);
unsigned long tf; int hook_in;
static void trap(int s, siginfo_t *i, void *u)
{
    ucontext_t *c = u; unsigned long pc = c->uc_mcontext.gregs[REG_RIP];
    if (pc < base || pc >= base + (64 << 20)) { if (hook_in) c->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
    hook_in = 1; hook(c->uc_mcontext.gregs, c->uc_mcontext.fpregs);
}
static void die(const char *s){ perror(s); _exit(99); }
volatile unsigned long save_rsp, save_rbp, top, r;
struct { unsigned off; unsigned short sel; } __attribute__((packed)) fp;
int main(int c, char **v)
{
    if (c < 5) return 98;
    base = strtoul(v[3], 0, 0); outsize = strtoul(v[4], 0, 0);
    unsigned char *p = mmap((void *)base, 64 << 20, PROT_READ|PROT_WRITE|PROT_EXEC, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)base) die("mmap image");
    unsigned char *stk = mmap((void *)0x0e000000, 4 << 20, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE, -1, 0);
    if (stk != (void *)0x0e000000) die("mmap stack");
    out = mmap((void *)0x20000000, outsize + 65536, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE, -1, 0);
    if (out != (void *)0x20000000) die("mmap out");
    int fd = open(v[2], O_RDONLY); if (fd < 0) die(v[2]);
    long n = 0, k; while ((k = read(fd, p + n, 1 << 20)) > 0) n += k;
    close(fd);
    struct rlimit rl = { 10, 10 }; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    alarm(20);
    if (c > 5) {
        static unsigned char alt[1 << 18]; stack_t ss = { alt, 0, sizeof alt }; sigaltstack(&ss, 0);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &sa, 0);
        hook = *(void **)(p + 8); tf = 0x100;
    }
    if (prctl(PR_SET_SECCOMP, 1, 0, 0, 0)) die("seccomp");
    top = (unsigned long)stk + (3 << 20);
    if (v[1][0] == '6') {
        __asm__ volatile("movq %%rsp, save_rsp\n\t movq %%rbp, save_rbp\n\t movq top, %%rsp\n\t movq out, %%rdi\n\t movq base, %%rax\n\t pushfq\n\t movq tf, %%rcx\n\t orq %%rcx, (%%rsp)\n\t popfq\n\t call *%%rax\n\t"
            "movq save_rsp, %%rsp\n\t movq save_rbp, %%rbp\n\t cld\n\t movq %%rax, r" ::: "rax","rbx","rcx","rdx","rsi","rdi","r8","r9","r10","r11","r12","r13","r14","r15","memory","cc");
    } else {
        /* a far-call thunk, in low memory, at the end of the image */
        static const unsigned char t32[] = { 0xbf,0,0,0,0x20, 0xb8,0,0,0,0, 0xff,0xd0, 0xcb };  /* mov edi,out; mov eax,base; call eax; retf */
        unsigned char *t = p + (63 << 20); memcpy(t, t32, sizeof t32); *(unsigned *)(t + 6) = (unsigned)base;
        fp.off = (unsigned)(unsigned long)t; fp.sel = 0x23;
        __asm__ volatile("movq %%rsp, save_rsp\n\t movq %%rbp, save_rbp\n\t movq top, %%rsp\n\t movl $0x2b, %%ecx\n\t movl %%ecx, %%ds\n\t movl %%ecx, %%es\n\t lcall *fp\n\t"
            "movq save_rsp, %%rsp\n\t movq save_rbp, %%rbp\n\t cld\n\t movq %%rax, r" ::: "rax","rbx","rcx","rdx","rsi","rdi","r8","r9","r10","r11","r12","r13","r14","r15","memory","cc");
        r = (unsigned)r;
    }
    unsigned long len = r - (unsigned long)out;
    if (r < (unsigned long)out || len > outsize) { static const char m[] = "bad result\n"; write(2, m, sizeof m - 1); syscall(SYS_exit, 97); }
    for (unsigned long d = 0; d < len; ) { long w = write(1, out + d, len - d); if (w <= 0) break; d += w; }
    syscall(SYS_exit, 0);
}
