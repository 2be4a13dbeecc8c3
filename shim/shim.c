// Preloaded into the programs under simulation.
//
// Without PFPSIM_CTL in the environment it does nothing. With it, the constructor turns the process into a
// fork server: for every start message on the control socket it forks a child that gets the argument vector
// from the message and a private channel to the simulator. A seccomp filter, installed once in the server and
// inherited by the children, traps every system call made outside this library (except memory, signal and thread housekeeping) and forwards
// it over the channel; the simulator's answer becomes the result. The child thus sees no real file, terminal,
// clock or entropy, and runs only while the simulator lets it. Closing the channel kills the child at once.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

extern char __executable_start_of_shim[] __attribute__((weak));
extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_realloc(void *, size_t);

#define CHAN_FD 900
#define NR_REPORT 100000 // a secret was found in released memory
#define NR_HELLO 100001

static int active; // this process is a simulated child

// ---------------------------------------------------------------- raw system calls from this library's text
static inline __attribute__((always_inline)) long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
#define raw3(n, a, b, c) raw6(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)

static void die(void) {
    for (;;) raw3(SYS_exit_group, 99, 0, 0);
}

// ---------------------------------------------------------------- channel
struct req {
    uint32_t total; // bytes following this field
    uint32_t nr;
    uint64_t a[6];
    uint32_t n[2]; // blob lengths, 0xffffffff = null pointer
};
struct rep {
    int64_t ret;
    uint32_t n;
    uint32_t action;
};
static volatile int chan_lock;

static void chan_write(const struct iovec *iov_in, int cnt) {
    struct iovec iov[40];
    memcpy(iov, iov_in, sizeof(struct iovec) * cnt);
    struct iovec *p = iov;
    while (cnt > 0) {
        long r = raw3(SYS_writev, CHAN_FD, p, cnt);
        if (r == -EINTR) continue;
        if (r <= 0) die();
        while (cnt > 0 && r >= (long)p->iov_len) {
            r -= p->iov_len;
            p++;
            cnt--;
        }
        if (cnt > 0) {
            p->iov_base = (char *)p->iov_base + r;
            p->iov_len -= r;
        }
    }
}
static void chan_read(void *buf, size_t len) {
    char *p = buf;
    while (len) {
        long r = raw3(SYS_read, CHAN_FD, p, len);
        if (r == -EINTR) continue;
        if (r <= 0) die();
        p += r;
        len -= r;
    }
}

struct out {
    void *ptr;
    size_t cap;
};

// b: up to two input blobs; the reply's data is scattered over outs.
static void scan_idle(void);
static long rpc(uint32_t nr, const uint64_t *a, const struct iovec *b, int nb, const struct iovec *multi, int nmulti,
                const struct iovec *outs, int nouts) {
    while (__sync_lock_test_and_set(&chan_lock, 1)) raw3(SYS_sched_yield, 0, 0, 0);
    struct req q;
    q.nr = nr;
    for (int i = 0; i < 6; i++) q.a[i] = a ? a[i] : 0;
    q.n[0] = q.n[1] = 0;
    struct iovec iov[40];
    int cnt = 1;
    uint32_t total = sizeof(q) - 4;
    for (int i = 0; i < nb; i++) {
        if (!b[i].iov_base) {
            q.n[i] = 0xffffffffu;
            continue;
        }
        q.n[i] = b[i].iov_len;
        total += b[i].iov_len;
        iov[cnt++] = b[i];
    }
    for (int i = 0; i < nmulti && cnt < 40; i++) {
        q.n[0] += multi[i].iov_len;
        total += multi[i].iov_len;
        iov[cnt++] = multi[i];
    }
    q.total = total;
    iov[0].iov_base = &q;
    iov[0].iov_len = sizeof(q);
    chan_write(iov, cnt);
    struct rep r;
    chan_read(&r, sizeof(r));
    size_t left = r.n;
    for (int i = 0; i < nouts && left; i++) {
        size_t k = outs[i].iov_len < left ? outs[i].iov_len : left;
        chan_read(outs[i].iov_base, k);
        left -= k;
    }
    while (left) {
        char sink[256];
        size_t k = left < sizeof(sink) ? left : sizeof(sink);
        chan_read(sink, k);
        left -= k;
    }
    __sync_lock_release(&chan_lock);
    if (r.action) scan_idle();
    return r.ret;
}

// ---------------------------------------------------------------- dispatch
static struct iovec path_blob(uint64_t p) {
    struct iovec v = {(void *)p, p ? strlen((const char *)p) : 0};
    return v;
}
static struct iovec buf_blob(uint64_t p, size_t len) {
    struct iovec v = {(void *)p, p ? len : 0};
    return v;
}

static long rpc_paths(uint32_t nr, const uint64_t *a, int p1, int p2, int outp, size_t outcap) {
    struct iovec in[2];
    int n = 0;
    in[n++] = path_blob(a[p1]);
    if (p2 >= 0) in[n++] = path_blob(a[p2]);
    struct iovec out = {outp >= 0 ? (void *)a[outp] : 0, outcap};
    return rpc(nr, a, in, n, 0, 0, &out, outp >= 0 && a[outp] ? 1 : 0);
}
static long rpc_out(uint32_t nr, const uint64_t *a, int outp, size_t cap) {
    struct iovec out = {(void *)a[outp], cap};
    return rpc(nr, a, 0, 0, 0, 0, &out, a[outp] ? 1 : 0);
}
static long rpc_in(uint32_t nr, const uint64_t *a, int inp, size_t len) {
    struct iovec in = buf_blob(a[inp], len);
    return rpc(nr, a, &in, 1, 0, 0, 0, 0);
}

// ---------------------------------------------------------------- released memory
#define MAX_NEEDLES 64
static int n_needles;
static const unsigned char *needle[MAX_NEEDLES];
static uint32_t needle_len[MAX_NEEDLES];
static unsigned char *heap_start;

// Reports the secrets in a piece of memory and wipes them, so that each copy is reported once.
static void scan(unsigned char *p, size_t n, int where) {
    for (int i = 0; i < n_needles; i++) {
        size_t k = needle_len[i], left = n;
        unsigned char *q = p, *hit;
        while (left >= k && (hit = memmem(q, left, needle[i], k))) {
            size_t off = hit - p, lo = off < 48 ? 0 : off - 48, len = n - lo < 160 ? n - lo : 160;
            uint64_t a[6] = {(uint64_t)i, n, off, (uint64_t)where, 0, 0};
            struct iovec v = {p + lo, len};
            rpc(NR_REPORT, a, &v, 1, 0, 0, 0, 0);
            if (where == 3) memset(hit, 0, k);
            q = hit + k;
            left = n - (q - p);
        }
    }
}
static void scan_heap(int where) {
    unsigned char *end = (unsigned char *)raw3(SYS_brk, 0, 0, 0);
    if (n_needles && heap_start && end > heap_start) scan(heap_start, end - heap_start, where);
}
// between two commands
static void scan_idle(void) { scan_heap(4); }
static long forward(uint32_t nr, const uint64_t *a) {
    switch (nr) {
    case SYS_open: case SYS_creat: case SYS_access: case SYS_mkdir: case SYS_rmdir: case SYS_unlink: case SYS_chmod:
    case SYS_chown: case SYS_lchown: case SYS_truncate: case SYS_chdir: case SYS_mknod:
        return rpc_paths(nr, a, 0, -1, -1, 0);
    case SYS_openat: case SYS_faccessat: case 439 /*faccessat2*/: case SYS_mkdirat: case SYS_unlinkat:
    case SYS_fchmodat: case SYS_fchownat: case SYS_mknodat: case 452 /*fchmodat2*/:
        return rpc_paths(nr, a, 1, -1, -1, 0);
    case 437 /*openat2*/: {
        struct iovec in[2] = {path_blob(a[1]), buf_blob(a[2], a[3])};
        return rpc(nr, a, in, 2, 0, 0, 0, 0);
    }
    case SYS_rename: case SYS_link: case SYS_symlink:
        return rpc_paths(nr, a, 0, 1, -1, 0);
    case SYS_renameat: case SYS_renameat2: case SYS_linkat:
        return rpc_paths(nr, a, 1, 3, -1, 0);
    case SYS_symlinkat:
        return rpc_paths(nr, a, 0, 2, -1, 0);
    case SYS_stat: case SYS_lstat:
        return rpc_paths(nr, a, 0, -1, 1, 144);
    case SYS_newfstatat:
        return rpc_paths(nr, a, 1, -1, 2, 144);
    case SYS_fstat:
        return rpc_out(nr, a, 1, 144);
    case SYS_statx:
        return rpc_paths(nr, a, 1, -1, 4, 256);
    case SYS_statfs:
        return rpc_paths(nr, a, 0, -1, 1, 120);
    case SYS_fstatfs:
        return rpc_out(nr, a, 1, 120);
    case SYS_readlink:
        return rpc_paths(nr, a, 0, -1, 1, a[2]);
    case SYS_readlinkat:
        return rpc_paths(nr, a, 1, -1, 2, a[3]);
    case SYS_utimensat: {
        struct iovec in[2] = {path_blob(a[1]), buf_blob(a[2], 32)};
        return rpc(nr, a, in, 2, 0, 0, 0, 0);
    }
    case SYS_read: case SYS_pread64: case SYS_getdents64:
        return rpc_out(nr, a, 1, a[2]);
    case SYS_getrandom:
        return rpc_out(nr, a, 0, a[1]);
    case SYS_getcwd:
        return rpc_out(nr, a, 0, a[1]);
    case SYS_readv: case SYS_preadv: case 327 /*preadv2*/: {
        const struct iovec *v = (const struct iovec *)a[1];
        return rpc(nr, a, 0, 0, 0, 0, v, (int)a[2]);
    }
    case SYS_write: case SYS_pwrite64:
        return rpc_in(nr, a, 1, a[2]);
    case SYS_writev: case SYS_pwritev: case 328 /*pwritev2*/: {
        const struct iovec *v = (const struct iovec *)a[1];
        int n = (int)a[2] > 32 ? 32 : (int)a[2];
        return rpc(nr, a, 0, 0, v, n, 0, 0);
    }
    case SYS_clock_gettime: case SYS_clock_getres: case SYS_gettimeofday: {
        int o = nr == SYS_gettimeofday ? 0 : 1;
        return rpc_out(nr, a, o, 16);
    }
    case SYS_nanosleep:
        return rpc_in(nr, a, 0, 16);
    case SYS_clock_nanosleep:
        return rpc_in(nr, a, 2, 16);
    case SYS_ioctl:
        switch ((uint32_t)a[1]) {
        case 0x5401: return rpc_out(nr, a, 2, 36);            // TCGETS
        case 0x802c542a: return rpc_out(nr, a, 2, 44);        // TCGETS2
        case 0x5402: case 0x5403: case 0x5404: return rpc_in(nr, a, 2, 36); // TCSETS*
        case 0x402c542b: case 0x402c542c: case 0x402c542d: return rpc_in(nr, a, 2, 44);
        case 0x5413: return rpc_out(nr, a, 2, 8);             // TIOCGWINSZ
        case 0x541b: return rpc_out(nr, a, 2, 4);             // FIONREAD
        default: return rpc(nr, a, 0, 0, 0, 0, 0, 0);
        }
    case SYS_poll: case SYS_ppoll: {
        struct iovec in = buf_blob(a[0], a[1] * sizeof(struct pollfd));
        struct iovec out = in;
        return rpc(nr, a, &in, 1, 0, 0, &out, in.iov_base ? 1 : 0);
    }
    case SYS_pipe: case SYS_pipe2:
        return rpc_out(nr, a, 0, 8);
    case SYS_sendfile: case 326 /*copy_file_range*/: {
        // offsets: passed as null or by value in blobs
        int o1 = nr == SYS_sendfile ? 2 : 1, o2 = nr == SYS_sendfile ? 2 : 3;
        struct iovec in[2] = {buf_blob(a[o1], 8), buf_blob(a[o2], 8)};
        return rpc(nr, a, in, 2, 0, 0, 0, 0);
    }
    case SYS_tgkill: case SYS_tkill: case SYS_kill: {
        rpc(nr, a, 0, 0, 0, 0, 0, 0);
        long pid = raw3(SYS_getpid, 0, 0, 0), tid = raw3(SYS_gettid, 0, 0, 0);
        long sig = nr == SYS_tgkill ? (long)a[2] : (long)a[1];
        return raw3(SYS_tgkill, pid, tid, sig);
    }
    case SYS_exit_group:
        scan_heap(3);
        rpc(nr, a, 0, 0, 0, 0, 0, 0);
        for (;;) raw3(SYS_exit_group, a[0], 0, 0);
    case SYS_fork: case SYS_vfork: case SYS_execve: case SYS_execveat: case SYS_ptrace:
        rpc(nr, a, 0, 0, 0, 0, 0, 0);
        return -EPERM;
    case SYS_mmap:
        rpc(nr, a, 0, 0, 0, 0, 0, 0);
        return -ENODEV;
    default:
        // scalar arguments only: close, lseek, fsync, dup, fcntl, flock, getpid, getuid, umask, ...
        return rpc(nr, a, 0, 0, 0, 0, 0, 0);
    }
}

static void on_sigsys(int sig, siginfo_t *info, void *ucp) {
    ucontext_t *uc = ucp;
    greg_t *g = uc->uc_mcontext.gregs;
    int saved = errno;
    uint64_t a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
    (void)sig;
    g[REG_RAX] = forward((uint32_t)info->si_syscall, a);
    errno = saved;
}

// ---------------------------------------------------------------- vDSO clocks
static long clk(uint32_t nr, uint64_t a0, uint64_t a1, int outp) {
    uint64_t a[6] = {a0, a1, 0, 0, 0, 0};
    return rpc_out(nr, a, outp, 16);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    long r = active ? clk(SYS_clock_gettime, c, (uint64_t)ts, 1) : raw3(SYS_clock_gettime, c, ts, 0);
    if (r < 0) {
        errno = -r;
        return -1;
    }
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    long r = active ? clk(SYS_gettimeofday, (uint64_t)tv, 0, 0) : raw3(SYS_gettimeofday, tv, tz, 0);
    if (r < 0) {
        errno = -r;
        return -1;
    }
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts = {0, 0};
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

void free(void *p) {
    if (active && n_needles && p) {
        size_t n = malloc_usable_size(p);
        scan(p, n, 1);
        // what is left in it was reported
        memset(p, 0, n);
    }
    __libc_free(p);
}
void *realloc(void *p, size_t n) {
    if (!(active && n_needles && p && n)) return __libc_realloc(p, n);
    // always move, so that the old block is released and scanned
    size_t old = malloc_usable_size(p);
    void *q = __libc_malloc(n);
    if (!q) return 0;
    memcpy(q, p, old < n ? old : n);
    scan(p, old, 2);
    memset(p, 0, old);
    __libc_free(p);
    return q;
}

// ---------------------------------------------------------------- fork server
static void zread(int fd, void *buf, size_t len) {
    char *p = buf;
    while (len) {
        long r = raw3(SYS_read, fd, p, len);
        if (r == -EINTR) continue;
        if (r <= 0) die();
        p += r;
        len -= r;
    }
}

static void install_filter(void) {
    Dl_info di;
    // text range of this library: from /proc/self/maps-free bounds given by the linker
    extern char __ehdr_start[] __attribute__((visibility("hidden")));
    extern char etext[] __attribute__((weak, visibility("hidden")));
    (void)di;
    uint64_t lo = (uint64_t)__ehdr_start, hi = (uint64_t)&raw6;
    (void)hi;
    hi = (uint64_t)etext;
    if (!hi || hi < lo) die();
    // allow the whole 32-bit-low window only if both bounds share the high word
    uint32_t H = lo >> 32, L0 = (uint32_t)lo, L1 = (uint32_t)hi;
    if ((hi >> 32) != H) die();
    static const uint16_t allow[] = {
        SYS_mprotect, SYS_munmap, SYS_brk, SYS_rt_sigaction, SYS_rt_sigprocmask, SYS_rt_sigreturn, SYS_mremap,
        SYS_madvise, SYS_clone, 435 /*clone3*/, SYS_exit, SYS_futex, SYS_sched_yield, SYS_sched_getaffinity,
        SYS_set_tid_address, SYS_set_robust_list, 334 /*rseq*/, SYS_sigaltstack, SYS_arch_prctl, SYS_gettid,
        324 /*membarrier*/, SYS_prctl, SYS_prlimit64, SYS_getrlimit, SYS_uname, SYS_mlock, SYS_munlock,
        SYS_restart_syscall};
    enum { NA = sizeof(allow) / sizeof(allow[0]) };
    struct sock_filter f[16 + NA];
    int n = 0;
#define LD(off) f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, off)
    LD(offsetof(struct seccomp_data, instruction_pointer) + 4);
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, H, 0, 4);
    LD(offsetof(struct seccomp_data, instruction_pointer));
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, L0, 0, 2);
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, L1, 1, 0);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    LD(offsetof(struct seccomp_data, nr));
    // anonymous mmap
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_mmap, 0, 4);
    LD(offsetof(struct seccomp_data, args[3]));
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, MAP_ANONYMOUS, 0, 1);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    for (int i = 0; i < NA; i++) f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, allow[i], NA - i, 0);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    struct sock_fprog prog = {n, f};
    if (raw6(SYS_prctl, PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0, 0) < 0) die();
    if (raw6(SYS_prctl, PR_SET_SECCOMP, SECCOMP_MODE_FILTER, (long)&prog, 0, 0, 0) < 0) die();
}

// start message: u32 total, u32 argc, u32 n_needles, u32 flags, then argc (u32 len, bytes), n_needles (u32 len, bytes)
static void become_child(int fd, unsigned char *msg, char **argv, int argc_max) {
    if (fd != CHAN_FD) {
        raw3(SYS_dup2, fd, CHAN_FD, 0);
        raw3(SYS_close, fd, 0, 0);
    }
    uint32_t argc = *(uint32_t *)(msg), nn = *(uint32_t *)(msg + 4);
    unsigned char *p = msg + 12;
    if ((int)argc > argc_max) die();
    for (uint32_t i = 0; i < argc; i++) {
        uint32_t l = *(uint32_t *)p;
        // layout: len, bytes, NUL
        argv[i] = (char *)(p + 4);
        p += 4 + l + 1;
        p = msg + ((p - msg + 3) & ~3ul);
    }
    argv[argc] = 0;
    for (uint32_t i = 0; i < nn && i < MAX_NEEDLES; i++) {
        needle_len[i] = *(uint32_t *)p;
        needle[i] = p + 4;
        p += 4 + needle_len[i];
        p = msg + ((p - msg + 3) & ~3ul);
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = on_sigsys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, 0);
    signal(SIGCHLD, SIG_DFL);
    active = 1;
    n_needles = nn < MAX_NEEDLES ? nn : MAX_NEEDLES;
    rpc(NR_HELLO, 0, 0, 0, 0, 0, 0, 0);
}

static void server(int ctl, char **argv, int argc_max) {
    signal(SIGCHLD, SIG_IGN);
    for (;;) {
        uint32_t total = 0;
        char cbuf[CMSG_SPACE(sizeof(int))];
        struct iovec iov = {&total, 4};
        struct msghdr mh;
        memset(&mh, 0, sizeof(mh));
        mh.msg_iov = &iov;
        mh.msg_iovlen = 1;
        mh.msg_control = cbuf;
        mh.msg_controllen = sizeof(cbuf);
        long r = raw3(SYS_recvmsg, ctl, &mh, 0);
        if (r == -EINTR) continue;
        if (r != 4) die();
        struct cmsghdr *c = CMSG_FIRSTHDR(&mh);
        if (!c || c->cmsg_type != SCM_RIGHTS) die();
        int fd;
        memcpy(&fd, CMSG_DATA(c), sizeof(int));
        unsigned char *msg = (unsigned char *)raw6(SYS_mmap, 0, total + 16, PROT_READ | PROT_WRITE,
                                                   MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        zread(ctl, msg, total);
        pid_t pid = fork();
        if (pid == 0) {
            raw3(SYS_close, ctl, 0, 0);
            become_child(fd, msg, argv, argc_max);
            return;
        }
        raw3(SYS_close, fd, 0, 0);
        raw3(SYS_munmap, msg, total + 16, 0);
    }
}

__attribute__((constructor)) static void start(int argc, char **argv, char **envp) {
    (void)envp;
    const char *s = getenv("PFPSIM_CTL");
    if (!s) return;
    int ctl = atoi(s);
    heap_start = sbrk(0);
    FILE *f = fopen("/proc/self/maps", "r");
    if (f) {
        char line[512];
        while (fgets(line, sizeof(line), f)) {
            if (strstr(line, "[heap]")) heap_start = (unsigned char *)strtoull(line, 0, 16);
        }
        fclose(f);
    }
    unsetenv("PFPSIM_CTL");
    unsetenv("LD_PRELOAD");
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    // One filter for all processes started from here: it is inherited. (A filter per process means a BPF program
    // compiled and freed per process, and freeing hundreds of them at a time can deadlock the kernel's BPF
    // allocator.) What the server itself does is allowed: its own system calls are made from this library's text,
    // fork() and sigaction() are on the list.
    install_filter();
    server(ctl, argv, argc - 1);
}
