/* Faults, for use with LD_PRELOAD. All of them are confined to what HOOK_PATH names. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#define REAL(n) static __typeof__(n) *real; if (!real) real = (__typeof__(n) *)dlsym(RTLD_NEXT, #n)

static int env(const char *n) { const char *v = getenv(n); return v ? atoi(v) : 0; }

/* KILL_AFTER=n: the process is killed right after the n-th time that the storage file is replaced */
int rename(const char *a, const char *b)
{
    REAL(rename);
    static int n;
    int r = real(a, b);
    if (!r && env("KILL_AFTER") && !strcmp(b, getenv("HOOK_PATH")) && ++n == env("KILL_AFTER"))
        kill(getpid(), SIGKILL);
    return r;
}

/* SHORT=n: no more than n bytes are read at a time from regular files */
ssize_t read(int fd, void *buf, size_t len)
{
    REAL(read);
    struct stat st;
    int n = env("SHORT");
    if (n && len > n && !fstat(fd, &st) && S_ISREG(st.st_mode))
        len = n;
    return real(fd, buf, len);
}

/* SWAP=file: that file takes the place of the storage file after the latter's first stat by path */
int statx(int dir, const char *path, int flags, unsigned mask, struct statx *st)
{
    REAL(statx);
    static int done;
    int r = real(dir, path, flags, mask, st);
    if (!r && !done && getenv("SWAP") && path && !strcmp(path, getenv("HOOK_PATH"))) {
        done = 1;
        syscall(SYS_rename, getenv("SWAP"), path);
    }
    return r;
}

/* NO_ENTROPY=n: no randomness for requests of n bytes */
long syscall(long nr, ...)
{
    static long (*real)(long, ...);
    if (!real) real = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
    va_list v;
    va_start(v, nr);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
    va_end(v);
    if (nr == SYS_getrandom && env("NO_ENTROPY") && b == env("NO_ENTROPY")) {
        errno = EIO;
        return -1;
    }
    return real(nr, a, b, c, d, e, f);
}
ssize_t getrandom(void *buf, size_t len, unsigned flags)
{
    return syscall(SYS_getrandom, buf, len, flags);
}

/* FROZEN=1: the same time and process ID for everybody */
int clock_gettime(clockid_t c, struct timespec *t)
{
    REAL(clock_gettime);
    int r = real(c, t);
    if (!r && env("FROZEN")) {
        t->tv_sec = 1700000000;
        t->tv_nsec = 5;
    }
    return r;
}
pid_t getpid(void)
{
    return env("FROZEN") ? 77 : syscall(SYS_getpid);
}

/* NEEDLE=text: reports memory that is released containing the text, in the file NEEDLE_LOG */
static void look(void *p)
{
    const char *n = getenv("NEEDLE");
    if (!p || !n)
        return;
    size_t s = malloc_usable_size(p);
    if (memmem(p, s, n, strlen(n))) {
        int fd = open(getenv("NEEDLE_LOG"), O_WRONLY | O_CREAT | O_APPEND, 0600);
        write(fd, "x", 1);
        close(fd);
    }
}
void free(void *p)
{
    REAL(free);
    look(p);
    real(p);
}
void *realloc(void *p, size_t s)
{
    REAL(realloc);
    if (p && s > malloc_usable_size(p) && getenv("NEEDLE")) {
        void *q = malloc(s);
        memcpy(q, p, malloc_usable_size(p));
        free(p);
        return q;
    }
    return real(p, s);
}
