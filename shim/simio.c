// simio.so: the seam between the unmodified program and the operating system.
//
// Preloaded into a process, it takes over the calls through which the program meets the outside
// world (open/read/write of the simulated input and output, memory, clocks, sleep, random numbers) and lets a plan,
// written by the simulator from its seed, decide every outcome: how many bytes a call moves, which
// call is interrupted or fails and how, where the process is killed.  Nothing here draws randomness
// or looks at a clock: one plan is one execution.
//
// Environment: SIM_PLAN (plan file), SIM_STATS (file mapped shared, receives counters and the
// trace; survives any kind of death), SIM_IN / SIM_OUT (paths that are the simulated input and
// output; descriptors 0 and 1 are used when the plan says "stdin 1" / "stdout 1"), SIM_GATE (socket of
// the scheduler, when several processes are simulated together).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <malloc.h>
#include <string.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

#define TRACE_MAX 1024
#define MAXF 64

enum { CH_R, CH_W, CH_OI, CH_OO, CH_M, CH_G, NCH };
enum { K_SHORT, K_EINTR, K_ERR, K_ZERO, K_CRASH, K_CRASHAFTER, K_TORN, K_FAIL, K_FAILFROM, K_ERRFROM, NK };

struct entry { uint8_t ch, kind; uint16_t err; uint32_t idx; int64_t req; int64_t ret; };

struct stats {
    uint64_t magic;
    uint64_t ops, reads, writes, opens, allocs;
    uint64_t in_bytes, out_bytes;
    uint64_t eof_reads;
    uint64_t injected[NK];
    uint64_t chunked_reads, chunked_writes, cap_hits;
    uint64_t trace_hash;
    uint64_t hang, crashed, out_opened, in_opened, out_truncated, err_bytes;
    uint64_t peak_heap, mem_refused, clock_reads, random_reads;
    uint64_t n_trace;
    struct entry trace[TRACE_MAX];
    uint64_t files_refused, env_reads, read_only;
};

static struct stats local_stats, *S = &local_stats;
static char in_path[4096], out_path[4096];
static int armed;
static uint64_t maxops = ~0ull, chunk_r, chunk_w, seed_r, seed_w, endless;
static uint64_t disk_cap = ~0ull; static int disk_errno = ENOSPC;
static int use_stdin, use_stdout;
static struct { int ch, kind; uint64_t idx; int64_t arg; } F[MAXF]; static int nF;
static uint64_t cnt[NCH];
static unsigned char fdkind[1024]; // 1 input, 2 output
static uint64_t in_off;
static int64_t live_heap; static uint64_t mem_cap = ~0ull;
static uint64_t env_seed, ro_in;
static uint64_t clock_seed, clock_now, rand_seed, rand_ctr, pid_val;
static int gate = -1;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static ssize_t ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

static uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}

static void trace(int ch, int kind, uint64_t idx, int64_t req, int64_t r, int err) {
    uint64_t h = S->trace_hash;
    h = mix(h ^ (uint64_t)ch ^ ((uint64_t)(kind + 1) << 8) ^ ((uint64_t)err << 16));
    h = mix(h ^ (uint64_t)req); h = mix(h ^ (uint64_t)r);
    S->trace_hash = h;
    if (S->n_trace < TRACE_MAX) {
        struct entry *e = &S->trace[S->n_trace];
        e->ch = ch; e->kind = (uint8_t)(kind + 1); e->err = (uint16_t)err; e->idx = (uint32_t)idx; e->req = req; e->ret = r;
    }
    S->n_trace++;
}
static void die(int code) { for (;;) raw(SYS_exit_group, code, 0, 0, 0, 0, 0); }
static void crash(int ch, uint64_t idx, int kind) { S->crashed = 1; S->injected[kind]++; trace(ch, kind, idx, 0, 0, 0); die(137); }

static void gate_pass(int ch) {                // the scheduler decides which process makes the next call
    if (gate < 0) return;
    char b = (char)ch;
    if (raw(SYS_write, gate, (long)&b, 1, 0, 0, 0) != 1 || raw(SYS_read, gate, (long)&b, 1, 0, 0, 0) != 1) die(98);
}
// every simulated call passes here once; returns the fault planned for it, or -1
static int step(int ch, uint64_t *idx) {
    S->ops++;
    uint64_t g = cnt[CH_G]++; *idx = cnt[ch]++;
    if (S->ops > maxops) { S->hang = 1; die(97); }
    gate_pass(ch);
    int f = -1;
    for (int i = 0; i < nF; i++) {
        if (F[i].ch == CH_G && F[i].idx == g && (F[i].kind == K_CRASH)) crash(ch, *idx, K_CRASH);
        if (F[i].ch == ch && (F[i].idx == *idx || (F[i].kind == K_ERRFROM && *idx >= F[i].idx))) { if (F[i].kind == K_CRASH) crash(ch, *idx, K_CRASH); f = i; }
    }
    return f;
}

static uint64_t num(const char **p) {
    int neg = 0; uint64_t v = 0;
    while (**p == ' ') (*p)++;
    if (**p == '-') { neg = 1; (*p)++; }
    while (**p >= '0' && **p <= '9') { v = v * 10 + (uint64_t)(**p - '0'); (*p)++; }
    return neg ? (uint64_t)-(int64_t)v : v;
}
static int word(const char **p, const char *w) {
    size_t n = strlen(w);
    while (**p == ' ') (*p)++;
    if (!strncmp(*p, w, n) && ((*p)[n] == ' ' || (*p)[n] == '\n' || !(*p)[n])) { *p += n; return 1; }
    return 0;
}

__attribute__((constructor)) static void init(void) {
    const char *plan = getenv("SIM_PLAN"), *st = getenv("SIM_STATS");
    if (!plan) return;
    raw(SYS_prctl, PR_SET_PDEATHSIG, 9, 0, 0, 0, 0); // never outlive the simulator
    const char *a = getenv("SIM_IN"), *b = getenv("SIM_OUT");
    if (a) strncpy(in_path, a, sizeof in_path - 1);
    if (b) strncpy(out_path, b, sizeof out_path - 1);
    if (st) {
        long fd = raw(SYS_open, (long)st, O_RDWR | O_CLOEXEC, 0600, 0, 0, 0);
        if (fd >= 0) {
            long m = raw(SYS_mmap, 0, sizeof(struct stats), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m > 0 || m < -4096) S = (struct stats *)m;
            raw(SYS_close, fd, 0, 0, 0, 0, 0);
        }
    }
    static char buf[16384];
    long fd = raw(SYS_open, (long)plan, O_RDONLY | O_CLOEXEC, 0, 0, 0, 0);
    long n = fd >= 0 ? raw(SYS_read, fd, (long)buf, sizeof buf - 1, 0, 0, 0) : 0;
    if (fd >= 0) raw(SYS_close, fd, 0, 0, 0, 0, 0);
    if (n < 0) n = 0;
    buf[n] = 0;
    static const char *chn[] = {"r", "w", "oi", "oo", "m", "g"};
    static const char *kn[] = {"short", "eintr", "err", "zero", "crash", "crashafter", "torn", "fail", "failfrom", "errfrom"};
    for (const char *p = buf; *p;) {
        if (word(&p, "maxops")) maxops = num(&p);
        else if (word(&p, "chunk_r")) chunk_r = num(&p);
        else if (word(&p, "chunk_w")) chunk_w = num(&p);
        else if (word(&p, "seed_r")) seed_r = num(&p);
        else if (word(&p, "seed_w")) seed_w = num(&p);
        else if (word(&p, "endless")) endless = num(&p);
        else if (word(&p, "stdin")) use_stdin = (int)num(&p);
        else if (word(&p, "stdout")) use_stdout = (int)num(&p);
        else if (word(&p, "disk")) { disk_cap = num(&p); disk_errno = (int)num(&p); }
        else if (word(&p, "memcap")) mem_cap = num(&p);
        else if (word(&p, "clock")) { clock_seed = num(&p); clock_now = mix(clock_seed) % 4000000000ull; }
        else if (word(&p, "env")) env_seed = num(&p);
        else if (word(&p, "roin")) ro_in = num(&p);
        else if (word(&p, "rand")) rand_seed = num(&p);
        else if (word(&p, "pid")) pid_val = num(&p);
        else if (word(&p, "nofile")) { struct rlimit l; l.rlim_cur = l.rlim_max = num(&p); setrlimit(RLIMIT_NOFILE, &l); }
        else if (word(&p, "cpu")) { struct rlimit l; l.rlim_cur = l.rlim_max = num(&p); setrlimit(RLIMIT_CPU, &l); }
        else if (word(&p, "fault")) {
            int ch = -1, k = -1;
            for (int i = 0; i < NCH; i++) if (word(&p, chn[i])) { ch = i; break; }
            uint64_t idx = num(&p);
            for (int i = 0; i < NK; i++) if (word(&p, kn[i])) { k = i; break; }
            int64_t arg = (int64_t)num(&p);
            if (ch >= 0 && k >= 0 && nF < MAXF) { F[nF].ch = ch; F[nF].kind = k; F[nF].idx = idx; F[nF].arg = arg; nF++; }
        }
        while (*p && *p != '\n') p++;
        if (*p) p++;
    }
    struct rlimit l; l.rlim_cur = l.rlim_max = 0; setrlimit(RLIMIT_CORE, &l);
    l.rlim_cur = l.rlim_max = 4ull << 30; setrlimit(RLIMIT_AS, &l);
    if (use_stdin) fdkind[0] = 1;
    if (use_stdout) fdkind[1] = 2;
    const char *gp = getenv("SIM_GATE");
    if (gp && *gp) {
        struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strncpy(a.sun_path, gp, sizeof a.sun_path - 1);
        long fd = raw(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, 0, 0, 0);
        if (fd >= 0) { long h = raw(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900, 0, 0, 0); if (h >= 0) { raw(SYS_close, fd, 0, 0, 0, 0, 0); fd = h; } }
        if (fd < 0 || raw(SYS_connect, fd, (long)&a, sizeof a, 0, 0, 0) < 0) die(98);
        const char *id = getenv("SIM_ID"); char b = id ? *id : '0';
        if (raw(SYS_write, fd, (long)&b, 1, 0, 0, 0) != 1) die(98);
        gate = (int)fd;
    }
    S->magic = 0x53494d494f313031ull;
    armed = 1;
}

static int kind_of(int fd) { return armed && fd >= 0 && fd < 1024 ? fdkind[fd] : 0; }

static size_t cap(size_t n, uint64_t chunk, uint64_t seed, uint64_t idx) {
    if (!chunk || n <= 1) return n;
    if (!seed) return n < chunk ? n : chunk;
    uint64_t h = mix(seed ^ (idx * 0x9e3779b97f4a7c15ull)), c;
    switch (h & 3) {                          // mixture: tiny, up to chunk, exactly chunk, everything
        case 0: c = 1 + (h >> 8) % 3; break;
        case 1: c = 1 + (h >> 8) % chunk; break;
        case 2: c = chunk; break;
        default: return n;
    }
    return n < c ? n : c;
}

static ssize_t sim_read(int fd, void *buf, size_t n, int64_t off) {
    uint64_t idx; int f = step(CH_R, &idx); S->reads++;
    size_t m = cap(n, chunk_r, seed_r, idx);
    if (m < n) S->chunked_reads++;
    if (f >= 0) {
        int k = F[f].kind;
        if (k == K_EINTR) { S->injected[k]++; trace(CH_R, k, idx, (int64_t)n, -1, EINTR); errno = EINTR; return -1; }
        if (k == K_ERR || k == K_ERRFROM) { S->injected[k]++; trace(CH_R, k, idx, (int64_t)n, -1, (int)F[f].arg); errno = (int)F[f].arg; return -1; }
        if (k == K_SHORT && n > 0) { size_t c = F[f].arg > 0 ? (size_t)F[f].arg : 1; if (c < n) { S->injected[k]++; m = c; } }
    }
    long r = off >= 0 ? raw(SYS_pread64, fd, (long)buf, (long)m, off, 0, 0) : raw(SYS_read, fd, (long)buf, (long)m, 0, 0, 0);
    if (r == 0 && m > 0 && endless && off < 0) {                  // an input that never ends
        for (size_t i = 0; i < m; i++) ((unsigned char *)buf)[i] = (unsigned char)mix(in_off + i + endless);
        r = (long)m;
    }
    if (r > 0) { S->in_bytes += (uint64_t)r; in_off += (uint64_t)r; }
    if (r == 0 && m > 0) S->eof_reads++;
    trace(CH_R, -1, idx, (int64_t)n, r, 0);
    if (f >= 0 && F[f].kind == K_CRASHAFTER) crash(CH_R, idx, K_CRASHAFTER);
    return ret(r);
}

static ssize_t sim_write(int fd, const void *buf, size_t n, int64_t off) {
    uint64_t idx; int f = step(CH_W, &idx); S->writes++;
    size_t m = cap(n, chunk_w, seed_w, idx);
    if (m < n) S->chunked_writes++;
    if (f >= 0) {
        int k = F[f].kind;
        if (k == K_EINTR) { S->injected[k]++; trace(CH_W, k, idx, (int64_t)n, -1, EINTR); errno = EINTR; return -1; }
        if (k == K_ERR || k == K_ERRFROM) { S->injected[k]++; trace(CH_W, k, idx, (int64_t)n, -1, (int)F[f].arg); errno = (int)F[f].arg; return -1; }
        if (k == K_ZERO) { S->injected[k]++; trace(CH_W, k, idx, (int64_t)n, 0, 0); return 0; }
        if (k == K_SHORT && n > 0) { size_t c = F[f].arg > 0 ? (size_t)F[f].arg : 1; if (c < n) { S->injected[k]++; m = c; } }
        if (k == K_TORN) m = F[f].arg < (int64_t)n ? (size_t)(F[f].arg < 0 ? 0 : F[f].arg) : n;
    }
    if (S->out_bytes + m > disk_cap) {
        S->cap_hits++;
        m = disk_cap > S->out_bytes ? (size_t)(disk_cap - S->out_bytes) : 0;
        if (m == 0 && n > 0) { trace(CH_W, -1, idx, (int64_t)n, -1, disk_errno); errno = disk_errno; return -1; }
    }
    long r = 0;
    if (m > 0 || n == 0)
        r = off >= 0 ? raw(SYS_pwrite64, fd, (long)buf, (long)m, off, 0, 0) : raw(SYS_write, fd, (long)buf, (long)m, 0, 0, 0);
    if (r > 0) S->out_bytes += (uint64_t)r;
    trace(CH_W, -1, idx, (int64_t)n, r, 0);
    if (f >= 0 && (F[f].kind == K_CRASHAFTER || F[f].kind == K_TORN)) crash(CH_W, idx, F[f].kind);
    return ret(r);
}

ssize_t read(int fd, void *buf, size_t n) {
    if (kind_of(fd) == 1) return sim_read(fd, buf, n, -1);
    return ret(raw(SYS_read, fd, (long)buf, (long)n, 0, 0, 0));
}
ssize_t pread64(int fd, void *buf, size_t n, off_t o) {
    if (kind_of(fd) == 1) return sim_read(fd, buf, n, o);
    return ret(raw(SYS_pread64, fd, (long)buf, (long)n, o, 0, 0));
}
ssize_t pread(int fd, void *buf, size_t n, off_t o) { return pread64(fd, buf, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (kind_of(fd) == 1) {
        for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len, -1);
        return sim_read(fd, 0, 0, -1);
    }
    return ret(raw(SYS_readv, fd, (long)v, c, 0, 0, 0));
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (kind_of(fd) == 2) return sim_write(fd, buf, n, -1);
    if (fd == 2 && armed) S->err_bytes += n;
    return ret(raw(SYS_write, fd, (long)buf, (long)n, 0, 0, 0));
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) {
    if (kind_of(fd) == 2) return sim_write(fd, buf, n, o);
    return ret(raw(SYS_pwrite64, fd, (long)buf, (long)n, o, 0, 0));
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return pwrite64(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (kind_of(fd) == 2) {           // a short vectored write: first non-empty part only, like a full pipe
        for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_write(fd, v[i].iov_base, v[i].iov_len, -1);
        return sim_write(fd, "", 0, -1);
    }
    return ret(raw(SYS_writev, fd, (long)v, c, 0, 0, 0));
}

static int same(const char *a, const char *b) { return *b && !strcmp(a, b); }

static int sim_open(int dfd, const char *path, int flags, unsigned mode) {
    int ch = -1;
    if (armed && path) {
        if (same(path, out_path) && (flags & O_ACCMODE) != O_RDONLY) ch = CH_OO;
        else if (same(path, in_path)) ch = CH_OI;
        else if (same(path, out_path)) ch = CH_OO;
    }
    if (ch < 0) { long r = raw(SYS_openat, dfd, (long)path, flags, mode, 0, 0); if (r == -EMFILE) S->files_refused++; return (int)ret(r); }
    uint64_t idx; int f = step(ch, &idx); S->opens++;
    if (f >= 0) {
        int k = F[f].kind;
        if (k == K_EINTR) { S->injected[k]++; trace(ch, k, idx, flags, -1, EINTR); errno = EINTR; return -1; }
        if (k == K_ERR || k == K_ERRFROM) { S->injected[k]++; trace(ch, k, idx, flags, -1, (int)F[f].arg); errno = (int)F[f].arg; return -1; }
    }
    // the input may be on a medium that cannot be written
    if (ch == CH_OI && ro_in && ((flags & O_ACCMODE) != O_RDONLY || (flags & O_TRUNC))) { S->read_only++; trace(ch, -1, idx, flags, -1, EROFS); errno = EROFS; return -1; }
    long r = raw(SYS_openat, dfd, (long)path, flags, mode, 0, 0);
    if (r == -EMFILE) S->files_refused++;
    trace(ch, -1, idx, flags, r >= 0 ? 1 : -1, r < 0 ? (int)-r : 0);
    if (r >= 0 && r < 1024) {
        fdkind[r] = ch == CH_OI ? 1 : 2;
        if (ch == CH_OO) { S->out_opened++; if (flags & O_TRUNC) S->out_truncated++; } else S->in_opened++;
    }
    if (f >= 0 && F[f].kind == K_CRASHAFTER) crash(ch, idx, K_CRASHAFTER);
    return (int)ret(r);
}
#define MODE unsigned mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, unsigned); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return sim_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return sim_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return sim_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return sim_open(d, p, flags | O_LARGEFILE, mode); }
int close(int fd) {
    if (armed && fd >= 0 && fd < 1024) fdkind[fd] = 0;
    return (int)ret(raw(SYS_close, fd, 0, 0, 0, 0, 0));
}

// ---- clocks, random numbers, process id: values of the plan, never of the machine -----------------
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!armed || !clock_seed) return (int)ret(raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0));
    S->clock_reads++;
    uint64_t h = mix(clock_seed ^ S->clock_reads);
    // wall clocks may jump either way, other clocks only move on
    if (c == CLOCK_REALTIME && (h & 7) == 0) { t->tv_sec = (time_t)(h % 4000000000ull); t->tv_nsec = (long)((h >> 20) % 1000000000); return 0; }
    clock_now += (h & 7) == 1 ? h % 100000 : (h >> 3) % 3;
    t->tv_sec = (time_t)clock_now; t->tv_nsec = (long)(S->clock_reads % 1000000000);
    return 0;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    struct timespec s; if (clock_gettime(CLOCK_REALTIME, &s)) return -1;
    t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0;
}
time_t time(time_t *o) { struct timespec s; if (clock_gettime(CLOCK_REALTIME, &s)) return -1; if (o) *o = s.tv_sec; return s.tv_sec; }
// sleeping moves the simulated clock on and lets the other processes run, but takes no time; whoever sleeps for ever hangs
static int sim_sleep(uint64_t sec) {
    static uint64_t slept;
    clock_now += sec + (++slept % 16 == 0);
    if (slept > 200000) { S->hang = 1; die(97); }
    gate_pass(CH_G);
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) {
    if (!armed || !clock_seed || !t) { long r = raw(SYS_clock_nanosleep, c, fl, (long)t, (long)rem, 0, 0); return r < 0 ? (int)-r : 0; }
    return sim_sleep((fl & TIMER_ABSTIME) ? ((uint64_t)t->tv_sec > clock_now ? (uint64_t)t->tv_sec - clock_now : 0) : (uint64_t)t->tv_sec);
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
    if (!armed || !clock_seed || !t) return (int)ret(raw(SYS_nanosleep, (long)t, (long)rem, 0, 0, 0, 0));
    return sim_sleep((uint64_t)t->tv_sec);
}
int usleep(useconds_t us) { struct timespec t = { us / 1000000, (us % 1000000) * 1000 }; return nanosleep(&t, 0); }
unsigned sleep(unsigned n) { struct timespec t = { n, 0 }; nanosleep(&t, 0); return 0; }
int sched_yield(void) { if (!armed || !clock_seed) return (int)ret(raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0)); return sim_sleep(0); }
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!armed || !rand_seed) return ret(raw(SYS_getrandom, (long)b, (long)n, fl, 0, 0, 0));
    S->random_reads++;
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)mix(rand_seed ^ (rand_ctr++ << 8));
    return (ssize_t)n;
}
// environment variables nobody set: a plan may have them all set to something
extern char **environ;
char *getenv(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    static const char *own[] = {"SIM_", "LD_", "RUST_", "MALLOC_", "GLIBC_"};
    if (!armed || !env_seed) return 0;
    for (int i = 0; i < 5; i++) if (!strncmp(name, own[i], strlen(own[i]))) return 0;
    static char *val[] = {"1", "0", "2", "true", "", "7", "16x16", "/nonexistent", "x", "100", "-1"};
    uint64_t h = env_seed;
    for (const char *c = name; *c; c++) h = mix(h ^ (unsigned char)*c);
    S->env_reads++;
    return h % 8 == 0 ? 0 : val[(h >> 8) % 11];
}
pid_t getpid(void) { return armed && pid_val ? (pid_t)pid_val : (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }

// ---- memory: counted, and failed on demand ------------------------------------------------------
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static int alloc_fails(size_t n, size_t back) {
    if (!armed) return 0;
    S->allocs++;
    uint64_t idx = cnt[CH_M]++;
    if (live_heap + (int64_t)n - (int64_t)back > 0 && (uint64_t)(live_heap + (int64_t)n - (int64_t)back) > mem_cap) { S->mem_refused++; trace(CH_M, -1, idx, (int64_t)n, 0, ENOMEM); errno = ENOMEM; return 1; }
    for (int i = 0; i < nF; i++)
        if (F[i].ch == CH_M && (F[i].idx == idx || (F[i].kind == K_FAILFROM && idx >= F[i].idx))) {
            S->injected[F[i].kind]++; trace(CH_M, F[i].kind, idx, 0, 0, ENOMEM); errno = ENOMEM; return 1;
        }
    return 0;
}
static void *got(void *p) {
    if (p) { int64_t l = __atomic_add_fetch(&live_heap, (int64_t)malloc_usable_size(p), __ATOMIC_RELAXED); if (l > 0 && (uint64_t)l > S->peak_heap) S->peak_heap = (uint64_t)l; }
    return p;
}
static void gone(void *p) { if (p) __atomic_sub_fetch(&live_heap, (int64_t)malloc_usable_size(p), __ATOMIC_RELAXED); }
void *malloc(size_t n) { return alloc_fails(n, 0) ? 0 : got(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return alloc_fails(b && a > ~(size_t)0 / b ? ~(size_t)0 >> 1 : a * b, 0) ? 0 : got(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) {
    size_t old = p ? malloc_usable_size(p) : 0;
    if (alloc_fails(n, old)) return 0;
    void *r = __libc_realloc(p, n);
    if (r || n == 0) { __atomic_sub_fetch(&live_heap, (int64_t)old, __ATOMIC_RELAXED); got(r); }
    return r;
}
void free(void *p) { gone(p); __libc_free(p); }
int posix_memalign(void **p, size_t a, size_t n) {
    if (alloc_fails(n, 0)) return ENOMEM;
    void *r = got(__libc_memalign(a, n));
    if (!r) return ENOMEM;
    *p = r; return 0;
}
void *aligned_alloc(size_t a, size_t n) { return alloc_fails(n, 0) ? 0 : got(__libc_memalign(a, n)); }
