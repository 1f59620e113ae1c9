/* Simulated operating-system surface for lapex' generator.
 *
 * Loaded into an unmodified binary with LD_PRELOAD.  Everything the process could get from outside
 * goes through here: files below the simulated disk's root (with injected faults), random bytes,
 * clocks, process ids, addresses of heap memory and the interleaving of threads.  All of it is a
 * function of the plan file, so one plan is one repeatable execution.  Calls that would change
 * anything outside the simulated disk are recorded and refused.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <stdio.h>

/* ---------------------------------------------------------------- raw system calls */

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) raw((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static long ret(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

/* ---------------------------------------------------------------- state */

enum { F_ERR, F_DEAD, F_SHORT, F_INTR, F_ZERO, F_KILL, F_FULL };
static struct fault {
    long at;
    int kind;
    long a;
} faults[256];
static int nfaults;

static int on;
static char root[PATH_MAX];
static size_t rootlen;
static uint64_t seed_rand, seed_mem, seed_sched;
static long opno, budget = -1, full_errno = 28;
static long con_from = -1, con_no, con_err;
static long oom_at = -1, alloc_no;
static int oom_armed;
/* the disk moves small pieces and signals keep arriving */
static uint64_t jit;
static long jit_r = 1, jit_w = 1;
static int jit_pct, jit_run;
static int children;
static long now_s = 1700000000, now_n, fake_pid = 4242;
static int sched_on, sched_bias = 50, cpus;
static long sched_alloc = 0;

static char *lg;
static size_t lgcap, lgpos;
static volatile int lglock;

static uint64_t next64(uint64_t *s) {
    uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static void spin(volatile int *l) {
    while (__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE)) RAW(SYS_sched_yield);
}
static void unspin(volatile int *l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }

static __thread int me __attribute__((tls_model("initial-exec"))) = -1;

/* one line per event */
static void note(const char *fmt, ...) {
    char b[2 * PATH_MAX];
    if (!lg) return;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if ((size_t)n >= sizeof b) n = sizeof b - 1;
    spin(&lglock);
    if (lgpos + n + 16 < lgcap) {
        lg[lgpos++] = '0' + (me < 0 ? 0 : me % 64);
        lg[lgpos++] = ' ';
        memcpy(lg + lgpos, b, n);
        lgpos += n;
        lg[lgpos++] = '\n';
    }
    unspin(&lglock);
}

static void die_now(void) {
    long pid = RAW(SYS_getpid);
    RAW(SYS_kill, pid, SIGKILL);
    for (;;) RAW(SYS_pause);
}

/* ---------------------------------------------------------------- threads */

enum { T_NONE, T_RUN, T_FUTEX, T_JOIN, T_DONE };
static struct th {
    volatile int state, go;
    uint32_t *addr;
    int join, timed, timedout;
    pthread_t id;
} th[64];
static int nth = 1;
static pthread_key_t exit_key;
static long alloc_left;

static void fwait(volatile int *p, int v) { RAW(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(volatile int *p) { RAW(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static int pick(int self_ok) {
    int c[64], n = 0;
    for (int i = 0; i < nth; i++)
        if (th[i].state == T_RUN && (self_ok || i != me)) c[n++] = i;
    if (!n) return -1;
    return c[next64(&seed_sched) % n];
}
static void hand_over(int to) {
    note("switch %d", to);
    th[to].go = 1;
    fwake(&th[to].go);
}
static void wait_turn(void) {
    while (!__atomic_load_n(&th[me].go, __ATOMIC_ACQUIRE)) fwait(&th[me].go, 0);
    th[me].go = 0;
}
/* a point at which another thread may go on */
static void gate(void) {
    if (!sched_on || me < 0 || nth < 2) return;
    if ((int)(next64(&seed_sched) % 100) >= sched_bias) return;
    int t = pick(1);
    if (t < 0 || t == me) return;
    hand_over(t);
    wait_turn();
}
/* gives the turn away until somebody makes this thread runnable */
static void block(void) {
    int t = pick(0);
    if (t < 0) {
        for (int i = 0; i < nth; i++)
            if (th[i].state == T_FUTEX && th[i].timed) {
                th[i].state = T_RUN;
                th[i].timedout = 1;
                now_s += 1;
                if (i == me) return;
                t = i;
                break;
            }
    }
    if (t < 0) {
        note("DEADLOCK");
        RAW(SYS_exit_group, 99);
    }
    hand_over(t);
    wait_turn();
}
static void thread_end(void *x) {
    (void)x;
    if (me < 0 || th[me].state == T_DONE) return;
    th[me].state = T_DONE;
    for (int i = 0; i < nth; i++)
        if (th[i].state == T_JOIN && th[i].join == me) th[i].state = T_RUN;
    note("end");
    int t = pick(0);
    if (t >= 0) hand_over(t);
    me = -1;
}
struct tramp {
    void *(*f)(void *);
    void *a;
    int slot;
};
static void *tramp(void *p) {
    struct tramp t = *(struct tramp *)p;
    me = t.slot;
    wait_turn();
    pthread_setspecific(exit_key, &th[me]);
    free(p);
    return t.f(t.a);
}

#define REAL(name) ((__typeof__(&name))real_(#name))
static void *real_(const char *n) { return dlsym(RTLD_NEXT, n); }

int pthread_create(pthread_t *id, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    __typeof__(&pthread_create) r = REAL(pthread_create);
    if (!sched_on || me < 0 || nth >= 64) return r(id, at, f, a);
    gate();
    struct tramp *t = malloc(sizeof *t);
    t->f = f, t->a = a, t->slot = nth;
    th[nth].go = 0;
    th[nth].state = T_RUN;
    int rc = r(id, at, tramp, t);
    if (rc) {
        th[nth].state = T_DONE;
        return rc;
    }
    th[nth].id = *id;
    nth++;
    note("thread %d", t->slot);
    gate();
    return 0;
}
int pthread_join(pthread_t id, void **v) {
    __typeof__(&pthread_join) r = REAL(pthread_join);
    if (sched_on && me >= 0)
        for (int i = 1; i < nth; i++)
            if (th[i].id == id && th[i].state != T_DONE) {
                th[me].join = i;
                th[me].state = T_JOIN;
                block();
                break;
            }
    return r(id, v);
}
int sched_yield(void) {
    gate();
    return 0;
}

static long futex(uint32_t *addr, int op, uint32_t val, void *timeout, uint32_t *a2, uint32_t v3) {
    int o = op & FUTEX_CMD_MASK;
    if (!sched_on || me < 0) return ret(raw(SYS_futex, (long)addr, op, val, (long)timeout, (long)a2, v3));
    if (o == FUTEX_WAIT || o == FUTEX_WAIT_BITSET) {
        gate();
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
            errno = EAGAIN;
            return -1;
        }
        th[me].addr = addr;
        th[me].timed = timeout != 0;
        th[me].timedout = 0;
        th[me].state = T_FUTEX;
        block();
        th[me].state = T_RUN;
        if (th[me].timedout) {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    if (o == FUTEX_WAKE || o == FUTEX_WAKE_BITSET) {
        int n = 0, first = (int)(next64(&seed_sched) % nth);
        for (int k = 0; k < nth && (uint32_t)n < val; k++) {
            int i = (first + k) % nth;
            if (th[i].state == T_FUTEX && th[i].addr == addr) {
                th[i].state = T_RUN;
                n++;
            }
        }
        gate();
        return n;
    }
    return ret(raw(SYS_futex, (long)addr, op, val, (long)timeout, (long)a2, v3));
}

/* ---------------------------------------------------------------- memory */

static char early[1 << 18] __attribute__((aligned(64)));
static size_t early_pos;
static char *lo, *hi, *arena, *arena_end;
static volatile int mlock_;
#define CLASSES 160
struct hd {
    uint64_t cls;
    void *link;
};
static struct hd *freel[CLASSES];

static size_t class_size(int c) {
    if (c < 64) return (size_t)(c + 1) * 16;
    int k = (c - 64) / 4, q = (c - 64) % 4;
    return ((size_t)1024 << k) + ((size_t)256 << k) * (q + 1);
}
static int class_of(size_t n) {
    if (n <= 1024) return n ? (int)((n - 1) / 16) : 0;
    for (int c = 64; c < CLASSES; c++)
        if (class_size(c) >= n) return c;
    return -1;
}
static int is_early(const void *p) { return (const char *)p >= early && (const char *)p < early + sizeof early; }

static void *take(size_t n) {
    int c = class_of(n);
    if (c < 0 || class_size(c) > (size_t)1 << 40) return 0;
    size_t z = class_size(c) + sizeof(struct hd);
    struct hd *h = 0;
    spin(&mlock_);
    if (!arena) {
        if (early_pos + z <= sizeof early) {
            h = (struct hd *)(early + early_pos);
            early_pos += z;
        }
    } else if (freel[c]) {
        h = freel[c];
        freel[c] = h->link;
    } else {
        uint64_t r = next64(&seed_mem);
        size_t gap = (r >> 8) % 4 * 16;
        if ((size_t)(hi - lo) > z + gap) {
            if (r & 1) {
                h = (struct hd *)(lo + gap);
                lo += z + gap;
            } else {
                hi -= z + gap;
                h = (struct hd *)hi;
            }
        }
    }
    unspin(&mlock_);
    if (!h) return 0;
    h->cls = c;
    h->link = h;
    return h + 1;
}
static void alloc_gate(void) {
    if (!oom_armed && !sched_on) return;
    if (sched_on && sched_alloc > 0 && me >= 0 && nth > 1 && --alloc_left <= 0) {
        alloc_left = 1 + (long)(next64(&seed_sched) % (2 * sched_alloc));
        gate();
    }
}
static int no_memory(void) {
    if (!oom_armed) return 0;
    if (++alloc_no == oom_at) {
        note("oom");
        return 1;
    }
    return 0;
}
void *malloc(size_t n) {
    alloc_gate();
    void *p = no_memory() ? 0 : take(n);
    if (!p) errno = ENOMEM;
    return p;
}
void free(void *p) {
    if (!p) return;
    struct hd *h = (struct hd *)p - 1;
    if (h->link != h) h = h->link; /* over-aligned block */
    if (is_early(h)) return;
    spin(&mlock_);
    h->link = freel[h->cls];
    freel[h->cls] = h;
    unspin(&mlock_);
}
void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return 0;
    void *p = malloc(n);
    if (p) memset(p, 0, n);
    return p;
}
static size_t room(void *p) {
    struct hd *h = (struct hd *)p - 1, *o = h->link;
    return class_size((int)o->cls) - (size_t)((char *)p - (char *)(o + 1));
}
size_t malloc_usable_size(void *p) { return p ? room(p) : 0; }
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (n && n <= room(p)) return p;
    void *q = malloc(n);
    if (!q) return 0;
    size_t k = room(p);
    memcpy(q, p, k < n ? k : n);
    free(p);
    return q;
}
void *aligned_alloc(size_t al, size_t n) {
    if (al <= 16) return malloc(n);
    char *p = malloc(n + al + sizeof(struct hd));
    if (!p) return 0;
    uintptr_t u = ((uintptr_t)p + al - 1) / al * al;
    if ((char *)u == p) return p;
    if (u - (uintptr_t)p < sizeof(struct hd)) u += al;
    struct hd *h = (struct hd *)u - 1;
    h->link = (struct hd *)p - 1;
    h->cls = 0;
    return (void *)u;
}
int posix_memalign(void **o, size_t al, size_t n) {
    void *p = aligned_alloc(al, n);
    if (!p) return ENOMEM;
    *o = p;
    return 0;
}
void *memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
void *valloc(size_t n) { return aligned_alloc(4096, n); }
void *pvalloc(size_t n) { return aligned_alloc(4096, (n + 4095) / 4096 * 4096); }
char *strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *p = malloc(n);
    return p ? memcpy(p, s, n) : 0;
}

/* ---------------------------------------------------------------- start */

static long number(const char **p) {
    long v = 0, neg = 0;
    while (**p == ' ') ++*p;
    if (**p == '-') neg = 1, ++*p;
    while (**p >= '0' && **p <= '9') v = v * 10 + (*(*p)++ - '0');
    return neg ? -v : v;
}
static const char *word(const char *p, char *o, size_t cap) {
    size_t n = 0;
    while (*p == ' ') p++;
    while (*p && *p != ' ' && *p != '\n') {
        if (n + 1 < cap) o[n++] = *p;
        p++;
    }
    o[n] = 0;
    return p;
}

__attribute__((constructor)) static void start(void) {
    const char *pf = getenv("SIMFS_PLAN"), *lf = getenv("SIMFS_LOG");
    static char plan[1 << 16];
    long fd, n;
    if (!pf || !lf) return;
    fd = RAW(SYS_open, pf, O_RDONLY | O_CLOEXEC, 0);
    if (fd < 0) RAW(SYS_exit_group, 98);
    n = RAW(SYS_read, fd, plan, sizeof plan - 1);
    RAW(SYS_close, fd);
    if (n < 0) RAW(SYS_exit_group, 98);
    plan[n] = 0;
    fd = RAW(SYS_open, lf, O_RDWR | O_CLOEXEC, 0);
    struct stat st;
    if (fd < 0 || RAW(SYS_fstat, fd, &st) < 0) RAW(SYS_exit_group, 98);
    lgcap = (size_t)st.st_size;
    long m = RAW(SYS_mmap, 0, lgcap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m < 0 && m > -4096) RAW(SYS_exit_group, 98);
    lg = (char *)m;
    RAW(SYS_close, fd);
    uint64_t seed = 1;
    for (const char *p = plan; *p;) {
        char w[64];
        p = word(p, w, sizeof w);
        if (!strcmp(w, "root")) {
            p = word(p, root, sizeof root);
            rootlen = strlen(root);
        } else if (!strcmp(w, "seed")) {
            seed = (uint64_t)number(&p);
        } else if (!strcmp(w, "clock")) {
            now_s = number(&p);
        } else if (!strcmp(w, "pid")) {
            fake_pid = number(&p);
        } else if (!strcmp(w, "full")) {
            budget = number(&p);
            full_errno = number(&p);
        } else if (!strcmp(w, "console")) {
            con_from = number(&p);
            con_err = number(&p);
        } else if (!strcmp(w, "oom")) {
            oom_at = number(&p);
        } else if (!strcmp(w, "child")) {
            children = 1;
        } else if (!strcmp(w, "cpus")) {
            cpus = (int)number(&p);
        } else if (!strcmp(w, "sched")) {
            sched_on = 1;
            seed_sched = (uint64_t)number(&p);
            sched_bias = (int)number(&p);
            sched_alloc = number(&p);
        } else if (!strcmp(w, "jitter")) {
            jit = (uint64_t)number(&p) | 1;
            jit_r = number(&p);
            jit_w = number(&p);
            jit_pct = (int)number(&p);
        } else if (!strcmp(w, "fault") && nfaults < 256) {
            struct fault *f = &faults[nfaults++];
            f->at = number(&p);
            p = word(p, w, sizeof w);
            f->kind = !strcmp(w, "err") ? F_ERR : !strcmp(w, "dead") ? F_DEAD : !strcmp(w, "short") ? F_SHORT : !strcmp(w, "intr") ? F_INTR : !strcmp(w, "zero") ? F_ZERO : !strcmp(w, "kill") ? F_KILL : F_FULL;
            f->a = number(&p);
        }
        while (*p && *p != '\n') p++;
        while (*p == '\n') p++;
    }
    seed_rand = seed * 0x9e3779b97f4a7c15ull + 1;
    seed_mem = seed * 0xbf58476d1ce4e5b9ull + 7;
    size_t cap = (size_t)3 << 30;
    uintptr_t at = 0x200000000000ull + ((next64(&seed_mem) >> 20) % 4096) * 0x100000000ull;
    long a = RAW(SYS_mmap, at, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a < 0 && a > -4096) RAW(SYS_exit_group, 97);
    lo = (char *)a + 4096;
    hi = (char *)a + cap - 4096;
    arena = (char *)a;
    arena_end = arena + cap;
    if (sched_on) {
        me = 0;
        th[0].state = T_RUN;
        pthread_key_create(&exit_key, thread_end);
        alloc_left = sched_alloc;
    }
    on = 1;
    if (oom_at >= 0) oom_armed = 1;
}

/* number of processors */
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) {
    if (!on || cpus <= 0) return (int)ret(RAW(SYS_sched_getaffinity, pid, n, set)) < 0 ? -1 : 0;
    memset(set, 0, n);
    for (int i = 0; i < cpus && (size_t)i < n * 8; i++) ((unsigned char *)set)[i / 8] |= (unsigned char)(1 << i % 8);
    return 0;
}

/* ---------------------------------------------------------------- paths and descriptors */

#define FDS 1024
static struct {
    char used, wr, append;
    char path[400];
} fds[FDS];

/* lexical normal form of a path, absolute */
static void normal(int dir, const char *p, char *o) {
    char b[2 * PATH_MAX];
    b[0] = 0;
    if (p[0] != '/') {
        if (dir == AT_FDCWD) {
            long n = RAW(SYS_getcwd, b, PATH_MAX);
            if (n <= 0) strcpy(b, "/");
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dir);
            long n = RAW(SYS_readlink, l, b, PATH_MAX - 1);
            if (n < 0) n = 0;
            b[n] = 0;
        }
        size_t k = strlen(b);
        b[k++] = '/';
        strncpy(b + k, p, PATH_MAX - 1);
        b[k + PATH_MAX - 1] = 0;
    } else {
        strncpy(b, p, PATH_MAX - 1);
        b[PATH_MAX - 1] = 0;
    }
    size_t n = 0;
    for (char *s = b; *s;) {
        while (*s == '/') s++;
        char *e = s;
        while (*e && *e != '/') e++;
        size_t l = (size_t)(e - s);
        if (l == 0 || (l == 1 && s[0] == '.')) {
        } else if (l == 2 && s[0] == '.' && s[1] == '.') {
            while (n && o[n - 1] != '/') n--;
            if (n) n--;
        } else if (n + l + 2 < PATH_MAX) {
            o[n++] = '/';
            memcpy(o + n, s, l);
            n += l;
        }
        s = e;
    }
    if (!n) o[n++] = '/';
    o[n] = 0;
}
static const char *inside(const char *abs) {
    if (!rootlen || strncmp(abs, root, rootlen)) return 0;
    if (abs[rootlen] == 0) return ".";
    if (abs[rootlen] == '/') return abs + rootlen + 1;
    return 0;
}

/* What to do at the next disk operation. */
struct act {
    int err;      /* fail with this error */
    long max;     /* at most this many bytes, -1: no limit */
    int zero;     /* report no bytes moved */
    long kill;    /* end the process after so many bytes; -2: not */
    const char *note;
};
static struct act step(int kind) {
    struct act a = {0, -1, 0, -2, ""};
    gate();
    long idx = opno;
    if (jit && kind) {
        if (jit_run < 6 && (int)(next64(&jit) % 100) < jit_pct) {
            jit_run++;
            a.err = EINTR;
            a.note = " !intr";
            return a;
        }
        jit_run = 0;
        a.max = 1 + (long)(next64(&jit) % (kind == 'r' ? jit_r : jit_w));
    }
    for (int i = 0; i < nfaults && kind; i++)
        if (faults[i].at == idx && faults[i].kind == F_INTR && faults[i].a > 0) {
            faults[i].a--;
            a.err = EINTR;
            a.note = " !intr";
            return a;
        }
    opno++;
    for (int i = 0; i < nfaults; i++)
        if (faults[i].at == idx) {
            switch (faults[i].kind) {
            case F_ERR: a.err = (int)faults[i].a; a.note = " !err"; break;
            case F_SHORT: a.max = faults[i].a; break;
            case F_ZERO: a.zero = 1; break;
            case F_KILL: a.kill = faults[i].a; break;
            case F_FULL: budget = faults[i].a; break;
            }
        }
    /* from here on the device answers every request with an error */
    for (int i = 0; i < nfaults && kind; i++)
        if (faults[i].kind == F_DEAD && idx >= faults[i].at) {
            a.err = (int)faults[i].a;
            a.note = " !dead";
        }
    return a;
}

static int open_(int dir, const char *path, int flags, mode_t mode) {
    char abs[PATH_MAX];
    if (!on) return (int)ret(RAW(SYS_openat, dir, path, flags, mode));
    normal(dir, path, abs);
    const char *in = inside(abs);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)) || (flags & O_TMPFILE) == O_TMPFILE;
    if (!in) {
        if (wr && strcmp(abs, "/dev/null")) {
            note("ESCAPE open %s", abs);
            errno = EACCES;
            return -1;
        }
        return (int)ret(RAW(SYS_openat, dir, path, flags, mode));
    }
    struct act a = step('o');
    long idx = opno - 1;
    if (a.kill >= -1 && a.kill < 1) {
        note("%ld open %s !kill", idx, in);
        die_now();
    }
    if (a.err) {
        note("%ld open %s %s%s%s = -%d%s", idx, in, wr ? "w" : "r", flags & O_CREAT ? "c" : "", flags & O_TRUNC ? "t" : "", a.err, a.note);
        errno = a.err;
        return -1;
    }
    if (budget == 0 && (flags & O_CREAT)) {
        struct stat st;
        if (RAW(SYS_newfstatat, AT_FDCWD, abs, &st, 0) < 0) {
            note("%ld open %s wc = -%ld !full", idx, in, full_errno);
            errno = (int)full_errno;
            return -1;
        }
    }
    long r = RAW(SYS_openat, dir, path, flags, mode);
    note("%ld open %s %s%s%s%s = %s%ld", idx, in, wr ? "w" : "r", flags & O_CREAT ? "c" : "", flags & O_TRUNC ? "t" : "", flags & O_APPEND ? "a" : "", r < 0 ? "" : "fd ", r < 0 ? r : 0);
    if (r >= 0 && r < FDS) {
        fds[r].used = 1;
        fds[r].wr = (char)wr;
        snprintf(fds[r].path, sizeof fds[r].path, "%s", in);
    }
    if (a.kill >= 1) {
        note("%ld !kill", idx);
        die_now();
    }
    return (int)ret(r);
}
int open(const char *p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    mode_t m = (mode_t)va_arg(ap, int);
    va_end(ap);
    return open_(AT_FDCWD, p, f, m);
}
int open64(const char *p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    mode_t m = (mode_t)va_arg(ap, int);
    va_end(ap);
    return open_(AT_FDCWD, p, f, m);
}
int openat(int d, const char *p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    mode_t m = (mode_t)va_arg(ap, int);
    va_end(ap);
    return open_(d, p, f, m);
}
int openat64(int d, const char *p, int f, ...) {
    va_list ap;
    va_start(ap, f);
    mode_t m = (mode_t)va_arg(ap, int);
    va_end(ap);
    return open_(d, p, f, m);
}
int creat(const char *p, mode_t m) { return open_(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open_(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int disk(int fd) { return on && fd >= 0 && fd < FDS && fds[fd].used; }

int close(int fd) {
    if (disk(fd)) {
        struct act a = step(0);
        note("%ld close %s", opno - 1, fds[fd].path);
        if (a.kill >= -1) {
            note("%ld !kill", opno - 1);
            die_now();
        }
        fds[fd].used = 0;
    }
    return (int)ret(RAW(SYS_close, fd));
}

static ssize_t read_(int fd, const struct iovec *v, int nv, off_t off, int at) {
    size_t n = 0;
    for (int i = 0; i < nv; i++) n += v[i].iov_len;
    if (!disk(fd)) return ret(at ? RAW(SYS_preadv, fd, v, nv, off, 0) : RAW(SYS_readv, fd, v, nv));
    struct act a = step('r');
    long idx = opno - 1;
    if (a.kill >= -1) {
        note("%ld read %s !kill", idx, fds[fd].path);
        die_now();
    }
    if (a.err) {
        note("%ld read %s = -%d%s", idx, fds[fd].path, a.err, a.note);
        errno = a.err;
        return -1;
    }
    size_t lim = a.max >= 1 && (size_t)a.max < n ? (size_t)a.max : n;
    struct iovec w[16];
    int k = 0;
    size_t left = lim;
    for (int i = 0; i < nv && i < 16 && left; i++) {
        w[k] = v[i];
        if (w[k].iov_len > left) w[k].iov_len = left;
        left -= w[k].iov_len;
        k++;
    }
    long r = at ? RAW(SYS_preadv, fd, w, k, off, 0) : RAW(SYS_readv, fd, w, k);
    note("%ld read %s %zu = %ld%s", idx, fds[fd].path, n, r, lim < n && r == (long)lim ? " !short" : "");
    return ret(r);
}
ssize_t read(int fd, void *b, size_t n) {
    struct iovec v = {b, n};
    if (!disk(fd)) return ret(RAW(SYS_read, fd, b, n));
    return read_(fd, &v, 1, 0, 0);
}
ssize_t readv(int fd, const struct iovec *v, int nv) { return read_(fd, v, nv, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) {
    struct iovec v = {b, n};
    return read_(fd, &v, 1, o, 1);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    struct iovec v = {b, n};
    return read_(fd, &v, 1, o, 1);
}

static ssize_t write_(int fd, const struct iovec *v, int nv, off_t off, int at) {
    size_t n = 0;
    for (int i = 0; i < nv; i++) n += v[i].iov_len;
    if (on && (fd == 1 || fd == 2) && !disk(fd)) {
        long k = con_no++;
        if (con_from >= 0 && k >= con_from) {
            note("console %d %zu = -%ld !console", fd, n, con_err);
            errno = (int)con_err;
            return -1;
        }
    }
    if (!disk(fd)) return ret(at ? RAW(SYS_pwritev, fd, v, nv, off, 0) : RAW(SYS_writev, fd, v, nv));
    struct act a = step('w');
    long idx = opno - 1;
    const char *why = "";
    size_t lim = n;
    if (a.err) {
        note("%ld write %s %zu = -%d%s", idx, fds[fd].path, n, a.err, a.note);
        errno = a.err;
        return -1;
    }
    if (a.zero && n) {
        note("%ld write %s %zu = 0 !zero", idx, fds[fd].path, n);
        return 0;
    }
    if (a.max >= 1 && (size_t)a.max < lim) lim = (size_t)a.max, why = " !short";
    if (a.kill >= -1) {
        lim = a.kill < 0 || (size_t)a.kill > n ? n : (size_t)a.kill;
        why = " !kill";
    }
    if (budget >= 0) {
        if (budget == 0 && n) {
            note("%ld write %s %zu = -%ld !full", idx, fds[fd].path, n, full_errno);
            errno = (int)full_errno;
            if (a.kill >= -1) {
                note("%ld !kill", idx);
                die_now();
            }
            return -1;
        }
        if ((size_t)budget < lim) lim = (size_t)budget, why = " !full";
        budget -= (long)lim;
    }
    struct iovec w[16];
    int k = 0;
    size_t left = lim;
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < nv && i < 16 && left; i++) {
        w[k] = v[i];
        if (w[k].iov_len > left) w[k].iov_len = left;
        left -= w[k].iov_len;
        for (size_t j = 0; j < w[k].iov_len; j++) h = (h ^ ((unsigned char *)w[k].iov_base)[j]) * 1099511628211ull;
        k++;
    }
    long r = k || !n ? (at ? RAW(SYS_pwritev, fd, w, k, off, 0) : RAW(SYS_writev, fd, w, k)) : 0;
    note("%ld write %s %zu = %ld #%lx%s", idx, fds[fd].path, n, r, (long)h, why);
    if (a.kill >= -1) {
        if (strcmp(why, " !kill")) note("%ld !kill", idx);
        die_now();
    }
    return ret(r);
}
ssize_t write(int fd, const void *b, size_t n) {
    struct iovec v = {(void *)b, n};
    return write_(fd, &v, 1, 0, 0);
}
ssize_t writev(int fd, const struct iovec *v, int nv) { return write_(fd, v, nv, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    struct iovec v = {(void *)b, n};
    return write_(fd, &v, 1, o, 1);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    struct iovec v = {(void *)b, n};
    return write_(fd, &v, 1, o, 1);
}

/* operations on a descriptor other than reading and writing */
static int fdop(int fd, const char *what, long sysno, long a1, long a2, long a3) {
    if (!disk(fd)) return (int)ret(RAW(sysno, fd, a1, a2, a3));
    struct act a = step(sysno == SYS_ftruncate ? 't' : 0);
    long idx = opno - 1;
    if (a.kill >= -1 && a.kill < 1) {
        note("%ld %s %s !kill", idx, what, fds[fd].path);
        die_now();
    }
    if (a.err) {
        note("%ld %s %s = -%d%s", idx, what, fds[fd].path, a.err, a.note);
        errno = a.err;
        return -1;
    }
    long r = RAW(sysno, fd, a1, a2, a3);
    note("%ld %s %s %ld = %ld", idx, what, fds[fd].path, a1, r);
    if (a.kill >= 1) {
        note("%ld !kill", idx);
        die_now();
    }
    return (int)ret(r);
}
int ftruncate(int fd, off_t n) { return fdop(fd, "truncate", SYS_ftruncate, n, 0, 0); }
int ftruncate64(int fd, off64_t n) { return fdop(fd, "truncate", SYS_ftruncate, n, 0, 0); }
int fsync(int fd) { return fdop(fd, "sync", SYS_fsync, 0, 0, 0); }
int fdatasync(int fd) { return fdop(fd, "sync", SYS_fdatasync, 0, 0, 0); }
int fallocate(int fd, int m, off_t o, off_t l) { return fdop(fd, "allocate", SYS_fallocate, m, o, l); }
int fallocate64(int fd, int m, off64_t o, off64_t l) { return fdop(fd, "allocate", SYS_fallocate, m, o, l); }
int fchmod(int fd, mode_t m) { return fdop(fd, "chmod", SYS_fchmod, m, 0, 0); }
int fchown(int fd, uid_t u, gid_t g) { return fdop(fd, "chown", SYS_fchown, u, g, 0); }
int futimens(int fd, const struct timespec t[2]) {
    if (!disk(fd)) return (int)ret(RAW(SYS_utimensat, fd, 0, t, 0));
    note("- utime %s", fds[fd].path);
    return (int)ret(RAW(SYS_utimensat, fd, 0, t, 0));
}
int flock(int fd, int op) { return fdop(fd, "lock", SYS_flock, op, 0, 0); }

/* operations on names */
static int nameop(const char *what, int d1, const char *p1, int d2, const char *p2, long sysno, long a1, long a2, long a3, long a4, long a5) {
    char x[PATH_MAX], y[PATH_MAX];
    const char *i1, *i2 = "";
    if (!on) return (int)ret(RAW(sysno, a1, a2, a3, a4, a5));
    normal(d1, p1, x);
    i1 = inside(x);
    if (p2) {
        normal(d2, p2, y);
        i2 = inside(y);
    }
    if (!i1 || !i2) {
        note("ESCAPE %s %s %s", what, x, p2 ? y : "");
        errno = EACCES;
        return -1;
    }
    struct act a = step(0);
    long idx = opno - 1;
    if (a.kill >= -1 && a.kill < 1) {
        note("%ld %s %s %s !kill", idx, what, i1, i2);
        die_now();
    }
    if (a.err) {
        note("%ld %s %s %s = -%d%s", idx, what, i1, i2, a.err, a.note);
        errno = a.err;
        return -1;
    }
    long r = RAW(sysno, a1, a2, a3, a4, a5);
    note("%ld %s %s %s = %ld", idx, what, i1, i2, r);
    if (a.kill >= 1) {
        note("%ld !kill", idx);
        die_now();
    }
    return (int)ret(r);
}
int rename(const char *a, const char *b) { return nameop("rename", AT_FDCWD, a, AT_FDCWD, b, SYS_rename, (long)a, (long)b, 0, 0, 0); }
int renameat(int d, const char *a, int e, const char *b) { return nameop("rename", d, a, e, b, SYS_renameat, d, (long)a, e, (long)b, 0); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { return nameop("rename", d, a, e, b, SYS_renameat2, d, (long)a, e, (long)b, f); }
int link(const char *a, const char *b) { return nameop("link", AT_FDCWD, a, AT_FDCWD, b, SYS_link, (long)a, (long)b, 0, 0, 0); }
int linkat(int d, const char *a, int e, const char *b, int f) { return nameop("link", d, a, e, b, SYS_linkat, d, (long)a, e, (long)b, f); }
int symlink(const char *a, const char *b) { return nameop("symlink", AT_FDCWD, b, 0, 0, SYS_symlink, (long)a, (long)b, 0, 0, 0); }
int symlinkat(const char *a, int d, const char *b) { return nameop("symlink", d, b, 0, 0, SYS_symlinkat, (long)a, d, (long)b, 0, 0); }
int unlink(const char *a) { return nameop("unlink", AT_FDCWD, a, 0, 0, SYS_unlink, (long)a, 0, 0, 0, 0); }
int unlinkat(int d, const char *a, int f) { return nameop("unlink", d, a, 0, 0, SYS_unlinkat, d, (long)a, f, 0, 0); }
int remove(const char *a) {
    struct stat st;
    if (RAW(SYS_lstat, a, &st) == 0 && S_ISDIR(st.st_mode)) return nameop("rmdir", AT_FDCWD, a, 0, 0, SYS_rmdir, (long)a, 0, 0, 0, 0);
    return unlink(a);
}
int rmdir(const char *a) { return nameop("rmdir", AT_FDCWD, a, 0, 0, SYS_rmdir, (long)a, 0, 0, 0, 0); }
int mkdir(const char *a, mode_t m) { return nameop("mkdir", AT_FDCWD, a, 0, 0, SYS_mkdir, (long)a, m, 0, 0, 0); }
int mkdirat(int d, const char *a, mode_t m) { return nameop("mkdir", d, a, 0, 0, SYS_mkdirat, d, (long)a, m, 0, 0); }
int chmod(const char *a, mode_t m) { return nameop("chmod", AT_FDCWD, a, 0, 0, SYS_chmod, (long)a, m, 0, 0, 0); }
int fchmodat(int d, const char *a, mode_t m, int f) { return nameop("chmod", d, a, 0, 0, SYS_fchmodat, d, (long)a, m, f, 0); }
int chown(const char *a, uid_t u, gid_t g) { return nameop("chown", AT_FDCWD, a, 0, 0, SYS_chown, (long)a, u, g, 0, 0); }
int lchown(const char *a, uid_t u, gid_t g) { return nameop("chown", AT_FDCWD, a, 0, 0, SYS_lchown, (long)a, u, g, 0, 0); }
int fchownat(int d, const char *a, uid_t u, gid_t g, int f) { return nameop("chown", d, a, 0, 0, SYS_fchownat, d, (long)a, u, g, f); }
int truncate(const char *a, off_t n) { return nameop("truncate", AT_FDCWD, a, 0, 0, SYS_truncate, (long)a, n, 0, 0, 0); }
int truncate64(const char *a, off64_t n) { return nameop("truncate", AT_FDCWD, a, 0, 0, SYS_truncate, (long)a, n, 0, 0, 0); }
int utimensat(int d, const char *a, const struct timespec t[2], int f) { return nameop("utime", d, a, 0, 0, SYS_utimensat, d, (long)a, (long)t, f, 0); }
int utimes(const char *a, const struct timeval t[2]) { return nameop("utime", AT_FDCWD, a, 0, 0, SYS_utimes, (long)a, (long)t, 0, 0, 0); }
int mkfifo(const char *a, mode_t m) { return nameop("mknod", AT_FDCWD, a, 0, 0, SYS_mknod, (long)a, m | S_IFIFO, 0, 0, 0); }

static void dupfd(int a, long b) {
    if (on && a >= 0 && a < FDS && b >= 0 && b < FDS) fds[b] = fds[a];
}
int dup(int a) {
    long b = RAW(SYS_dup, a);
    dupfd(a, b);
    return (int)ret(b);
}
int dup2(int a, int b) {
    long r = RAW(SYS_dup2, a, b);
    if (a != b) dupfd(a, r);
    return (int)ret(r);
}
int dup3(int a, int b, int f) {
    long r = RAW(SYS_dup3, a, b, f);
    dupfd(a, r);
    return (int)ret(r);
}
static int fcntl_(int fd, int cmd, long arg) {
    long r = RAW(SYS_fcntl, fd, cmd, arg);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) dupfd(fd, r);
    return (int)ret(r);
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return fcntl_(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return fcntl_(fd, cmd, a);
}

/* Kernel-side copies are refused as some file systems do; callers fall back to read and write. */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
    if (!disk(a) && !disk(c)) return ret(RAW(SYS_copy_file_range, a, b, c, d, n, f));
    errno = EXDEV;
    return -1;
}
ssize_t sendfile(int o, int i, off_t *p, size_t n) {
    if (!disk(o) && !disk(i)) return ret(RAW(SYS_sendfile, o, i, p, n));
    errno = EINVAL;
    return -1;
}
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) {
    if (!disk(o) && !disk(i)) return ret(RAW(SYS_sendfile, o, i, p, n));
    errno = EINVAL;
    return -1;
}
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
    if (!disk(a) && !disk(c)) return ret(RAW(SYS_splice, a, b, c, d, n, f));
    errno = EINVAL;
    return -1;
}
static void *mmap_(void *a, size_t n, int prot, int flags, int fd, off_t o) {
    if (on && fd >= 0 && disk(fd) && (flags & MAP_SHARED) && (prot & PROT_WRITE)) note("- map %s", fds[fd].path);
    return (void *)ret(RAW(SYS_mmap, a, n, prot, flags, fd, o));
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) { return mmap_(a, n, prot, flags, fd, o); }
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t o) { return mmap_(a, n, prot, flags, fd, o); }

/* ---------------------------------------------------------------- other processes */

static int refuse(const char *what, const char *p) {
    note("ESCAPE %s %s", what, p ? p : "");
    errno = EPERM;
    return -1;
}
int execve(const char *p, char *const a[], char *const e[]) {
    if (!on) return (int)ret(RAW(SYS_execve, p, a, e));
    return refuse("exec", p);
}
int execvp(const char *p, char *const a[]) {
    if (!on) return REAL(execvp)(p, a);
    return refuse("exec", p);
}
/* Programs that may be started run outside of the simulation; starting one is an operation that can fail. */
static int begin(const char *what, const char *p) {
    struct act a = step(0);
    long idx = opno - 1;
    if (a.kill >= -1) {
        note("%ld %s %s !kill", idx, what, p);
        die_now();
    }
    if (a.err) note("%ld %s %s = -%d%s", idx, what, p, a.err, a.note);
    else note("%ld %s %s = 0", idx, what, p);
    return a.err;
}
typedef int spawn_t(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
static int spawn_(const char *f, pid_t *i, const char *p, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *t, char *const a[], char *const e[]) {
    if (on && !children) {
        refuse("spawn", p);
        return EPERM;
    }
    int r = on ? begin("spawn", p) : 0;
    return r ? r : ((spawn_t *)real_(f))(i, p, fa, t, a, e);
}
int posix_spawn(pid_t *i, const char *p, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *t, char *const a[], char *const e[]) {
    return spawn_("posix_spawn", i, p, f, t, a, e);
}
int posix_spawnp(pid_t *i, const char *p, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *t, char *const a[], char *const e[]) {
    return spawn_("posix_spawnp", i, p, f, t, a, e);
}
pid_t fork(void) {
    if (!on) return REAL(fork)();
    if (!children) return refuse("fork", 0);
    int r = begin("spawn", "-");
    if (r) {
        errno = r;
        return -1;
    }
    pid_t c = REAL(fork)();
    if (c == 0) on = 0;
    return c;
}
pid_t waitpid(pid_t p, int *st, int f) {
    if (on && jit && jit_run < 6 && (int)(next64(&jit) % 100) < jit_pct) {
        jit_run++;
        note("wait !intr");
        errno = EINTR;
        return -1;
    }
    return (pid_t)ret(RAW(SYS_wait4, p, st, f, 0));
}
int kill(pid_t p, int s) {
    if (!on || p == fake_pid || p == (pid_t)RAW(SYS_getpid)) return (int)ret(raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), s, 0, 0, 0, 0));
    return refuse("kill", 0);
}

/* ---------------------------------------------------------------- randomness and time */

ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!on) return ret(RAW(SYS_getrandom, b, n, f));
    gate();
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)(next64(&seed_rand) >> 24);
    return (ssize_t)n;
}
int getentropy(void *b, size_t n) {
    getrandom(b, n, 0);
    return 0;
}
static void tick(void) {
    now_n += 1000;
    if (now_n >= 1000000000) now_n -= 1000000000, now_s++;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!on) return (int)ret(RAW(SYS_clock_gettime, c, t));
    tick();
    t->tv_sec = now_s;
    t->tv_nsec = now_n;
    return 0;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    (void)z;
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    (void)b;
    if (!on) return (int)ret(RAW(SYS_nanosleep, a, b));
    now_s += a->tv_sec;
    gate();
    return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
    (void)c, (void)b;
    if (f & TIMER_ABSTIME) {
        if (a->tv_sec > now_s) now_s = a->tv_sec;
    } else
        now_s += a->tv_sec;
    gate();
    return 0;
}
pid_t gettid(void) { return on ? (pid_t)(fake_pid + (me < 0 ? 0 : me)) : (pid_t)RAW(SYS_gettid); }
pid_t getpid(void) { return on ? (pid_t)fake_pid : (pid_t)RAW(SYS_getpid); }

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (on) {
        switch (n) {
        case SYS_getrandom: return getrandom((void *)a, (size_t)b, (unsigned)c);
        case SYS_futex: return futex((uint32_t *)a, (int)b, (uint32_t)c, (void *)d, (uint32_t *)e, (uint32_t)f);
        case SYS_copy_file_range: return copy_file_range((int)a, (off64_t *)b, (int)c, (off64_t *)d, (size_t)e, (unsigned)f);
        case SYS_open: return open_(AT_FDCWD, (const char *)a, (int)b, (mode_t)c);
        case SYS_openat: return open_((int)a, (const char *)b, (int)c, (mode_t)d);
        case SYS_write: return write((int)a, (void *)b, (size_t)c);
        case SYS_read: return read((int)a, (void *)b, (size_t)c);
        case SYS_renameat2: return renameat2((int)a, (char *)b, (int)c, (char *)d, (unsigned)e);
        }
    }
    return ret(raw(n, a, b, c, d, e, f));
}
