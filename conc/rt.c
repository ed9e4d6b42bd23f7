/* A runtime for code compiled with -Zsanitizer=thread that, instead of watching races go
 * by, decides every interleaving: each atomic operation, futex wait/wake and yield of a
 * registered thread is a scheduling point, exactly one registered thread runs at a time,
 * and which one runs next is given by a list of decisions (step, thread). With memory
 * instrumentation on it also keeps vector clocks and reports plain accesses that are not
 * ordered by happens-before. Not instrumented itself. */
#define _GNU_SOURCE
#include <errno.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 3
#define MAXSTEP (1u << 20)
#define MAXDEC 64
enum { K_LOAD, K_WRITE, K_START, K_YIELD, K_FWAIT, K_FWAKE };
enum { ST_RUNNING, ST_OK, ST_DEADLOCK, ST_STEPS, ST_DIVERGED };
enum { T_NONE, T_READY, T_BLOCKED, T_DONE };

typedef struct { uint8_t tid, kind, enabled, prev_ok; uint32_t go; uint64_t addr; } Ent;
typedef struct {
    uint32_t ndec, nthreads, max_steps, race_mode;
    struct { uint32_t step, tid; } dec[MAXDEC];
    uint32_t nsteps, status, nrace, blocked_mask;
    char race[8][160];
    uint32_t bad[MAXT];
    char result[MAXT][2048];
    Ent trace[MAXSTEP];
} Shared;
Shared *rt_shared;
static volatile int active;
static __thread int me = -1;

static struct { int st, kind, spins; uint64_t addr, spin_addr, faddr; volatile uint32_t sem; } th[MAXT];
static int cur;

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void sem_wait_(int t) {
    while (!__atomic_exchange_n(&th[t].sem, 0, __ATOMIC_ACQUIRE)) raw6(SYS_futex, (long)&th[t].sem, 0 | 128, 0, 0, 0, 0);
}
static void sem_post_(int t) {
    __atomic_store_n(&th[t].sem, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)&th[t].sem, 1 | 128, 1, 0, 0, 0);
}
static void stop_(int status) {
    rt_shared->status = status;
    rt_shared->blocked_mask = 0;
    for (int i = 0; i < MAXT; i++) if (th[i].st == T_BLOCKED) rt_shared->blocked_mask |= 1u << i;
    raw6(SYS_exit_group, 9, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}
/* choose who executes the next step; called by thread t, the one that was running */
static void reschedule(int t) {
    Shared *s = rt_shared;
    unsigned en = 0, go = 0;
    int done = 0, n = s->nthreads;
    for (int i = 0; i < n; i++) {
        if (th[i].st == T_READY) { en |= 1u << i; if (th[i].kind != K_YIELD) go |= 1u << i; }
        if (th[i].st == T_DONE) done++;
    }
    if (!en) {
        if (done == n) { s->status = ST_OK; __atomic_store_n(&active, 0, __ATOMIC_SEQ_CST); raw6(SYS_futex, (long)&active, 1 | 128, 1000, 0, 0, 0); return; }
        stop_(ST_DEADLOCK);
    }
    uint32_t k = s->nsteps;
    if (k >= s->max_steps || k >= MAXSTEP) stop_(ST_STEPS);
    unsigned pick = go ? go : en;
    int u = -1;
    for (uint32_t i = 0; i < s->ndec; i++) if (s->dec[i].step == k) u = s->dec[i].tid;
    if (u >= 0) { if (!(en & (1u << u))) stop_(ST_DIVERGED); }
    else if (pick & (1u << cur)) u = cur;
    else for (int i = 1; i <= n; i++) if (pick & (1u << ((cur + i) % n))) { u = (cur + i) % n; break; }
    Ent *e = &s->trace[k];
    e->tid = u; e->kind = th[u].kind; e->enabled = en; e->go = go; e->addr = th[u].addr;
    e->prev_ok = k > 0 && (go & (1u << cur)) != 0;
    s->nsteps = k + 1;
    cur = u;
    if (u != t) { int fin = t < 0 || th[t].st == T_DONE; sem_post_(u); if (!fin) sem_wait_(t); }
}
static void point(int kind, uint64_t addr) {
    int t = me;
    if (kind == K_LOAD && addr == th[t].spin_addr) { if (++th[t].spins > 3000) { kind = K_YIELD; th[t].spins = 0; } }
    else { th[t].spin_addr = addr; th[t].spins = 0; }
    th[t].kind = kind; th[t].addr = addr;
    reschedule(t);
}
#define ON (__builtin_expect(active && me >= 0, 0))

/* ---- vector clocks and shadow memory (race mode) ---- */
typedef struct { uint32_t c[MAXT]; } VC;
static VC C[MAXT], ACQ[MAXT], REL[MAXT];
static inline void join(VC *a, const VC *b) { for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }
typedef struct { uint64_t addr; VC v; } Sync;
#define NSYNC (1u << 16)
static Sync *syncs;
static Sync *sync_of(uint64_t a) {
    uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> 48) & (NSYNC - 1);
    for (;; h = (h + 1) & (NSYNC - 1)) { if (syncs[h].addr == a) return &syncs[h]; if (!syncs[h].addr) { syncs[h].addr = a; return &syncs[h]; } }
}
typedef struct { uint32_t w[MAXT], r[MAXT]; } Cell;
typedef struct { uint64_t page; Cell *cells; } PageEnt;
#define NPAGE (1u << 18)
static PageEnt *pages;
static char *bump, *bump_end;
static Cell *page_of(uint64_t page, int make) {
    uint32_t h = (uint32_t)((page * 0x9E3779B97F4A7C15ull) >> 40) & (NPAGE - 1);
    for (;; h = (h + 1) & (NPAGE - 1)) {
        if (pages[h].page == page) return pages[h].cells;
        if (!pages[h].page) {
            if (!make) return 0;
            size_t sz = 512 * sizeof(Cell);
            if (bump + sz > bump_end) { bump = mmap(0, 1 << 26, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); bump_end = bump + (1 << 26); }
            pages[h].page = page; pages[h].cells = (Cell *)bump; bump += sz;
            return pages[h].cells;
        }
    }
}
static void race(int t, int s, uint64_t a, int w, int ow, void *pc) {
    uint32_t n = rt_shared->nrace;
    if (n >= 8) return;
    extern char __executable_start;
    snprintf(rt_shared->race[n], 160, "%s by thread %d at 0x%lx is not ordered with a %s by thread %d", w ? "write" : "read", t, (long)((char *)pc - &__executable_start), ow ? "write" : "read", s);
    rt_shared->nrace = n + 1;
    (void)a;
}
static uint64_t last_page; static Cell *last_cells;
static void mem(uint64_t a, size_t len, int w, void *pc) {
    if (!rt_shared->race_mode) return;
    int t = me;
    while (len) {
        unsigned off = a & 7; size_t n = 8 - off; if (n > len) n = len;
        uint32_t mask = (uint32_t)(((1u << n) - 1) << off);
        uint64_t page = a >> 12;
        if (page != last_page) { last_cells = page_of(page, 1); last_page = page; }
        Cell *c = &last_cells[(a & 4095) >> 3];
        for (int s = 0; s < MAXT; s++) {
            if (s == t) continue;
            uint32_t x = c->w[s];
            if ((x & mask) && (x >> 8) > C[t].c[s]) race(t, s, a, w, 1, pc);
            if (w) { x = c->r[s]; if ((x & mask) && (x >> 8) > C[t].c[s]) race(t, s, a, w, 0, pc); }
        }
        uint32_t *p = w ? &c->w[t] : &c->r[t];
        uint32_t clk = C[t].c[t];
        *p = (*p >> 8) == clk ? *p | mask : (clk << 8) | mask;
        a += n; len -= n;
    }
}
static void forget(uint64_t a, size_t len) {
    while (len) {
        size_t n = 8 - (a & 7); if (n > len) n = len;
        Cell *c = page_of(a >> 12, 0);
        if (c) memset(&c[(a & 4095) >> 3], 0, sizeof(Cell));
        a += n; len -= n;
    }
    last_page = 0;
}
static inline int acquires(int mo) { return mo == 1 || mo == 2 || mo >= 4; }
static inline int releases(int mo) { return mo >= 3; }
static void on_load(uint64_t a, int mo) {
    if (!rt_shared->race_mode) return;
    Sync *s = sync_of(a);
    if (acquires(mo)) join(&C[me], &s->v); else join(&ACQ[me], &s->v);
}
static void on_store(uint64_t a, int mo) {
    if (!rt_shared->race_mode) return;
    Sync *s = sync_of(a);
    if (releases(mo)) { s->v = C[me]; C[me].c[me]++; } else s->v = REL[me];
}
static void on_rmw(uint64_t a, int mo) {
    if (!rt_shared->race_mode) return;
    Sync *s = sync_of(a);
    if (acquires(mo)) join(&C[me], &s->v); else join(&ACQ[me], &s->v);
    if (releases(mo)) { join(&s->v, &C[me]); C[me].c[me]++; } else join(&s->v, &REL[me]);
}

/* ---- the interface of the instrumented code ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **a, void *v) { (void)a; (void)v; }
void __tsan_vptr_read(void **a) { (void)a; }
#define RD(name, n) void name(void *a) { if (ON) mem((uint64_t)a, n, 0, __builtin_return_address(0)); }
#define WR(name, n) void name(void *a) { if (ON) mem((uint64_t)a, n, 1, __builtin_return_address(0)); }
#define ALLW(n) RD(__tsan_read##n, n) WR(__tsan_write##n, n) RD(__tsan_unaligned_read##n, n) WR(__tsan_unaligned_write##n, n) \
    RD(__tsan_volatile_read##n, n) WR(__tsan_volatile_write##n, n) RD(__tsan_unaligned_volatile_read##n, n) WR(__tsan_unaligned_volatile_write##n, n) \
    WR(__tsan_read_write##n, n) WR(__tsan_unaligned_read_write##n, n)
ALLW(1) ALLW(2) ALLW(4) ALLW(8) ALLW(16)
void __tsan_read_range(void *a, uint64_t n) { if (ON) mem((uint64_t)a, n, 0, __builtin_return_address(0)); }
void __tsan_write_range(void *a, uint64_t n) { if (ON) mem((uint64_t)a, n, 1, __builtin_return_address(0)); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (ON) { mem((uint64_t)s, n, 0, __builtin_return_address(0)); mem((uint64_t)d, n, 1, __builtin_return_address(0)); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (ON) { mem((uint64_t)s, n, 0, __builtin_return_address(0)); mem((uint64_t)d, n, 1, __builtin_return_address(0)); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (ON) mem((uint64_t)d, n, 1, __builtin_return_address(0)); return memset(d, c, n); }
void rt_free(void *a, size_t n) { if (ON && rt_shared->race_mode) { mem((uint64_t)a, n, 1, __builtin_return_address(0)); forget((uint64_t)a, n); } }

#define SEQ __ATOMIC_SEQ_CST
#define ATOM(N, T) \
T __tsan_atomic##N##_load(const volatile T *a, int mo) { if (ON) { point(K_LOAD, (uint64_t)a); on_load((uint64_t)a, mo); } return __atomic_load_n(a, SEQ); } \
void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { if (ON) { point(K_WRITE, (uint64_t)a); on_store((uint64_t)a, mo); } __atomic_store_n(a, v, SEQ); } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { if (ON) { point(K_WRITE, (uint64_t)a); on_rmw((uint64_t)a, mo); } return __atomic_exchange_n(a, v, SEQ); } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { if (ON) { point(K_WRITE, (uint64_t)a); on_rmw((uint64_t)a, mo); } return __atomic_fetch_add(a, v, SEQ); } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { if (ON) { point(K_WRITE, (uint64_t)a); on_rmw((uint64_t)a, mo); } return __atomic_fetch_sub(a, v, SEQ); } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { if (ON) { point(K_WRITE, (uint64_t)a); on_rmw((uint64_t)a, mo); } return __atomic_fetch_and(a, v, SEQ); } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { if (ON) { point(K_WRITE, (uint64_t)a); on_rmw((uint64_t)a, mo); } return __atomic_fetch_or(a, v, SEQ); } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { if (ON) { point(K_WRITE, (uint64_t)a); on_rmw((uint64_t)a, mo); } return __atomic_fetch_xor(a, v, SEQ); } \
T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { if (ON) { point(K_WRITE, (uint64_t)a); on_rmw((uint64_t)a, mo); } return __atomic_fetch_nand(a, v, SEQ); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { \
    if (ON) { point(K_WRITE, (uint64_t)a); T x = __atomic_load_n(a, SEQ); if (x == *c) on_rmw((uint64_t)a, mo); else on_load((uint64_t)a, fmo); } \
    return __atomic_compare_exchange_n(a, c, v, 0, SEQ, SEQ); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (ON && rt_shared->race_mode) {
        if (acquires(mo)) join(&C[me], &ACQ[me]);
        if (releases(mo)) { REL[me] = C[me]; C[me].c[me]++; }
    }
    __atomic_thread_fence(SEQ);
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---- blocking ---- */
#define FUTEX_WAIT_ 0
#define FUTEX_WAKE_ 1
#define FUTEX_WAIT_BITSET_ 9
#define FUTEX_WAKE_BITSET_ 10
static long futex_(uint32_t *a, int op, uint32_t val, const void *timeout) {
    int cmd = op & 127;
    if (cmd == FUTEX_WAIT_ || cmd == FUTEX_WAIT_BITSET_) {
        point(K_FWAIT, (uint64_t)a);
        if (__atomic_load_n(a, SEQ) != val) { errno = EAGAIN; return -1; }
        if (timeout) { point(K_YIELD, (uint64_t)a); errno = ETIMEDOUT; return -1; }
        int t = me;
        th[t].st = T_BLOCKED; th[t].faddr = (uint64_t)a;
        reschedule(t);
        return 0;
    }
    if (cmd == FUTEX_WAKE_ || cmd == FUTEX_WAKE_BITSET_) {
        point(K_FWAKE, (uint64_t)a);
        long n = 0;
        for (int i = 0; i < MAXT && (uint32_t)n < val; i++)
            if (th[i].st == T_BLOCKED && th[i].faddr == (uint64_t)a) { th[i].st = T_READY; th[i].kind = K_FWAIT; th[i].addr = (uint64_t)a; n++; }
        return n;
    }
    return -2;
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && ON) { long r = futex_((uint32_t *)a, (int)b, (uint32_t)c, (void *)d); if (r != -2) return r; }
    if (n == SYS_getrandom && !(c & ~3l)) { memset((void *)a, 0x5a, b); return b; }
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
ssize_t getrandom(void *p, size_t n, unsigned flags) { (void)flags; memset(p, 0x5a, n); return (ssize_t)n; }
int sched_yield(void) { if (ON) { point(K_YIELD, 0); return 0; } return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
int nanosleep(const struct timespec *t, struct timespec *r) { if (ON) { point(K_YIELD, 0); return 0; } return (int)raw6(SYS_nanosleep, (long)t, (long)r, 0, 0, 0, 0); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) { if (ON) { point(K_YIELD, 0); return 0; } return (int)-raw6(SYS_clock_nanosleep, c, fl, (long)t, (long)r, 0, 0); }
int usleep(useconds_t us) { struct timespec t = { us / 1000000, (us % 1000000) * 1000l }; return nanosleep(&t, 0); }

/* ---- control ---- */
static uint32_t arrived;
void rt_setup(void) {
    rt_shared = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    syncs = mmap(0, NSYNC * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mallopt(M_TOP_PAD, 1 << 20);
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    pages = mmap(0, NPAGE * sizeof(PageEnt), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
/* called by every thread of the scenario; returns when it is this thread's turn */
void rt_begin(int t) {
    me = t;
    th[t].st = T_READY; th[t].kind = K_START; th[t].addr = 0;
    for (int i = 0; i < MAXT; i++) C[t].c[i] = 0;
    C[t].c[t] = 1;
    __atomic_add_fetch(&arrived, 1, SEQ);
    raw6(SYS_futex, (long)&arrived, 1 | 128, 1000, 0, 0, 0);
    sem_wait_(t);
}
/* the main thread starts the others one at a time, then lets them go */
void rt_arrived(uint32_t n) {
    uint32_t a;
    while ((a = __atomic_load_n(&arrived, SEQ)) < n) raw6(SYS_futex, (long)&arrived, 0 | 128, a, 0, 0, 0);
}
void rt_go(void) { cur = 0; active = 1; reschedule(-1); }
/* a finished thread stays until all are, so that its exit does not run beside the others */
void rt_end(int t) {
    th[t].st = T_DONE;
    me = -1;
    reschedule(t);
    while (__atomic_load_n(&active, SEQ)) raw6(SYS_futex, (long)&active, 0 | 128, 1, 0, 0, 0);
}
