/* Deterministic scheduler, race detector and schedule explorer.

   The library, its dependencies and the standard library are compiled with the instrumentation of
   the thread sanitizer, but linked to this file instead of its runtime. Every atomic operation and
   every futex call of a managed thread is a scheduling point; every plain access is checked for
   races by vector clocks. One thread runs at a time; the explorer runs the program once per
   schedule, in a forked child, and enumerates schedules by dynamic partial order reduction with
   sleep sets: every execution up to reordering of independent operations is run. */
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXT 4
#define MAXEV 3000
#define SPIN_BLOCK 200

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;

enum { K_START, K_LOAD, K_STORE, K_RMW, K_FENCE, K_WAIT, K_RESUME, K_WAKE, K_POINT, K_SPIN, K_SPINCAS };
static const char *kname[] = {"start", "load", "store", "rmw", "fence", "wait", "resume", "wake", "point", "spin", "spin"};
struct op { u8 kind, size; uintptr_t addr; };
struct event { u8 tid, enabled, sleep; struct op pend[MAXT]; };
enum { S_RUNNING, S_OK, S_REDUNDANT, S_UNFAIR, S_FAIL, S_ENGINE };
struct shared {
    volatile int status;
    char msg[1024];
    int nprefix;
    u8 prefix[MAXEV];
    u8 sleep0; /* sleep set at the last node of the prefix */
    int wake_lifo, overtake, polite;
    volatile int n;
    struct event ev[MAXEV];
    struct op left[MAXT]; /* what unfinished threads were about to do */
    u64 plain, races_checked, notes[8];
};
static struct shared *sh;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

/* ---------------------------------------------------------------- managed threads (in the child) */
typedef struct { u16 c[MAXT]; } vc;
struct thr {
    int id;
    volatile int go;
    u8 done, blocked;      /* blocked: in a futex wait */
    struct op pend;
    u8 cas; u64 expect;    /* the pending operation is a compare-exchange */
    uintptr_t lo, hi;      /* own stack */
    u64 spin_val; uintptr_t spin_addr; int spin_n, spin_cas;
    u64 wait_seq;
    uintptr_t wait_addr; int waits; /* in a row, for the same location */
    vc clk, acq, rel;      /* clock, pending acquires, release fence */
    int mode;
    pthread_t pt;
};
static struct thr T[MAXT];
static int nthr;
static volatile int running; /* threads not finished */
static u8 cursleep;
static u64 seqno;
static __thread struct thr *me;
static void (*body_fn)(int);
static pthread_key_t endkey;

static void quit(int status, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    if (sh->status == S_RUNNING) {
        vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
        sh->status = status;
    }
    for (int i = 0; i < nthr; i++) sh->left[i] = T[i].done ? (struct op){0, 0, 0} : T[i].pend;
    raw(SYS_exit_group, status == S_FAIL ? 1 : status == S_ENGINE ? 2 : 0, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

void mc_fail(const char *p, size_t n) { quit(S_FAIL, "%.*s", (int)n, p); }
int mc_tid(void) { return me ? me->id : -1; }
void mc_note(int k) { __atomic_fetch_add(&sh->notes[k & 7], 1, __ATOMIC_RELAXED); }

u64 mc_noted(int k) { return sh->notes[k & 7]; }

static int writes(const struct op *o) { return o->kind != K_LOAD && o->kind != K_SPIN; }
static int dependent(const struct op *a, const struct op *b) {
    if (!a->addr || !b->addr) return 0;
    if (a->addr + a->size <= b->addr || b->addr + b->size <= a->addr) return 0;
    return writes(a) || writes(b);
}

static u64 peek(uintptr_t a, int size) {
    switch (size) {
    case 1: return *(volatile u8 *)a;
    case 2: return *(volatile u16 *)a;
    case 4: return *(volatile u32 *)a;
    default: return *(volatile u64 *)a;
    }
}

static int is_enabled(struct thr *t) {
    if (t->done || t->blocked) return 0;
    if (t->pend.kind == K_SPIN || t->pend.kind == K_SPINCAS) return peek(t->pend.addr, t->pend.size) != t->spin_val;
    return 1;
}

static void park(struct thr *t) {
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void grant(struct thr *t) {
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, (long)&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

/* Chooses the thread to go on, records the step; NULL when all are finished. */
static struct thr *choose(void) {
    u8 en = 0, alive = 0;
    for (int i = 0; i < nthr; i++) {
        if (!T[i].done) alive |= 1 << i;
        if (is_enabled(&T[i])) en |= 1 << i;
    }
    if (!alive) return NULL;
    /* polite schedules leave out compare-exchanges that would fail while others can go on */
    u8 futile = 0;
    for (int i = 0; i < nthr && sh->polite; i++)
        if ((en >> i & 1) && T[i].cas && T[i].pend.kind == K_RMW && peek(T[i].pend.addr, T[i].pend.size) != T[i].expect) futile |= 1 << i;
    if (en & ~futile) en &= ~futile;
    if (!en) {
        char b[400]; int k = 0;
        for (int i = 0; i < nthr; i++)
            if (!T[i].done) k += snprintf(b + k, sizeof b - k, " thread %d in %s", i, T[i].blocked ? "wait" : kname[T[i].pend.kind]);
        quit(S_FAIL, "deadlock:%s", b);
    }
    int i = sh->n;
    if (i >= MAXEV) quit(S_ENGINE, "more than %d steps", MAXEV);
    struct event *e = &sh->ev[i];
    e->enabled = en;
    for (int k = 0; k < nthr; k++) e->pend[k] = T[k].pend;
    int pick = -1;
    if (i == sh->nprefix - 1 || (i == 0 && sh->nprefix == 0)) cursleep = sh->sleep0;
    if (i < sh->nprefix) {
        pick = sh->prefix[i];
        if (!(en >> pick & 1)) quit(S_ENGINE, "replay diverged at step %d", i);
    } else {
        u8 cand = en & ~cursleep;
        if (!cand) quit(S_REDUNDANT, "redundant");
        if (me && (cand >> me->id & 1)) pick = me->id;
        else pick = __builtin_ctz(cand);
    }
    e->tid = pick;
    e->sleep = i >= sh->nprefix - 1 ? cursleep : 0;
    if (i >= sh->nprefix - 1) {
        u8 s = 0;
        for (int q = 0; q < nthr; q++)
            if ((cursleep >> q & 1) && q != pick && !dependent(&T[q].pend, &T[pick].pend)) s |= 1 << q;
        cursleep = s;
    }
    sh->n = i + 1;
    return &T[pick];
}

/* Announces the next operation of this thread, and returns when it is to be executed. */
static void point(u8 kind, uintptr_t addr, u8 size) {
    struct thr *t = me;
    if (addr != t->wait_addr) t->wait_addr = 0;
    t->pend = (struct op){kind, size, addr};
    struct thr *n = choose();
    if (n != t) {
        grant(n);
        park(t);
    }
}

/* Executions in which a thread waiting for a location is passed over more often than the bound are
   not followed any further: without it, they have no end. */
static void waits(uintptr_t a) {
    struct thr *t = me;
    if (t->wait_addr != a) t->waits = 0;
    t->wait_addr = a;
    if (++t->waits > 1 + sh->overtake) quit(S_UNFAIR, "unfair");
}

static void blocked_wait(void) { /* this thread has become blocked; run the others */
    struct thr *t = me, *n = choose();
    if (n != t) {
        grant(n);
        park(t);
    }
}

static void thread_end(void *p) {
    struct thr *t = p;
    t->done = 1;
    me = NULL;
    struct thr *n = choose();
    if (n) grant(n);
    else {
        __atomic_store_n(&running, 0, __ATOMIC_RELEASE);
        raw(SYS_futex, (long)&running, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
    }
}

static void *thread_main(void *p) {
    struct thr *t = p;
    pthread_attr_t at;
    void *base; size_t sz;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &base, &sz);
    pthread_attr_destroy(&at);
    t->lo = (uintptr_t)base; t->hi = t->lo + sz;
    pthread_setspecific(endkey, t);
    __atomic_fetch_add(&running, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, (long)&running, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
    park(t);
    me = t;
    body_fn(t->id);
    return NULL; /* thread-local destructors run next, then thread_end */
}

/* ---------------------------------------------------------------- happens-before */
static void join(vc *a, const vc *b) { for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }
#define LOCS 512
static struct { uintptr_t a; vc v; } locs[LOCS];
static vc *loc(uintptr_t a) {
    u32 h = (a * 0x9E3779B97F4A7C15ull) >> 55;
    for (u32 k = 0; k < LOCS; k++, h++) {
        if (locs[h % LOCS].a == a) return &locs[h % LOCS].v;
        if (!locs[h % LOCS].a) { locs[h % LOCS].a = a; return &locs[h % LOCS].v; }
    }
    quit(S_ENGINE, "too many atomic locations");
    return NULL;
}
static int acquires(int mo) { return mo == 1 || mo == 2 || mo >= 4; }
static int releases(int mo) { return mo >= 3; }
static void hb_load(uintptr_t a, int mo) {
    vc *l = loc(a);
    if (acquires(mo)) join(&me->clk, l);
    join(&me->acq, l);
}
static void hb_store(uintptr_t a, int mo) {
    vc *l = loc(a);
    *l = releases(mo) ? me->clk : me->rel;
    me->clk.c[me->id]++;
}
static void hb_rmw(uintptr_t a, int mo) {
    vc *l = loc(a), old = *l;
    if (acquires(mo)) join(&me->clk, &old);
    join(&me->acq, &old);
    join(l, releases(mo) ? &me->clk : &me->rel);
    me->clk.c[me->id]++;
}

/* ---------------------------------------------------------------- races */
enum { A_R, A_W, A_AR, A_AW };
struct gran { uintptr_t key; u16 c[4][MAXT][8]; };
#define GRANS (1 << 18)
static struct gran grans[GRANS];
static u32 gindex[2 * GRANS]; /* 1 + position in grans */
static int ngrans;
static struct gran *gran(uintptr_t key, int make) {
    u32 h = (key * 0x9E3779B97F4A7C15ull) >> 45;
    for (;; h++) {
        u32 *x = &gindex[h % (2 * GRANS)];
        if (*x) {
            if (grans[*x - 1].key == key) return &grans[*x - 1];
            continue;
        }
        if (!make) return NULL;
        if (ngrans >= GRANS - 1) quit(S_ENGINE, "too much memory in use");
        *x = ++ngrans;
        grans[ngrans - 1].key = key;
        return &grans[ngrans - 1];
    }
}
static void touch(uintptr_t a, size_t n, int kind, void *pc) {
    struct thr *t = me;
    if (a >= t->lo && a < t->hi) return;
    sh->plain++;
    static const u8 against[4] = {1 << A_W | 1 << A_AW, 0xf, 1 << A_W, 1 << A_W | 1 << A_R};
    while (n) {
        uintptr_t key = a >> 3;
        int off = a & 7, len = 8 - off;
        if ((size_t)len > n) len = n;
        struct gran *g = gran(key, 1);
        for (int k = 0; k < 4; k++) {
            if (!(against[kind] >> k & 1)) continue;
            for (int u = 0; u < nthr; u++)
                if (u != t->id)
                    for (int b = off; b < off + len; b++)
                        if (g->c[k][u][b] > t->clk.c[u])
                            quit(S_FAIL, "data race: %s by thread %d with an unordered %s by thread %d, at address %p (code %p, main %p)",
                                 kind & 1 ? "write" : "read", t->id, k & 1 ? "write" : "read", u, (void *)(a & ~7ul), pc, (void *)&mc_fail);
        }
        for (int b = off; b < off + len; b++) g->c[kind][t->id][b] = t->clk.c[t->id];
        a += len; n -= len;
    }
}
void mc_forget(uintptr_t a, size_t n) { /* memory is given back, or handed out anew */
    if (!me) return;
    for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3 && n; k++) {
        struct gran *g = gran(k, 0);
        if (g) memset(g->c, 0, sizeof g->c);
    }
}

#define PC __builtin_return_address(0)
#define ACC(N) \
    void __tsan_read##N(void *a) { if (me) touch((uintptr_t)a, N, A_R, PC); } \
    void __tsan_write##N(void *a) { if (me) touch((uintptr_t)a, N, A_W, PC); } \
    void __tsan_unaligned_read##N(void *a) { if (me) touch((uintptr_t)a, N, A_R, PC); } \
    void __tsan_unaligned_write##N(void *a) { if (me) touch((uintptr_t)a, N, A_W, PC); } \
    void __tsan_read_write##N(void *a) { if (me) touch((uintptr_t)a, N, A_W, PC); } \
    void __tsan_unaligned_read_write##N(void *a) { if (me) touch((uintptr_t)a, N, A_W, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_read(void *a) { if (me) touch((uintptr_t)a, 8, A_R, PC); }
void __tsan_vptr_update(void *a, void *v) { (void)v; if (me) touch((uintptr_t)a, 8, A_W, PC); }
void __tsan_read_range(void *a, long n) { if (me && n) touch((uintptr_t)a, n, A_R, PC); }
void __tsan_write_range(void *a, long n) { if (me && n) touch((uintptr_t)a, n, A_W, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    if (me && n) { touch((uintptr_t)s, n, A_R, PC); touch((uintptr_t)d, n, A_W, PC); }
    return memmove(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    if (me && n) { touch((uintptr_t)s, n, A_R, PC); touch((uintptr_t)d, n, A_W, PC); }
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    if (me && n) touch((uintptr_t)d, n, A_W, PC);
    return memset(d, c, n);
}

/* ---------------------------------------------------------------- atomics */
static int own_stack(uintptr_t a) { return a >= me->lo && a < me->hi; }

/* A load, or a failing exchange, that keeps finding the same value is a spin loop: all rounds but
   the first stop being scheduling points (nothing else can run in between, so nothing is lost but
   the number of rounds), and after many the thread waits for the location to change. */
static int spins(uintptr_t a, u8 size, int cas) {
    struct thr *t = me;
    return t->spin_addr == a && t->spin_cas == cas && t->spin_n && peek(a, size) == t->spin_val;
}
static void before(uintptr_t a, u8 size, int cas) {
    struct thr *t = me;
    if (spins(a, size, cas)) {
        if (++t->spin_n < SPIN_BLOCK) return;
        waits(a);
        point(cas ? K_SPINCAS : K_SPIN, a, size);
        t->spin_n = 0;
        return;
    }
    point(cas ? K_RMW : K_LOAD, a, size);
}
static void found(uintptr_t a, u64 v, int cas) {
    struct thr *t = me;
    if (t->spin_addr == a && t->spin_val == v && t->spin_cas == cas) t->spin_n++;
    else { t->spin_addr = a; t->spin_val = v; t->spin_n = 1; t->spin_cas = cas; }
}
static void no_spin(void) { me->spin_addr = 0; me->spin_n = 0; }

#define ATOMIC(B, ty) \
    ty __tsan_atomic##B##_load(ty *a, int mo) { \
        if (!me || own_stack((uintptr_t)a)) return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
        before((uintptr_t)a, B / 8, 0); \
        ty v = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
        touch((uintptr_t)a, B / 8, A_AR, PC); hb_load((uintptr_t)a, mo); \
        found((uintptr_t)a, (u64)v, 0); \
        return v; \
    } \
    void __tsan_atomic##B##_store(ty *a, ty v, int mo) { \
        if (!me || own_stack((uintptr_t)a)) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } \
        point(K_STORE, (uintptr_t)a, B / 8); no_spin(); \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
        touch((uintptr_t)a, B / 8, A_AW, PC); hb_store((uintptr_t)a, mo); \
    } \
    ty __tsan_atomic##B##_exchange(ty *a, ty v, int mo) { \
        if (!me || own_stack((uintptr_t)a)) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
        point(K_RMW, (uintptr_t)a, B / 8); no_spin(); \
        touch((uintptr_t)a, B / 8, A_AW, PC); hb_rmw((uintptr_t)a, mo); \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
    } \
    ty __tsan_atomic##B##_compare_exchange_val(ty *a, ty c, ty v, int mo, int fmo) { \
        if (!me || own_stack((uintptr_t)a)) { __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
        if (spins((uintptr_t)a, B / 8, 1) && (u64)c == me->spin_val) no_spin(); /* it would succeed */ \
        me->cas = 1; me->expect = (u64)c; \
        before((uintptr_t)a, B / 8, 1); \
        me->cas = 0; \
        if (__atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { \
            no_spin(); touch((uintptr_t)a, B / 8, A_AW, PC); hb_rmw((uintptr_t)a, mo); \
        } else { touch((uintptr_t)a, B / 8, A_AR, PC); hb_load((uintptr_t)a, fmo); found((uintptr_t)a, (u64)c, 1); } \
        return c; \
    } \
    int __tsan_atomic##B##_compare_exchange_strong(ty *a, ty *c, ty v, int mo, int fmo) { \
        ty o = __tsan_atomic##B##_compare_exchange_val(a, *c, v, mo, fmo); \
        if (o == *c) return 1; \
        *c = o; return 0; \
    } \
    int __tsan_atomic##B##_compare_exchange_weak(ty *a, ty *c, ty v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); }
#define FETCH(B, ty, name) \
    ty __tsan_atomic##B##_fetch_##name(ty *a, ty v, int mo) { \
        if (!me || own_stack((uintptr_t)a)) return __atomic_fetch_##name(a, v, __ATOMIC_SEQ_CST); \
        point(K_RMW, (uintptr_t)a, B / 8); no_spin(); \
        touch((uintptr_t)a, B / 8, A_AW, PC); hb_rmw((uintptr_t)a, mo); \
        return __atomic_fetch_##name(a, v, __ATOMIC_SEQ_CST); \
    }
#define ALL(B, ty) ATOMIC(B, ty) FETCH(B, ty, add) FETCH(B, ty, sub) FETCH(B, ty, and) FETCH(B, ty, or) FETCH(B, ty, xor) FETCH(B, ty, nand)
ALL(8, u8) ALL(16, u16) ALL(32, u32) ALL(64, u64)
void __tsan_atomic_thread_fence(int mo) {
    if (!me) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; }
    if (acquires(mo)) join(&me->clk, &me->acq);
    if (releases(mo)) { me->rel = me->clk; me->clk.c[me->id]++; }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* A step of the harness itself that touches the object at `a`. */
void mc_point(void *a) { if (me) { point(K_POINT, (uintptr_t)a, 1); no_spin(); } }

/* ---------------------------------------------------------------- futexes */
static long my_futex(u32 *a, int op, u32 val) {
    int cmd = op & 127;
    struct thr *t = me;
    no_spin();
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        point(K_WAIT, (uintptr_t)a, 4);
        if (*(volatile u32 *)a != val) { errno = EAGAIN; return -1; }
        waits((uintptr_t)a);
        t->blocked = 1; t->wait_seq = ++seqno;
        t->pend = (struct op){K_RESUME, 4, (uintptr_t)a};
        blocked_wait();
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        point(K_WAKE, (uintptr_t)a, 4);
        long n = 0;
        while (n < (long)val) {
            struct thr *w = NULL;
            for (int i = 0; i < nthr; i++)
                if (T[i].blocked && T[i].pend.addr == (uintptr_t)a &&
                    (!w || (sh->wake_lifo ? T[i].wait_seq > w->wait_seq : T[i].wait_seq < w->wait_seq))) w = &T[i];
            if (!w) break;
            w->blocked = 0;
            n++;
        }
        return n;
    }
    quit(S_ENGINE, "futex operation %d", op);
    return 0;
}
long syscall(long n, ...) {
    va_list ap;
    long a[6];
    va_start(ap, n);
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && me) return my_futex((u32 *)a[0], (int)a[1], (u32)a[2]);
    long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
int sched_yield(void) { return 0; }

/* ---------------------------------------------------------------- ledger of the allocator states */
#define STATES 16
#define BLOCKS 64
#define BLOCK 1024
enum { M_NONE, M_GLOBAL, M_THREAD };
static struct { int used, mode, owner, busy, dead, nfree, nblocks; u8 live[BLOCKS]; u8 freed[BLOCKS]; } st8[STATES];
static int nst8, main_mode, nglobal;
static u8 *area;
int mc_mode(int m) { int *p = me ? &me->mode : &main_mode, old = *p; *p = m; return old; }
static int mode(void) { return me ? me->mode : main_mode; }
int mc_state_new(void) {
    int id = nst8++;
    if (id >= STATES) quit(S_FAIL, "allocator states are created again and again");
    st8[id].mode = mode();
    st8[id].owner = mc_tid();
    return id;
}
void mc_state_drop(int id) {
    for (int b = 0; b < BLOCKS && st8[id].mode == M_GLOBAL; b++)
        if (st8[id].live[b]) quit(S_FAIL, "the global allocator state is destroyed while its blocks are in use");
    st8[id].dead = 1;
}
static void legal(int id, const char *what) {
    if (st8[id].dead) quit(S_FAIL, "%s on a destroyed allocator state", what);
    if (st8[id].mode != mode()) quit(S_FAIL, "%s on the wrong allocator state", what);
    if (st8[id].mode == M_THREAD && st8[id].owner != mc_tid()) quit(S_FAIL, "%s on the allocator state of another thread", what);
    /* several may come to be, but one wins */
    if (st8[id].mode == M_GLOBAL && !st8[id].used && nglobal++) quit(S_FAIL, "%s on a second global allocator state", what);
    st8[id].used = 1;
    if (st8[id].busy) quit(S_FAIL, "%s while another access to the allocator state is going on", what);
}
void mc_state_enter(int id, int release) { legal(id, release ? "release" : "alloc"); st8[id].busy = 1; }
void mc_state_exit(int id) { st8[id].busy = 0; }
u8 *mc_state_alloc(int id, size_t size) {
    if (size > BLOCK) return NULL;
    /* the block released last is handed out first */
    int b = st8[id].nfree ? st8[id].freed[--st8[id].nfree] : st8[id].nblocks < BLOCKS ? st8[id].nblocks++ : -1;
    if (b < 0) return NULL;
    st8[id].live[b] = 1;
    u8 *p = area + ((size_t)id * BLOCKS + b) * BLOCK;
    memset(p, 0xcc, BLOCK);
    mc_forget((uintptr_t)p, BLOCK);
    return p;
}
int mc_state_release(int id, u8 *p) {
    size_t k = (size_t)(p - area) / BLOCK;
    if (p < area || k >= STATES * BLOCKS || (p - area) % BLOCK) quit(S_FAIL, "release of an address that was never handed out");
    if (k / BLOCKS != (size_t)id) quit(S_FAIL, "block released to an allocator state that did not issue it");
    if (!st8[id].live[k % BLOCKS]) quit(S_FAIL, "block released twice");
    st8[id].live[k % BLOCKS] = 0;
    st8[id].freed[st8[id].nfree++] = k % BLOCKS;
    memset(p, 0xcc, BLOCK);
    mc_forget((uintptr_t)p, BLOCK);
    return 0;
}
/* blocks in use of states that still exist, and number of states */
int mc_live(void) {
    int n = 0;
    for (int i = 0; i < nst8; i++)
        for (int b = 0; b < BLOCKS && !st8[i].dead; b++) n += st8[i].live[b];
    return n;
}
int mc_states(int m) { int n = 0; for (int i = 0; i < nst8; i++) n += st8[i].mode == m && st8[i].used; return n; }

/* ---------------------------------------------------------------- exploration (in the parent) */
struct node { struct event e; u8 chosen, backtrack, done, sleep; };
static struct node nodes[MAXEV];
struct stats { u64 schedules, redundant, unfair, states, transitions, plain, classes, deepest; int failed; char msg[4096]; u64 notes[8]; };

static void child(int n, void (*setup)(void), void (*body)(int), void (*finish)(void)) {
    alarm(60);
    nthr = n;
    body_fn = body;
    setup();
    pthread_key_create(&endkey, thread_end);
    memset(T, 0, sizeof T);
    running = 0;
    for (int i = 0; i < n; i++) {
        T[i].id = i;
        T[i].clk.c[i] = 1;
        T[i].pend = (struct op){K_START, 0, 0};
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 20);
        if (pthread_create(&T[i].pt, &at, thread_main, &T[i])) quit(S_ENGINE, "pthread_create");
    }
    for (int r; (r = __atomic_load_n(&running, __ATOMIC_ACQUIRE)) < n;) raw(SYS_futex, (long)&running, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, r, 0, 0, 0);
    struct thr *f = choose();
    grant(f);
    while (__atomic_load_n(&running, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&running, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, n, 0, 0, 0);
    for (int i = 0; i < n; i++) pthread_join(T[i].pt, NULL);
    finish();
    quit(S_OK, "ok");
}

static void describe(struct stats *st, const char *why) {
    int k = snprintf(st->msg, sizeof st->msg, "%s; schedule", why);
    int last = -1;
    for (int i = 0; i < sh->n && k < (int)sizeof st->msg - 64; i++) {
        struct event *e = &sh->ev[i];
        if (e->tid != last) k += snprintf(st->msg + k, sizeof st->msg - k, " T%d:", e->tid);
        last = e->tid;
        k += snprintf(st->msg + k, sizeof st->msg - k, "%s ", kname[e->pend[e->tid].kind]);
    }
    st->failed = 1;
}

/* The states reached, up to the order of operations that do not depend on each other: a state is the
   set of operations done so far, each with what it depends on. */
#define SEEN (1u << 22)
static u64 *seen;
static u64 nseen;
static u64 mix(u64 h, u64 v) {
    h = (h ^ v) * 0x9E3779B97F4A7C15ull;
    return h ^ h >> 29;
}
static int see(u64 h) {
    if (!h) h = 1;
    for (u64 i = h % SEEN;; i = (i + 1) % SEEN) {
        if (seen[i] == h) return 0;
        if (seen[i]) continue;
        if (nseen < SEEN - SEEN / 8) { seen[i] = h; nseen++; }
        return 1;
    }
}

/* returns 0: explored; 1: violation in st->msg; 2: engine error in st->msg; 3: cut short */
int mc_explore(int n, void (*setup)(void), void (*body)(int), void (*finish)(void), int wake_lifo, int overtake, int polite, u64 limit, u64 until, struct stats *st) {
    if (!sh) sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!area) area = mmap(NULL, STATES * BLOCKS * BLOCK, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (!seen) seen = mmap(NULL, SEEN * sizeof *seen, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (nseen) memset(seen, 0, SEEN * sizeof *seen);
    nseen = 0;
    st->states += see(0);
    int naive = polite & 2, depth = 0;
    polite &= 1;
    nthr = n;
    sh->sleep0 = 0;
    for (;;) {
        sh->status = S_RUNNING;
        sh->n = 0;
        sh->nprefix = depth;
        sh->wake_lifo = wake_lifo;
        sh->overtake = overtake;
        sh->polite = polite;
        sh->plain = 0;
        memset((void *)sh->notes, 0, sizeof sh->notes);
        for (int i = 0; i < depth; i++) sh->prefix[i] = nodes[i].chosen;
        pid_t p = fork();
        if (p == 0) child(n, setup, body, finish);
        int ws;
        while (waitpid(p, &ws, 0) < 0 && errno == EINTR) {}
        st->plain += sh->plain;
        for (int i = 0; i < 8; i++) st->notes[i] += sh->notes[i];
        if (sh->status == S_ENGINE) { describe(st, sh->msg); return 2; }
        if (sh->status == S_FAIL) { describe(st, sh->msg); return 1; }
        if (sh->status == S_RUNNING) {
            char b[200];
            if (WIFSIGNALED(ws) && WTERMSIG(ws) != SIGKILL) {
                if (WTERMSIG(ws) == SIGALRM) snprintf(b, sizeof b, "the program does not end");
                else snprintf(b, sizeof b, "the program was killed by signal %d", WTERMSIG(ws));
                describe(st, b);
                return 1;
            }
            snprintf(b, sizeof b, "the child ended unexpectedly: status %x", ws);
            describe(st, b);
            return 2;
        }
        if (sh->status == S_OK) st->schedules++;
        else if (sh->status == S_UNFAIR) st->unfair++;
        else st->redundant++;
        int m = sh->n;
        if ((u64)m > st->deepest) st->deepest = m;
        int fresh = depth ? depth - 1 : 0;
        st->transitions += m - fresh;
        for (int i = depth; i < m; i++) {
            nodes[i].e = sh->ev[i];
            nodes[i].chosen = sh->ev[i].tid;
            nodes[i].backtrack = 1 << sh->ev[i].tid;
            nodes[i].done = 0;
            nodes[i].sleep = sh->ev[i].sleep;
        }
        /* races between operations of this execution give the schedules still to run */
        static u16 clk[MAXEV][MAXT];
        u16 cur[MAXT][MAXT];
        memset(cur, 0, sizeof cur);
        u64 state = 0;
        u16 nth[MAXEV], count[MAXT] = {0};
        for (int i = 0; i < m + n; i++) {
            int t = i < m ? nodes[i].chosen : i - m;
            const struct op *o = i < m ? &nodes[i].e.pend[t] : &sh->left[t];
            int stuck = 0;
            u16 now[MAXT];
            memcpy(now, cur[t], sizeof now);
            if (o->addr)
                for (int j = (i < m ? i : m) - 1; j >= 0; j--) {
                    int u = nodes[j].chosen;
                    if (u == t || !dependent(&nodes[j].e.pend[u], o)) continue;
                    int direct = now[u] < j + 1;
                    if (direct || (stuck && cur[t][u] < j + 1)) {
                        /* who can begin an execution in which o precedes j */
                        u8 en = nodes[j].e.enabled, first = 0, met = 0;
                        for (int k = j + 1; k < (i < m ? i : m); k++) {
                            int w = nodes[k].chosen;
                            if (met >> w & 1 || clk[k][u] >= j + 1) continue;
                            met |= 1 << w;
                            int initial = 1;
                            for (int x = 0; x < MAXT; x++) initial &= x == w || clk[k][x] <= j + 1;
                            first |= initial << w;
                        }
                        if (!(met >> t & 1)) {
                            int initial = 1;
                            for (int x = 0; x < MAXT; x++) initial &= x == t || now[x] <= j + 1;
                            first |= initial << t;
                        }
                        first &= en;
                        /* where t cannot go first, others may have to, or t has to at an earlier point */
                        if (!direct || !first) nodes[j].backtrack |= en;
                        else if (!(first & nodes[j].backtrack)) nodes[j].backtrack |= first >> t & 1 ? 1 << t : first & -first;
                        stuck = !(en >> t & 1);
                    }
                    for (int x = 0; x < MAXT; x++) if (clk[j][x] > now[x]) now[x] = clk[j][x];
                }
            if (i >= m) continue;
            now[t] = i + 1;
            memcpy(cur[t], now, sizeof now);
            memcpy(clk[i], now, sizeof now);
            nth[i] = ++count[t];
            u64 h = mix(mix(1, t), o->kind);
            for (int x = 0; x < MAXT; x++) h = mix(h, now[x] ? nth[now[x] - 1] : 0);
            state ^= h;
            if (i >= fresh) st->states += see(state);
        }
        if (sh->status == S_OK) st->classes += see(mix(state, 2));
        if (naive) for (int i = depth; i < m; i++) nodes[i].backtrack = nodes[i].e.enabled;
        depth = m;
        u8 cand = 0;
        while (depth > 0) {
            struct node *x = &nodes[depth - 1];
            x->done |= 1 << x->chosen;
            cand = x->backtrack & ~x->done & ~x->sleep;
            if (cand) {
                sh->sleep0 = naive ? 0 : x->sleep | x->done;
                x->chosen = __builtin_ctz(cand);
                break;
            }
            depth--;
        }
        if (depth == 0) return 0;
        if (st->schedules + st->redundant + st->unfair >= limit || (u64)time(NULL) > until) return 3;
    }
}
