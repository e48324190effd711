/* The simulated machine C19 runs on: threads and interrupt handlers as fibers
 * of one OS thread, switched only where a seeded scheduler says so.
 *
 * The harness and the library are compiled with the compiler's thread
 * sanitizer instrumentation, but linked with this file instead of its runtime:
 * every call the instrumentation makes (one per function entry, memory access
 * and atomic operation) is a point where the scheduler may switch to another
 * thread, let an interrupt handler in, stop the thread for ever, or let a
 * delayed store become visible. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>

#define NF 8
#define NBUF 16
#define MAXEV 20000
#define STACK (1 << 20)
#define FAIR 3000            /* shared points a thread gets in a row at most */
#define STUCK_SHARED 20000000ull
#define STUCK_ANY 400000000ull

enum { SWITCH = 0, DRAIN = 1, STOP = 2 };
enum { RUNNABLE = 0, DONE = 1, STOPPED = 2 };

/* One decision of the scheduler: thread f (255: the idle loop) in its call op, at its k-th point */
typedef struct { uint32_t f, op, k, kind, a, b; } Ev;

/* Shared with the parent process */
typedef struct {
    uint32_t status; /* 0 running, 1 over, 2 stuck */
    uint32_t stuck_f, stuck_op;
    uint32_t nev;
    uint64_t points, shared, switches, in_call, irqs, stops, delayed, drains, forced;
    uint64_t place; /* digest of where the switches happened */
    Ev ev[MAXEV];
} Out;

typedef struct {
    uint64_t seed;
    uint32_t n, replay, weak;
    uint32_t p_shared, p_any, p_drain, p_stop, p_edge; /* of 65536 */
    uint32_t prio[NF];
    uint32_t nev;
    const Ev *ev;
} Cfg;

typedef struct { uintptr_t addr; uint64_t val; uint32_t size, rel; } Store;

typedef struct {
    void *sp;
    int state, in_lib, ret;
    uint32_t prio, op, k, left; /* left: calls still to make */
    uint32_t next;              /* replay: index of the next decision */
    Store buf[NBUF];
    int nbuf;
} Fib;

static Fib F[NF];
static Cfg C;
static Out *O;
static void (*entry)(uint32_t);
static void *idle_sp;
static int cur = -1, running;
static uint64_t rng, row, since; /* row: shared points since the last switch; since: points since a call ended */
static uint64_t since_shared;
static uint32_t idle_n, idle_next;

extern char __data_start[], _end[];

static int is_static(uintptr_t a) { return a >= (uintptr_t)__data_start && a < (uintptr_t)_end; }

static uint64_t rnd(void) {
    uint64_t z = (rng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static int hit(uint32_t p) { return p && (rnd() & 0xffff) < p; }

/* Saves the callee's registers on its stack, continues on another stack */
void sim_swap(void **from, void *to);
__asm__(".text\n.globl sim_swap\n.type sim_swap,@function\nsim_swap:\n"
        "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
        "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
        "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n"
        ".size sim_swap,.-sim_swap\n");

static void put(const Store *s) { memcpy((void *)s->addr, &s->val, s->size); }

/* Store i of f becomes visible to all, and before it what must not be later */
static void drain(Fib *f, int i) {
    Store s = f->buf[i];
    for (int j = 0; j < i;) {
        if (s.rel || f->buf[j].addr == s.addr) {
            put(&f->buf[j]);
            memmove(f->buf + j, f->buf + j + 1, sizeof(Store) * (--f->nbuf - j));
            i--;
        } else
            j++;
    }
    put(&s);
    memmove(f->buf + i, f->buf + i + 1, sizeof(Store) * (--f->nbuf - i));
    O->drains++;
}
static void drain_all(Fib *f) {
    while (f->nbuf)
        drain(f, 0);
}

static void note(uint32_t f, uint32_t op, uint32_t k, uint32_t kind, uint32_t a, uint32_t b) {
    if (O->nev < MAXEV)
        O->ev[O->nev++] = (Ev){f, op, k, kind, a, b};
}

static int may_enter(int t) {
    if (t < 0 || t >= (int)C.n || t == cur || F[t].state != RUNNABLE)
        return 0;
    if (cur < 0)
        return 1;
    if (F[t].prio)
        return F[t].prio > F[cur].prio && F[t].left; /* an interrupt handler: only above what runs */
    return !F[cur].prio; /* a thread: not while a handler runs */
}

static void go(int t) {
    int from = cur;
    O->switches++;
    row = 0;
    if (from >= 0) {
        Fib *f = &F[from];
        if (f->in_lib && f->k)
            O->in_call++;
        O->place = (O->place ^ ((uint64_t)from << 56 ^ (uint64_t)t << 48 ^ (uint64_t)f->op << 32 ^ f->k)) * 0x100000001b3ull;
        O->place ^= O->place >> 29;
    }
    if (F[t].prio) {
        F[t].ret = from;
        O->irqs++;
    }
    cur = t;
    sim_swap(from >= 0 ? &F[from].sp : &idle_sp, F[t].sp);
}
static void to_idle(void) {
    int from = cur;
    cur = -1;
    sim_swap(&F[from].sp, idle_sp);
}

static int choose(void) {
    int c[NF], n = 0;
    for (int t = 0; t < (int)C.n; t++)
        if (may_enter(t))
            c[n++] = t;
    return n ? c[rnd() % n] : -1;
}

static void stuck(void) {
    O->stuck_f = cur;
    O->stuck_op = F[cur].op;
    O->status = 2;
    _exit(0);
}

static void act(Fib *me, uint32_t kind, uint32_t a, uint32_t b) {
    if (kind == DRAIN) {
        if (a < C.n && (int)b < F[a].nbuf)
            drain(&F[a], b);
    } else if (kind == STOP) {
        if (!me->prio) {
            O->stops++;
            me->state = STOPPED;
            to_idle();
        }
    } else if (may_enter(a))
        go(a);
}

static void point(int shared) {
    if (!running || cur < 0)
        return;
    Fib *me = &F[cur];
    if (!me->in_lib)
        return;
    me->k++;
    O->points++;
    since++;
    if (shared) {
        O->shared++;
        row++;
        since_shared++;
    }
    if (since_shared > STUCK_SHARED || since > STUCK_ANY)
        stuck();
    if (C.replay) {
        while (me->next < C.nev) {
            const Ev *e = &C.ev[me->next];
            if (e->f != (uint32_t)cur || e->op < me->op || (e->op == me->op && e->k < me->k)) {
                me->next++;
                continue;
            }
            if (e->op != me->op || e->k != me->k)
                break;
            me->next++;
            act(me, e->kind, e->a, e->b);
        }
    } else if (O->nev < MAXEV) {
        if (C.weak && hit(C.p_drain)) {
            uint32_t f = rnd() % C.n;
            if (F[f].nbuf) {
                uint32_t i = rnd() % F[f].nbuf;
                note(cur, me->op, me->k, DRAIN, f, i);
                drain(&F[f], i);
            }
        }
        if (!me->prio && hit(shared ? C.p_stop : C.p_stop / 256)) {
            note(cur, me->op, me->k, STOP, 0, 0);
            act(me, STOP, 0, 0);
        }
        if (hit(shared ? C.p_shared : C.p_any)) {
            int t = choose();
            if (t >= 0) {
                note(cur, me->op, me->k, SWITCH, t, 0);
                go(t);
            }
        }
    }
    /* Fair whatever the decisions: nobody waits for ever for a thread that could run, or for a store */
    if (row > FAIR) {
        row = 0;
        O->forced++;
        for (uint32_t i = 0; i < C.n; i++)
            drain_all(&F[i]);
        for (uint32_t i = 1; i < C.n; i++) {
            int t = (cur + i) % C.n;
            if (!F[t].prio && may_enter(t)) {
                go(t);
                break;
            }
        }
    }
}

/* A call into the library begins: op is its number, left the calls after it */
void sim_op(uint32_t op, uint32_t left) {
    Fib *me = &F[cur];
    me->op = op;
    me->k = 0;
    if (me->prio) {
        me->left = left;
        me->in_lib = 1;
        return;
    }
    me->left = left;
    /* Threads may also be switched between their calls: point 0 */
    if (C.replay) {
        while (me->next < C.nev) {
            const Ev *e = &C.ev[me->next];
            if (e->f != (uint32_t)cur || e->op < op) {
                me->next++;
                continue;
            }
            if (e->op != op || e->k)
                break;
            me->next++;
            act(me, e->kind, e->a, e->b);
        }
    } else if (O->nev < MAXEV && hit(C.p_edge)) {
        int t = choose();
        if (t >= 0) {
            note(cur, op, 0, SWITCH, t, 0);
            go(t);
        }
    }
    me->in_lib = 1;
}
/* ... and has returned */
void sim_op_end(void) { F[cur].in_lib = 0; since = since_shared = 0; }

/* The handler leaves, until the next interrupt */
void sim_leave(void) {
    Fib *me = &F[cur];
    if (!me->prio)
        return;
    if (me->ret < 0)
        to_idle();
    else {
        int from = cur;
        cur = me->ret;
        row = 0;
        sim_swap(&F[from].sp, F[cur].sp);
    }
}

static void fiber_main(void) {
    entry(cur);
    Fib *me = &F[cur];
    me->state = DONE;
    me->in_lib = 0;
    if (me->prio && me->ret >= 0) {
        int from = cur;
        cur = me->ret;
        sim_swap(&F[from].sp, F[cur].sp);
    }
    to_idle();
    abort();
}

/* calls[i]: number of calls of painter i */
void sim_run(const Cfg *cfg, const uint32_t *calls, Out *out, void (*f)(uint32_t)) {
    C = *cfg;
    O = out;
    entry = f;
    rng = C.seed;
    memset(out, 0, offsetof(Out, ev));
    for (uint32_t i = 0; i < C.n; i++) {
        char *m = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED)
            _exit(9);
        void **sp = (void **)(m + STACK - 64);
        *--sp = 0;                  /* return address of fiber_main: never used */
        *--sp = (void *)fiber_main;
        sp -= 6;
        memset(sp, 0, 48);
        F[i].sp = sp;
        F[i].prio = C.prio[i];
        F[i].left = calls[i];
        F[i].ret = -1;
    }
    running = 1;
    for (;;) {
        int t = -1;
        idle_n++;
        if (C.replay) {
            while (idle_next < C.nev && (C.ev[idle_next].f != 255 || C.ev[idle_next].op < idle_n))
                idle_next++;
            if (idle_next < C.nev && C.ev[idle_next].op == idle_n && may_enter(C.ev[idle_next].a))
                t = C.ev[idle_next].a;
            for (uint32_t i = 0; t < 0 && i < C.n; i++)
                if (may_enter(i))
                    t = i;
        } else {
            t = choose();
            if (t >= 0)
                note(255, idle_n, 0, SWITCH, t, 0);
        }
        if (t < 0)
            break;
        go(t);
    }
    for (uint32_t i = 0; i < C.n; i++)
        drain_all(&F[i]);
    running = 0;
    out->status = 1;
}

/* ---- a display that sees every store into a frame buffer (C20) ---- */
#define MAXSEEN (1 << 20)
typedef struct { uint32_t word, val; } Seen;
static uintptr_t fb_lo, fb_hi;
static uintptr_t pend_lo, pend_hi; /* bytes of the store that comes next */
static Seen *seen;
static uint32_t nseen, seen_full;

static void look(void) {
    if (pend_lo >= pend_hi)
        return;
    uintptr_t lo = pend_lo < fb_lo ? fb_lo : pend_lo, hi = pend_hi > fb_hi ? fb_hi : pend_hi;
    pend_lo = pend_hi = 0;
    for (uintptr_t w = (lo - fb_lo) / 4; fb_lo + 4 * w < hi; w++) {
        if (nseen == MAXSEEN) {
            seen_full = 1;
            return;
        }
        uint32_t v;
        memcpy(&v, (void *)(fb_lo + 4 * w), 4);
        seen[nseen++] = (Seen){w, v};
    }
}
static void store_next(uintptr_t p, unsigned long n) {
    if (!fb_hi)
        return;
    look();
    if (p < fb_hi && p + n > fb_lo) {
        pend_lo = p;
        pend_hi = p + n;
    }
}
void watch_begin(const uint32_t *fb, uint64_t words) {
    if (!seen)
        seen = mmap(0, MAXSEEN * sizeof(Seen), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (seen == MAP_FAILED)
        _exit(9);
    nseen = seen_full = 0;
    pend_lo = pend_hi = 0;
    fb_lo = (uintptr_t)fb;
    fb_hi = fb_lo + 4 * words;
}
uint32_t watch_end(const Seen **s, uint32_t *full) {
    look();
    fb_hi = 0;
    *s = seen;
    *full = seen_full;
    return nseen;
}

/* ---- blocking calls of the standard library ----
 * The library is no_std today. Should it come to use the standard library's
 * locks, waiting for one must hand over to the scheduler and not block the one
 * OS thread: a wait returns at once, as if woken without reason, at a point. */
static int in_call(void) { return running && cur >= 0 && F[cur].in_lib; }

long syscall(long n, ...) {
    long a[6], r;
    va_list ap;
    va_start(ap, n);
    for (int i = 0; i < 6; i++)
        a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && in_call()) {
        if ((a[1] & 0x7f) == 1 || (a[1] & 0x7f) == 10) /* wake */
            return 0;
        point(1);
        errno = EAGAIN;
        return -1;
    }
    register long r10 __asm__("r10") = a[3], r8 __asm__("r8") = a[4], r9 __asm__("r9") = a[5];
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}
int sched_yield(void) {
    if (in_call())
        point(1);
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *rest) {
    if (!in_call())
        return syscall(SYS_nanosleep, t, rest);
    point(1);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rest) {
    if (!in_call())
        return syscall(SYS_clock_nanosleep, c, flags, t, rest) ? errno : 0;
    point(1);
    return 0;
}

/* ---- what the instrumentation calls ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { point(0); }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_read(void **p) {}
void __tsan_vptr_update(void **p, void *v) {}
static void plain(void *p) { if (running) point(is_static((uintptr_t)p)); }
static void writes(void *p, unsigned long n) { store_next((uintptr_t)p, n); plain(p); }
#define PLAIN(n)                                                   \
    void __tsan_read##n(void *p) { plain(p); }                     \
    void __tsan_write##n(void *p) { writes(p, n); }                    \
    void __tsan_read_write##n(void *p) { writes(p, n); }               \
    void __tsan_unaligned_read##n(void *p) { plain(p); }           \
    void __tsan_unaligned_write##n(void *p) { writes(p, n); }          \
    void __tsan_unaligned_read_write##n(void *p) { writes(p, n); }     \
    void __tsan_volatile_read##n(void *p) { plain(p); }            \
    void __tsan_volatile_write##n(void *p) { writes(p, n); }           \
    void __tsan_unaligned_volatile_read##n(void *p) { plain(p); }  \
    void __tsan_unaligned_volatile_write##n(void *p) { writes(p, n); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
void __tsan_read_range(void *p, unsigned long n) { plain(p); }
void __tsan_write_range(void *p, unsigned long n) { writes(p, n); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { plain((void *)s); writes(d, n); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { plain((void *)s); writes(d, n); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { writes(d, n); return memset(d, c, n); }

/* Memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst */
static int mine(uintptr_t a, uint32_t size, uint64_t *v) {
    if (!running || cur < 0)
        return 0;
    Fib *f = &F[cur];
    for (int i = f->nbuf - 1; i >= 0; i--) {
        Store *s = &f->buf[i];
        if (s->addr == a && s->size == size) {
            *v = s->val;
            return 1;
        }
        if (s->addr < a + size && a < s->addr + s->size) {
            drain_all(f);
            return 0;
        }
    }
    return 0;
}
static int later(uintptr_t a, uint32_t size, uint64_t v, int mo) {
    if (!running || cur < 0 || !C.weak || !is_static(a))
        return 0;
    Fib *f = &F[cur];
    if (!f->in_lib)
        return 0;
    if (mo == 5) {
        drain_all(f);
        return 0;
    }
    if (f->nbuf == NBUF)
        drain(f, 0);
    f->buf[f->nbuf++] = (Store){a, v, size, mo >= 3};
    O->delayed++;
    return 1;
}
static void before_rmw(uintptr_t a, uint32_t size, int mo) {
    if (!running || cur < 0)
        return;
    Fib *f = &F[cur];
    if (mo >= 3) {
        drain_all(f);
        return;
    }
    for (int i = f->nbuf - 1; i >= 0; i--)
        if (f->buf[i].addr < a + size && a < f->buf[i].addr + f->buf[i].size) {
            drain(f, i);
            i = f->nbuf;
        }
}

#define RMW(b, T, name, expr)                                              \
    T __tsan_atomic##b##_##name(volatile T *p, T v, int mo) {              \
        plain((void *)p);                                                  \
        before_rmw((uintptr_t)p, b / 8, mo);                               \
        T o = *p;                                                          \
        *p = (T)(expr);                                                    \
        return o;                                                          \
    }
#define ATOMIC(b, T)                                                       \
    T __tsan_atomic##b##_load(const volatile T *p, int mo) {               \
        plain((void *)p);                                                  \
        uint64_t v;                                                        \
        return mine((uintptr_t)p, b / 8, &v) ? (T)v : *p;                  \
    }                                                                      \
    void __tsan_atomic##b##_store(volatile T *p, T v, int mo) {            \
        plain((void *)p);                                                  \
        if (!later((uintptr_t)p, b / 8, (uint64_t)v, mo)) *p = v;          \
    }                                                                      \
    RMW(b, T, exchange, v)                                                 \
    RMW(b, T, fetch_add, o + v)                                            \
    RMW(b, T, fetch_sub, o - v)                                            \
    RMW(b, T, fetch_and, o & v)                                            \
    RMW(b, T, fetch_or, o | v)                                             \
    RMW(b, T, fetch_xor, o ^ v)                                            \
    RMW(b, T, fetch_nand, ~(o & v))                                        \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fmo) { \
        plain((void *)p);                                                  \
        before_rmw((uintptr_t)p, b / 8, mo);                               \
        T o = *p;                                                          \
        if (o == c) *p = v;                                                \
        return o;                                                          \
    }                                                                      \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) { \
        T o = __tsan_atomic##b##_compare_exchange_val(p, *c, v, mo, fmo);  \
        int ok = o == *c;                                                  \
        *c = o;                                                            \
        return ok;                                                         \
    }                                                                      \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) { \
        return __tsan_atomic##b##_compare_exchange_strong(p, c, v, mo, fmo); \
    }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    point(1);
    if (running && cur >= 0 && mo >= 3)
        drain_all(&F[cur]);
}
void __tsan_atomic_signal_fence(int mo) {}
