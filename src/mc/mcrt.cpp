// See mcrt.h. Compiled without instrumentation; uses no std templates, so that no function of the
// instrumented code is replaced by an uninstrumented copy.
#include "mcrt.h"

#include <initializer_list>

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
#define RET __builtin_return_address(0)
#define HIDDEN static

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace mcrt {
void (*output)(int, const char*, size_t) = nullptr;

static long
raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long
raw_errno(long r)
{
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// ---------------------------------------------------------------- memory layout
constexpr u64 BASE = 0x100000000000ull, SPAN = 2ull << 30, ARENA = 1ull << 30, STACK = 1ull << 20;
static bool
in_arena(u64 a)
{
    return a >= BASE && a < BASE + MAXT * SPAN && (a - BASE) % SPAN < ARENA;
}

struct Vc
{
    u32 c[MAXT];
};
static void
vc_join(Vc& a, const Vc& b)
{
    for (int i = 0; i < MAXT; ++i)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}

struct Op
{
    Kind kind;
    u8 nobj, wr, commute; // commute: writes that commute with each other
    u64 obj[2];
    u64 arg;  // distinguishes operations in the hash
    int peer; // K_JOIN
    const void* pc;
};
enum State : u8 { FREE, LIVE, DONE };
struct Th
{
    State st;
    volatile int go;
    Op op;
    Vc vc, acq_fence, rel_fence;
    bool has_acq, has_rel;
    u64 hash;
    u64 sp; // while parked
    u64 stack_lo, stack_hi;
    u64 brk;
    bool signaled, waiting, timed, timedout, yielding, spur;
    u64 wait_cv, wait_m;
    u64 fkey; // futex
    int same_loads;
    u64 load_obj;
    pthread_t real;
    void* (*fn)(void*);
    void* arg;
    const void* stack[64]; // call stack, for reports
    int depth;
};
static Th th[MAXT];
static int nth;
static volatile int g_active;
static Shared* S;
static int step_no, dev_next, last_dev_step, cur_tid;
static u64 g_accesses;

struct Tl
{
    int self; // -1: not controlled
    int in;   // inside the runtime
    int ignore;
};
static __thread Tl tl __attribute__((tls_model("initial-exec"))) = { -1, 0, 0 };

bool active() { return g_active; }
int self() { return tl.self; }
static inline bool
on()
{
    return __builtin_expect(g_active, 0) && tl.self >= 0 && !tl.in;
}
struct In
{
    In() { ++tl.in; }
    ~In() { --tl.in; }
};

const char*
kind_name(int k)
{
    static const char* n[] = { "none", "lock", "trylock", "unlock", "cond-wait", "cond-wake", "notify-one", "notify-all", "load", "store", "rmw",
                               "create", "start", "join", "exit", "futex-wait", "futex-block", "futex-wake", "yield", "read-file", "write-file",
                               "latch-wait", "latch-down", "latch-try", "point", "guard", "rdlock", "wrlock", "sem-wait", "sem-post", "end", "choice" };
    return k < (int)(sizeof n / sizeof *n) ? n[k] : "?";
}

static u64
mix(u64 a, u64 b)
{
    u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15F39CC060ull);
    x ^= x >> 32;
    x *= 0xD6E8FEB86659FD93ull;
    x ^= x >> 29;
    x *= 0xC2B2AE3D27D4EB4Full;
    return x ^ (x >> 32);
}
u64
hash_bytes(const char* p, size_t n)
{
    u64 h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ (u8)p[i]) * 1099511628211ull;
    return mix(h, n);
}

// ---------------------------------------------------------------- errors
static char g_buf[4096];
static void
vappend(const char* fmt, va_list ap)
{
    int n = vsnprintf(g_buf, sizeof g_buf, fmt, ap);
    if (n > (int)sizeof g_buf - 1)
        n = sizeof g_buf - 1;
    int at = (int)strnlen(S->errors, sizeof S->errors);
    if (at + n + 2 < (int)sizeof S->errors) {
        for (int i = 0; i < n; ++i)
            S->errors[at + i] = g_buf[i];
        S->errors[at + n] = '\n';
        S->errors[at + n + 1] = 0;
    }
}
void
error(const char* fmt, ...)
{
    In in;
    va_list ap;
    va_start(ap, fmt);
    vappend(fmt, ap);
    va_end(ap);
    S->nerr = S->nerr + 1;
}
void
stop(int done)
{
    S->steps = step_no;
    S->nthreads = nth;
    S->accesses = g_accesses;
    S->done = done;
    raw(SYS_exit_group, 0);
    __builtin_unreachable();
}
static void
append(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vappend(fmt, ap);
    va_end(ap);
}
// "@0x..." is turned into function and line by the explorer
[[noreturn]] static void
fatal_stack()
{
    Th& t = th[tl.self < 0 ? 0 : tl.self];
    for (int i = t.depth - 1; i >= 0 && i >= t.depth - 14; --i)
        if (i < 64)
            append("      called from @%p", t.stack[i]);
    stop(3);
}

// ---------------------------------------------------------------- shadow memory
struct Slot
{
    u32 epoch;
    u8 tid, mask, flags, pad; // flags: 1 write, 2 atomic, 4 in use
    const void* pc;
};
struct Cell
{
    Slot s[4];
};
struct Page
{
    Cell cell[512];
    u8 freed[512];
};
static Page*** g_l1; // [1<<17] -> [1<<18] pages
static void*
map_mem(size_t n)
{
    long r = raw(SYS_mmap, 0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r < 0)
        __builtin_trap();
    return (void*)r;
}
static u8* g_pool;
static size_t g_pool_left;
static void*
pool(size_t n)
{
    n = (n + 63) & ~(size_t)63;
    if (n > g_pool_left) {
        g_pool_left = 64u << 20;
        g_pool = (u8*)map_mem(g_pool_left);
    }
    void* p = g_pool;
    g_pool += n;
    g_pool_left -= n;
    return p;
}
static Page*
page_of(u64 a, bool make)
{
    const u64 i1 = a >> 30, i2 = (a >> 12) & 0x3ffff;
    if (i1 >= (1u << 17))
        return nullptr;
    Page** l2 = g_l1[i1];
    if (!l2) {
        if (!make)
            return nullptr;
        l2 = g_l1[i1] = (Page**)map_mem(sizeof(Page*) << 18);
    }
    Page* p = l2[i2];
    if (!p && make)
        p = l2[i2] = (Page*)pool(sizeof(Page));
    return p;
}

static u64 g_skip_lo[8], g_skip_hi[8]; // objects whose unsynchronised use is allowed
static int g_nskip;

[[noreturn]] static void
report_race(u64 a, int size, bool write, bool atomic, const void* pc, const Slot& o)
{
    ++tl.in;
    append("data race: %s%s of %d bytes at 0x%llx by thread %d at @%p, not ordered with the %s%s by thread %d at @%p", atomic ? "atomic " : "",
           write ? "write" : "read", size, (unsigned long long)a, tl.self, pc, o.flags & 2 ? "atomic " : "", o.flags & 1 ? "write" : "read", o.tid, o.pc);
    S->nerr = S->nerr + 1;
    fatal_stack();
}
static void
check_one(u64 a, int size, bool write, bool atomic, const void* pc)
{
    // a single access within one 8-byte granule
    Page* p = page_of(a, true);
    if (!p)
        return;
    const int ci = (a >> 3) & 511;
    const int me = tl.self;
    Th& t = th[me];
    if (__builtin_expect(p->freed[ci], 0)) {
        ++tl.in;
        append("use after free: %s of %d bytes at 0x%llx by thread %d at @%p (freed by thread %d)", write ? "write" : "read", size, (unsigned long long)a, me,
               pc, p->freed[ci] - 1);
        S->nerr = S->nerr + 1;
        fatal_stack();
    }
    const u8 mask = (u8)(((1u << size) - 1) << (a & 7));
    const u8 flags = 4 | (write ? 1 : 0) | (atomic ? 2 : 0);
    Cell& c = p->cell[ci];
    int put = -1, spare = -1;
    for (int i = 0; i < 4; ++i) {
        Slot& s = c.s[i];
        if (!s.flags) {
            if (spare < 0)
                spare = i;
            continue;
        }
        if (!(s.mask & mask))
            continue;
        if (s.tid == me) {
            if ((s.mask & mask) == s.mask && (write || !(s.flags & 1)) && (!atomic || (s.flags & 2)))
                put = i; // covered by the new access
            continue;
        }
        const bool ordered = s.epoch <= t.vc.c[s.tid];
        if (!ordered && (write || (s.flags & 1)) && !(atomic && (s.flags & 2)))
            report_race(a, size, write, atomic, pc, s);
        if (ordered && (s.mask & mask) == s.mask && (write || !(s.flags & 1)))
            spare = i;
    }
    if (put < 0)
        put = spare >= 0 ? spare : (int)((step_no + ci) & 3);
    Slot& s = c.s[put];
    s.epoch = t.vc.c[me];
    s.tid = (u8)me;
    s.mask = mask;
    s.flags = flags;
    s.pc = pc;
}
static inline bool
stack_check(u64 a, const void* pc, bool write)
{
    for (int i = 0; i < nth; ++i)
        if (a >= th[i].stack_lo && a < th[i].stack_hi) {
            if (i == tl.self)
                return true;
            if (th[i].st == DONE || (th[i].sp && a < th[i].sp - 256)) {
                ++tl.in;
                append("use of a dead stack frame: %s at 0x%llx by thread %d at @%p; the address belongs to %s thread %d", write ? "write" : "read",
                       (unsigned long long)a, tl.self, pc, th[i].st == DONE ? "the finished" : "a function that has returned in", i);
                S->nerr = S->nerr + 1;
                fatal_stack();
            }
            return true;
        }
    return false;
}
static void
check_access(u64 a, u64 n, bool write, bool atomic, const void* pc)
{
    if (tl.ignore || !n)
        return;
    ++tl.in;
    ++g_accesses;
    bool skip = false;
    for (int i = 0; i < g_nskip; ++i)
        if (a >= g_skip_lo[i] && a < g_skip_hi[i])
            skip = true;
    if (!skip) {
        stack_check(a, pc, write);
        const u64 e = a + n;
        const u64 start = a;
        while (a < e) {
            // long ranges: the ends, and one granule in 512 between them
            if (n > 65536 && a - start > 512 && e - a > 1024) {
                a = (a & ~7ull) + 4096 < e - 512 ? (a & ~7ull) + 4096 : (e - 512) & ~7ull;
            }
            u64 m = 8 - (a & 7);
            if (m > e - a)
                m = e - a;
            check_one(a, (int)m, write, atomic, pc);
            a += m;
        }
    }
    --tl.in;
}
static void
mark_freed(u64 a, u64 n)
{
    for (u64 x = a & ~7ull; x < a + n; x += 8) {
        if (n > (1 << 20) && x - a > 65536 && a + n - x > 65536 && (x & 4095))
            x = (x + 4095) & ~4095ull;
        Page* p = page_of(x, true);
        if (p)
            p->freed[(x >> 3) & 511] = (u8)(tl.self + 1);
    }
}

// ---------------------------------------------------------------- synchronisation objects
struct Obj
{
    u64 key;
    Vc vc;
    u64 hw, hr;          // hash of the last write, sum of hashes of later reads
    u64 hc;              // sum of hashes of commuting writes since the last other write
    int wt;              // last access, for conflicts
    u32 we;
    u32 re[MAXT], ce[MAXT];
    bool conf;
    // state
    int owner, count; // mutex (owner -1: free), latch count, rwlock (count = readers), semaphore
    int kind;         // 1 mutex 2 cond 3 latch 4 rw 5 sem 6 guard
    bool dead;
    u8 waiters[MAXT];
    int nw;
};
constexpr int OBJS = 1 << 17;
static Obj** g_obj;
static Obj*
obj(u64 key)
{
    u64 h = mix(key, 1);
    for (;; ++h) {
        Obj*& o = g_obj[h & (OBJS - 1)];
        if (!o) {
            o = (Obj*)pool(sizeof(Obj));
            o->key = key;
            o->owner = -1;
            o->wt = -1;
            // known to be conflicting from earlier executions?
            u64 k = mix(key, 2);
            for (int n = 0; n < MAXCONF && S->conf[(k + n) & (MAXCONF - 1)]; ++n)
                if (S->conf[(k + n) & (MAXCONF - 1)] == key)
                    o->conf = true;
            return o;
        }
        if (o->key == key)
            return o;
    }
}

// ---------------------------------------------------------------- scheduling
static void
futex_wait(volatile int* p, int v)
{
    raw(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0);
}
static void
futex_wake(volatile int* p)
{
    raw(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0);
}
static bool
enabled(int i, bool& spurious)
{
    Th& t = th[i];
    spurious = false;
    if (t.st != LIVE)
        return false;
    switch (t.op.kind) {
        case K_LOCK:
            return obj(t.op.obj[0])->owner < 0 || obj(t.op.obj[0])->owner == i;
        case K_CWAKE: {
            if (t.wait_m && obj(t.wait_m)->owner >= 0)
                return false;
            if (t.signaled)
                return true;
            spurious = true;
            return S->spurious || t.timed;
        }
        case K_FBLOCK:
            if (t.signaled)
                return true;
            spurious = true;
            return t.timed;
        case K_JOIN:
            return th[t.op.peer].st == DONE;
        case K_LWAIT:
            return obj(t.op.obj[0])->count <= 0;
        case K_RDLOCK:
            return obj(t.op.obj[0])->owner < 0;
        case K_WRLOCK:
            return obj(t.op.obj[0])->owner < 0 && obj(t.op.obj[0])->count == 0;
        case K_SEMWAIT:
            return obj(t.op.obj[0])->count > 0;
        case K_GUARD:
            return obj(t.op.obj[0])->owner < 0;
        case K_END:
            for (int j = 0; j < nth; ++j)
                if (j != i && th[j].st == LIVE)
                    return false;
            return true;
        default:
            return true;
    }
}
static u64
global_hash()
{
    u64 h = 0;
    for (int i = 0; i < nth; ++i)
        h += mix(th[i].hash, i + 100);
    return h;
}
static void
describe_threads()
{
    for (int i = 0; i < nth; ++i)
        if (th[i].st == LIVE) {
            append("  thread %d: %s at @%p", i, kind_name(th[i].op.kind), th[i].op.pc);
            for (int k = th[i].depth - 1; k >= 0 && k >= th[i].depth - 5; --k)
                if (k < 64)
                    append("      called from @%p", th[i].stack[k]);
        }
}
// which thread makes the next step
static int
decide(int arriver)
{
    if (step_no >= S->max_steps) {
        S->truncated = 1;
        stop(1);
    }
    u32 en = 0, sp = 0;
    for (int i = 0; i < nth; ++i) {
        bool s;
        if (enabled(i, s))
            (s ? sp : en) |= 1u << i;
    }
    if (!en) { // only time passing helps
        u32 timed = 0;
        for (int i = 0; i < nth; ++i)
            if ((sp >> i & 1) && th[i].timed)
                timed |= 1u << i;
        if (!timed) {
            append("deadlock: no thread can go on");
            describe_threads();
            S->nerr = S->nerr + 1;
            stop(3);
        }
        en = timed;
        sp &= ~timed;
    }
    int dflt = -1;
    u32 pref = en;
    for (int i = 0; i < nth; ++i)
        if (th[i].yielding && (pref & ~(1u << i)))
            pref &= ~(1u << i);
    if (arriver >= 0 && (pref >> arriver & 1))
        dflt = arriver;
    else if (S->policy == 0) {
        for (int i = nth - 1; i >= 0; --i)
            if (pref >> i & 1)
                dflt = i;
    } else if (S->policy == 1) {
        for (int i = 0; i < nth; ++i)
            if (pref >> i & 1)
                dflt = i;
    } else {
        for (int k = 1; k <= nth && dflt < 0; ++k) {
            const int i = ((arriver < 0 ? 0 : arriver) + k) % nth;
            if (pref >> i & 1)
                dflt = i;
        }
    }
    int chosen = dflt;
    if (dev_next < S->ndev && S->dev[dev_next].step == step_no) {
        chosen = S->dev[dev_next].value;
        ++dev_next;
        last_dev_step = step_no;
        if (chosen < 0 || chosen >= nth || !((en | sp) >> chosen & 1)) {
            S->diverged = 1;
            stop(1);
        }
    } else if (dev_next >= S->ndev && (S->ndev == 0 || step_no > last_dev_step)) {
        const u32 alt = (en | sp) & ~(1u << chosen);
        bool point = chosen != arriver;
        if (!point && alt) {
            Op& o = th[arriver].op;
            for (int i = 0; i < o.nobj; ++i)
                if (obj(o.obj[i])->conf)
                    point = true;
        }
        if (alt && point) {
            if (S->nnodes < MAXNODES) {
                Node& n = S->node[S->nnodes];
                n.step = step_no;
                n.alt = (uint16_t)alt;
                n.spurious = (uint16_t)(sp & alt);
                n.chosen = (u8)chosen;
                n.arriver = (u8)(arriver < 0 ? 255 : arriver);
                n.kind = arriver < 0 ? K_EXIT : th[arriver].op.kind;
                n.hb = global_hash();
                S->nnodes = S->nnodes + 1;
            } else
                S->nodes_full = 1;
        }
    }
    if ((sp >> chosen & 1) || !th[chosen].signaled)
        th[chosen].spur = true; // wakes without having been notified
    else
        th[chosen].spur = false;
    if (step_no < (int)(sizeof S->ev / sizeof *S->ev)) {
        Ev& e = S->ev[step_no];
        e.tid = (u8)chosen;
        e.kind = th[chosen].op.kind;
        e.obj = th[chosen].op.nobj ? th[chosen].op.obj[0] : 0;
    }
    ++step_no;
    for (int i = 0; i < nth; ++i)
        if (i != arriver)
            th[i].yielding = false;
    return chosen;
}
static void
wake(int i)
{
    cur_tid = i;
    __atomic_store_n(&th[i].go, 1, __ATOMIC_SEQ_CST);
    futex_wake(&th[i].go);
}
static void
park()
{
    Th& t = th[tl.self];
    while (!__atomic_load_n(&t.go, __ATOMIC_SEQ_CST))
        futex_wait(&t.go, 0);
    t.go = 0;
    t.sp = 0;
}
// A choice among n alternatives, 0 by default.
static int
choose(int n)
{
    int c = 0;
    const int s = step_no++;
    if (dev_next < S->ndev && S->dev[dev_next].step == s) {
        c = S->dev[dev_next].value;
        ++dev_next;
        last_dev_step = s;
        if (c < 0 || c >= n) {
            S->diverged = 1;
            stop(1);
        }
    } else if (dev_next >= S->ndev && S->nnodes < MAXNODES) {
        Node& d = S->node[S->nnodes];
        d.step = s;
        d.alt = (uint16_t)(((1u << n) - 1) & ~1u);
        d.spurious = 0;
        d.chosen = 0;
        d.arriver = (u8)tl.self;
        d.kind = K_CHOICE;
        d.hb = mix(global_hash(), 77);
        S->nnodes = S->nnodes + 1;
    }
    th[tl.self].hash = mix(th[tl.self].hash, 1000 + c);
    return c;
}
static void
conflict(Obj* o)
{
    if (o->conf)
        return;
    o->conf = true;
    if (S->nnew < 4096) {
        S->newconf[S->nnew] = o->key;
        S->nnew = S->nnew + 1;
    }
}
// Bookkeeping of the step that the current thread takes now.
static void
account(const Op& op)
{
    const int me = tl.self;
    Th& t = th[me];
    if (tl.ignore)
        return;
    u64 h = mix(mix(t.hash, op.kind), op.arg);
    for (int i = 0; i < op.nobj; ++i) {
        Obj* o = obj(op.obj[i]);
        const bool w = op.wr >> i & 1;
        h = mix(h, op.obj[i]);
        const bool cm = w && op.commute;
        h = mix(h, o->hw);
        if (!cm)
            h = mix(h, o->hc);
        if (w)
            h = mix(h, o->hr);
        // unordered with an earlier conflicting step?
        if (o->wt >= 0 && o->wt != me && o->we > t.vc.c[o->wt])
            conflict(o);
        for (int k = 0; k < nth; ++k)
            if (k != me && ((w && o->re[k] > t.vc.c[k]) || (!cm && o->ce[k] > t.vc.c[k])))
                conflict(o);
    }
    ++t.vc.c[me];
    t.hash = h;
    for (int i = 0; i < op.nobj; ++i) {
        Obj* o = obj(op.obj[i]);
        if (op.wr >> i & 1) {
            if (op.commute) {
                o->hc += mix(h, 5);
                o->ce[me] = t.vc.c[me];
            } else {
                o->hw = h;
                o->hr = 0;
                o->hc = 0;
                o->wt = me;
                o->we = t.vc.c[me];
            }
        } else {
            o->hr += mix(h, 3);
            o->re[me] = t.vc.c[me];
        }
    }
}
// The current thread is about to do `op`; returns when it is its turn and the operation can be done.
static void
arrive(const Op& op)
{
    Th& t = th[tl.self];
    t.op = op;
    bool spurious;
    if (tl.ignore && enabled(tl.self, spurious) && !spurious)
        return; // stubs and the harness's own records are not interrupted
    const int n = decide(tl.self);
    if (n != tl.self) {
        t.sp = (u64)__builtin_frame_address(0);
        wake(n);
        park();
    }
}
static void
visible(const Op& op)
{
    arrive(op);
    Th& t = th[tl.self];
    account(t.op);
    t.op.kind = K_NONE;
}
static Op
mk(Kind k, const void* pc, u64 o = 0, bool w = true, u64 arg = 0)
{
    Op p;
    p.kind = k;
    p.nobj = o ? 1 : 0;
    p.wr = w ? 1 : 0;
    p.commute = 0;
    p.obj[0] = o;
    p.obj[1] = 0;
    p.arg = arg;
    p.peer = 0;
    p.pc = pc;
    return p;
}
static void
acquire(Obj* o)
{
    vc_join(th[tl.self].vc, o->vc);
}
static void
release(Obj* o)
{
    vc_join(o->vc, th[tl.self].vc);
    ++th[tl.self].vc.c[tl.self];
}
// the synchronisation object itself must be alive
static void
touch(const void* p, const void* pc, bool write = false)
{
    if (tl.ignore)
        return;
    stack_check((u64)p, pc, write);
    Page* pg = page_of((u64)p, false);
    if (pg && pg->freed[((u64)p >> 3) & 511]) {
        ++tl.in;
        append("use after free: synchronisation object at %p by thread %d at @%p", p, tl.self, pc);
        S->nerr = S->nerr + 1;
        fatal_stack();
    }
}
static void
fail(const char* what, const void* pc)
{
    ++tl.in;
    append("%s by thread %d at @%p", what, tl.self, pc);
    S->nerr = S->nerr + 1;
    fatal_stack();
}

void
user_point(u64 o, bool write, u64 o2, bool w2)
{
    if (!g_active || tl.self < 0)
        return;
    In in;
    Op p = mk(K_USER, RET, o, write);
    if (o2) {
        p.nobj = 2;
        p.obj[1] = o2;
        if (w2)
            p.wr |= 2;
    }
    visible(p);
}

// ---------------------------------------------------------------- begin and end
template<typename F>
static F
real(F& f, const char* name)
{
    if (!f) {
        ++tl.in;
        f = (F)dlsym(RTLD_NEXT, name);
        --tl.in;
    }
    return f;
}
static int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*r_join)(pthread_t, void**);
static int (*r_detach)(pthread_t);

void
attach(Shared* s)
{
    S = s;
    g_l1 = (Page***)map_mem(sizeof(Page**) << 17);
    g_obj = (Obj**)map_mem(sizeof(Obj*) * OBJS);
    static bool mapped;
    if (!mapped) {
        long r = raw(SYS_mmap, BASE, MAXT * SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        if (r < 0)
            __builtin_trap();
        mapped = true;
    }
    real(r_create, "pthread_create");
    real(r_join, "pthread_join");
    real(r_detach, "pthread_detach");
}
extern "C" {
extern char _ZSt4cout[], _ZSt4cerr[], _ZSt4clog[];
}
__attribute__((noinline)) void
begin()
{
    for (int i = 0; i < MAXT; ++i) {
        th[i].st = FREE;
        th[i].brk = BASE + i * SPAN;
    }
    nth = 1;
    Th& t = th[0];
    t.st = LIVE;
    t.vc.c[0] = 1;
    t.hash = 12345;
    t.real = pthread_self();
    t.stack_hi = (u64)__builtin_frame_address(0) + 65536; // frames of the callers may be shared, too
    t.stack_lo = (u64)__builtin_frame_address(0) - (8u << 20);
    step_no = 0;
    dev_next = 0;
    last_dev_step = -1;
    g_nskip = 0;
    for (char* p : { _ZSt4cout, _ZSt4cerr, _ZSt4clog }) {
        g_skip_lo[g_nskip] = (u64)p;
        g_skip_hi[g_nskip++] = (u64)p + 272;
    }
    tl.self = 0;
    tl.in = 0;
    tl.ignore = 0;
    g_active = 1;
}
void
end()
{
    {
        In in;
        visible(mk(K_END, RET));
    }
    S->final_hb = global_hash();
    if (dev_next < S->ndev)
        S->diverged = 1;
    S->steps = step_no;
    S->nthreads = nth;
    S->accesses = g_accesses;
    g_active = 0;
    tl.self = -1;
}

static void
thread_exit()
{
    Th& t = th[tl.self];
    const int me = tl.self;
    Op p = mk(K_EXIT, RET);
    account(p);
    t.st = DONE;
    bool live = false;
    for (int i = 0; i < nth; ++i)
        live |= th[i].st == LIVE;
    tl.self = -1; // what follows (thread-local destructors, the C library) is not controlled
    (void)me;
    if (live)
        wake(decide(-1));
}
static void*
trampoline(void* a)
{
    const int me = (int)(long)a;
    tl.self = me;
    tl.in = 1;
    park();
    Th& t = th[me];
    account(t.op);
    t.op.kind = K_NONE;
    tl.in = 0;
    void* r = t.fn(t.arg);
    tl.in = 1;
    thread_exit();
    return r;
}
} // namespace mcrt
using namespace mcrt;

// ---------------------------------------------------------------- threads
extern "C" {
int
pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if (!on())
        return real(r_create, "pthread_create")(out, attr, fn, arg);
    In in;
    if (nth >= MAXT)
        fail("more threads than the harness supports", RET);
    Op p = mk(K_CREATE, RET, 0xC0DE, true);
    account(p);
    const int i = nth;
    Th& t = th[i];
    t.st = LIVE;
    t.op = mk(K_START, RET, 0, false, i);
    t.vc = th[tl.self].vc;
    t.vc.c[i] = 1;
    ++th[tl.self].vc.c[tl.self];
    t.hash = mix(th[tl.self].hash, 4242);
    t.fn = fn;
    t.arg = arg;
    t.stack_lo = BASE + i * SPAN + ARENA;
    t.stack_hi = t.stack_lo + STACK;
    t.go = 0;
    t.sp = 0;
    t.depth = 0;
    nth = i + 1;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, (void*)t.stack_lo, STACK);
    if (attr) {
        int d;
        pthread_attr_getdetachstate(attr, &d);
        pthread_attr_setdetachstate(&a, d);
    }
    const int rc = r_create(&t.real, &a, trampoline, (void*)(long)i);
    pthread_attr_destroy(&a);
    if (rc) {
        t.st = DONE;
        return rc;
    }
    *out = t.real;
    return 0;
}
int
pthread_join(pthread_t p, void** r)
{
    if (on()) {
        In in;
        int peer = -1;
        for (int i = 0; i < nth; ++i)
            if (th[i].st != FREE && pthread_equal(th[i].real, p))
                peer = i;
        if (peer >= 0) {
            Op o = mk(K_JOIN, RET, 0, false, peer);
            o.peer = peer;
            visible(o);
            vc_join(th[tl.self].vc, th[peer].vc);
            th[tl.self].hash = mix(th[tl.self].hash, th[peer].hash);
        }
        return real(r_join, "pthread_join")(p, r);
    }
    return real(r_join, "pthread_join")(p, r);
}
int
pthread_detach(pthread_t p)
{
    In in;
    return real(r_detach, "pthread_detach")(p);
}

// ---------------------------------------------------------------- mutexes
static u64
key(const void* p)
{
    return (u64)p & ~7ull;
}
static bool
is_recursive(const pthread_mutex_t* m)
{
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}
static void
take_mutex(Obj* o)
{
    o->owner = tl.self;
    ++o->count;
    acquire(o);
}
static int
mc_lock(pthread_mutex_t* m, const void* pc)
{
    In in;
    touch(m, pc);
    Obj* o = obj(key(m));
    if (o->owner == tl.self && !is_recursive(m))
        fail("a mutex is locked again by the thread that holds it: deadlock", pc);
    visible(mk(K_LOCK, pc, key(m)));
    touch(m, pc);
    take_mutex(o);
    return 0;
}
static int
mc_unlock(pthread_mutex_t* m, const void* pc)
{
    In in;
    touch(m, pc);
    Obj* o = obj(key(m));
    if (o->owner != tl.self)
        fail("unlock of a mutex the thread does not hold", pc);
    account(mk(K_UNLOCK, pc, key(m)));
    if (--o->count == 0)
        o->owner = -1;
    release(o);
    return 0;
}
static int (*r_lock)(pthread_mutex_t*);
static int (*r_trylock)(pthread_mutex_t*);
static int (*r_unlock)(pthread_mutex_t*);
static int (*r_timedlock)(pthread_mutex_t*, const struct timespec*);
// ignored code (stubs) never gives way while it holds a lock
static bool
passes()
{
    return !g_active || tl.self < 0 || tl.in;
}
int
pthread_mutex_lock(pthread_mutex_t* m)
{
    if (passes())
        return real(r_lock, "pthread_mutex_lock")(m);
    return mc_lock(m, RET);
}
int
pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (passes())
        return real(r_unlock, "pthread_mutex_unlock")(m);
    return mc_unlock(m, RET);
}
int
pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (passes())
        return real(r_trylock, "pthread_mutex_trylock")(m);
    In in;
    touch(m, RET);
    visible(mk(K_TRYLOCK, RET, key(m)));
    Obj* o = obj(key(m));
    if (o->owner >= 0 && !(o->owner == tl.self && is_recursive(m)))
        return EBUSY;
    take_mutex(o);
    return 0;
}
int
pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
    if (passes())
        return real(r_timedlock, "pthread_mutex_timedlock")(m, ts);
    return mc_lock(m, RET);
}
int
pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
    if (passes())
        return real(r_timedlock, "pthread_mutex_timedlock")(m, ts);
    return mc_lock(m, RET);
}

// ---------------------------------------------------------------- condition variables
static int
mc_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, const void* pc)
{
    In in;
    touch(c, pc);
    Th& t = th[tl.self];
    Obj *oc = obj(key(c)), *om = obj(key(m));
    if (om->owner != tl.self)
        fail("wait on a condition variable without holding the mutex", pc);
    // Giving up the mutex and starting to wait is one step. Only a notification without the mutex can
    // come between it and the step before, so it is a point to switch at if the condition variable
    // is in conflict.
    Op w = mk(K_CWAIT, pc, key(c));
    arrive(w);
    w.nobj = 2;
    w.obj[1] = key(m);
    w.wr = 3;
    account(w);
    t.op.kind = K_NONE;
    oc->kind = 2;
    const int saved = om->count;
    om->owner = -1;
    om->count = 0;
    release(om);
    oc->waiters[oc->nw++] = (u8)tl.self;
    t.signaled = false;
    t.timed = timed;
    t.timedout = false;
    t.wait_cv = key(c);
    t.wait_m = key(m);
    visible(mk(K_CWAKE, pc, key(m)));
    touch(m, pc);
    if (!t.signaled) { // spurious or timed out
        for (int i = 0; i < oc->nw; ++i)
            if (oc->waiters[i] == tl.self) {
                for (int k = i; k + 1 < oc->nw; ++k)
                    oc->waiters[k] = oc->waiters[k + 1];
                --oc->nw;
                break;
            }
        account(mk(K_CWAKE, pc, key(c), true, 1));
    }
    om->owner = tl.self;
    om->count = saved;
    acquire(om);
    const bool to = timed && !t.signaled;
    t.wait_m = 0;
    t.timed = false;
    t.signaled = false;
    return to ? ETIMEDOUT : 0;
}
static int (*r_wait)(pthread_cond_t*, pthread_mutex_t*);
static int (*r_twait)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
static int (*r_cwait)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
static int (*r_signal)(pthread_cond_t*);
static int (*r_bcast)(pthread_cond_t*);
static int (*r_cdestroy)(pthread_cond_t*);
static void*
vcond(const char* n)
{
    ++tl.in;
    void* p = dlvsym(RTLD_NEXT, n, "GLIBC_2.3.2");
    if (!p)
        p = dlsym(RTLD_NEXT, n);
    --tl.in;
    return p;
}
#define REALC(f, n) (f ? f : (f = (decltype(f))vcond(n)))
int
pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (passes())
        return REALC(r_wait, "pthread_cond_wait")(c, m);
    return mc_wait(c, m, false, RET);
}
int
pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (passes())
        return REALC(r_twait, "pthread_cond_timedwait")(c, m, ts);
    return mc_wait(c, m, true, RET);
}
int
pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    if (passes())
        return real(r_cwait, "pthread_cond_clockwait")(c, m, k, ts);
    return mc_wait(c, m, true, RET);
}
static int
mc_signal(pthread_cond_t* c, bool all, const void* pc)
{
    In in;
    touch(c, pc);
    visible(mk(all ? K_BCAST : K_SIGNAL, pc, key(c)));
    touch(c, pc);
    Obj* o = obj(key(c));
    if (all) {
        for (int i = 0; i < o->nw; ++i)
            th[o->waiters[i]].signaled = true;
        o->nw = 0;
    } else if (o->nw) {
        const int k = o->nw > 1 ? choose(o->nw) : 0;
        th[o->waiters[k]].signaled = true;
        for (int i = k; i + 1 < o->nw; ++i)
            o->waiters[i] = o->waiters[i + 1];
        --o->nw;
    }
    return 0;
}
int
pthread_cond_signal(pthread_cond_t* c)
{
    if (passes())
        return REALC(r_signal, "pthread_cond_signal")(c);
    return mc_signal(c, false, RET);
}
int
pthread_cond_broadcast(pthread_cond_t* c)
{
    if (passes())
        return REALC(r_bcast, "pthread_cond_broadcast")(c);
    return mc_signal(c, true, RET);
}
int
pthread_cond_destroy(pthread_cond_t* c)
{
    if (passes())
        return REALC(r_cdestroy, "pthread_cond_destroy")(c);
    In in;
    touch(c, RET);
    Obj* o = obj(key(c));
    if (o->nw)
        fail("a condition variable is destroyed while a thread waits on it", RET);
    return 0;
}

// ---------------------------------------------------------------- rwlocks, semaphores, once
static int (*r_rd)(pthread_rwlock_t*);
static int (*r_wr)(pthread_rwlock_t*);
static int (*r_trd)(pthread_rwlock_t*);
static int (*r_twr)(pthread_rwlock_t*);
static int (*r_un)(pthread_rwlock_t*);
int
pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (passes())
        return real(r_rd, "pthread_rwlock_rdlock")(l);
    In in;
    touch(l, RET);
    visible(mk(K_RDLOCK, RET, key(l)));
    Obj* o = obj(key(l));
    ++o->count;
    acquire(o);
    return 0;
}
int
pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (passes())
        return real(r_wr, "pthread_rwlock_wrlock")(l);
    In in;
    touch(l, RET);
    visible(mk(K_WRLOCK, RET, key(l)));
    Obj* o = obj(key(l));
    o->owner = tl.self;
    acquire(o);
    return 0;
}
int
pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    if (passes())
        return real(r_trd, "pthread_rwlock_tryrdlock")(l);
    In in;
    visible(mk(K_TRYLOCK, RET, key(l)));
    Obj* o = obj(key(l));
    if (o->owner >= 0)
        return EBUSY;
    ++o->count;
    acquire(o);
    return 0;
}
int
pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    if (passes())
        return real(r_twr, "pthread_rwlock_trywrlock")(l);
    In in;
    visible(mk(K_TRYLOCK, RET, key(l)));
    Obj* o = obj(key(l));
    if (o->owner >= 0 || o->count)
        return EBUSY;
    o->owner = tl.self;
    acquire(o);
    return 0;
}
int
pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (passes())
        return real(r_un, "pthread_rwlock_unlock")(l);
    In in;
    touch(l, RET);
    account(mk(K_UNLOCK, RET, key(l)));
    Obj* o = obj(key(l));
    if (o->owner == tl.self)
        o->owner = -1;
    else
        --o->count;
    release(o);
    return 0;
}
static int (*r_sinit)(sem_t*, int, unsigned);
static int (*r_swait)(sem_t*);
static int (*r_stry)(sem_t*);
static int (*r_spost)(sem_t*);
int
sem_init(sem_t* s, int p, unsigned v)
{
    const int r = real(r_sinit, "sem_init")(s, p, v);
    if (on()) {
        In in;
        obj(key(s))->count = (int)v;
    }
    return r;
}
int
sem_wait(sem_t* s)
{
    if (passes())
        return real(r_swait, "sem_wait")(s);
    In in;
    touch(s, RET);
    visible(mk(K_SEMWAIT, RET, key(s)));
    Obj* o = obj(key(s));
    --o->count;
    acquire(o);
    return 0;
}
int
sem_trywait(sem_t* s)
{
    if (passes())
        return real(r_stry, "sem_trywait")(s);
    In in;
    visible(mk(K_TRYLOCK, RET, key(s)));
    Obj* o = obj(key(s));
    if (o->count <= 0) {
        errno = EAGAIN;
        return -1;
    }
    --o->count;
    acquire(o);
    return 0;
}
int
sem_post(sem_t* s)
{
    if (passes())
        return real(r_spost, "sem_post")(s);
    In in;
    touch(s, RET);
    visible(mk(K_SEMPOST, RET, key(s)));
    Obj* o = obj(key(s));
    ++o->count;
    release(o);
    return 0;
}
static int (*r_once)(pthread_once_t*, void (*)());
int
pthread_once(pthread_once_t* c, void (*f)())
{
    if (passes())
        return real(r_once, "pthread_once")(c, f);
    const void* pc = RET;
    ++tl.in;
    touch(c, pc);
    visible(mk(K_GUARD, pc, key(c)));
    Obj* o = obj(key(c));
    acquire(o);
    if (*(volatile int*)c == 2) {
        --tl.in;
        return 0;
    }
    o->owner = tl.self;
    --tl.in;
    f();
    ++tl.in;
    *(volatile int*)c = 2;
    o->owner = -1;
    release(o);
    --tl.in;
    return 0;
}
int
__cxa_guard_acquire(u64* g)
{
    u8* b = (u8*)g;
    if (!on()) {
        if (*b)
            return 0;
        if (b[1]) { // only one thread runs outside of controlled executions, except at their ends
            while (__atomic_load_n(&b[1], __ATOMIC_ACQUIRE))
                sched_yield();
            return !*b;
        }
        b[1] = 1;
        return 1;
    }
    In in;
    visible(mk(K_GUARD, RET, key(g)));
    Obj* o = obj(key(g));
    acquire(o);
    if (*b)
        return 0;
    o->owner = tl.self;
    return 1;
}
static void
guard_done(u64* g, bool ok)
{
    u8* b = (u8*)g;
    if (ok)
        __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    __atomic_store_n(&b[1], 0, __ATOMIC_RELEASE);
    if (on()) {
        In in;
        Obj* o = obj(key(g));
        account(mk(K_UNLOCK, RET, key(g)));
        o->owner = -1;
        release(o);
    }
}
void
__cxa_guard_release(u64* g)
{
    guard_done(g, true);
}
void
__cxa_guard_abort(u64* g)
{
    guard_done(g, false);
}

// ---------------------------------------------------------------- latch
struct LatchWord
{
    volatile ptrdiff_t n;
    ptrdiff_t magic;
};
void
mcrt_latch_init(void* p, ptrdiff_t n)
{
    auto* w = (LatchWord*)p;
    w->n = n;
    w->magic = 0x1a7c4;
    if (on()) {
        const void* pc = RET;
        check_access((u64)p, 16, true, false, pc);
        In in;
        Obj* o = obj(key(p));
        o->count = (int)n;
        o->dead = false;
        o->kind = 3;
        account(mk(K_LDOWN, pc, key(p)));
    }
}
void
mcrt_latch_destroy(void* p)
{
    auto* w = (LatchWord*)p;
    w->magic = 0;
    if (on()) {
        In in;
        Obj* o = obj(key(p));
        o->dead = true;
        for (int i = 0; i < nth; ++i)
            if (i != tl.self && th[i].st == LIVE && th[i].op.kind == K_LWAIT && th[i].op.obj[0] == key(p))
                fail("a latch is destroyed while a thread waits on it", RET);
        account(mk(K_LDOWN, RET, key(p)));
    }
}
void
mcrt_latch_down(void* p, ptrdiff_t n)
{
    auto* w = (LatchWord*)p;
    if (!on()) {
        __atomic_fetch_sub(&w->n, n, __ATOMIC_SEQ_CST);
        return;
    }
    const void* pc = RET;
    In in;
    touch(p, pc, true);
    Op op = mk(K_LDOWN, pc, key(p));
    op.commute = 1;
    visible(op);
    touch(p, pc, true);
    Obj* o = obj(key(p));
    if (o->dead)
        fail("a latch is counted down after its lifetime", pc);
    if (o->count < n)
        fail("a latch is counted down below zero", pc);
    o->count -= (int)n;
    w->n = o->count;
    release(o);
}
static void
latch_wait(void* p, const void* pc)
{
    In in;
    touch(p, pc);
    Obj* o = obj(key(p));
    visible(mk(K_LWAIT, pc, key(p), false));
    touch(p, pc);
    if (o->dead)
        fail("wait on a latch after its lifetime", pc);
    acquire(o);
}
void
mcrt_latch_wait(void* p)
{
    auto* w = (LatchWord*)p;
    if (!on()) {
        while (__atomic_load_n(&w->n, __ATOMIC_SEQ_CST) > 0)
            sched_yield();
        return;
    }
    latch_wait(p, RET);
}
int
mcrt_latch_try(void* p)
{
    auto* w = (LatchWord*)p;
    if (!on())
        return __atomic_load_n(&w->n, __ATOMIC_SEQ_CST) == 0;
    In in;
    touch(p, RET);
    visible(mk(K_LTRY, RET, key(p), false));
    Obj* o = obj(key(p));
    if (o->count == 0)
        acquire(o);
    return o->count == 0;
}
void
mcrt_ignore(int d)
{
    tl.ignore += d;
}
void
mcrt_access(const void* p, size_t n, int write)
{
    if (on())
        check_access((u64)p, n, write, false, RET);
}

// ---------------------------------------------------------------- futexes, yielding, time
long
syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; ++i)
        a[i] = va_arg(ap, long);
    va_end(ap);
    if (n != SYS_futex || !on())
        return raw_errno(raw(n, a[0], a[1], a[2], a[3], a[4], a[5]));
    In in;
    const void* pc = RET;
    const int op = (int)a[1] & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    const u64 k = (u64)a[0] & ~7ull;
    Th& t = th[tl.self];
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        touch((void*)a[0], pc);
        visible(mk(K_FWAIT, pc, k, false));
        if (*(volatile int*)a[0] != (int)a[2]) {
            errno = EAGAIN;
            return -1;
        }
        t.signaled = false;
        t.timed = a[3] != 0;
        t.fkey = (u64)a[0];
        visible(mk(K_FBLOCK, pc, 0, false));
        t.fkey = 0;
        const bool to = !t.signaled;
        t.signaled = false;
        t.timed = false;
        if (to) {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        visible(mk(K_FWAKE, pc, k, true));
        long c = 0;
        for (int i = 0; i < nth && c < a[2]; ++i)
            if (th[i].st == LIVE && th[i].fkey == (u64)a[0] && !th[i].signaled && th[i].op.kind == K_FBLOCK) {
                th[i].signaled = true;
                ++c;
            }
        return c;
    }
    return raw_errno(raw(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}
static int
mc_yield(const void* pc)
{
    In in;
    th[tl.self].yielding = true;
    visible(mk(K_YIELD, pc, 0, false));
    th[tl.self].yielding = false;
    return 0;
}
int
sched_yield()
{
    if (!on())
        return (int)raw_errno(raw(SYS_sched_yield));
    return mc_yield(RET);
}
int
nanosleep(const struct timespec* a, struct timespec* b)
{
    if (!on())
        return (int)raw_errno(raw(SYS_nanosleep, (long)a, (long)b));
    return mc_yield(RET);
}
int
clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b)
{
    if (!on())
        return (int)-raw(SYS_clock_nanosleep, c, f, (long)a, (long)b);
    return mc_yield(RET);
}
int
usleep(useconds_t us)
{
    if (!on()) {
        struct timespec t = { us / 1000000, (long)(us % 1000000) * 1000 };
        return (int)raw_errno(raw(SYS_nanosleep, (long)&t, 0));
    }
    return mc_yield(RET);
}

// ---------------------------------------------------------------- memory
static void*
arena_alloc(size_t n, size_t align)
{
    Th& t = th[tl.self];
    u64 a = (t.brk + 16 + align - 1) & ~(u64)(align - 1);
    if (n > ARENA || a + n + 16 > BASE + tl.self * SPAN + ARENA) {
        errno = ENOMEM;
        return nullptr;
    }
    ((u64*)a)[-1] = n;
    ((u64*)a)[-2] = 0xA110CA7Eull;
    t.brk = (a + n + 15) & ~15ull;
    return (void*)a;
}
static void
arena_free(void* p, const void* pc)
{
    if (!on() || tl.ignore) // stubs, the C library at the end of a thread
        return;
    u64* h = (u64*)p;
    if (h[-2] == 0xF4EEull)
        fail("double free", pc);
    if (h[-2] != 0xA110CA7Eull)
        fail("free of an address that was not allocated", pc);
    check_access((u64)p, h[-1] ? h[-1] : 1, true, false, pc);
    In in;
    h[-2] = 0xF4EE;
    mark_freed((u64)p, h[-1] ? h[-1] : 1);
    if (h[-1] > 65536) {
        const u64 lo = ((u64)p + 4095) & ~4095ull, hi = ((u64)p + h[-1]) & ~4095ull;
        raw(SYS_madvise, lo, hi - lo, MADV_DONTNEED);
    }
}
void*
malloc(size_t n)
{
    if (on())
        return arena_alloc(n, 16);
    return __libc_malloc(n);
}
void
free(void* p)
{
    if (!p)
        return;
    if (in_arena((u64)p))
        arena_free(p, RET);
    else {
        if (on() && !tl.ignore) {
            check_access((u64)p, 8, true, false, RET);
            In in;
            mark_freed((u64)p, 8);
        }
        __libc_free(p);
    }
}
void*
calloc(size_t a, size_t b)
{
    if (on()) {
        size_t n;
        if (__builtin_mul_overflow(a, b, &n)) {
            errno = ENOMEM;
            return nullptr;
        }
        return arena_alloc(n, 16); // fresh pages are zero, and never used again
    }
    return __libc_calloc(a, b);
}
void*
realloc(void* p, size_t n)
{
    if (!p)
        return malloc(n);
    if (!in_arena((u64)p)) {
        if (!on())
            return __libc_realloc(p, n);
    }
    if (!n) {
        free(p);
        return nullptr;
    }
    void* q = malloc(n);
    if (!q)
        return nullptr;
    const size_t old = in_arena((u64)p) ? ((u64*)p)[-1] : n;
    for (size_t i = 0; i < (old < n ? old : n); ++i)
        ((char*)q)[i] = ((char*)p)[i];
    free(p);
    return q;
}
void*
memalign(size_t al, size_t n)
{
    if (on())
        return arena_alloc(n, al < 16 ? 16 : al);
    return __libc_memalign(al, n);
}
void*
aligned_alloc(size_t al, size_t n)
{
    return memalign(al, n);
}
int
posix_memalign(void** out, size_t al, size_t n)
{
    void* p = memalign(al, n);
    if (!p)
        return ENOMEM;
    *out = p;
    return 0;
}
size_t
malloc_usable_size(void* p)
{
    static size_t (*f)(void*);
    if (!p)
        return 0;
    if (in_arena((u64)p))
        return ((u64*)p)[-1];
    return real(f, "malloc_usable_size")(p);
}

void*
memcpy(void* d, const void* s, size_t n)
{
    if (on() && !tl.ignore && n) {
        check_access((u64)s, n, false, false, RET);
        check_access((u64)d, n, true, false, RET);
    }
    void* r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    return r;
}
void*
memmove(void* d, const void* s, size_t n)
{
    if (on() && !tl.ignore && n) {
        check_access((u64)s, n, false, false, RET);
        check_access((u64)d, n, true, false, RET);
    }
    void* r = d;
    if ((u64)d <= (u64)s || (u64)d >= (u64)s + n)
        __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    else {
        const char* se = (const char*)s + n - 1;
        char* de = (char*)d + n - 1;
        __asm__ volatile("std\n rep movsb\n cld" : "+D"(de), "+S"(se), "+c"(n)::"memory");
    }
    return r;
}
void*
memset(void* d, int c, size_t n)
{
    if (on() && !tl.ignore && n)
        check_access((u64)d, n, true, false, RET);
    void* r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
int
memcmp(const void* a, const void* b, size_t n)
{
    if (on() && !tl.ignore && n) {
        check_access((u64)a, n, false, false, RET);
        check_access((u64)b, n, false, false, RET);
    }
    const u8 *x = (const u8*)a, *y = (const u8*)b;
    for (; n; ++x, ++y, --n)
        if (*x != *y)
            return *x < *y ? -1 : 1;
    return 0;
}
void* mcrt_memchr(const void* a, int c, size_t n) __asm__("memchr");
void*
mcrt_memchr(const void* a, int c, size_t n)
{
    const u8* x = (const u8*)a;
    size_t i = 0;
    while (i < n && x[i] != (u8)c)
        ++i;
    if (on() && !tl.ignore && n)
        check_access((u64)a, i < n ? i + 1 : n, false, false, RET);
    return i < n ? (void*)(x + i) : nullptr;
}
size_t
strlen(const char* s)
{
    size_t n = 0;
    while (((const volatile char*)s)[n])
        ++n;
    if (on() && !tl.ignore)
        check_access((u64)s, n + 1, false, false, RET);
    return n;
}
int blosc_compress_ctx(int, int, size_t, size_t, const void*, void*, size_t, const char*, size_t, int);
int
blosc_compress_ctx(int clevel, int shuffle, size_t ts, size_t nbytes, const void* src, void* dest, size_t dsize, const char* comp, size_t bs, int nt)
{
    static decltype(&blosc_compress_ctx) f;
    const bool o = on();
    if (o) {
        check_access((u64)src, nbytes, false, false, RET);
        check_access((u64)dest, dsize < nbytes ? dsize : nbytes, true, false, RET);
    }
    real(f, "blosc_compress_ctx");
    if (o)
        ++tl.ignore; // its own memory
    const int r = f(clevel, shuffle, ts, nbytes, src, dest, dsize, comp, bs, nt);
    if (o)
        --tl.ignore;
    return r;
}

// ---------------------------------------------------------------- files
static u64 g_fd_obj[1024];
static u64
path_obj(const char* p)
{
    // normalised: no double or trailing slashes, no "." components
    char b[PATH_MAX];
    size_t n = 0;
    for (size_t i = 0; p[i] && n + 2 < sizeof b; ++i) {
        if (p[i] == '/' && n && b[n - 1] == '/')
            continue;
        if (p[i] == '.' && (n == 0 || b[n - 1] == '/') && (p[i + 1] == '/' || !p[i + 1])) {
            if (p[i + 1])
                ++i;
            continue;
        }
        b[n++] = p[i];
    }
    while (n > 1 && b[n - 1] == '/')
        --n;
    return hash_bytes(b, n) | 1;
}
static u64
parent_obj(const char* p)
{
    char b[PATH_MAX];
    size_t n = 0;
    for (; p[n] && n + 1 < sizeof b; ++n)
        b[n] = p[n];
    while (n > 1 && b[n - 1] == '/')
        --n;
    while (n && b[n - 1] != '/')
        --n;
    b[n] = 0;
    return n ? path_obj(b) : 0;
}
static void
fs_op(const char* p, bool write, const void* pc)
{
    Op o = mk(write ? K_IOWRITE : K_IOREAD, pc, path_obj(p), write);
    if (write) {
        const u64 q = parent_obj(p);
        if (q) {
            o.nobj = 2;
            o.obj[1] = q;
        }
    }
    visible(o);
}
static void
fd_op(int fd, const void* pc, u64 arg)
{
    if (fd <= 2)
        return;
    const u64 o = fd < 1024 && g_fd_obj[fd] ? g_fd_obj[fd] : 0xFD0001 + fd;
    visible(mk(K_IOWRITE, pc, o, true, arg));
}
static int
do_open(int dir, const char* p, int flags, int mode, const void* pc)
{
    const bool c = on();
    if (c) {
        In in;
        fs_op(p, (flags & (O_CREAT | O_TRUNC)) != 0, pc);
    }
    const int fd = (int)raw_errno(raw(SYS_openat, dir, (long)p, flags, mode));
    if (c && fd >= 0 && fd < 1024)
        g_fd_obj[fd] = path_obj(p);
    return fd;
}
static int
open_mode(int flags, va_list ap)
{
    return flags & (O_CREAT | __O_TMPFILE) ? va_arg(ap, int) : 0;
}
#define OPEN(NAME)                                                                                                                         \
    int NAME(const char* p, int flags, ...)                                                                                                \
    {                                                                                                                                      \
        va_list ap;                                                                                                                        \
        va_start(ap, flags);                                                                                                               \
        const int m = open_mode(flags, ap);                                                                                                \
        va_end(ap);                                                                                                                        \
        return do_open(AT_FDCWD, p, flags, m, RET);                                                                                        \
    }
#define OPENAT(NAME)                                                                                                                       \
    int NAME(int d, const char* p, int flags, ...)                                                                                         \
    {                                                                                                                                      \
        va_list ap;                                                                                                                        \
        va_start(ap, flags);                                                                                                               \
        const int m = open_mode(flags, ap);                                                                                                \
        va_end(ap);                                                                                                                        \
        return do_open(d, p, flags, m, RET);                                                                                               \
    }
OPEN(open)
OPEN(open64)
OPENAT(openat)
OPENAT(openat64)
static FILE*
do_fopen(FILE* (*f)(const char*, const char*), const char* p, const char* m, const void* pc)
{
    const bool c = on();
    if (c) {
        In in;
        fs_op(p, m[0] != 'r' || m[1] == '+', pc);
    }
    ++tl.ignore;
    FILE* r = f(p, m);
    --tl.ignore;
    if (c && r && fileno(r) < 1024)
        g_fd_obj[fileno(r)] = path_obj(p);
    return r;
}
FILE*
fopen(const char* p, const char* m)
{
    static FILE* (*f)(const char*, const char*);
    real(f, "fopen");
    return do_fopen(f, p, m, RET);
}
FILE*
fopen64(const char* p, const char* m)
{
    static FILE* (*f)(const char*, const char*);
    real(f, "fopen64");
    return do_fopen(f, p, m, RET);
}
int
mkdir(const char* p, mode_t m)
{
    if (on()) {
        In in;
        fs_op(p, true, RET);
    }
    return (int)raw_errno(raw(SYS_mkdir, (long)p, m));
}
int
rmdir(const char* p)
{
    if (on()) {
        In in;
        fs_op(p, true, RET);
    }
    return (int)raw_errno(raw(SYS_rmdir, (long)p));
}
int
unlink(const char* p)
{
    if (on()) {
        In in;
        fs_op(p, true, RET);
    }
    return (int)raw_errno(raw(SYS_unlink, (long)p));
}
int
rename(const char* a, const char* b)
{
    if (on()) {
        In in;
        Op o = mk(K_IOWRITE, RET, path_obj(a), true);
        o.nobj = 2;
        o.obj[1] = path_obj(b);
        o.wr = 3;
        visible(o);
    }
    return (int)raw_errno(raw(SYS_rename, (long)a, (long)b));
}
int
truncate(const char* p, off_t n)
{
    if (on()) {
        In in;
        fs_op(p, true, RET);
    }
    return (int)raw_errno(raw(SYS_truncate, (long)p, n));
}
#define STAT(NAME, CALL, T)                                                                                                                \
    int NAME(const char* p, T* b)                                                                                                          \
    {                                                                                                                                      \
        if (on()) {                                                                                                                        \
            In in;                                                                                                                         \
            fs_op(p, false, RET);                                                                                                          \
        }                                                                                                                                  \
        return (int)raw_errno(raw(CALL, (long)p, (long)b));                                                                                \
    }
STAT(stat, SYS_stat, struct stat)
STAT(stat64, SYS_stat, struct stat64)
STAT(lstat, SYS_lstat, struct stat)
STAT(lstat64, SYS_lstat, struct stat64)
static void (*g_out)(int, const char*, size_t);
static bool
captured(int fd, const void* p, size_t n, const void* pc)
{
    if ((fd != 1 && fd != 2) || !on())
        return false;
    In in;
    visible(mk(K_IOWRITE, pc, 0x57D000 + fd * 8, true, hash_bytes((const char*)p, n)));
    if (output)
        output(fd, (const char*)p, n);
    return true;
}
ssize_t
write(int fd, const void* p, size_t n)
{
    if (captured(fd, p, n, RET))
        return (ssize_t)n;
    if (on()) {
        check_access((u64)p, n, false, false, RET);
        In in;
        fd_op(fd, RET, n);
    }
    return raw_errno(raw(SYS_write, fd, (long)p, n));
}
static void
check_iov(const struct iovec* v, int c, const void* pc)
{
    for (int i = 0; i < c; ++i)
        check_access((u64)v[i].iov_base, v[i].iov_len, false, false, pc);
}
ssize_t
writev(int fd, const struct iovec* v, int c)
{
    if ((fd == 1 || fd == 2) && on()) {
        ssize_t n = 0;
        for (int i = 0; i < c; ++i) {
            captured(fd, v[i].iov_base, v[i].iov_len, RET);
            n += v[i].iov_len;
        }
        return n;
    }
    if (on()) {
        check_iov(v, c, RET);
        In in;
        fd_op(fd, RET, c);
    }
    return raw_errno(raw(SYS_writev, fd, (long)v, c));
}
#define PWRITEV(NAME)                                                                                                                      \
    ssize_t NAME(int fd, const struct iovec* v, int c, off_t o)                                                                            \
    {                                                                                                                                      \
        if (on()) {                                                                                                                        \
            check_iov(v, c, RET);                                                                                                          \
            In in;                                                                                                                         \
            fd_op(fd, RET, o);                                                                                                             \
        }                                                                                                                                  \
        return raw_errno(raw(SYS_pwritev, fd, (long)v, c, o, 0));                                                                          \
    }
PWRITEV(pwritev)
PWRITEV(pwritev64)
#define PWRITE(NAME)                                                                                                                       \
    ssize_t NAME(int fd, const void* p, size_t n, off_t o)                                                                                 \
    {                                                                                                                                      \
        if (on()) {                                                                                                                        \
            check_access((u64)p, n, false, false, RET);                                                                                    \
            In in;                                                                                                                         \
            fd_op(fd, RET, o);                                                                                                             \
        }                                                                                                                                  \
        return raw_errno(raw(SYS_pwrite64, fd, (long)p, n, o));                                                                            \
    }
PWRITE(pwrite)
PWRITE(pwrite64)
#define LSEEK(NAME)                                                                                                                        \
    off_t NAME(int fd, off_t o, int w)                                                                                                     \
    {                                                                                                                                      \
        if (on()) {                                                                                                                        \
            In in;                                                                                                                         \
            fd_op(fd, RET, o);                                                                                                             \
        }                                                                                                                                  \
        return raw_errno(raw(SYS_lseek, fd, o, w));                                                                                        \
    }
LSEEK(lseek)
LSEEK(lseek64)
int
ftruncate(int fd, off_t o)
{
    if (on()) {
        In in;
        fd_op(fd, RET, o);
    }
    return (int)raw_errno(raw(SYS_ftruncate, fd, o));
}
int
close(int fd)
{
    if (on()) {
        In in;
        fd_op(fd, RET, 7); // another thread using the descriptor must not come after
        if (fd >= 0 && fd < 1024)
            g_fd_obj[fd] = 0;
    }
    return (int)raw_errno(raw(SYS_close, fd));
}

// ---------------------------------------------------------------- stdio on stdout and stderr
static int
std_fd(FILE* f)
{
    return f == stdout ? 1 : f == stderr ? 2 : 0;
}
static size_t
do_fwrite(const void* p, size_t n, FILE* f, bool& done, const void* pc)
{
    done = false;
    if (std_fd(f) && on()) {
        captured(std_fd(f), p, n, pc);
        done = true;
    }
    return n;
}
size_t
fwrite(const void* p, size_t a, size_t b, FILE* f)
{
    static decltype(&fwrite) r;
    bool d;
    do_fwrite(p, a * b, f, d, RET);
    return d ? b : real(r, "fwrite")(p, a, b, f);
}
size_t
fwrite_unlocked(const void* p, size_t a, size_t b, FILE* f)
{
    static decltype(&fwrite) r;
    bool d;
    do_fwrite(p, a * b, f, d, RET);
    return d ? b : real(r, "fwrite_unlocked")(p, a, b, f);
}
#define PUTC(NAME)                                                                                                                         \
    int NAME(int c, FILE* f)                                                                                                               \
    {                                                                                                                                      \
        static int (*r)(int, FILE*);                                                                                                       \
        char x = (char)c;                                                                                                                  \
        bool d;                                                                                                                            \
        do_fwrite(&x, 1, f, d, RET);                                                                                                       \
        return d ? (u8)c : real(r, #NAME)(c, f);                                                                                           \
    }
#undef putc
#undef fputc
#undef putc_unlocked
#undef fputc_unlocked
PUTC(putc)
PUTC(fputc)
PUTC(_IO_putc)
int
fputs(const char* s, FILE* f)
{
    static int (*r)(const char*, FILE*);
    size_t n = 0;
    while (s[n])
        ++n;
    bool d;
    do_fwrite(s, n, f, d, RET);
    return d ? 1 : real(r, "fputs")(s, f);
}
int
puts(const char* s)
{
    static int (*r)(const char*);
    if (!on())
        return real(r, "puts")(s);
    fputs(s, stdout);
    fputc('\n', stdout);
    return 1;
}
int
fflush(FILE* f)
{
    static int (*r)(FILE*);
    if (on() && (!f || std_fd(f)))
        return 0;
    return real(r, "fflush")(f);
}
static int
do_vfprintf(FILE* f, const char* fmt, va_list ap, const void* pc)
{
    char b[4096];
    const int n = vsnprintf(b, sizeof b, fmt, ap);
    bool d;
    do_fwrite(b, n < (int)sizeof b ? n : sizeof b - 1, f, d, pc);
    return n;
}
int
vfprintf(FILE* f, const char* fmt, va_list ap)
{
    static int (*r)(FILE*, const char*, va_list);
    if (!on() || !std_fd(f))
        return real(r, "vfprintf")(f, fmt, ap);
    return do_vfprintf(f, fmt, ap, RET);
}
int
fprintf(FILE* f, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    const int r = vfprintf(f, fmt, ap);
    va_end(ap);
    return r;
}
int
printf(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    const int r = vfprintf(stdout, fmt, ap);
    va_end(ap);
    return r;
}

// ---------------------------------------------------------------- instrumentation
void __tsan_init() {}
void
__tsan_func_entry(void* pc)
{
    if (!on())
        return;
    Th& t = th[tl.self];
    if (t.depth < 64)
        t.stack[t.depth] = pc;
    ++t.depth;
}
void
__tsan_func_exit()
{
    if (!on())
        return;
    Th& t = th[tl.self];
    if (t.depth > 0)
        --t.depth;
}
#define RW(N)                                                                                                                              \
    void __tsan_read##N(void* a)                                                                                                           \
    {                                                                                                                                      \
        if (on())                                                                                                                          \
            check_access((u64)a, N, false, false, RET);                                                                                    \
    }                                                                                                                                      \
    void __tsan_write##N(void* a)                                                                                                          \
    {                                                                                                                                      \
        if (on())                                                                                                                          \
            check_access((u64)a, N, true, false, RET);                                                                                     \
    }                                                                                                                                      \
    void __tsan_unaligned_read##N(void* a)                                                                                                 \
    {                                                                                                                                      \
        if (on())                                                                                                                          \
            check_access((u64)a, N, false, false, RET);                                                                                    \
    }                                                                                                                                      \
    void __tsan_unaligned_write##N(void* a)                                                                                                \
    {                                                                                                                                      \
        if (on())                                                                                                                          \
            check_access((u64)a, N, true, false, RET);                                                                                     \
    }                                                                                                                                      \
    void __tsan_volatile_read##N(void* a) { __tsan_read##N(a); }                                                                           \
    void __tsan_volatile_write##N(void* a) { __tsan_write##N(a); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void
__tsan_read_range(void* a, unsigned long n)
{
    if (on())
        check_access((u64)a, n, false, false, RET);
}
void
__tsan_write_range(void* a, unsigned long n)
{
    if (on())
        check_access((u64)a, n, true, false, RET);
}
void
__tsan_vptr_read(void** a)
{
    if (on())
        check_access((u64)a, 8, false, false, RET);
}
void
__tsan_vptr_update(void** a, void* v)
{
    if (on() && *a != v)
        check_access((u64)a, 8, true, false, RET);
}
#define NOP(NAME)                                                                                                                          \
    void NAME() {}
NOP(__tsan_mutex_create)
NOP(__tsan_mutex_destroy)
NOP(__tsan_mutex_pre_lock)
NOP(__tsan_mutex_post_lock)
NOP(__tsan_mutex_pre_unlock)
NOP(__tsan_mutex_post_unlock)
NOP(__tsan_mutex_pre_signal)
NOP(__tsan_mutex_post_signal)
NOP(__tsan_mutex_pre_divert)
NOP(__tsan_mutex_post_divert)
NOP(__tsan_acquire)
NOP(__tsan_release)

// atomics
static bool
is_acq(int o)
{
    return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST;
}
static bool
is_rel(int o)
{
    return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST;
}
static void
at_load(const void* p, int n, int o, const void* pc)
{
    check_access((u64)p, n, false, true, pc);
    In in;
    Th& t = th[tl.self];
    // a thread that spins on a value gives way
    if (t.load_obj == key(p)) {
        if (++t.same_loads > 30)
            t.yielding = true;
    } else {
        t.load_obj = key(p);
        t.same_loads = 0;
    }
    visible(mk(K_ALOAD, pc, key(p), false));
    t.yielding = false;
    check_access((u64)p, n, false, true, pc);
    Obj* ob = obj(key(p));
    if (is_acq(o))
        acquire(ob);
    else {
        vc_join(t.acq_fence, ob->vc);
        t.has_acq = true;
    }
}
static void
at_store_before(const void* p, int n, int o, const void* pc)
{
    check_access((u64)p, n, true, true, pc);
    In in;
    Th& t = th[tl.self];
    t.load_obj = 0;
    visible(mk(K_ASTORE, pc, key(p), true));
    Obj* ob = obj(key(p));
    if (is_rel(o))
        ob->vc = t.vc;
    else if (t.has_rel)
        ob->vc = t.rel_fence;
    else
        memset(&ob->vc, 0, sizeof ob->vc);
    ++t.vc.c[tl.self];
}
static void
at_rmw_before(const void* p, int n, int o, bool changes, const void* pc)
{
    In in;
    Th& t = th[tl.self];
    if (!changes) { // failed compare-exchange: a load
        if (is_acq(o))
            acquire(obj(key(p)));
        return;
    }
    t.load_obj = 0;
    Obj* ob = obj(key(p));
    if (is_acq(o))
        acquire(ob);
    else {
        vc_join(t.acq_fence, ob->vc);
        t.has_acq = true;
    }
    if (is_rel(o))
        vc_join(ob->vc, t.vc);
    else if (t.has_rel)
        vc_join(ob->vc, t.rel_fence);
    ++t.vc.c[tl.self];
}
static void
at_rmw_point(const void* p, int n, const void* pc)
{
    check_access((u64)p, n, true, true, pc);
    {
        In in;
        visible(mk(K_ARMW, pc, key(p), true));
    }
    check_access((u64)p, n, true, true, pc);
}
#define AT(N, T)                                                                                                                           \
    T __tsan_atomic##N##_load(const volatile T* p, int o)                                                                                  \
    {                                                                                                                                      \
        if (on())                                                                                                                          \
            at_load((const void*)p, N / 8, o, RET);                                                                                        \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                                       \
    }                                                                                                                                      \
    void __tsan_atomic##N##_store(volatile T* p, T v, int o)                                                                               \
    {                                                                                                                                      \
        if (on())                                                                                                                          \
            at_store_before((const void*)p, N / 8, o, RET);                                                                                \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                                          \
    }                                                                                                                                      \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int o)                                                                               \
    {                                                                                                                                      \
        if (on()) {                                                                                                                        \
            at_rmw_point((const void*)p, N / 8, RET);                                                                                      \
            at_rmw_before((const void*)p, N / 8, o, true, RET);                                                                            \
        }                                                                                                                                  \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                                                \
    }                                                                                                                                      \
    RMW(N, T, add)                                                                                                                         \
    RMW(N, T, sub)                                                                                                                         \
    RMW(N, T, and)                                                                                                                         \
    RMW(N, T, or)                                                                                                                          \
    RMW(N, T, xor)                                                                                                                         \
    RMW(N, T, nand)                                                                                                                        \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int o, int fo)                                                \
    {                                                                                                                                      \
        if (on()) {                                                                                                                        \
            at_rmw_point((const void*)p, N / 8, RET);                                                                                      \
            const bool ok = *p == *c;                                                                                                      \
            at_rmw_before((const void*)p, N / 8, ok ? o : fo, ok, RET);                                                                    \
        }                                                                                                                                  \
        return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                \
    }                                                                                                                                      \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int o, int fo)                                                  \
    {                                                                                                                                      \
        return __tsan_atomic##N##_compare_exchange_strong(p, c, v, o, fo);                                                                 \
    }                                                                                                                                      \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int o, int fo)                                                      \
    {                                                                                                                                      \
        __tsan_atomic##N##_compare_exchange_strong(p, &c, v, o, fo);                                                                       \
        return c;                                                                                                                          \
    }
#define RMW(N, T, OP)                                                                                                                      \
    T __tsan_atomic##N##_fetch_##OP(volatile T* p, T v, int o)                                                                             \
    {                                                                                                                                      \
        if (on()) {                                                                                                                        \
            at_rmw_point((const void*)p, N / 8, RET);                                                                                      \
            at_rmw_before((const void*)p, N / 8, o, true, RET);                                                                            \
        }                                                                                                                                  \
        return __atomic_fetch_##OP(p, v, __ATOMIC_SEQ_CST);                                                                                \
    }
AT(8, u8)
AT(16, uint16_t)
AT(32, u32)
AT(64, u64)
void
__tsan_atomic_thread_fence(int o)
{
    if (!on())
        return;
    In in;
    Th& t = th[tl.self];
    if (is_acq(o) && t.has_acq)
        vc_join(t.vc, t.acq_fence);
    if (is_rel(o)) {
        t.rel_fence = t.vc;
        t.has_rel = true;
        ++t.vc.c[tl.self];
    }
}
void __tsan_atomic_signal_fence(int) {}
}
