// Controlled scheduler and happens-before race detector for code compiled with -fsanitize=thread
// (the instrumentation only; this runtime takes the place of libtsan).
//
// One thread runs at a time. Every synchronisation operation, atomic access, file-system call,
// stdio call and S3 request is a visible operation (a "step"): before it takes effect the scheduler
// may let another thread run first. Which one is decided by a deterministic default policy, except
// at the steps listed as deviations. Plain memory accesses are checked with vector clocks.
#pragma once
#include <stddef.h>
#include <stdint.h>

namespace mcrt {
constexpr int MAXT = 14;
constexpr int MAXNODES = 20000;
constexpr int MAXDEV = 400;
constexpr int MAXCONF = 1 << 14; // power of two

enum Kind : uint8_t
{
    K_NONE, K_LOCK, K_TRYLOCK, K_UNLOCK, K_CWAIT, K_CWAKE, K_SIGNAL, K_BCAST, K_ALOAD, K_ASTORE, K_ARMW, K_CREATE, K_START, K_JOIN, K_EXIT,
    K_FWAIT, K_FBLOCK, K_FWAKE, K_YIELD, K_IOREAD, K_IOWRITE, K_LWAIT, K_LDOWN, K_LTRY, K_USER, K_GUARD, K_RDLOCK, K_WRLOCK, K_SEMWAIT,
    K_SEMPOST, K_END, K_CHOICE
};
const char* kind_name(int k);

struct Dev // a choice that differs from the default one
{
    int step;
    int value; // thread, or index of the waiter to wake (K_CHOICE)
};
struct Node // a decision at which another choice may lead elsewhere
{
    int step;
    uint16_t alt;     // other threads that could run (or, for K_CHOICE, other indices)
    uint16_t spurious; // of these, enabled only by a spurious or timed-out wake-up
    uint8_t chosen, arriver;
    Kind kind;        // of the arriving thread's operation
    uint64_t hb;      // hash of the partial order executed so far
};
struct Ev // executed steps, for reports
{
    uint8_t tid;
    Kind kind;
    uint64_t obj;
};

struct Shared // between the explorer and one execution
{
    // in
    int ndev;
    Dev dev[MAXDEV];
    int policy;   // who runs when the running thread can't go on: 0 oldest thread, 1 newest, 2 next in turn
    int spurious; // offer spurious wake-ups as choices
    int max_steps;
    uint64_t conf[MAXCONF]; // objects before whose accesses a switch may matter (open addressing)
    int nconf;
    // out
    volatile int nnodes;
    Node node[MAXNODES];
    volatile int nodes_full;
    volatile int steps;
    volatile int done; // 1 complete, 3 error found by the runtime
    volatile int truncated, diverged;
    uint64_t newconf[4096];
    volatile int nnew;
    uint64_t accesses;
    int nthreads;
    char errors[16384];
    volatile int nerr;
    char outcome[16384];
    uint64_t final_hb;
    Ev ev[6000];
};

void attach(Shared* s); // in the execution's process, before begin()
void begin();           // the calling thread becomes thread 0
void end();             // waits for all other threads; what follows is not controlled
bool active();
void error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void stop(int done);
void user_point(uint64_t obj, bool write, uint64_t obj2 = 0, bool write2 = false); // visible operation of a harness or stub
int self();
uint64_t hash_bytes(const char* p, size_t n);
extern void (*output)(int fd, const char* p, size_t n); // stdout (1) and stderr (2) while active
} // namespace mcrt

extern "C" {
void mcrt_ignore(int delta);                            // >0: this thread's accesses are not checked
void mcrt_access(const void* p, size_t n, int write);   // an access of uninstrumented code
void mcrt_latch_init(void* p, ptrdiff_t n);
void mcrt_latch_destroy(void* p);
void mcrt_latch_down(void* p, ptrdiff_t n);
void mcrt_latch_wait(void* p);
int mcrt_latch_try(void* p);
}
