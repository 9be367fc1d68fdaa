#include "sysfault.hh"

#include <errno.h>
#include <fcntl.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" long sysfault_raw(long nr, long a, long b, long c, long d, long e, long f);
extern "C" char sysfault_raw_begin[], sysfault_raw_end[];
asm(R"(
    .text
    .globl sysfault_raw_begin
    .globl sysfault_raw_end
    .globl sysfault_raw
    .type sysfault_raw, @function
sysfault_raw_begin:
sysfault_raw:
    mov %rdi, %rax
    mov %rsi, %rdi
    mov %rdx, %rsi
    mov %rcx, %rdx
    mov %r8, %r10
    mov %r9, %r8
    mov 8(%rsp), %r9
    syscall
    ret
sysfault_raw_end:
)");

namespace sysfault {
volatile int phase = 0;
static volatile bool g_armed = false;
static char g_root[512];
static size_t g_root_len;
static Plan g_plan;
static int g_fired_phase;
static uint64_t g_plan_path, g_fd_path[4096];
static Op g_plan_op, g_plan_op2;
static volatile uint64_t g_count, g_stderr;
static volatile bool g_fired;
static Entry g_log[MAX_LOG];
static unsigned char g_ours[4096];  // descriptors opened for writing below the root
static volatile unsigned char g_cwd_ours;

static bool
below_root(const char* p)
{
    return p && (p[0] != '/' || (strncmp(p, g_root, g_root_len) == 0 && (p[g_root_len] == '/' || !p[g_root_len])));
}
static uint64_t
hash(const char* p)
{
    uint64_t h = 1469598103934665603ull;
    for (; p && *p; ++p)
        h = (h ^ (unsigned char)*p) * 1099511628211ull;
    return h;
}

static long
partial(long nr, long* a, size_t total, size_t n)
{
    // performs only the first n of total bytes of a write-like call
    if (n > total)
        n = total;
    if (nr == SYS_write || nr == SYS_pwrite64)
        return sysfault_raw(nr, a[0], a[1], n, a[3], a[4], a[5]);
    iovec v[64];
    const iovec* src = (const iovec*)a[1];
    long k = 0, left = n;
    for (long i = 0; i < a[2] && k < 64 && left > 0; ++i) {
        v[k] = src[i];
        if ((long)v[k].iov_len > left)
            v[k].iov_len = left;
        left -= v[k].iov_len;
        ++k;
    }
    return sysfault_raw(nr, a[0], (long)v, k, a[3], a[4], a[5]);
}

static void
handler(int, siginfo_t*, void* ctx)
{
    auto* g = ((ucontext_t*)ctx)->uc_mcontext.gregs;
    const long nr = g[REG_RAX];
    long a[6] = { g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9] };
    const int saved = errno;
    auto pass = [&] { return sysfault_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); };
    long ret;
    bool ours = false;
    Op op = Op::Other;
    size_t size = 0;
    const char* path = nullptr;
    bool opens = false;
    if (g_armed) {
        switch (nr) {
            case SYS_open:
            case SYS_openat:
            case SYS_creat: {
                path = (const char*)(nr == SYS_openat ? a[1] : a[0]);
                const int fl = nr == SYS_creat ? O_CREAT | O_WRONLY : (int)(nr == SYS_openat ? a[2] : a[1]);
                if ((fl & O_CREAT) || (fl & O_ACCMODE) != O_RDONLY) {
                    ours = below_root(path);
                    op = Op::Open;
                    opens = ours;
                }
                break;
            }
            case SYS_mkdir:
            case SYS_mkdirat:
                path = (const char*)(nr == SYS_mkdirat ? a[1] : a[0]);
                ours = below_root(path);
                op = Op::Mkdir;
                break;
            case SYS_unlink:
            case SYS_rmdir:
                path = (const char*)a[0];
                ours = below_root(path);
                op = Op::Remove;
                break;
            case SYS_unlinkat:
                path = (const char*)a[1];
                ours = below_root(path);
                op = Op::Remove;
                break;
            case SYS_rename:
            case SYS_link:
            case SYS_symlink:
            case SYS_truncate:
                path = (const char*)a[0];
                ours = below_root(path);
                break;
            case SYS_renameat:
            case SYS_renameat2:
            case SYS_linkat:
            case SYS_symlinkat:
                ours = true;
                break;
            case SYS_ftruncate:
            case SYS_fallocate:
                ours = a[0] >= 0 && a[0] < 4096 && g_ours[a[0]];
                break;
            case SYS_write:
            case SYS_pwrite64:
                size = a[2];
                op = Op::Write;
                ours = a[0] >= 0 && a[0] < 4096 && g_ours[a[0]];
                break;
            case SYS_writev:
            case SYS_pwritev:
            case SYS_pwritev2:
                for (long i = 0; i < a[2]; ++i)
                    size += ((const iovec*)a[1])[i].iov_len;
                op = Op::Write;
                ours = a[0] >= 0 && a[0] < 4096 && g_ours[a[0]];
                break;
            case SYS_close:
                if (a[0] >= 0 && a[0] < 4096)
                    g_ours[a[0]] = 0;
                break;
        }
        if (op == Op::Write && (a[0] == 1 || a[0] == 2))
            __atomic_fetch_add(&g_stderr, size, __ATOMIC_SEQ_CST);
    }
    if (!ours) {
        ret = pass();
    } else {
        const uint64_t i = __atomic_fetch_add(&g_count, 1, __ATOMIC_SEQ_CST);
        if (i < MAX_LOG)
            g_log[i] = { op, phase, (uint32_t)size, path ? hash(path) : (uint64_t)a[0] };
        const uint64_t where = path ? hash(path) : a[0] >= 0 && a[0] < 4096 ? g_fd_path[a[0]] : 0;
        Act act = Act::Pass;
        if (g_plan.at >= 0) {
            if ((int64_t)i == g_plan.at) {
                act = g_plan.act;
                g_plan_op = op;
                g_plan_path = where;
                g_fired_phase = phase;
                g_fired = true;
            } else if (g_plan.persistent && g_fired && (int64_t)i > g_plan.at && op == g_plan_op &&
                       (!g_plan.same_path || where == g_plan_path))
                act = g_plan.act;
        }
        int err = g_plan.err;
        if (g_plan.at2 >= 0 && act == Act::Pass) {
            if ((int64_t)i == g_plan.at2)
                g_plan_op2 = op;
            if ((int64_t)i == g_plan.at2 || (g_plan.persistent2 && (int64_t)i > g_plan.at2 && op == g_plan_op2)) {
                act = g_plan.act2;
                err = g_plan.err2;
            }
        }
        if ((act == Act::Short || act == Act::ShortOne || act == Act::CrashPartial) && (op != Op::Write || size < 2))
            act = act == Act::CrashPartial ? Act::Crash : Act::Pass;
        switch (act) {
            case Act::Fail:
                ret = -err;
                break;
            case Act::Short:
                ret = partial(nr, a, size, size / 2);
                break;
            case Act::ShortOne:
                ret = partial(nr, a, size, 1);
                break;
            case Act::CrashPartial:
                partial(nr, a, size, size / 2);
                [[fallthrough]];
            case Act::Crash:
                sysfault_raw(SYS_exit_group, 99, 0, 0, 0, 0, 0);
                ret = 0;
                break;
            default:
                ret = pass();
        }
        if (opens && ret >= 0 && ret < 4096)
            g_ours[ret] = 1, g_fd_path[ret] = where;
    }
    errno = saved;
    g[REG_RAX] = ret;
}

bool
install()
{
    static bool done = false;
    if (done)
        return true;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = handler;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    if (sigaction(SIGSYS, &sa, nullptr))
        return false;
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0))
        return false;
    static const int trapped[] = { SYS_open,    SYS_openat,   SYS_creat,     SYS_mkdir,     SYS_mkdirat, SYS_unlink,   SYS_rmdir,     SYS_unlinkat,
                                   SYS_rename,  SYS_link,     SYS_symlink,   SYS_truncate,  SYS_renameat, SYS_renameat2, SYS_linkat,    SYS_symlinkat,
                                   SYS_ftruncate, SYS_fallocate, SYS_write,  SYS_pwrite64,  SYS_writev,  SYS_pwritev,  SYS_pwritev2,  SYS_close };
    constexpr int n = sizeof trapped / sizeof *trapped;
    sock_filter f[n + 16];
    int k = 0;
    const uint64_t lo = (uint64_t)sysfault_raw_begin, hi = (uint64_t)sysfault_raw_end;
    if (lo >> 32 != hi >> 32)
        return false;
    auto stmt = [&](uint16_t c, uint32_t v) { f[k++] = { c, 0, 0, v }; };
    auto jump = [&](uint16_t c, uint32_t v, uint8_t t, uint8_t e) { f[k++] = { c, t, e, v }; };
    const int ip = offsetof(seccomp_data, instruction_pointer);
    // calls made by sysfault_raw itself pass
    stmt(BPF_LD | BPF_W | BPF_ABS, ip + 4);
    jump(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(lo >> 32), 0, 4);
    stmt(BPF_LD | BPF_W | BPF_ABS, ip);
    jump(BPF_JMP | BPF_JGE | BPF_K, (uint32_t)lo, 0, 2);
    jump(BPF_JMP | BPF_JGT | BPF_K, (uint32_t)hi, 1, 0);
    stmt(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    stmt(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
    for (int i = 0; i < n; ++i)
        jump(BPF_JMP | BPF_JEQ | BPF_K, trapped[i], n - i, 0);
    stmt(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    stmt(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    sock_fprog p = { (unsigned short)k, f };
    if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p))
        return false;
    done = true;
    return true;
}

void
arm(const char* root, Plan p)
{
    strncpy(g_root, root, sizeof g_root - 1);
    g_root_len = strlen(g_root);
    g_plan = p;
    g_count = g_stderr = 0;
    g_fired = false;
    memset(g_ours, 0, sizeof g_ours);
    phase = 0;
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
    g_armed = true;
}
void
disarm()
{
    g_armed = false;
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
bool
pause()
{
    const bool was = g_armed;
    g_armed = false;
    return was;
}
void
resume(bool was)
{
    g_armed = was;
}
uint64_t
count()
{
    return g_count;
}
int
fired_phase()
{
    return g_fired_phase;
}
bool
fired()
{
    return g_fired;
}
const Entry&
entry(uint64_t i)
{
    return g_log[i];
}
uint64_t
stderr_bytes()
{
    return g_stderr;
}
} // namespace sysfault
