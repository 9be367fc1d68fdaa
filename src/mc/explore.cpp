#include "explore.hh"

#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace mcrt;
namespace mcx {
namespace {
double
now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
std::string
run_cmd(const std::string& c)
{
    std::string out;
    FILE* f = popen(c.c_str(), "r");
    if (!f)
        return out;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0)
        out.append(b, n);
    pclose(f);
    return out;
}
// "@0x401234" -> function (file:line)
std::string
symbolise(const std::string& text)
{
    std::string out;
    char exe[4096];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (n <= 0)
        return text;
    exe[n] = 0;
    std::map<std::string, std::string> cache;
    for (size_t i = 0; i < text.size();) {
        if (text.compare(i, 3, "@0x") == 0) {
            size_t e = i + 3;
            while (e < text.size() && isxdigit((unsigned char)text[e]))
                ++e;
            const std::string a = text.substr(i + 1, e - i - 1);
            if (!cache.count(a)) {
                char cmd[5000];
                snprintf(cmd, sizeof cmd, "addr2line -e '%s' -f -C -s 0x%llx 2>/dev/null", exe, strtoull(a.c_str(), nullptr, 16) - 1);
                std::string r = run_cmd(cmd);
                std::string fn = r.substr(0, r.find('\n')), at = r.size() > fn.size() ? r.substr(fn.size() + 1) : "";
                while (!at.empty() && at.back() == '\n')
                    at.pop_back();
                if (fn.size() > 110)
                    fn = fn.substr(0, 107) + "...";
                cache[a] = fn.empty() || fn == "??" ? a : fn + " (" + at + ")";
            }
            out += cache[a];
            i = e;
        } else
            out += text[i++];
    }
    return out;
}
std::vector<std::string>
lines(const std::string& s)
{
    std::vector<std::string> v;
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find('\n', i);
        if (e == std::string::npos)
            e = s.size();
        v.push_back(s.substr(i, e - i));
        i = e + 1;
    }
    return v;
}
void
wipe(const std::string& dir)
{
    DIR* d = opendir(dir.c_str());
    if (!d)
        return;
    while (dirent* e = readdir(d)) {
        const std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        const std::string p = dir + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
            chmod(p.c_str(), 0755);
            wipe(p);
            rmdir(p.c_str());
        } else
            unlink(p.c_str());
    }
    closedir(d);
}

struct Item
{
    std::vector<Dev> devs;
    int left;
};
struct Worker
{
    Shared* s;
    pid_t pid;
    int cmd; // pipe to it
    bool busy = false;
    Item item;
};
struct Done
{
    int worker, status;
};

class Explorer
{
  public:
    Explorer(Runner& R, const Opts& o, const Body& body, int policy)
      : R(R)
      , o(o)
      , body(body)
      , policy(policy)
    {
    }
    void go(Report& r)
    {
        t0 = now();
        start_workers();
        int reached = -1;
        bool complete = false, timeout = false;
        uint64_t last_states = 0;
        for (int b = 0; b <= o.max_bound;) {
            limit = b > o.bound ? o.secs : o.hard;
            const bool grew = pass(b);
            if (!errs.empty())
                break;
            if (out_of_time) {
                timeout = true;
                break;
            }
            if (grew)
                continue; // new conflicting objects: the same bound again
            reached = b;
            last_states = visited.size();
            if (!cut) {
                complete = true;
                break;
            }
            ++b;
        }
        stop_workers();
        r.n_exec = n_exec;
        r.n_states = std::max<uint64_t>(last_states, visited.size());
        r.transitions = n_steps;
        r.extra["executions"] = (double)n_exec;
        r.extra["races_checked_accesses"] = (double)n_acc;
        r.extra["diverged"] = (double)n_div;
        r.extra["conflicting_objects"] = (double)nconf;
        r.extra[complete ? "scenarios_explored_without_bound" : "scenarios_explored_to_bound"] = 1;
        std::set<std::string> os(outcomes.begin(), outcomes.end());
        r.outcome = std::to_string(os.size());
        for (auto& x : os)
            r.more_outcomes.push_back(hash_str(x));
        char b[200];
        snprintf(b, sizeof b, "%s, %llu executions, %llu states, %zu outcomes, longest %d steps, %.1f s",
                 complete ? "complete" : ("bound " + std::to_string(reached)).c_str(), (unsigned long long)n_exec,
                 (unsigned long long)r.n_states, os.size(), longest, now() - t0);
        r.note = b;
        if (getenv("MC_VERBOSE"))
            fprintf(stderr, "  policy %d: %s%s\n", policy, b, n_div ? (" DIVERGED " + std::to_string(n_div)).c_str() : "");
        if (errs.empty() && !complete && reached < o.bound)
            r.incomplete.push_back("bound " + std::to_string(o.bound) + " not finished (reached " + std::to_string(reached) + ")" +
                                   (timeout ? ", time limit" : ""));
        if (n_full)
            r.incomplete.push_back("an execution had more decisions than can be recorded");
        if (n_div * 50 > n_exec + 50)
            r.incomplete.push_back(std::to_string(n_div) + " of " + std::to_string(n_exec) + " executions could not be repeated exactly");
        if (!errs.empty()) {
            r.errs = errs;
            r.trace = trace;
        }
    }

  private:
    Runner& R;
    const Opts& o;
    const Body& body;
    const int policy;
    double t0;
    std::vector<Worker> w;
    int res_pipe[2];
    std::set<uint64_t> conf;
    int nconf = 0;
    std::unordered_map<uint64_t, int> visited;
    std::vector<Item> stack;
    std::unordered_set<std::string> outcomes;
    uint64_t n_exec = 0, n_steps = 0, n_acc = 0, n_div = 0, n_full = 0;
    int longest = 0;
    double limit = 0;
    bool cut = false, out_of_time = false, grown = false;
    std::vector<std::string> errs;
    std::string trace;

    std::string dir_of(int i) const { return R.scratch + "/w" + std::to_string(i); }

    void child(Shared* s, const std::string& dir)
    {
        alarm(o.alarm_s);
        struct rlimit rl = { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        attach(s);
        std::vector<std::string> e;
        std::string out;
        try {
            out = body(e, dir);
        } catch (std::exception& x) {
            e.push_back(std::string("exception: ") + x.what());
        } catch (...) {
            e.push_back("exception");
        }
        if (active())
            e.push_back("harness error: still active");
        for (auto& x : e)
            error("%s", x.c_str());
        strncpy(s->outcome, out.c_str(), sizeof s->outcome - 1);
        s->done = 1;
        _exit(0);
    }
    void worker_main(int i, int cmd)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        signal(SIGPIPE, SIG_DFL);
        Shared* s = w[i].s;
        const std::string dir = dir_of(i);
        mkdir(dir.c_str(), 0755);
        char c;
        while (read(cmd, &c, 1) == 1) {
            pid_t p = fork();
            if (p == 0)
                child(s, dir);
            int st = 0;
            if (p < 0)
                st = -1;
            else
                waitpid(p, &st, 0);
            wipe(dir);
            Done d{ i, st };
            if (write(res_pipe[1], &d, sizeof d) != sizeof d)
                break;
        }
        _exit(0);
    }
    void start_workers()
    {
        if (pipe(res_pipe))
            abort();
        int n = 8;
        if (const char* e = getenv("MC_WORKERS"))
            n = atoi(e);
        w.resize(n);
        for (auto& x : w) {
            x.s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if (x.s == MAP_FAILED)
                abort();
        }
        fflush(stdout);
        fflush(stderr);
        for (int i = 0; i < n; ++i) {
            int c[2];
            if (pipe(c))
                abort();
            w[i].cmd = c[1];
            w[i].pid = fork();
            if (w[i].pid < 0)
                abort();
            if (w[i].pid == 0) {
                for (int k = 0; k <= i; ++k)
                    close(w[k].cmd);
                worker_main(i, c[0]);
            }
            close(c[0]);
        }
    }
    void stop_workers()
    {
        for (auto& x : w)
            close(x.cmd);
        for (auto& x : w) {
            if (x.busy)
                kill(x.pid, SIGKILL);
            waitpid(x.pid, nullptr, 0);
        }
        for (auto& x : w)
            munmap(x.s, sizeof(Shared));
        close(res_pipe[0]);
        close(res_pipe[1]);
    }
    void submit(int i, const Item& it)
    {
        Worker& x = w[i];
        Shared* s = x.s;
        x.item = it;
        x.busy = true;
        s->ndev = (int)std::min<size_t>(it.devs.size(), MAXDEV);
        for (int k = 0; k < s->ndev; ++k)
            s->dev[k] = it.devs[k];
        s->policy = policy;
        s->spurious = o.spurious;
        s->max_steps = o.max_steps;
        if (s->nconf != (int)conf.size()) {
            memset(s->conf, 0, sizeof s->conf);
            for (uint64_t key : conf) {
                uint64_t k = conf_slot(key);
                while (s->conf[k & (MAXCONF - 1)])
                    ++k;
                s->conf[k & (MAXCONF - 1)] = key;
            }
            s->nconf = (int)conf.size();
        }
        s->nnodes = 0;
        s->nodes_full = 0;
        s->steps = 0;
        s->done = 0;
        s->truncated = s->diverged = 0;
        s->nnew = 0;
        s->accesses = 0;
        s->nthreads = 0;
        s->errors[0] = 0;
        s->nerr = 0;
        s->outcome[0] = 0;
        if (write(x.cmd, "x", 1) != 1)
            abort();
    }
    void fail(Worker& x, const std::string& text)
    {
        if (!errs.empty())
            return;
        errs = lines(symbolise(text));
        std::string t = "policy " + std::to_string(policy) + ", deviations:";
        for (auto& d : x.item.devs)
            t += " " + std::to_string(d.step) + ">" + std::to_string(d.value);
        t += "\nsteps (thread operation object):\n";
        const int n = std::min<int>(int(x.s->steps), sizeof x.s->ev / sizeof *x.s->ev);
        int prev = -1;
        std::map<uint64_t, int> names;
        for (int i = 0; i < n; ++i) {
            auto& e = x.s->ev[i];
            if (!names.count(e.obj)) {
                const int k = (int)names.size();
                names[e.obj] = k;
            }
            char b[80];
            snprintf(b, sizeof b, "%s%d:%s#%d", e.tid == prev ? " " : "\n", e.tid, kind_name(e.kind), names[e.obj]);
            prev = e.tid;
            t += b;
        }
        trace = t;
    }
    void finished(int i, int st)
    {
        Worker& x = w[i];
        Shared* s = x.s;
        x.busy = false;
        ++n_exec;
        n_steps += s->steps;
        n_acc += s->accesses;
        longest = std::max<int>(longest, int(s->steps));
        R.tick();
        if (s->diverged && !s->nerr) {
            ++n_div;
            return;
        }
        if (s->nerr) {
            fail(x, s->errors);
            return;
        }
        if (s->truncated) {
            fail(x, "the execution does not end: more than " + std::to_string(o.max_steps) + " steps");
            return;
        }
        if (!s->done) {
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
                fail(x, "hang: the execution did not end within " + std::to_string(o.alarm_s) + " s");
            else if (WIFSIGNALED(st))
                fail(x, std::string("crash: signal ") + strsignal(WTERMSIG(st)));
            else
                fail(x, "the process ended unexpectedly with status " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1));
            return;
        }
        if (o.one_outcome && !outcomes.empty() && !outcomes.count(s->outcome)) {
            fail(x, "the outcome depends on the schedule: " + std::string(s->outcome).substr(0, 1000) + "\ninstead of: " + outcomes.begin()->substr(0, 1000));
            return;
        }
        if (outcomes.size() < 200000)
            outcomes.insert(s->outcome);
        if (s->nodes_full)
            ++n_full;
        for (int k = 0; k < s->nnew; ++k)
            if (conf.size() < MAXCONF / 2 && conf.insert(s->newconf[k]).second)
                grown = true;
        const int left = x.item.left;
        const int last = x.item.devs.empty() ? -1 : x.item.devs.back().step;
        // newest first, so that the stack stays short
        const int nn = s->nnodes;
        size_t at = stack.size();
        for (int k = 0; k < nn; ++k) {
            const Node& n = s->node[k];
            if (n.step <= last)
                continue;
            uint64_t h = hash_mix(hash_mix(n.hb, n.arriver * 256 + n.chosen), n.kind == K_CHOICE);
            auto [it, fresh] = visited.emplace(h, left);
            if (!fresh) {
                if (it->second >= left)
                    break;
                it->second = left;
            }
            if (left == 0) {
                cut = true;
                continue;
            }
            for (int v = 0; v < 16; ++v)
                if (n.alt >> v & 1) {
                    if (x.item.devs.size() >= MAXDEV) {
                        ++n_full;
                        continue;
                    }
                    Item c;
                    c.devs = x.item.devs;
                    c.devs.push_back({ n.step, v });
                    c.left = left - 1;
                    stack.push_back(std::move(c));
                }
        }
        (void)at;
    }
    static uint64_t conf_slot(uint64_t key)
    {
        // as in mcrt.cpp
        uint64_t a = key, b = 2;
        uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15F39CC060ull);
        x ^= x >> 32;
        x *= 0xD6E8FEB86659FD93ull;
        x ^= x >> 29;
        x *= 0xC2B2AE3D27D4EB4Full;
        return x ^ (x >> 32);
    }
    // All schedules with at most `bound` deviations. Returns true when new conflicting objects turned up.
    bool pass(int bound)
    {
        visited.clear();
        stack.clear();
        cut = false;
        grown = false;
        stack.push_back({ {}, bound });
        int busy = 0;
        nconf = (int)conf.size();
        while (true) {
            // more conflicting objects: what has been explored was explored with too few switch points
            if (grown && busy == 0)
                return true;
            if (!errs.empty() && busy == 0)
                return false;
            if (now() - t0 > limit)
                out_of_time = true;
            if (out_of_time && busy == 0)
                return false;
            if (!grown && errs.empty() && !out_of_time)
                for (size_t i = 0; i < w.size() && !stack.empty(); ++i)
                    if (!w[i].busy) {
                        Item it = std::move(stack.back());
                        stack.pop_back();
                        submit((int)i, it);
                        ++busy;
                    }
            if (busy == 0)
                return false;
            Done d;
            if (read(res_pipe[0], &d, sizeof d) != sizeof d)
                abort();
            --busy;
            finished(d.worker, d.status);
        }
    }
};
} // namespace

void
explore(Runner& R, const json& desc, const Opts& o, const Body& body, unsigned policies)
{
    for (int p = 0; p < 3; ++p) {
        if (!(policies >> p & 1))
            continue;
        json d = desc;
        d["policy"] = p;
        R.run(d, [&](Report& r) {
            if (getenv("MC_VERBOSE"))
                fprintf(stderr, "%s\n", d.dump().c_str());
            Explorer e(R, o, body, p);
            e.go(r);
        });
    }
}
} // namespace mcx
