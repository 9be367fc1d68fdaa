#include "runner.hh"
#include "fake_s3.hh"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <grp.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iostream>

namespace fs = std::filesystem;

std::vector<Check>&
checks()
{
    static std::vector<Check> c;
    return c;
}

uint64_t
hash_str(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h ^ (h >> 29);
}

// shared between a shard process and its worker child
struct Shm
{
    volatile uint64_t index;  // case being executed
    volatile uint64_t beat;   // number of executed cases
    volatile int in_case;
    volatile uint64_t ticks;  // progress within a case
    char desc[1 << 16];
};

static double
now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static long
resident_mb(pid_t pid)
{
    char b[64];
    snprintf(b, sizeof b, "/proc/%d/statm", (int)pid);
    FILE* f = fopen(b, "r");
    long v = 0, r = 0;
    if (f) {
        if (fscanf(f, "%ld %ld", &v, &r) != 2)
            r = 0;
        fclose(f);
    }
    return r * 4 / 1024;
}

bool
Runner::begin(const json& desc)
{
    const uint64_t i = index++;
    if (counting)
        return false;
    if (only != UINT64_MAX) {
        if (i != only)
            return false;
    } else if ((i * 0x9E3779B97F4A7C15ull >> 40) % nshards != shard || i < resume)
        return false;
    if (shm) {
        auto* s = (Shm*)shm;
        std::string d = desc.dump(-1, ' ', false, json::error_handler_t::replace);
        strncpy(s->desc, d.c_str(), sizeof(s->desc) - 1);
        s->index = i;
        s->in_case = 1;
    }
    std::error_code ec;
    fs::remove_all(scratch, ec);
    if (ec) { // left behind by a case that took away permissions
        if (system(("chmod -R u+rwx '" + scratch + "'").c_str()))
            ec.clear();
        fs::remove_all(scratch);
    }
    fs::create_directories(scratch);
    fake_s3::reset();
    fake_s3::serve_only();
    fake_s3::decide = nullptr;
    fake_s3::server().buckets[S3_BUCKET];
    return true;
}

void
Runner::end(const json& desc, const Report& r)
{
    ++executed;
    transitions += r.transitions;
    for (auto h : r.model_states)
        states.insert(h);
    outcomes.insert(hash_str(r.outcome));
    for (auto h : r.more_outcomes)
        outcomes.insert(h);
    n_exec += r.n_exec;
    n_states += r.n_states;
    for (auto& [k, v] : r.extra)
        extra[k] += v;
    for (auto& t : r.incomplete)
        incomplete.push_back(desc.dump(-1, ' ', false, json::error_handler_t::replace) + ": " + t);
    if (!r.note.empty() && case_notes.size() < 200)
        case_notes.push_back(desc.dump(-1, ' ', false, json::error_handler_t::replace) + ": " + r.note);
    if (samples.size() < 2 || (executed % 997 == 0 && samples.size() < 6))
        samples.push_back(desc);
    if (!r.errs.empty()) {
        json f;
        f["index"] = index - 1;
        f["case"] = desc;
        f["errors"] = r.errs;
        if (!r.trace.empty())
            f["trace"] = r.trace;
        failures.push_back(f);
    }
    if (shm) {
        auto* s = (Shm*)shm;
        s->in_case = 0;
        s->beat = s->beat + 1;
    }
}

void
Runner::tick()
{
    if (shm)
        ++((Shm*)shm)->ticks;
}

static void
dump(int fd, const Runner& R, const json& extra)
{
    json j = extra;
    j["executed"] = R.executed;
    j["cases_total"] = R.index;
    j["transitions"] = R.transitions;
    j["states"] = std::vector<uint64_t>(R.states.begin(), R.states.end());
    j["outcomes"] = std::vector<uint64_t>(R.outcomes.begin(), R.outcomes.end());
    j["samples"] = R.samples;
    j["bounds"] = R.bounds;
    j["failures"] = R.failures;
    j["n_exec"] = R.n_exec;
    j["n_states"] = R.n_states;
    j["extra"] = R.extra;
    j["incomplete"] = R.incomplete;
    j["case_notes"] = R.case_notes;
    const std::string text = j.dump(-1, ' ', false, json::error_handler_t::replace);
    size_t o = 0;
    while (o < text.size()) {
        ssize_t n = write(fd, text.data() + o, text.size() - o);
        if (n <= 0)
            _exit(3);
        o += n;
    }
}

// The code under test deletes and creates files: it gets an unprivileged user that owns nothing but
// the scratch directory.
static void
drop_privileges(const std::string& scratch)
{
    const unsigned id = 65534;
    fs::remove_all(scratch);
    fs::create_directories(scratch);
    if (getuid() == 0 && chown(scratch.c_str(), id, id) == 0) {
        if (setgroups(0, nullptr) || setgid(id) || setuid(id))
            fprintf(stderr, "note: running with privileges\n");
    }
    prctl(PR_SET_DUMPABLE, 1); // /proc/self stays readable
}

// seq ID --shard i/n --out FILE --scratch DIR [--thorough] [--only INDEX]
int
main(int argc, char** argv)
{
    if (argc < 2)
        return 3;
    std::string id = argv[1], out;
    Runner R;
    double hang = 60;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--shard")
            sscanf(argv[++i], "%u/%u", &R.shard, &R.nshards);
        else if (a == "--out")
            out = argv[++i];
        else if (a == "--scratch")
            R.scratch = argv[++i];
        else if (a == "--thorough")
            R.thorough = true;
        else if (a == "--only")
            R.only = strtoull(argv[++i], nullptr, 10);
        else if (a == "--hang")
            hang = atof(argv[++i]);
        else
            return 3;
    }
    void (*fn)(Runner&) = nullptr;
    for (auto& c : checks())
        if (id == c.id)
            fn = c.enumerate;
    if (!fn || out.empty() || R.scratch.empty()) {
        fprintf(stderr, "usage\n");
        return 3;
    }
    auto* shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    R.shm = shm;
    json all_failures = json::array(), parts = json::array();
    uint64_t resume = 0;
    const std::string part = out + ".part";
    int npart = 0;
    // Each round runs a worker child; when it dies in a case, that case is a failure and the
    // enumeration resumes after it (a few times, then gives up: the violation is clear).
    for (int round = 0; round < 4; ++round) {
        shm->in_case = 0;
        shm->desc[0] = 0;
        fflush(stdout);
        unlink(part.c_str());
        pid_t pid = fork();
        if (pid == 0) {
            R.resume = resume;
            setpgid(0, 0);
            const int fd = open(part.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            R.top = R.scratch;
            drop_privileges(R.top);
            R.scratch = R.top + "/c";
            fn(R);
            dump(fd, R, json::object());
            fflush(stdout);
            _exit(0);
        }
        int st = 0;
        uint64_t beat = shm->beat + shm->ticks;
        double t0 = now();
        bool hung = false, fat = false;
        while (true) {
            pid_t w = waitpid(pid, &st, WNOHANG);
            if (w == pid)
                break;
            usleep(5000);
            if (resident_mb(pid) > 5000) { // runaway allocation
                fat = true;
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                break;
            }
            if (shm->beat + shm->ticks != beat || !shm->in_case) {
                beat = shm->beat + shm->ticks;
                t0 = now();
            } else if (now() - t0 > hang) {
                hung = true;
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                break;
            }
        }
        if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            std::ifstream f(part);
            json p;
            f >> p;
            parts.push_back(p);
            break;
        }
        if (!shm->in_case) {
            fprintf(stderr, "worker died outside a case (status %d)\n", st);
            return 3;
        }
        json f;
        f["index"] = (uint64_t)shm->index;
        f["case"] = json::parse(shm->desc, nullptr, false);
        if (fat)
            f["errors"] = { "memory: more than 5000 MB in use" };
        else if (hung)
            f["errors"] = { "hang: no progress for " + std::to_string((int)hang) + " s" };
        else if (WIFSIGNALED(st))
            f["errors"] = { std::string("crash: signal ") + strsignal(WTERMSIG(st)) };
        else
            f["errors"] = { "crash: process exited with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report on stderr)" };
        all_failures.push_back(f);
        resume = shm->index + 1;
        npart += hung ? 2 : 1; // hangs take long
        if (npart >= 4)
            break;
        if (R.only != UINT64_MAX)
            break;
    }
    fs::remove_all(R.scratch);
    json j;
    j["parts"] = parts;
    j["crashes"] = all_failures;
    unlink(part.c_str());
    std::ofstream(out) << j.dump(-1, ' ', false, json::error_handler_t::replace);
    return 0;
}

void
quiet_logs(bool quiet)
{
    Zarr_set_log_level(quiet ? ZarrLogLevel_None : ZarrLogLevel_Error);
}
