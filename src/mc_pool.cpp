// C09: the thread pool, all schedules of small programs.
#include "mc/explore.hh"
#include "spec.hh"
#include "thread.pool.hh"

#include <thread>

extern unsigned g_hw_threads;
namespace {
struct Quiet // the harness's own records
{
    Quiet() { mcrt_ignore(1); }
    ~Quiet() { mcrt_ignore(-1); }
};
struct Prog
{
    unsigned threads; // asked for
    unsigned hw;
    int main_jobs;            // pushed by the main thread
    std::vector<int> pushers; // jobs pushed by each further thread
    unsigned failing;         // mask over job numbers
    unsigned nested;          // jobs that push one more job
    int end;                  // 0 await_stop, 1 destructor only, 2 await_stop while pushers push, 3 await_stop twice, 4 concurrent await_stop by two threads
    bool empty_msg = false;
};
constexpr int MAXJ = 16;
struct Rec
{
    int accepted[MAXJ], started[MAXJ], done[MAXJ], at_stop[MAXJ];
    int running, max_running;
    int reports[MAXJ], bad_reports;
};
volatile char g_counter_tag; // its address names the shared counter
Rec rec;

bool
job(zarr::ThreadPool* pool, const Prog* p, int j, std::string& err)
{
    {
        Quiet q;
        ++rec.started[j];
        if (++rec.running > rec.max_running)
            rec.max_running = rec.running;
    }
    mcrt::user_point((uint64_t)&g_counter_tag, true);
    if (p->nested >> j & 1) {
        const int k = j + 8;
        const bool ok = pool->push_job([pool, p, k](std::string& e) { return job(pool, p, k, e); });
        Quiet q;
        rec.accepted[k] = ok;
    }
    const bool fails = p->failing >> j & 1;
    if (fails)
        err = p->empty_msg ? std::string() : "job " + std::to_string(j) + " failed";
    Quiet q;
    --rec.running;
    ++rec.done[j];
    return !fails;
}
void
push(zarr::ThreadPool* pool, const Prog* p, int j)
{
    const bool ok = pool->push_job([pool, p, j](std::string& e) { return job(pool, p, j, e); });
    Quiet q;
    rec.accepted[j] = ok;
}
std::string
run(const Prog& p, Errs& errs)
{
    rec = Rec{};
    g_hw_threads = p.hw;
    int total = p.main_jobs;
    for (int n : p.pushers)
        total += n;
    int late = -1, late2 = -1;
    mcrt::begin();
    {
        zarr::ThreadPool pool(p.threads, [](const std::string& m) {
            Quiet q;
            int j = -1;
            if (m.empty())
                j = 0;
            else if (sscanf(m.c_str(), "job %d failed", &j) != 1 || j < 0 || j >= MAXJ)
                j = -1;
            if (j >= 0)
                ++rec.reports[j];
            else
                ++rec.bad_reports;
        });
        std::vector<std::thread> pushers;
        int next = p.main_jobs;
        for (int n : p.pushers) {
            pushers.emplace_back([&pool, &p, next, n] {
                for (int i = 0; i < n; ++i)
                    push(&pool, &p, next + i);
            });
            next += n;
        }
        for (int i = 0; i < p.main_jobs; ++i)
            push(&pool, &p, i);
        auto join = [&] {
            for (auto& t : pushers)
                t.join();
            pushers.clear();
        };
        if (p.end != 2)
            join();
        std::thread other;
        if (p.end == 4)
            other = std::thread([&] { join(); });
        if (p.end != 1) {
            pool.await_stop();
            {
                Quiet q;
                for (int j = 0; j < MAXJ; ++j)
                    rec.at_stop[j] = rec.done[j];
            }
            late = pool.push_job([](std::string&) {
                Quiet q;
                ++rec.bad_reports;
                return true;
            });
            if (p.end == 3)
                pool.await_stop();
        }
        if (other.joinable())
            other.join();
        join();
    }
    mcrt::end();

    const unsigned limit = std::min(std::max(p.threads, 1u), p.hw);
    std::string out;
    for (int j = 0; j < MAXJ; ++j) {
        const bool nested = j >= 8;
        const std::string name = "job " + std::to_string(j);
        if (rec.started[j] != rec.done[j])
            errs.push_back(name + " was still running when the pool was gone");
        if (rec.started[j] > 1)
            errs.push_back(name + " ran " + std::to_string(rec.started[j]) + " times");
        if (!rec.accepted[j] && rec.started[j])
            errs.push_back(name + " ran although the pool refused it");
        if (p.end != 1 && rec.accepted[j] && !rec.at_stop[j])
            errs.push_back(name + " was accepted but had not completed when await_stop returned");
        if (!nested && j < total && !rec.accepted[j] && p.end != 2)
            errs.push_back(name + " was refused although no shutdown had been requested");
        const int want = rec.done[j] && (p.failing >> j & 1) ? 1 : 0;
        if (!p.empty_msg && rec.reports[j] != want)
            errs.push_back(name + ": error callback called " + std::to_string(rec.reports[j]) + " times, expected " + std::to_string(want));
        out += rec.accepted[j] ? rec.done[j] ? 'd' : 'a' : '-';
    }
    if (p.empty_msg) {
        int want = 0;
        for (int j = 0; j < MAXJ; ++j)
            want += rec.done[j] && (p.failing >> j & 1);
        if (rec.reports[0] != want)
            errs.push_back("error callback called " + std::to_string(rec.reports[0]) + " times for " + std::to_string(want) + " failing jobs");
    }
    if (rec.bad_reports)
        errs.push_back("unexpected callback, or a job pushed after shutdown ran");
    if (late == 1)
        errs.push_back("a job was accepted after await_stop had returned");
    if ((unsigned)rec.max_running > limit)
        errs.push_back(std::to_string(rec.max_running) + " jobs at once on " + std::to_string(limit) + " threads");
    (void)late2;
    return out + std::to_string(rec.max_running);
}
} // namespace

CHECK_FN(C09)
{
    std::vector<Prog> progs;
    for (int end : { 0, 1, 3 }) {
        progs.push_back({ 1, 1, 0, {}, 0, 0, end });
        progs.push_back({ 1, 1, 2, {}, 1, 0, end });
        progs.push_back({ 2, 2, 0, {}, 0, 0, end });
        progs.push_back({ 2, 2, 1, {}, 1, 0, end });
        progs.push_back({ 2, 2, 2, {}, 3, 0, end });
        progs.push_back({ 2, 2, 3, {}, 2, 0, end });
        progs.push_back({ 2, 2, 1, { 1 }, 2, 0, end });
        progs.push_back({ 1, 1, 1, { 1 }, 0, 1, end });
        progs.push_back({ 2, 2, 2, {}, 0, 2, end });
    }
    for (int end : { 2, 4 }) {
        progs.push_back({ 1, 1, 0, { 1 }, 0, 0, end });
        progs.push_back({ 1, 1, 1, { 2 }, 2, 0, end });
        progs.push_back({ 2, 2, 0, { 1 }, 1, 0, end });
        progs.push_back({ 2, 2, 1, { 1 }, 0, 1, end });
        progs.push_back({ 2, 2, 0, { 1, 1 }, 3, 0, end });
    }
    progs.push_back({ 0, 2, 2, {}, 0, 0, 0 });
    progs.push_back({ 5, 2, 3, {}, 0, 0, 0 });
    progs.push_back({ 3, 3, 2, {}, 1, 0, 0 });
    progs.push_back({ 2, 2, 2, {}, 3, 0, 0, true });
    if (R.thorough) {
        for (int end : { 0, 1 }) {
            progs.push_back({ 2, 2, 4, {}, 5, 0, end });
            progs.push_back({ 3, 3, 3, {}, 1, 0, end });
            progs.push_back({ 2, 2, 2, { 2 }, 1, 0, end });
            progs.push_back({ 3, 3, 1, { 1, 1 }, 4, 0, end });
            progs.push_back({ 4, 4, 3, {}, 0, 2, end });
        }
        progs.push_back({ 2, 2, 1, { 2, 1 }, 1, 0, 2 });
        progs.push_back({ 3, 3, 0, { 2, 1 }, 1, 2, 2 });
    }
    R.bound("thread pools with 1-3 threads (thorough: 4), up to 4 jobs pushed by up to 3 threads, failing jobs, jobs that push jobs; "
            "ended by await_stop (once, twice, while others push) or the destructor");
    R.bound("every schedule with at most 3 deviations from each of three default schedules (counting which waiter a notify wakes, and "
            "spurious wake-ups, as deviations); deeper, mostly without bound, while time permits");
    for (auto& p : progs)
        for (bool spurious : { false, true }) {
            if (spurious && !R.thorough && (p.main_jobs > 2 || !p.pushers.empty()))
                continue;
            json d = { { "threads", p.threads }, { "hw", p.hw },         { "jobs", p.main_jobs }, { "pushers", p.pushers }, { "failing", p.failing },
                       { "nested", p.nested },   { "end", p.end },       { "spurious", spurious } };
            mcx::Opts o;
            o.bound = R.thorough ? 4 : 3;
            o.secs = R.thorough ? 20 : 0.4;
            if (spurious)
                o.max_bound = o.bound;
            o.spurious = spurious;
            mcx::explore(R, d, o, [p](Errs& e, const std::string&) { return run(p, e); }, R.thorough ? 7 : 1);
        }
}
