// C30: every allocation of a data buffer and every start of a thread fails, in turn
#include "fake_s3.hh"
#include "hist.hh"
#include "sysfault.hh"

#include <dlfcn.h>
#include <pthread.h>

#include <atomic>
#include <filesystem>
#include <memory>
#include <new>

extern unsigned g_hw_threads;

namespace {
enum { SP = ZarrDimensionType_Space, CH = ZarrDimensionType_Channel };
// blocks at least this large are counted; anything beyond `limit` is refused, as an address space would
struct Plan
{
    size_t floor = SIZE_MAX;
    int64_t at = -1, at2 = -1;
    bool persistent = false;
};
Plan plan;
constexpr size_t limit = 1ull << 30;
constexpr size_t FLOOR = 1024;
std::atomic<bool> gate{ false }; // inside a call of the library
std::atomic<int64_t> calls{ 0 };
std::atomic<int> first_phase{ 0 };

bool
refused(size_t n)
{
    if (n >= limit) {
        if (gate) {
            int none = 0;
            first_phase.compare_exchange_strong(none, sysfault::phase);
        }
        return true;
    }
    if (!gate || n < plan.floor || fake_s3::busy)
        return false;
    const int64_t i = calls++;
    if (i != plan.at && i != plan.at2 && !(plan.persistent && plan.at >= 0 && i > plan.at))
        return false;
    int none = 0;
    first_phase.compare_exchange_strong(none, sysfault::phase);
    return true;
}
template<typename F>
F
next(F, const char* symbol)
{
    return (F)dlsym(RTLD_NEXT, symbol);
}
} // namespace

// the allocation functions of AddressSanitizer, unless the allocation is to fail
void*
operator new(size_t n)
{
    static const auto real = next((void* (*)(size_t)) nullptr, "_Znwm");
    if (refused(n))
        throw std::bad_alloc();
    return real(n);
}
void*
operator new[](size_t n)
{
    static const auto real = next((void* (*)(size_t)) nullptr, "_Znam");
    if (refused(n))
        throw std::bad_alloc();
    return real(n);
}
void*
operator new(size_t n, const std::nothrow_t& t) noexcept
{
    static const auto real = next((void* (*)(size_t, const std::nothrow_t&)) nullptr, "_ZnwmRKSt9nothrow_t");
    return refused(n) ? nullptr : real(n, t);
}
void*
operator new[](size_t n, const std::nothrow_t& t) noexcept
{
    static const auto real = next((void* (*)(size_t, const std::nothrow_t&)) nullptr, "_ZnamRKSt9nothrow_t");
    return refused(n) ? nullptr : real(n, t);
}
void*
operator new(size_t n, std::align_val_t a)
{
    static const auto real = next((void* (*)(size_t, std::align_val_t)) nullptr, "_ZnwmSt11align_val_t");
    if (refused(n))
        throw std::bad_alloc();
    return real(n, a);
}

namespace {
// thread number `thread_at` is not started, nor any later one if `thread_from`
int thread_at = -1, threads = 0;
bool thread_from = false;
} // namespace
extern "C" int
pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) noexcept
{
    static const auto real = (decltype(&pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    if (gate && thread_at >= 0) {
        const int i = threads++;
        if (i == thread_at || thread_from && i > thread_at)
            return EAGAIN;
    }
    return real(t, a, f, arg);
}

namespace {
Outcome
life(const Hist& h, const std::string& path, const Bytes& data, const std::function<void(size_t, int)>& on_append = {})
{
    Outcome o;
    Settings st(h.c, path);
    sysfault::phase = PhCreate;
    gate = true;
    ZarrStream* s = ZarrStream_create(&st.s);
    gate = false;
    if (!s)
        return o;
    o.created = true;
    o.status.reserve(h.pieces.size() + 2);
    auto append = [&](size_t off, size_t n) {
        std::vector<char> piece(data.begin() + off, data.begin() + off + n);
        static char dummy;
        size_t out = (size_t)-1;
        sysfault::phase = PhAppend + (int)o.status.size();
        gate = true;
        int rc = ZarrStream_append(s, n ? piece.data() : &dummy, n, &out);
        gate = false;
        if (rc == 0 && out != n)
            rc = 1000; // success that is not
        if (on_append)
            on_append(o.status.size(), rc);
        o.status.push_back(rc);
        return rc;
    };
    size_t off = 0;
    bool failed = false;
    for (size_t n : h.pieces) {
        failed |= append(off, n) != 0;
        off += n;
    }
    if (failed) {
        append(off, 0);
        append(off, frame_bytes(h.c));
    }
    sysfault::phase = PhDestroy;
    const uint64_t before = sysfault::stderr_bytes();
    gate = true;
    ZarrStream_destroy(s);
    gate = false;
    o.destroy_logged = sysfault::stderr_bytes() != before;
    return o;
}
std::vector<Hist>
histories(bool s3, bool T)
{
    std::vector<Hist> v;
    auto add = [&](const std::string& name, Cfg c, std::vector<size_t> frames, size_t extra = 0) {
        Hist h;
        h.name = name + (s3 ? " to S3" : "");
        h.c = c;
        h.c.s3 = s3;
        for (size_t f : frames)
            h.pieces.push_back(f * frame_bytes(c));
        if (extra)
            h.pieces.push_back(extra);
        v.push_back(h);
    };
    // every chunk and frame holds at least 1 KiB
    for (int ver : { 2, 3 })
        for (bool comp : { false, true }) {
            const std::string V = "v" + std::to_string(ver) + (comp ? " compressed" : "");
            auto a = [&](const std::string& name, Cfg c, std::vector<size_t> frames, size_t extra = 0) {
                c.compressed = comp;
                add(V + name, c, frames, extra);
            };
            Cfg c = make3(ver, 1, ver == 3 ? 2 : 1, dim("y", SP, 64, 32), dim("x", SP, 64, 32, ver == 3 ? 2 : 1));
            a(" 1 frame per append", c, { 1, 1, 1 });
            c = make3(ver, 2, 1, dim("y", SP, 24, 24), dim("x", SP, 48, 24));
            c.dtype = ZarrDataType_uint16;
            a(" several layers at once", c, { 1, 4 }, 100);
            a(" partial layer", c, { 1, 1, 1 });
            c = make3(ver, 1, 1, dim("y", SP, 128, 32), dim("x", SP, 64, 32));
            c.multiscale = true;
            a(" multiscale", c, { 1, 1, 1 });
            c = make3(ver, 1, 1, dim("y", SP, 32, 32), dim("x", SP, 35, 32));
            c.dims.insert(c.dims.begin() + 1, dim("c", CH, 3, 2));
            a(" 4D", c, { 1, 2, 1, 1, 2 });
            if (ver == 3) { // shard indexes of 1 KiB
                c = make3(3, 1, 70, dim("y", SP, 32, 32), dim("x", SP, 32, 32));
                a(" long shards", c, { 1, 2 });
            }
            if (T) {
                c = make3(ver, 1, 1, dim("y", SP, 128, 32), dim("x", SP, 64, 32));
                c.multiscale = true;
                c.dtype = ZarrDataType_float32;
                a(" multiscale, longer", c, { 1, 1, 2, 1, 3 });
                c = make3(ver, 1, ver == 3 ? 3 : 1, dim("y", SP, 96, 32, ver == 3 ? 3 : 1), dim("x", SP, 64, 32));
                a(" many layers", c, { 1, 1, 1, 1, 1, 1, 1 });
            }
        }
    return v;
}
void
server()
{
    fake_s3::reset();
    fake_s3::serve_only();
    fake_s3::decide = nullptr;
    fake_s3::server().buckets[S3_BUCKET];
}
int64_t
dry_run(const Hist& h, const std::string& dir)
{
    quiet_logs(true);
    server();
    std::filesystem::remove_all(dir);
    std::filesystem::create_directories(dir);
    plan = Plan{ FLOOR };
    calls = 0;
    life(h, h.c.s3 ? "s" : dir + "/s", hist_data(h));
    plan = Plan{};
    std::filesystem::remove_all(dir);
    server();
    return calls;
}
struct Fault
{
    const char* name;
    bool persistent = false, silent = false, twice = false;
    unsigned workers = 1;
};
const Fault faults[] = { { "once" },
                         { "from here", true },
                         { "once, logging off", false, true },
                         { "from here, logging off", true, true },
                         { "once and once more", false, false, true },
                         { "from here, 3 workers", true, false, false, 3 } };
} // namespace

CHECK_FN(C30)
{
    sysfault::install();
    for (bool s3 : { false, true })
        for (auto& h : histories(s3, R.thorough)) {
            const int64_t n = dry_run(h, R.top + "/dry");
            auto want = std::make_shared<Store>();
            for (int64_t i = 0; i < n; ++i)
                for (auto& f : faults)
                    for (int64_t j = i + 1; j <= (!f.twice ? i + 1 : R.thorough ? n - 1 : std::min(n - 1, i + 3)); ++j) {
                        json d = hist_json(h);
                        d["allocation"] = i;
                        d["fault"] = f.name;
                        if (f.twice)
                            d["second"] = j;
                        R.run(d, [&](Report& r) {
                            if (want->empty())
                                *want = reference_store(h, R.top + "/ref", h.frames());
                            const Bytes data = hist_data(h);
                            const std::string path = h.c.s3 ? "s" : R.scratch + "/s";
                            auto snap = [&] { return h.c.s3 ? snapshot_s3(S3_BUCKET, path) : snapshot_dir(path); };
                            g_hw_threads = f.workers;
                            quiet_logs(f.silent);
                            calls = 0;
                            first_phase = 0;
                            Store last;
                            bool failed = false;
                            uint64_t ok = 0, at_last = 0;
                            sysfault::arm("/nonexistent", {});
                            plan = Plan{ FLOOR, i, f.twice ? j : -1, f.persistent };
                            Outcome o = life(h, path, data, [&](size_t k, int rc) {
                                if (rc == 0 && !failed && k < h.pieces.size())
                                    ok += h.pieces[k];
                                if (rc && !failed) {
                                    at_last = ok / frame_bytes(h.c);
                                    last = completed_part(snap(), h.c, at_last);
                                }
                                failed |= rc != 0;
                            });
                            sysfault::disarm();
                            plan = Plan{};
                            quiet_logs(true);
                            g_hw_threads = 1;
                            const int ph = first_phase;
                            r.extra["allocations not reached"] += ph == 0;
                            const bool in_append = ph >= PhAppend;
                            const size_t at = in_append ? ph - PhAppend : h.pieces.size();
                            const bool logged = f.silent ? at + 1 >= h.pieces.size() : o.destroy_logged;
                            const Store s = snap();
                            if (o.created && !failed && !logged) { // then nothing can be missing
                                auto df = diff_stores(*want, s);
                                if (!df.empty())
                                    r.errs.push_back("nothing was reported, but " + df);
                            }
                            bool bad = false;
                            for (size_t k = 0; k < o.status.size(); ++k) {
                                if (o.status[k] == 1000)
                                    r.errs.push_back("append " + std::to_string(k) + " succeeded without taking all bytes");
                                if (bad && o.status[k] == 0)
                                    r.errs.push_back("append " + std::to_string(k) + " succeeded after an earlier one had failed");
                                bad |= o.status[k] != 0;
                            }
                            check_completed(s, h.c, data, frames_ok(h, o.status), r.errs);
                            if (failed) {
                                auto df = diff_stores(last, completed_part(s, h.c, at_last));
                                if (!df.empty())
                                    r.errs.push_back("a completed chunk changed after the stream had failed: " + df);
                            }
                            for (auto& v : fake_s3::server().violations)
                                r.errs.push_back("S3 protocol: " + v);
                            if (fake_s3::server().clients_alive)
                                r.errs.push_back("S3 connections were lost");
                            std::string t = o.created ? "c" : "n";
                            for (int st : o.status)
                                t += st ? "e" : "o";
                            t += o.destroy_logged ? "L" : "-";
                            for (auto& e : r.errs)
                                e += " [allocation " + std::to_string(i) + ": " + f.name + ", observed " + t + "]";
                            r.model_states.push_back(hash_mix(hash_str(h.name), (i * 64 + (&f - faults)) * 1024 + j));
                            r.transitions = calls;
                            r.outcome = h.name + t;
                        });
                    }
        }
    // threads that cannot be started
    for (bool s3 : { false, true })
        for (auto& h : histories(s3, R.thorough))
            for (unsigned workers : { 1u, 2u, 3u, 8u })
                for (int i = 0; i < (int)workers; ++i)
                    for (bool from : { false, true }) {
                        json d = hist_json(h);
                        d["thread"] = i;
                        d["threads"] = workers;
                        d["from"] = from;
                        R.run(d, [&](Report& r) {
                            const Bytes data = hist_data(h);
                            const std::string path = s3 ? "s" : R.scratch + "/s";
                            server();
                            quiet_logs(false);
                            g_hw_threads = workers;
                            sysfault::arm("/nonexistent", {});
                            thread_at = i, threads = 0, thread_from = from;
                            Outcome o = life(h, path, data);
                            thread_at = -1;
                            sysfault::disarm();
                            quiet_logs(true);
                            g_hw_threads = 1;
                            bool failed = !o.created || o.destroy_logged;
                            for (int st : o.status)
                                failed |= st != 0;
                            if (!failed) { // then it works with the threads it got
                                auto df = diff_stores(reference_store(h, R.top + "/ref", h.frames()), s3 ? snapshot_s3(S3_BUCKET, path) : snapshot_dir(path));
                                if (!df.empty())
                                    r.errs.push_back("nothing was reported, but " + df);
                            }
                            check_completed(s3 ? snapshot_s3(S3_BUCKET, path) : snapshot_dir(path), h.c, data, frames_ok(h, o.status), r.errs);
                            if (fake_s3::server().clients_alive)
                                r.errs.push_back("S3 connections were lost");
                            for (auto& e : r.errs)
                                e += " [thread " + std::to_string(i) + " of " + std::to_string(workers) + " was not started]";
                            r.model_states.push_back(hash_mix(hash_str(h.name), 1000000 + workers * 100 + i * 2 + from));
                            r.transitions = o.status.size() + 2;
                            r.outcome = o.created ? "created" : "not created";
                        });
                    }
    // chunks that no memory holds
    const uint32_t big[] = { 1, 1u << 16, 1u << 31, UINT32_MAX };
    for (int ver : { 2, 3 })
        for (bool s3 : { false, true })
            for (bool ms : { false, true })
                for (auto dt : { ZarrDataType_uint8, ZarrDataType_uint16, ZarrDataType_float64 })
                    for (uint32_t t : big)
                        for (uint32_t y : big)
                            for (uint32_t x : big) {
                                Hist h;
                                h.c = make3(ver, t, 1, dim("y", SP, 2, y), dim("x", SP, 3, x));
                                h.c.dtype = dt;
                                h.c.multiscale = ms;
                                h.c.s3 = s3;
                                const unsigned __int128 bytes = (unsigned __int128)t * y * x * (frame_bytes(h.c) / 6);
                                if (bytes < limit || bytes >> 64)
                                    continue;
                                h.name = "huge chunks";
                                h.pieces = { frame_bytes(h.c), 2 * frame_bytes(h.c) };
                                R.run(hist_json(h), [&](Report& r) {
                                    server();
                                    quiet_logs(false);
                                    first_phase = 0;
                                    sysfault::arm("/nonexistent", {});
                                    Outcome o = life(h, s3 ? "s" : R.scratch + "/s", hist_data(h));
                                    sysfault::disarm();
                                    quiet_logs(true);
                                    bool failed = !o.created || o.destroy_logged;
                                    for (int st : o.status)
                                        failed |= st != 0;
                                    if (!failed)
                                        r.errs.push_back("frames were accepted into chunks of " + std::to_string((uint64_t)bytes) + " bytes, which are not there");
                                    for (size_t k = 1; k < o.status.size(); ++k)
                                        if (o.status[k - 1] && !o.status[k])
                                            r.errs.push_back("append " + std::to_string(k) + " succeeded after an earlier one had failed");
                                    if (fake_s3::server().clients_alive)
                                        r.errs.push_back("S3 connections were lost");
                                    r.model_states.push_back(hash_str(hist_json(h).dump()));
                                    r.transitions = o.status.size() + 2;
                                    r.outcome = o.created ? "huge, at append" : "huge, at creation";
                                });
                            }
    R.bound("every allocation of 1 KiB or more in every listed history x {once, from there on, once and once more (thorough: every pair); the same with logging off; 3 workers}, appends continued after the failure");
    R.bound("histories: V2 and V3, filesystem and S3, compressed and not, two-layer and 70-layer shards, partial layers and frames, several layers in one append, multiscale, 4D");
    R.bound("every thread of a stream with 1, 2, 3 and 8 workers cannot be started (once, from there on)");
    R.bound("chunks of 1 GiB to 16 EiB: chunk sizes from {1, 2^16, 2^31, 2^32-1}^3, 3 types, multiscale and not, filesystem and S3");
}
