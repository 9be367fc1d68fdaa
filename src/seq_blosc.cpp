// C29: every call of the compressor fails, in turn
#include "fake_s3.hh"
#include "hist.hh"
#include "sysfault.hh"

#include <blosc.h>
#include <dlfcn.h>

#include <atomic>
#include <filesystem>
#include <memory>

extern unsigned g_hw_threads;

namespace {
enum { SP = ZarrDimensionType_Space, CH = ZarrDimensionType_Channel };
struct Plan
{
    bool armed = false;
    int64_t at = -1, at2 = -1;
    bool persistent = false;
    int result = -1;
};
Plan plan;
std::atomic<int64_t> calls{ 0 };
std::atomic<int> first_phase{ 0 };

// what a failing compressor leaves in the destination is garbage
bool
fails(void* dest, size_t destsize)
{
    if (!plan.armed)
        return false;
    const int64_t i = calls++;
    if (i != plan.at && i != plan.at2 && !(plan.persistent && plan.at >= 0 && i > plan.at))
        return false;
    int none = 0;
    first_phase.compare_exchange_strong(none, sysfault::phase);
    memset(dest, 0x5a, std::min<size_t>(destsize, 40));
    return true;
}
} // namespace

extern "C" int
blosc_compress_ctx(int clevel, int doshuffle, size_t typesize, size_t nbytes, const void* src, void* dest, size_t destsize, const char* compressor, size_t blocksize, int nthreads)
{
    static const auto real = (decltype(&blosc_compress_ctx))dlsym(RTLD_NEXT, "blosc_compress_ctx");
    if (fails(dest, destsize))
        return plan.result;
    return real(clevel, doshuffle, typesize, nbytes, src, dest, destsize, compressor, blocksize, nthreads);
}
extern "C" int
blosc_compress(int clevel, int doshuffle, size_t typesize, size_t nbytes, const void* src, void* dest, size_t destsize)
{
    static const auto real = (decltype(&blosc_compress))dlsym(RTLD_NEXT, "blosc_compress");
    if (fails(dest, destsize))
        return plan.result;
    return real(clevel, doshuffle, typesize, nbytes, src, dest, destsize);
}

namespace {
std::vector<Hist>
histories(bool s3, bool T)
{
    std::vector<Hist> v;
    auto add = [&](const std::string& name, Cfg c, std::vector<size_t> frames, size_t extra = 0) {
        Hist h;
        h.name = name + (s3 ? " to S3" : "");
        h.c = c;
        h.c.s3 = s3;
        h.c.compressed = true;
        for (size_t f : frames)
            h.pieces.push_back(f * frame_bytes(c));
        if (extra)
            h.pieces.push_back(extra);
        v.push_back(h);
    };
    for (int ver : { 2, 3 }) {
        const std::string V = "v" + std::to_string(ver);
        Cfg c = make3(ver, 1, ver == 3 ? 2 : 1, dim("y", SP, 2, 1), dim("x", SP, 4, 2, ver == 3 ? 2 : 1));
        add(V + " 1 frame per append", c, { 1, 1, 1, 1, 1 });
        c.codec = 2;
        add(V + " several frames per append", c, { 3, 2 }, 3);
        c = make3(ver, 2, 1, dim("y", SP, 2, 1, ver == 3 ? 2 : 1), dim("x", SP, 3, 3));
        c.dtype = ZarrDataType_uint16;
        add(V + " partial layer", c, { 1, 1, 1 });
        add(V + " two layers at once", c, { 1, 3, 1 });
        c = make3(ver, 1, 1, dim("y", SP, 2, 1), dim("x", SP, 2, 1));
        c.multiscale = true;
        add(V + " multiscale", c, { 1, 1, 1, 1, 1 });
        c = make3(ver, 1, 1, dim("y", SP, 1, 1), dim("x", SP, 2, 2));
        c.dims.insert(c.dims.begin() + 1, dim("c", CH, 3, 2));
        add(V + " 4D", c, { 1, 1, 1, 1, 1, 1, 1 });
        c = make3(ver, 1, ver == 3 ? 2 : 1, dim("y", SP, 3, 3), dim("x", SP, 900, 450));
        c.level = 9;
        add(V + " larger chunks", c, { 1, 1, 1 });
        if (T) {
            c = make3(ver, 2, ver == 3 ? 2 : 1, dim("y", SP, 4, 2, ver == 3 ? 2 : 1), dim("x", SP, 4, 2));
            c.multiscale = true;
            add(V + " multiscale, deeper", c, { 1, 2, 3, 4, 1 });
            c = make3(ver, 1, 1, dim("y", SP, 2, 1), dim("x", SP, 3, 1));
            add(V + " many layers", c, { 1, 1, 1, 1, 1, 1, 1, 1 });
        }
    }
    return v;
}
void
server()
{
    fake_s3::reset();
    fake_s3::serve_only();
    fake_s3::decide = nullptr;
    fake_s3::server().buckets[S3_BUCKET];
}
int64_t
dry_run(const Hist& h, const std::string& dir)
{
    quiet_logs(true);
    server();
    std::filesystem::remove_all(dir);
    std::filesystem::create_directories(dir);
    plan = Plan{ true };
    calls = 0;
    run_hist(h, h.c.s3 ? "s" : dir + "/s", hist_data(h));
    plan.armed = false;
    std::filesystem::remove_all(dir);
    server();
    return calls;
}
struct Fault
{
    const char* name;
    int result;
    bool persistent = false, silent = false, twice = false;
    unsigned workers = 1;
};
const Fault faults[] = { { "-1 once", -1 },
                         { "-1 from here", -1, true },
                         { "-5 once", -5 },
                         { "-2147483647 once", -2147483647 },
                         { "-1 once, logging off", -1, false, true },
                         { "-1 from here, logging off", -1, true, true },
                         { "-1 once and once more", -1, false, false, true },
                         { "-1 from here, 3 workers", -1, true, false, false, 3 } };
} // namespace

CHECK_FN(C29)
{
    sysfault::install();
    for (bool s3 : { false, true })
        for (auto& h : histories(s3, R.thorough)) {
            const int64_t n = dry_run(h, R.top + "/dry");
            auto want = std::make_shared<Store>();
            for (int64_t i = 0; i < n; ++i)
                for (auto& f : faults)
                    for (int64_t j = i + 1; j <= (f.twice ? n - 1 : i + 1); ++j) {
                        json d = hist_json(h);
                        d["call"] = i;
                        d["fault"] = f.name;
                        if (f.twice)
                            d["second"] = j;
                        R.run(d, [&](Report& r) {
                            if (want->empty())
                                *want = reference_store(h, R.top + "/ref", h.frames());
                            const Bytes data = hist_data(h);
                            const std::string path = h.c.s3 ? "s" : R.scratch + "/s";
                            auto snap = [&] { return h.c.s3 ? snapshot_s3(S3_BUCKET, path) : snapshot_dir(path); };
                            g_hw_threads = f.workers;
                            quiet_logs(f.silent);
                            plan = Plan{ true, i, f.twice ? j : -1, f.persistent, f.result };
                            calls = 0;
                            first_phase = 0;
                            Store last;
                            bool failed = false;
                            uint64_t ok = 0, at_last = 0;
                            sysfault::arm("/nonexistent", {});
                            Outcome o = run_hist(h, path, data, [&](size_t k, int rc) {
                                if (rc == 0 && !failed && k < h.pieces.size())
                                    ok += h.pieces[k];
                                if (rc && !failed) {
                                    at_last = ok / frame_bytes(h.c);
                                    last = completed_part(snap(), h.c, at_last);
                                }
                                failed |= rc != 0;
                            });
                            sysfault::disarm();
                            plan.armed = false;
                            quiet_logs(true);
                            g_hw_threads = 1;
                            const int ph = first_phase;
                            if (ph == 0)
                                r.errs.push_back("harness: call " + std::to_string(i) + " was not made");
                            if (!o.created)
                                r.errs.push_back("stream creation failed");
                            const bool in_append = ph >= PhAppend;
                            const size_t at = in_append ? ph - PhAppend : h.pieces.size();
                            // with logging off, only what the appends could still say counts
                            const bool logged = f.silent ? at + 1 >= h.pieces.size() : o.destroy_logged;
                            const Store s = snap();
                            if (!failed && !logged) { // then nothing can be missing
                                auto df = diff_stores(*want, s);
                                if (!df.empty())
                                    r.errs.push_back("nothing was reported, but " + df);
                                if (f.persistent)
                                    r.errs.push_back("a compressor that keeps failing was not reported");
                            }
                            if (in_append && at + 1 < h.pieces.size() && f.persistent && !failed)
                                r.errs.push_back("a failure during append " + std::to_string(at) + " was not reported by it or a later append");
                            bool bad = false;
                            for (size_t k = 0; k < o.status.size(); ++k) {
                                if (o.status[k] == 1000)
                                    r.errs.push_back("append " + std::to_string(k) + " succeeded without taking all bytes");
                                if (bad && o.status[k] == 0)
                                    r.errs.push_back("append " + std::to_string(k) + " succeeded after an earlier one had failed");
                                bad |= o.status[k] != 0;
                            }
                            check_completed(s, h.c, data, frames_ok(h, o.status), r.errs);
                            if (failed) {
                                auto df = diff_stores(last, completed_part(s, h.c, at_last));
                                if (!df.empty())
                                    r.errs.push_back("a completed chunk changed after the stream had failed: " + df);
                            }
                            for (auto& v : fake_s3::server().violations)
                                r.errs.push_back("S3 protocol: " + v);
                            if (fake_s3::server().clients_alive)
                                r.errs.push_back("S3 connections were lost");
                            std::string t;
                            for (int st : o.status)
                                t += st ? "e" : "o";
                            t += o.destroy_logged ? "L" : "-";
                            for (auto& e : r.errs)
                                e += " [call " + std::to_string(i) + ": " + f.name + ", observed " + t + "]";
                            r.model_states.push_back(hash_mix(hash_str(h.name), (i * 64 + (&f - faults)) * 1024 + j));
                            r.transitions = calls;
                            r.outcome = h.name + t;
                        });
                    }
        }
    R.bound("every call of the compressor in every listed history x {negative results once, from there on, every pair of calls; the same with logging off; 3 workers}, appends continued after the failure");
    R.bound("histories: V2 and V3, filesystem and S3, two-layer shards, partial layers and frames, several layers in one append, multiscale, 4D");
}
