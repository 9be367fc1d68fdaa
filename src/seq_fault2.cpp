// C18f, C19f, C24f: the file-level components under every failure of every file-system call.
#include "runner.hh"
#include "sysfault.hh"

#include "file.sink.hh"
#include "sink.creator.hh"
#include "vectorized.file.writer.hh"
#include "zarr.common.hh"
#include "zarr.dimension.hh"

#include <errno.h>

#include <filesystem>
#include <fstream>
#include <sstream>

namespace fs = std::filesystem;
namespace {
enum { SP = ZarrDimensionType_Space, CH = ZarrDimensionType_Channel, TI = ZarrDimensionType_Time };
struct Fault
{
    sysfault::Act act;
    int err;
    bool persistent;
    const char* name;
};
const Fault faults[] = {
    { sysfault::Act::Fail, ENOSPC, false, "ENOSPC once" }, { sysfault::Act::Fail, ENOSPC, true, "ENOSPC from here" }, { sysfault::Act::Fail, EIO, false, "EIO once" },
    { sysfault::Act::Fail, EINTR, false, "EINTR once" },   { sysfault::Act::Fail, EACCES, false, "EACCES once" },     { sysfault::Act::Fail, EACCES, true, "EACCES from here" },
    { sysfault::Act::Fail, EMFILE, true, "EMFILE from here" },
    { sysfault::Act::Short, 0, false, "half written" },    { sysfault::Act::ShortOne, 0, false, "one byte written" }, { sysfault::Act::Short, 0, true, "half written from here" },
};
bool
applies(const Fault& f, sysfault::Op op)
{
    const bool w = op == sysfault::Op::Write;
    if (f.act != sysfault::Act::Fail)
        return w;
    if (f.err == EMFILE)
        return op == sysfault::Op::Open;
    if (f.err == EACCES)
        return !w;
    if (f.err == EINTR)
        return w || op == sysfault::Op::Open;
    return true;
}
sysfault::Plan
plan_of(const Fault& f, size_t at)
{
    sysfault::Plan p;
    p.at = at;
    p.act = f.act;
    p.err = f.err;
    p.persistent = f.persistent;
    return p;
}
std::string
S(uint64_t v)
{
    return std::to_string(v);
}
Bytes
fill(size_t n, unsigned salt)
{
    Bytes b(n, 0);
    uint64_t x = 0x9E3779B97F4A7C15ull * (salt + 1);
    for (auto& c : b) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        c = (char)(x | 1);
    }
    return b;
}
Bytes
slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    std::ostringstream ss;
    ss << f.rdbuf();
    return std::move(ss).str();
}
void
put(Bytes& im, size_t off, const Bytes& d)
{
    if (d.empty())
        return;
    if (im.size() < off + d.size())
        im.resize(off + d.size(), 0);
    im.replace(off, d.size(), d);
}

// Every call x every fault of one scenario; `body` runs it and judges.
void
every_fault(Runner& R, const json& name, const std::function<void(Report&, bool dry)>& body)
{
    sysfault::install();
    quiet_logs(true);
    const std::string keep = R.scratch;
    R.scratch = R.top + "/dry";
    fs::remove_all(R.scratch);
    fs::create_directories(R.scratch);
    Report none;
    sysfault::arm(R.scratch.c_str(), {});
    body(none, true);
    sysfault::disarm();
    std::vector<sysfault::Op> ops;
    for (uint64_t i = 0; i < sysfault::count() && i < sysfault::MAX_LOG; ++i)
        ops.push_back(sysfault::entry(i).op);
    fs::remove_all(R.scratch);
    R.scratch = keep;
    for (size_t i = 0; i < ops.size(); ++i)
        for (auto& f : faults) {
            if (!applies(f, ops[i]))
                continue;
            json d = name;
            d["call"] = i;
            d["fault"] = f.name;
            R.run(d, [&](Report& r) {
                sysfault::arm(R.scratch.c_str(), plan_of(f, i));
                body(r, false);
                sysfault::disarm();
                r.model_states.push_back(hash_mix(hash_str(name.dump()), i * 16 + (&f - faults)));
                r.transitions += sysfault::count();
                for (auto& e : r.errs)
                    e += " [call " + S(i) + ": " + f.name + "]";
            });
        }
}

// files prepared by the harness are not part of the numbered calls
template<typename F>
void
unarmed(F&& f)
{
    const auto was = sysfault::pause();
    f();
    sysfault::resume(was);
}
} // namespace

CHECK_FN(C18f)
{
    struct W
    {
        size_t off;
        std::vector<size_t> sizes;
    };
    std::vector<std::vector<W>> scen = {
        { { 0, { 10 } } },
        { { 5, { 1 } } },
        { { 0, { 4096, 1, 4095 } } },
        { { 100, { 3, 0, 7, 5000 } } },
        { { 0, { 50000, 50000 } }, { 100000, { 777 } } },
        { { 200, { 64 } }, { 0, { 64, 64 } }, { 100, { 150 } } },
        { { 8192, { 512, 512, 512 } }, { 4096, { 4096 } } },
        { { 0, { 2, 2, 2, 2 } }, { 8, { 2, 2 } }, { 4, { 1, 1 } } },
    };
    for (auto& ws : scen)
        for (int pre : { 0, 300 })
            for (int extra : { 0, 2000 }) {
                json n = { { "vectored", true }, { "pre", pre } };
                for (auto& w : ws)
                    n["writes"].push_back({ { "offset", w.off }, { "buffers", w.sizes } });
                if (extra)
                    n["writes"].push_back("2000 one-byte buffers");
                auto all = ws;
                if (extra)
                    all.push_back({ 33, std::vector<size_t>(extra, 1) });
                every_fault(R, n, [&](Report& r, bool) {
                    const std::string path = R.scratch + "/f";
                    Bytes im;
                    if (pre)
                        unarmed([&] {
                            im = fill(pre, 99);
                            std::ofstream(path, std::ios::binary) << im;
                        });
                    try {
                        zarr::VectorizedFileWriter w(path);
                        unsigned salt = 0;
                        for (auto& vw : all) {
                            std::vector<std::vector<std::byte>> bufs;
                            std::vector<std::span<std::byte>> sp;
                            Bytes data;
                            for (size_t k : vw.sizes) {
                                Bytes b = fill(k, ++salt);
                                data += b;
                                bufs.emplace_back((const std::byte*)b.data(), (const std::byte*)b.data() + k);
                            }
                            for (auto& b : bufs)
                                sp.emplace_back(b.data(), b.size());
                            const bool ok = w.write_vectors(sp, vw.off);
                            r.outcome += ok ? '1' : '0';
                            Bytes now;
                            unarmed([&] { now = slurp(path); });
                            Bytes want = im;
                            put(want, vw.off, data);
                            if (ok) {
                                if (now != want)
                                    r.errs.push_back("write of " + S(data.size()) + " bytes at " + S(vw.off) + " reported success, but the file is not as it should be");
                                im = want;
                            } else {
                                // a write that failed may have changed its own range only
                                Bytes outside = now;
                                outside.resize(std::max({ now.size(), im.size(), want.size() }), 0);
                                Bytes before = im;
                                before.resize(outside.size(), 0);
                                for (size_t k = 0; k < outside.size(); ++k)
                                    if (outside[k] != before[k] && (k < vw.off || k >= vw.off + data.size())) {
                                        r.errs.push_back("a failed write changed byte " + S(k) + " outside its range");
                                        break;
                                    }
                                if (now.size() < im.size() || now.size() > want.size())
                                    r.errs.push_back("a failed write changed the size of the file");
                                im = now;
                            }
                        }
                    } catch (const std::exception&) {
                        r.outcome += 'x';
                    }
                });
            }
    R.bound("every system call of vectored writes failing, falling short once or always: success is reported only if the file is exactly right; bytes outside never change");
}

CHECK_FN(C19f)
{
    struct W
    {
        size_t off, n;
    };
    std::vector<std::vector<W>> scen = {
        { { 0, 1 } },
        { { 0, 100 }, { 100, 50 } },
        { { 0, 9000 } },
        { { 0, 8191 }, { 8191, 1 }, { 8192, 8192 } },
        { { 50, 10 }, { 0, 20 } },
        { { 0, 20000 }, { 10000, 100 }, { 20000, 30000 } },
        { { 0, 10 }, { 0, 12000 }, { 5, 3 } },
        { { 0, 1000 }, { 1000, 1000 }, { 2000, 1000 }, { 3000, 1000 }, { 4000, 9000 } },
        { { 0, 300 }, { 0, 200 }, { 0, 100 } },
    };
    for (auto& ws : scen)
        for (int pre : { 0, 60000 })
            for (int creator = 0; creator <= 2; ++creator) {
                json n = { { "file_sink", true }, { "pre", pre }, { "how", creator } };
                for (auto& w : ws)
                    n["writes"].push_back({ w.off, w.n });
                every_fault(R, n, [&](Report& r, bool) {
                    const std::string path = R.scratch + (creator == 2 ? "/new/dir/f" : "/f");
                    if (pre && creator < 2)
                        unarmed([&] { std::ofstream(path, std::ios::binary) << fill(pre, 99); });
                    std::unique_ptr<zarr::Sink> s;
                    try {
                        s = creator ? zarr::SinkCreator::make_sink(path) : std::make_unique<zarr::FileSink>(path);
                    } catch (const std::exception&) {
                    }
                    if (!s) {
                        r.outcome = "none";
                        if (!sysfault::fired())
                            r.errs.push_back("no sink although nothing failed");
                        return;
                    }
                    Bytes im;
                    bool ok = true;
                    unsigned salt = 0;
                    for (auto& w : ws) {
                        const Bytes b = fill(w.n, ++salt);
                        const bool k = s->write(w.off, { (const std::byte*)b.data(), b.size() });
                        r.outcome += k ? '1' : '0';
                        ok = ok && k;
                        put(im, w.off, b);
                    }
                    const bool k = zarr::finalize_sink(std::move(s));
                    r.outcome += k ? 'F' : 'f';
                    ok = ok && k;
                    s.reset();
                    Bytes now;
                    unarmed([&] { now = slurp(path); });
                    if (ok && now != im)
                        r.errs.push_back("everything was reported as successful, but the file has " + S(now.size()) + " bytes, not the " + S(im.size()) + " written");
                });
            }
    R.bound("every system call of a file sink's life (new, truncated, in new directories) failing, interrupted or short: not reported only if the file is exactly right");
}

CHECK_FN(C24f)
{
    auto dims_of = [](const std::vector<std::array<uint32_t, 3>>& v) {
        std::vector<ZarrDimension> d;
        for (size_t i = 0; i < v.size(); ++i)
            d.emplace_back("d" + S(i), i == 0 ? ZarrDimensionType_Time : i + 2 >= v.size() ? ZarrDimensionType_Space : ZarrDimensionType_Channel, v[i][0], v[i][1], v[i][2]);
        return std::make_unique<ArrayDimensions>(std::move(d), ZarrDataType_uint8);
    };
    std::vector<std::vector<std::array<uint32_t, 3>>> shapes = {
        { { 0, 1, 1 }, { 1, 1, 1 }, { 1, 1, 1 } },
        { { 0, 1, 1 }, { 3, 1, 1 }, { 4, 2, 1 } },
        { { 0, 1, 1 }, { 2, 1, 1 }, { 2, 1, 2 }, { 3, 1, 1 } },
        { { 0, 1, 1 }, { 2, 1, 2 }, { 2, 1, 1 }, { 2, 1, 1 }, { 2, 1, 1 } },
    };
    auto verify = [&](Report& r, const std::map<std::string, zarr::Sink*>& sinks, const std::function<void()>& finalize, const std::string& root) {
        for (auto& [k, s] : sinks) {
            if (!s) {
                r.errs.push_back("success was reported, but there is no sink for '" + k + "'");
                continue;
            }
            if (!s->write(0, { (const std::byte*)k.data(), k.size() }))
                r.errs.push_back("success was reported, but '" + k + "' can't be written");
        }
        finalize();
        for (auto& [k, s] : sinks)
            if (s && slurp(root + k) != k)
                r.errs.push_back("success was reported, but '" + k + "' does not hold what its sink was given");
    };
    for (size_t si = 0; si < shapes.size(); ++si)
        for (bool shards : { false, true })
            for (const char* base : { "b", "p/q/b" })
                every_fault(R, { { "data_sinks", si }, { "shards", shards }, { "base", base } }, [&](Report& r, bool) {
                    auto d = dims_of(shapes[si]);
                    auto tp = std::make_shared<zarr::ThreadPool>(1, [](const std::string&) {});
                    zarr::SinkCreator sc(tp, nullptr);
                    std::vector<std::unique_ptr<zarr::Sink>> v;
                    const std::function<size_t(const ZarrDimension&)> parts = shards ? zarr::shards_along_dimension : zarr::chunks_along_dimension;
                    bool ok = false;
                    try {
                        ok = sc.make_data_sinks(R.scratch + "/" + base, d.get(), parts, v);
                    } catch (const std::exception&) {
                    }
                    r.outcome = ok ? "ok" : "failed";
                    if (ok) {
                        std::vector<std::string> keys{ "" };
                        for (size_t i = 1; i < d->ndims(); ++i) {
                            std::vector<std::string> w;
                            for (auto& k : keys)
                                for (size_t j = 0; j < parts(d->at(i)); ++j)
                                    w.push_back(k + "/" + S(j));
                            keys = w;
                        }
                        std::map<std::string, zarr::Sink*> m;
                        if (v.size() != keys.size())
                            r.errs.push_back("success was reported with " + S(v.size()) + " sinks of " + S(keys.size()));
                        else {
                            for (size_t i = 0; i < keys.size(); ++i)
                                m[keys[i]] = v[i].get();
                            sysfault::pause();
                            verify(
                              r, m,
                              [&] {
                                  for (auto& s : v)
                                      if (s)
                                          (void)!zarr::finalize_sink(std::move(s));
                              },
                              R.scratch + "/" + base);
                        }
                    }
                    v.clear();
                    tp->await_stop();
                });
    for (int ver : { 2, 3 })
        for (const char* base : { "b", "p/q/b" })
            every_fault(R, { { "metadata_sinks", ver }, { "base", base } }, [&](Report& r, bool) {
                auto tp = std::make_shared<zarr::ThreadPool>(1, [](const std::string&) {});
                zarr::SinkCreator sc(tp, nullptr);
                std::unordered_map<std::string, std::unique_ptr<zarr::Sink>> v;
                bool ok = false;
                try {
                    ok = sc.make_metadata_sinks(ver, R.scratch + "/" + base, v);
                } catch (const std::exception&) {
                }
                r.outcome = ok ? "ok" : "failed";
                if (ok) {
                    std::map<std::string, zarr::Sink*> m;
                    for (auto& k : ver == 2 ? std::vector<std::string>{ ".zattrs", ".zgroup", "0/.zattrs", "acquire.json" }
                                            : std::vector<std::string>{ "zarr.json", "meta/root.group.json", "meta/acquire.json" })
                        m[k] = v.count(k) ? v[k].get() : nullptr;
                    sysfault::pause();
                    verify(
                      r, m,
                      [&] {
                          for (auto& [k, s] : v)
                              if (s)
                                  (void)!zarr::finalize_sink(std::move(s));
                      },
                      R.scratch + "/" + base + "/");
                }
                v.clear();
                tp->await_stop();
            });
    R.bound("every mkdir and open of sink creation (3D to 5D, chunks and shards, metadata, new parent directories) failing once or from there on: success only with every sink working");
}
