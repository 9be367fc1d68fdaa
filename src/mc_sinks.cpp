// C18 and C24 under all schedules: concurrent vectored writes; workers creating directories and sinks.
#include "mc/explore.hh"
#include "fake_s3.hh"
#include "sink.creator.hh"
#include "vectorized.file.writer.hh"
#include "zarr.common.hh"

#include <filesystem>
#include <fstream>
#include <set>
#include <sys/stat.h>
#include <thread>

extern unsigned g_hw_threads;
namespace fs = std::filesystem;
namespace {
struct Quiet
{
    Quiet() { mcrt_ignore(1); }
    ~Quiet() { mcrt_ignore(-1); }
};
std::string
S(size_t n)
{
    return std::to_string(n);
}
Bytes
slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    return { std::istreambuf_iterator<char>(f), {} };
}
// ------------------------------------------------------------ one writer, several threads
struct Write
{
    size_t offset;
    std::vector<size_t> sizes;
};
std::string
writers(const std::vector<std::vector<Write>>& threads, bool main_writes, bool second_writer, Errs& errs, const std::string& dir)
{
    const std::string path = dir + "/f", other = dir + "/g";
    std::vector<std::vector<std::vector<Bytes>>> data(threads.size());
    Bytes want;
    char c = 'a';
    for (size_t t = 0; t < threads.size(); ++t)
        for (auto& w : threads[t]) {
            data[t].emplace_back();
            size_t o = w.offset;
            for (size_t n : w.sizes) {
                data[t].back().emplace_back(n, c++);
                if (want.size() < o + n)
                    want.resize(o + n);
                want.replace(o, n, data[t].back().back());
                o += n;
            }
        }
    std::vector<int> ok(threads.size(), 1);
    mcrt::begin();
    {
        zarr::VectorizedFileWriter w(path), w2(second_writer ? path : other);
        auto job = [&](size_t t) {
            for (size_t i = 0; i < threads[t].size(); ++i) {
                std::vector<std::span<std::byte>> v;
                for (auto& b : data[t][i])
                    v.emplace_back((std::byte*)b.data(), b.size());
                if (!(t == 0 && second_writer ? w2 : w).write_vectors(v, threads[t][i].offset))
                    ok[t] = 0;
            }
        };
        std::vector<std::thread> ts;
        for (size_t t = main_writes; t < threads.size(); ++t)
            ts.emplace_back(job, t);
        if (main_writes)
            job(0);
        for (auto& t : ts)
            t.join();
    }
    mcrt::end();
    const Bytes got = slurp(path);
    for (size_t t = 0; t < ok.size(); ++t)
        if (!ok[t])
            errs.push_back("thread " + S(t) + ": a write failed");
    if (got != want)
        errs.push_back("file holds '" + got + "', expected '" + want + "'");
    return got;
}

// ------------------------------------------------------------ sink creation
struct Make
{
    std::vector<Dim> dims;
    bool shards = false, s3 = false;
    int workers = 2;
    int obstacle = -1; // index into the places that have to be made
    int kind = 0;      // 0 wrong kind of thing, 1 dangling link, 2 already there
    int metadata = 0;  // version: metadata sinks instead
    bool busy = false; // another job fails meanwhile
};
std::vector<std::string>
keys_of(const Make& m)
{
    if (m.metadata)
        return m.metadata == 2 ? std::vector<std::string>{ "/.zattrs", "/.zgroup", "/0/.zattrs", "/acquire.json" }
                               : std::vector<std::string>{ "/zarr.json", "/meta/root.group.json", "/meta/acquire.json" };
    std::vector<std::string> k{ "" };
    for (size_t i = 1; i < m.dims.size(); ++i) {
        uint64_t n = cdiv(m.dims[i].array, m.dims[i].chunk);
        if (m.shards)
            n = cdiv(n, m.dims[i].shard);
        std::vector<std::string> l;
        for (auto& p : k)
            for (uint64_t j = 0; j < n; ++j)
                l.push_back(p + "/" + S(j));
        k = l;
    }
    return k;
}
std::string
make(const Make& m, Errs& errs, const std::string& dir)
{
    fake_s3::reset();
    fake_s3::server().buckets[S3_BUCKET];
    fake_s3::decide = nullptr;
    fake_s3::sched_hook = nullptr;
    g_hw_threads = m.workers;
    const std::string base = m.s3 ? "b" : dir + "/b";
    const auto keys = keys_of(m);
    std::set<std::string> dirs;
    for (auto& k : keys)
        for (fs::path p = fs::path("b" + k).parent_path(); !p.empty(); p = p.parent_path())
            dirs.insert(p.string());
    std::vector<std::string> places(dirs.begin(), dirs.end());
    for (auto& k : keys)
        places.push_back("b" + k);
    bool blocked = false;
    if (m.obstacle >= 0) {
        const std::string p = places[m.obstacle];
        const bool is_dir = m.obstacle < (int)dirs.size();
        fs::create_directories(fs::path(dir + "/" + p).parent_path());
        if (m.kind == 1) // a dangling link: it does not exist, but can't be created either
            fs::create_symlink("/nonexistent-dir/x", dir + "/" + p);
        else if ((m.kind == 0) != is_dir)
            fs::create_directory(dir + "/" + p);
        else
            std::ofstream(dir + "/" + p) << "old";
        blocked = m.kind != 2;
    }
    std::vector<ZarrDimension> zd;
    for (auto& d : m.dims)
        zd.emplace_back(d.name, (ZarrDimensionType)d.type, d.array, d.chunk, d.shard);
    bool ok = false, threw = false;
    std::vector<std::string> bound(keys.size());
    mcrt::begin();
    {
        std::vector<std::unique_ptr<zarr::Sink>> sinks;
        std::unordered_map<std::string, std::unique_ptr<zarr::Sink>> meta;
        auto pool = std::make_shared<zarr::ThreadPool>(m.workers, [](const std::string&) {});
        std::shared_ptr<zarr::S3ConnectionPool> cp;
        if (m.s3)
            cp = std::make_shared<zarr::S3ConnectionPool>(m.workers, "http://localhost", "k", "s");
        if (m.busy)
            pool->push_job([](std::string& e) {
                e = "other";
                return false;
            });
        {
            auto ad = std::make_unique<ArrayDimensions>(std::move(zd), ZarrDataType_uint8);
            zarr::SinkCreator sc(pool, cp);
            try {
                if (m.metadata)
                    ok = m.s3 ? sc.make_metadata_sinks(m.metadata, S3_BUCKET, base, meta) : sc.make_metadata_sinks(m.metadata, base, meta);
                else {
                    const std::function<size_t(const ZarrDimension&)> parts = m.shards ? zarr::shards_along_dimension : zarr::chunks_along_dimension;
                    ok = m.s3 ? sc.make_data_sinks(S3_BUCKET, base, ad.get(), parts, sinks) : sc.make_data_sinks(base, ad.get(), parts, sinks);
                }
            } catch (const std::exception&) {
                threw = true;
            }
        }
        // what the call filled in belongs to the caller from here on
        if (ok && (m.metadata ? meta.size() : sinks.size()) != keys.size())
            errs.push_back("number of sinks");
        for (size_t i = 0; ok && errs.empty() && i < keys.size(); ++i) {
            const std::string n = m.metadata ? keys[i].substr(1) : "";
            std::unique_ptr<zarr::Sink>* s = m.metadata ? meta.count(n) ? &meta[n] : nullptr : &sinks[i];
            if (!s || !*s) {
                errs.push_back("success, but sink " + S(i) + " is null");
                break;
            }
            std::string text = "#" + S(i);
            if (!(*s)->write(0, std::span<const std::byte>((const std::byte*)text.data(), text.size())) || !zarr::finalize_sink(std::move(*s)))
                errs.push_back("sink " + S(i) + " can't be written");
        }
        sinks.clear();
        meta.clear();
        pool->await_stop();
    }
    mcrt::end();
    if (ok && blocked)
        errs.push_back("success although '" + places[m.obstacle] + "' can't be created");
    if (!ok && !blocked)
        errs.push_back(std::string("failed without an obstacle") + (threw ? " (exception)" : ""));
    if (ok && errs.empty()) {
        Store want;
        for (size_t i = 0; i < keys.size(); ++i)
            want[keys[i].substr(1)] = "#" + S(i);
        auto d = diff_stores(want, m.s3 ? snapshot_s3(S3_BUCKET, base) : snapshot_dir(base));
        if (!d.empty())
            errs.push_back(d);
    }
    return S(ok) + S(threw);
}
} // namespace

CHECK_FN(C18m)
{
    quiet_logs(true);
    using T = std::vector<std::vector<Write>>;
    struct W
    {
        T t;
        bool main = false, second = false;
    };
    std::vector<W> ws = {
        { { { { 0, { 3 } } }, { { 3, { 4 } } } } },
        { { { { 0, { 2, 1 } } }, { { 3, { 1, 0, 3 } } } }, true },
        { { { { 5, { 2 } }, { 0, { 5 } } }, { { 9, { 1, 1 } }, { 7, { 2 } } } } },
        { { { { 0, { 1 } } }, { { 1, { 1 } } }, { { 2, { 1, 2 } } } } },
        { { { { 4, { 1, 1, 1 } } }, { { 0, { 4 } } }, { { 7, { 2 } } } }, true },
        { { { { 0, { 2, 1 } }, { 6, { 3 } } }, { { 3, { 3 } } } }, false, true },
    };
    for (auto& w : ws) {
        json d = { { "main", w.main }, { "two_writers", w.second } };
        for (auto& t : w.t) {
            json jt = json::array();
            for (auto& x : t)
                jt.push_back({ { "offset", x.offset }, { "sizes", x.sizes } });
            d["threads"].push_back(jt);
        }
        mcx::Opts o;
        o.bound = 3;
        o.secs = R.thorough ? 20 : 0.5;
        o.one_outcome = true;
        mcx::explore(R, d, o, [w](Errs& e, const std::string& dir) { return writers(w.t, w.main, w.second, e, dir); });
    }
}

CHECK_FN(C24m)
{
    quiet_logs(true);
    enum { SP = ZarrDimensionType_Space, CH = ZarrDimensionType_Channel, TI = ZarrDimensionType_Time };
    std::vector<Make> ms;
    const std::vector<Dim> d22 = { dim("t", TI, 0, 1, 1), dim("y", SP, 2, 1, 1), dim("x", SP, 2, 1, 1) };
    const std::vector<Dim> d12 = { dim("t", TI, 0, 1, 1), dim("y", SP, 1, 1, 1), dim("x", SP, 2, 1, 1) };
    const std::vector<Dim> d4 = { dim("t", TI, 0, 1, 1), dim("c", CH, 2, 1, 1), dim("y", SP, 1, 1, 1), dim("x", SP, 1, 1, 1) };
    const std::vector<Dim> sh = { dim("t", TI, 0, 1, 1), dim("y", SP, 3, 1, 2), dim("x", SP, 1, 1, 1) };
    // without obstacle; 3 dirs (b, b/0, b/1) and 4 files for d22
    ms.push_back({ d22 });
    ms.push_back({ d4 });
    ms.push_back({ sh, true });
    ms.push_back({ d22, false, true });
    ms.push_back({ d12, false, false, 3 });
    // an obstacle at each place
    for (int o = 0; o < 7; ++o)
        ms.push_back({ d22, false, false, 2, o });
    for (int o = 0; o < 7; ++o) // b, b/0, b/0/0, b/1, b/1/0, files
        ms.push_back({ d4, false, false, 2, o });
    for (int o : { 0, 1, 2, 3, 6 })
        ms.push_back({ d22, false, false, 2, o, 1 });
    for (int o : { 1, 3, 6 })
        ms.push_back({ d4, false, false, 2, o, 1 });
    for (int o : { 1, 2, 4 })
        ms.push_back({ d22, false, false, 2, o, 2 });
    for (int v : { 2, 3 }) {
        ms.push_back({ d12, false, false, 2, -1, 0, v });
        ms.push_back({ d12, false, true, 2, -1, 0, v });
        for (int o = 0; o < 5; ++o)
            ms.push_back({ d12, false, false, 2, o, 0, v });
    }
    {
        Make b{ d12 };
        b.busy = true;
        ms.push_back(b);
        b.obstacle = 2;
        ms.push_back(b);
    }
    for (auto& m : ms) {
        json j = { { "shards", m.shards }, { "s3", m.s3 }, { "workers", m.workers }, { "obstacle", m.obstacle }, { "kind", m.kind }, { "metadata", m.metadata }, { "busy", m.busy } };
        for (auto& d : m.dims)
            j["dims"].push_back({ d.array, d.chunk, d.shard });
        mcx::Opts o;
        o.bound = R.thorough ? 2 : 1;
        o.secs = R.thorough ? 6 : 0.4;
        o.hard = R.thorough ? 30 : 60;
        o.one_outcome = true;
        mcx::explore(R, j, o, [m](Errs& e, const std::string& dir) { return make(m, e, dir); }, R.thorough ? 7 : 5);
    }
}
