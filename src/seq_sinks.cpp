// C07: S3 sink; C18: vectored writes; C19: file sink; C24: sink creation (one worker); C17: chunk arithmetic; C21: API helpers
#include "fake_s3.hh"
#include "runner.hh"
#include "spec.hh"

#include "file.sink.hh"
#include "logger.hh"
#include "s3.sink.hh"
#include "sink.creator.hh"
#include "vectorized.file.writer.hh"
#include "zarr.common.hh"
#include "zarr.dimension.hh"

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <numeric>
#include <sstream>

namespace fs = std::filesystem;
namespace {
enum { SP = ZarrDimensionType_Space, CH = ZarrDimensionType_Channel, TI = ZarrDimensionType_Time, OT = ZarrDimensionType_Other };
const size_t P = 5 << 20;

std::string
S(uint64_t v)
{
    return std::to_string(v);
}

// position-dependent content with a period that is coprime to all sizes used
Bytes
pattern(size_t n, size_t salt)
{
    static Bytes big = [] {
        Bytes b(32 << 20, 0);
        uint64_t x = 88172645463325252ull;
        for (size_t i = 0; i + 8 <= b.size(); i += 8) {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            memcpy(&b[i], &x, 8);
        }
        return b;
    }();
    Bytes out = big.substr(salt * 8191, n);
    while (out.size() < n)
        out += big.substr(0, n - out.size());
    return out;
}
std::span<const std::byte>
span(const Bytes& b, size_t off = 0, size_t n = SIZE_MAX)
{
    return { (const std::byte*)b.data() + off, std::min(n, b.size() - off) };
}

std::shared_ptr<zarr::S3ConnectionPool>
pool(size_t n)
{
    return std::make_shared<zarr::S3ConnectionPool>(n, "http://localhost:9000", "key", "secret");
}

// What the server must have seen for one object written in full.
void
check_object(const std::string& key, const Bytes& want, std::vector<std::string>& errs)
{
    auto& sv = fake_s3::server();
    auto& b = sv.buckets[S3_BUCKET];
    if (want.empty()) {
        if (b.count(key))
            errs.push_back("an object exists although nothing was written");
        return;
    }
    auto it = b.find(key);
    if (it == b.end()) {
        errs.push_back("object '" + key + "' is missing");
        return;
    }
    if (it->second != want) {
        size_t i = 0;
        while (i < want.size() && i < it->second.size() && want[i] == it->second[i])
            ++i;
        errs.push_back("object '" + key + "' has " + S(it->second.size()) + " bytes, expected " + S(want.size()) + ", first difference at " + S(i));
    }
    unsigned put = 0, create = 0, complete = 0;
    std::vector<unsigned> parts;
    std::vector<size_t> sizes;
    for (auto& q : sv.log) {
        if (q.object != key)
            continue;
        put += q.op == "put";
        create += q.op == "create_mp";
        complete += q.op == "complete_mp";
        if (q.op == "upload_part")
            parts.push_back(q.part), sizes.push_back(q.size);
        if (!q.ok)
            errs.push_back("the server refused a request: " + q.op);
    }
    const bool single = put == 1 && !create && !complete && parts.empty();
    const bool multi = put == 0 && create == 1 && complete == 1 && !parts.empty();
    if (want.size() < P ? !single : want.size() > P ? !multi : !(single || multi))
        errs.push_back("object of " + S(want.size()) + " bytes: " + S(put) + " put, " + S(create) + " create, " + S(parts.size()) + " parts, " + S(complete) + " complete");
    for (size_t i = 0; i < parts.size(); ++i) {
        if (parts[i] != i + 1)
            errs.push_back("part number " + S(parts[i]) + " at position " + S(i));
        if (i + 1 < parts.size() && sizes[i] < P)
            errs.push_back("part " + S(i + 1) + " of " + S(parts.size()) + " has only " + S(sizes[i]) + " bytes");
    }
}
void
check_server(std::vector<std::string>& errs)
{
    for (auto& v : fake_s3::server().violations)
        errs.push_back("protocol violation: " + v);
    for (auto& [id, u] : fake_s3::server().uploads)
        if (!u.done)
            errs.push_back("multipart upload " + id + " never completed");
}

void
sink_case(Runner& R, const std::vector<size_t>& sizes)
{
    R.run({ { "writes", sizes } }, [&](Report& r) {
        quiet_logs(true);
        const std::string key = "a/b/c";
        Bytes all;
        {
            auto cp = pool(1);
            std::unique_ptr<zarr::Sink> s = std::make_unique<zarr::S3Sink>(S3_BUCKET, key, cp);
            uint64_t h = 7;
            for (size_t n : sizes) {
                Bytes b = pattern(n, all.size() % 97);
                if (!s->write(all.size(), span(b)))
                    r.errs.push_back("write of " + S(n) + " bytes at " + S(all.size()) + " failed");
                all += b;
                h = hash_mix(h, n);
                r.model_states.push_back(h);
            }
            if (!zarr::finalize_sink(std::move(s)))
                r.errs.push_back("finalization failed");
        }
        r.transitions = sizes.size() + 1;
        check_object(key, all, r.errs);
        check_server(r.errs);
        for (auto& [k, v] : fake_s3::server().buckets[S3_BUCKET])
            if (k != key)
                r.errs.push_back("unexpected object '" + k + "'");
        if (fake_s3::server().clients_alive)
            r.errs.push_back("connections left open");
        for (auto& q : fake_s3::server().log)
            r.outcome += q.op + S(q.size) + ",";
    });
}

void
sequences(const std::vector<size_t>& alphabet, size_t depth, std::vector<size_t>& cur, const std::function<void(const std::vector<size_t>&)>& f)
{
    f(cur);
    if (cur.size() == depth)
        return;
    for (size_t a : alphabet) {
        cur.push_back(a);
        sequences(alphabet, depth, cur, f);
        cur.pop_back();
    }
}
} // namespace

CHECK_FN(C07)
{
    const bool T = R.thorough;
    std::vector<size_t> cur;
    sequences({ 1, P / 2, P - 1, P, P + 1, 2 * P - 1, 2 * P + 1 }, T ? 4 : 3, cur, [&](auto& v) {
        if (std::accumulate(v.begin(), v.end(), size_t(0)) <= (T ? 30u : 13u) << 20)
            sink_case(R, v);
    });
    sequences({ 1, P / 3, P / 2, P - 2 }, T ? 6 : 5, cur, [&](auto& v) {
        if (v.size() > 3 && (T || std::accumulate(v.begin(), v.end(), size_t(0)) <= 11u << 20))
            sink_case(R, v);
    });
    R.bound(std::string("all sequences of contiguous writes to depth ") + (T ? "4 (6)" : "3 (5)") + " over sizes around the 5 MiB part size");
    // part numbers of two digits
    sink_case(R, std::vector<size_t>(12, P));
    sink_case(R, std::vector<size_t>(25, P / 2 + 1));
    sink_case(R, { 11 * P + 5, 1, P });
    if (T)
        sink_case(R, { 1, 105 * P, 3 });
    R.bound("objects of 11 to 13 parts (thorough: 106)");
    // empty writes in between
    for (size_t n : { size_t(1), P - 1, P, P + 1 })
        sink_case(R, { 0, n, 0, n, 0 });
    // a write below uploaded data is refused and changes nothing
    for (size_t first : { P, P + 1, 2 * P, 2 * P + 7 })
        for (size_t back : { size_t(1), size_t(2), P - 1, P, 2 * P })
            for (size_t len : { size_t(1), P / 2, 2 * P }) {
                const size_t up = first / P * P;
                if (back > up)
                    continue;
                R.run({ { "first", first }, { "below", back }, { "len", len } }, [&](Report& r) {
                    quiet_logs(true);
                    auto cp = pool(1);
                    std::unique_ptr<zarr::Sink> s = std::make_unique<zarr::S3Sink>(S3_BUCKET, "k", cp);
                    const Bytes b = pattern(first, 1), c = pattern(len, 55);
                    if (!s->write(0, span(b)))
                        r.errs.push_back("first write failed");
                    if (s->write(up - back, span(c)))
                        r.errs.push_back("a write below the uploaded data was accepted");
                    if (zarr::finalize_sink(std::move(s)))
                        check_object("k", b, r.errs);
                    else if (fake_s3::server().buckets[S3_BUCKET].count("k"))
                        r.errs.push_back("object completed by a failed finalization");
                    for (auto& v : fake_s3::server().violations)
                        r.errs.push_back("protocol violation: " + v);
                    r.transitions = 3;
                    r.model_states = { hash_mix(hash_mix(first, back), len) };
                    r.outcome = S(fake_s3::server().log.size());
                });
            }
    // two sinks of one pool, writes alternating
    cur.clear();
    sequences({ 1, P / 2 + 1, P + 1 }, 3, cur, [&](auto& a0) {
        const std::vector<size_t> a = a0;
        std::vector<size_t> cur2;
        sequences({ 3, P - 1, P + 3 }, 2, cur2, [&](auto& b) {
            if (a.empty() || b.empty() || (!T && a.size() > 2))
                return;
            R.run({ { "sink0", a }, { "sink1", b } }, [&](Report& r) {
                quiet_logs(true);
                {
                    auto cp = pool(1 + a.size() % 2);
                    std::unique_ptr<zarr::Sink> s[2] = { std::make_unique<zarr::S3Sink>(S3_BUCKET, "x/0", cp), std::make_unique<zarr::S3Sink>(S3_BUCKET, "x/1", cp) };
                    Bytes all[2];
                    for (size_t i = 0; i < std::max(a.size(), b.size()); ++i)
                        for (int k = 0; k < 2; ++k) {
                            auto& v = k ? b : a;
                            if (i >= v.size())
                                continue;
                            Bytes d = pattern(v[i], 31 * i + k);
                            if (!s[k]->write(all[k].size(), span(d)))
                                r.errs.push_back("write failed");
                            all[k] += d;
                        }
                    for (int k = 0; k < 2; ++k)
                        if (!zarr::finalize_sink(std::move(s[k])))
                            r.errs.push_back("finalization failed");
                    check_object("x/0", all[0], r.errs);
                    check_object("x/1", all[1], r.errs);
                    check_server(r.errs);
                }
                r.transitions = a.size() + b.size() + 2;
                r.outcome = S(fake_s3::server().log.size());
                for (auto x : a)
                    r.model_states.push_back(hash_mix(x, b[0]));
            });
        });
    });
    // whole streams whose shards grow past the part size in several flushes
    for (int ver : { 2, 3 })
        for (uint32_t shard : { 2u, 4u, 9u })
            for (uint32_t w : { 1024u, 1536u, 3000u })
                for (uint64_t f : { shard - 1, shard, shard + 1 }) {
                    if (ver == 2 && shard > 2)
                        continue;
                    Cfg c = make3(ver, ver == 2 ? shard : 1, ver == 2 ? 1 : shard, dim("y", SP, 1024, 1024), dim("x", SP, w, w));
                    c.s3 = true;
                    R.run({ { "cfg", to_json(c) }, { "frames", f } }, [&](Report& r) {
                        quiet_logs(true);
                        const Bytes data = make_frames(c, f);
                        auto rr = run_frames(c, "big", data);
                        for (int st : rr.status)
                            if (st)
                                r.errs.push_back("append failed");
                        Store s = snapshot_s3(S3_BUCKET, "big");
                        check_data(s, c, data, f, true, false, r.errs);
                        for (auto& [k, v] : s)
                            check_object("big/" + k, v, r.errs);
                        check_server(r.errs);
                        r.transitions = f + 2;
                        for (auto& q : fake_s3::server().log)
                            r.outcome += q.op + S(q.size) + ",";
                        r.model_states = { hash_str(r.outcome) };
                    });
                }
}

// ------------------------------------------------------------------------------------------------ C18
namespace {
// All data of a possibly sparse file as (offset, byte) runs that are not zero.
std::map<uint64_t, Bytes>
sparse_content(const std::string& path, uint64_t& size)
{
    std::map<uint64_t, Bytes> m;
    int fd = open(path.c_str(), O_RDONLY);
    struct stat st;
    fstat(fd, &st);
    size = st.st_size;
    off_t p = 0;
    while (p < st.st_size) {
        off_t d = lseek(fd, p, SEEK_DATA);
        if (d < 0)
            break;
        off_t h = lseek(fd, d, SEEK_HOLE);
        if (h < 0 || h > st.st_size)
            h = st.st_size;
        Bytes b(h - d, 0);
        if (pread(fd, b.data(), b.size(), d) != (ssize_t)b.size())
            break;
        m[d] = b;
        p = h;
    }
    close(fd);
    return m;
}
struct Image // expected sparse file content
{
    std::map<uint64_t, unsigned char> b;
    uint64_t size = 0;
    void put(uint64_t off, const Bytes& d)
    {
        for (size_t i = 0; i < d.size(); ++i)
            b[off + i] = d[i];
        if (!d.empty())
            size = std::max(size, off + d.size());
    }
};
void
compare_sparse(const std::string& path, const Image& im, std::vector<std::string>& errs, bool size_at_least = false)
{
    uint64_t size;
    auto got = sparse_content(path, size);
    if (size != im.size && !(size_at_least && size >= im.size))
        errs.push_back("file size " + S(size) + ", expected " + S(im.size));
    std::map<uint64_t, unsigned char> rest;
    for (auto& [o, v] : im.b)
        if (v)
            rest[o] = v;
    for (auto& [o, d] : got)
        for (size_t i = 0; i < d.size(); ++i) {
            if (!d[i])
                continue;
            auto it = rest.find(o + i);
            if (it == rest.end() || it->second != (unsigned char)d[i]) {
                errs.push_back("byte at " + S(o + i) + " is " + S((unsigned char)d[i]) + ", expected " + (it == rest.end() ? "0" : S(it->second)));
                return;
            }
            rest.erase(it);
        }
    if (!rest.empty())
        errs.push_back("byte at " + S(rest.begin()->first) + " is 0, expected " + S(rest.begin()->second));
}

struct VWrite
{
    std::vector<size_t> sizes;
    uint64_t offset;
};
void
vector_case(Runner& R, const std::vector<VWrite>& ws, size_t preexisting, bool reopen)
{
    json d = { { "preexisting", preexisting }, { "reopen", reopen } };
    for (auto& w : ws)
        d["writes"].push_back({ { "offset", w.offset }, { "buffers", w.sizes.size() > 12 ? json(S(w.sizes.size()) + " buffers") : json(w.sizes) } });
    R.run(d, [&](Report& r) {
        quiet_logs(true);
        const std::string path = R.scratch + "/f";
        Image im;
        if (preexisting) {
            Bytes pre = pattern(preexisting, 3);
            std::ofstream(path, std::ios::binary) << pre;
            im.put(0, pre);
        }
        {
            auto w = std::make_unique<zarr::VectorizedFileWriter>(path);
            size_t salt = 11;
            uint64_t h = preexisting;
            for (auto& vw : ws) {
                if (reopen)
                    w = nullptr, w = std::make_unique<zarr::VectorizedFileWriter>(path);
                // each buffer is its own allocation: reading past one is a detectable error
                std::vector<std::vector<std::byte>> bufs;
                std::vector<std::span<std::byte>> spans;
                Bytes all;
                for (size_t n : vw.sizes) {
                    Bytes b = pattern(n, salt++ % 500);
                    bufs.emplace_back((const std::byte*)b.data(), (const std::byte*)b.data() + n);
                    all += b;
                }
                for (auto& b : bufs)
                    spans.emplace_back(b.data(), b.size());
                const bool ok = w->write_vectors(spans, vw.offset);
                if (ok)
                    im.put(vw.offset, all);
                else if (vw.sizes.size() <= 1024 && vw.offset < (1ull << 62)) {
                    r.errs.push_back("write reported as failed");
                    return;
                }
                h = hash_mix(h, hash_mix(vw.offset, all.size()));
                r.model_states.push_back(h);
                r.outcome += ok ? "1" : "0";
                if (!ok) { // nothing further is promised about this file
                    r.transitions++;
                    return;
                }
            }
        }
        compare_sparse(path, im, r.errs);
        r.transitions = ws.size();
    });
}
} // namespace

CHECK_FN(C18)
{
    const bool T = R.thorough;
    const std::vector<uint64_t> offs = { 0, 1, 7, 4095, 4096, 65536, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x280000005ull };
    std::vector<size_t> cur;
    sequences({ 0, 1, 5, 4096, 4099 }, T ? 4 : 3, cur, [&](auto& v) {
        for (auto o : offs)
            for (size_t pre : { size_t(0), size_t(10), size_t(9000) }) {
                if (!T && pre == 9000 && o > 70000)
                    continue;
                vector_case(R, { { v, o } }, pre, false);
            }
    });
    R.bound("every list of up to " + S(T ? 4 : 3) + " buffers over 5 sizes x 12 offsets up to 10 GiB x files that are new, short or long");
    for (size_t n : { 15, 16, 17, 255, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 5000 })
        for (size_t sz : { 1, 3, 4096 })
            for (uint64_t o : { uint64_t(0), uint64_t(5), uint64_t(0xfffffff0) }) {
                vector_case(R, { { std::vector<size_t>(n, sz), o } }, 0, false);
                std::vector<size_t> mixed;
                for (size_t i = 0; i < n; ++i)
                    mixed.push_back(i % 3 ? sz : i % 7);
                vector_case(R, { { mixed, o } }, 100, false);
            }
    R.bound("up to 5000 buffers in one write");
    // histories of several writes with one writer or reopened
    for (bool reopen : { false, true })
        for (uint64_t a : { 0ull, 10ull, 4096ull, 0x100000000ull })
            for (uint64_t b : { 0ull, 5ull, 14ull, 15ull, 100ull, 0x100000003ull })
                for (uint64_t c : { 3ull, 12ull, 0xfffffffeull })
                    for (size_t s1 : { 5, 4096 })
                        vector_case(R, { { { s1, 0, 3 }, a }, { { 4, 6 }, b }, { { 1, 1, 1, 1 }, c } }, 20, reopen);
    // large buffers
    for (size_t n : { size_t(1) << 20, (size_t(3) << 20) + 1 })
        for (uint64_t o : { 0ull, 1ull, 0xfffff000ull })
            vector_case(R, { { { n, 17, n / 2 }, o } }, 0, false);
    // a path that can't be opened
    for (int kind = 0; kind < 4; ++kind)
        R.run({ { "unopenable", kind } }, [&](Report& r) {
            std::string p = R.scratch + "/d";
            fs::create_directories(p);
            std::ofstream(R.scratch + "/file") << "x";
            if (kind == 1)
                p = R.scratch + "/missing/f";
            if (kind == 2)
                p = R.scratch + "/file/f";
            if (kind == 3)
                p = "";
            bool threw = false;
            try {
                zarr::VectorizedFileWriter w(p);
            } catch (const std::exception&) {
                threw = true;
            }
            if (!threw)
                r.errs.push_back("a writer was made for a path that can't be opened");
            r.transitions = 1;
            r.model_states = { (uint64_t)kind };
            r.outcome = p;
        });
}

// ------------------------------------------------------------------------------------------------ C19
namespace {
struct FWrite
{
    uint64_t off;
    size_t n;
};
void
file_case(Runner& R, const std::vector<FWrite>& ws, int pre, bool via_creator)
{
    json d = { { "pre", pre }, { "via_creator", via_creator } };
    for (auto& w : ws)
        d["writes"].push_back({ w.off, w.n });
    R.run(d, [&](Report& r) {
        quiet_logs(true);
        std::string path = R.scratch + "/f.bin";
        if (pre)
            std::ofstream(path, std::ios::binary) << pattern(pre, 7);
        Image im;
        {
            std::unique_ptr<zarr::Sink> s;
            // not NUL-terminated: the name is followed by other characters
            const std::string longer = path + "JUNK";
            const std::string_view name(longer.data(), path.size());
            try {
                if (via_creator)
                    s = zarr::SinkCreator::make_sink(name);
                else
                    s = std::make_unique<zarr::FileSink>(name);
            } catch (const std::exception& e) {
                r.errs.push_back(std::string("creation threw ") + e.what());
            }
            if (!s) {
                r.errs.push_back("no sink");
                return;
            }
            uint64_t h = 1;
            size_t i = 0;
            for (auto& w : ws) {
                Bytes b = pattern(w.n, 5 + 13 * i++);
                std::vector<std::byte> own((const std::byte*)b.data(), (const std::byte*)b.data() + b.size());
                if (!s->write(w.off, std::span<const std::byte>(own.data(), own.size())))
                    r.errs.push_back("write failed");
                im.put(w.off, b);
                h = hash_mix(h, hash_mix(w.off, w.n));
                r.model_states.push_back(h);
            }
            if (!zarr::finalize_sink(std::move(s)))
                r.errs.push_back("finalization failed");
        }
        compare_sparse(path, im, r.errs);
        for (auto& e : fs::directory_iterator(R.scratch))
            if (e.path().filename() != "f.bin")
                r.errs.push_back("unexpected file " + e.path().string());
        r.transitions = ws.size() + 1;
        r.outcome = S(im.size) + ":" + S(im.b.size());
    });
}
} // namespace

CHECK_FN(C19)
{
    const bool T = R.thorough;
    std::vector<FWrite> ops;
    for (uint64_t o : { 0, 1, 5, 9 })
        for (size_t n : { 0, 1, 4, 9 })
            ops.push_back({ o, n });
    for (auto& a : ops) {
        file_case(R, { a }, 0, false);
        for (auto& b : ops) {
            file_case(R, { a, b }, 12, false);
            for (auto& c : ops)
                if (T || (a.n && b.n))
                    file_case(R, { a, b, c }, (a.off + b.n) % 2 ? 30 : 0, c.n % 2);
        }
    }
    R.bound("all sequences of up to 3 writes over 4 offsets x 4 sizes (overlaps, gaps, rewinds), file new or holding longer old content");
    // around the stream buffer and page sizes, and beyond 32 bits
    std::vector<FWrite> big;
    for (uint64_t o : { 0ull, 1ull, 8190ull, 8191ull, 8192ull, 65537ull, 0xffffffffull, 0x100000000ull, 0x300000007ull })
        for (size_t n : { 1, 8190, 8191, 8192, 20000 })
            big.push_back({ o, n });
    for (auto& a : big)
        for (auto& b : big)
            if (T || (a.off + b.off + a.n * 3 + b.n) % 4 == 0)
                file_case(R, { a, b, { a.off + a.n, 3 } }, 0, false);
    // many small consecutive writes
    for (size_t n : { 1, 7, 4096, 5000 }) {
        std::vector<FWrite> v;
        for (uint64_t i = 0; i < 40; ++i)
            v.push_back({ i * n, n });
        file_case(R, v, 0, n % 2);
        std::reverse(v.begin(), v.end());
        file_case(R, v, 1 << 20, n % 2);
    }
    // unopenable paths: no sink
    for (int kind = 0; kind < 6; ++kind)
        for (bool via : { false, true })
            R.run({ { "unopenable", kind }, { "via_creator", via } }, [&](Report& r) {
                quiet_logs(true);
                fs::create_directories(R.scratch + "/d");
                std::ofstream(R.scratch + "/file") << "x";
                fs::create_symlink(R.scratch + "/nodir/x", R.scratch + "/dangling");
                const std::string p[] = { R.scratch + "/d", R.scratch + "/file/x", R.scratch + "/dangling", R.scratch + "/" + std::string(300, 'n'),
                                          R.scratch + "/file/x/y", R.scratch + "/missing/x" };
                if (via && kind == 5)
                    return; // make_sink creates missing parents
                std::unique_ptr<zarr::Sink> s;
                bool threw = false;
                try {
                    if (via)
                        s = zarr::SinkCreator::make_sink(p[kind]);
                    else
                        s = std::make_unique<zarr::FileSink>(p[kind]);
                } catch (const std::exception&) {
                    threw = true;
                }
                if (s)
                    r.errs.push_back("a sink was made for a file that can't be opened: " + p[kind]);
                std::ifstream f(R.scratch + "/file");
                std::string x;
                f >> x;
                if (x != "x")
                    r.errs.push_back("an unrelated file was changed");
                r.transitions = 1;
                r.model_states = { (uint64_t)kind };
                r.outcome = threw ? "threw" : "null";
            });
    // full device: the loss is reported by a write or by the finalization
    for (size_t n : { 1, 100, 8191, 8192, 100000 })
        for (int writes = 1; writes <= 3; ++writes)
            R.run({ { "full_device", n }, { "writes", writes } }, [&](Report& r) {
                quiet_logs(true);
                if (access("/dev/full", W_OK))
                    return;
                std::unique_ptr<zarr::Sink> s = std::make_unique<zarr::FileSink>("/dev/full");
                bool ok = true;
                const Bytes b = pattern(n, 3);
                for (int i = 0; i < writes; ++i)
                    ok = s->write(i * n, span(b)) && ok;
                ok = zarr::finalize_sink(std::move(s)) && ok;
                if (ok)
                    r.errs.push_back("writing to a full device was reported as successful");
                r.transitions = writes + 1;
                r.model_states = { n * 4 + writes };
                r.outcome = "reported";
            });
}

// ------------------------------------------------------------------------------------------------ C17
namespace {
using u128 = unsigned __int128;

std::unique_ptr<ArrayDimensions>
make_dims(const std::vector<Dim>& d, int dtype)
{
    std::vector<ZarrDimension> v;
    for (auto& x : d)
        v.emplace_back(x.name, (ZarrDimensionType)x.type, x.array, x.chunk, x.shard);
    return std::make_unique<ArrayDimensions>(std::move(v), (ZarrDataType)dtype);
}

// Plain row-major arithmetic on coordinates, in 128 bits.
struct Oracle
{
    const std::vector<Dim>& d;
    size_t nd;
    Oracle(const std::vector<Dim>& d)
      : d(d)
      , nd(d.size())
    {
    }
    u128 chunks(size_t i) const { return ((u128)d[i].array + d[i].chunk - 1) / d[i].chunk; }
    u128 shards(size_t i) const { return (chunks(i) + d[i].shard - 1) / d[i].shard; }
    // coordinates of a frame along dimensions 0..nd-3
    std::vector<u128> coord(uint64_t frame) const
    {
        std::vector<u128> c(nd - 2);
        u128 f = frame;
        for (size_t i = nd - 3; i > 0; --i) {
            c[i] = f % d[i].array;
            f /= d[i].array;
        }
        c[0] = f;
        return c;
    }
    u128 tile_group(uint64_t frame) const
    {
        auto c = coord(frame);
        u128 off = 0;
        for (size_t i = 1; i < nd; ++i)
            off = off * chunks(i) + (i < nd - 2 ? c[i] / d[i].chunk : 0);
        return off;
    }
    u128 internal(uint64_t frame, size_t bytes) const
    {
        auto c = coord(frame);
        u128 off = 0;
        for (size_t i = 0; i < nd - 2; ++i)
            off = off * d[i].chunk + c[i] % d[i].chunk;
        return off * d[nd - 2].chunk * d[nd - 1].chunk * bytes;
    }
    // chunk_index -> per-dimension lattice coordinates; row-major over dimensions 1.., dimension 0 outermost
    std::vector<u128> lattice(u128 index) const
    {
        std::vector<u128> c(nd);
        for (size_t i = nd - 1; i > 0; --i) {
            c[i] = index % chunks(i);
            index /= chunks(i);
        }
        c[0] = index;
        return c;
    }
    u128 shard_of(u128 index) const
    {
        auto c = lattice(index);
        u128 s = 0;
        for (size_t i = 1; i < nd; ++i)
            s = s * shards(i) + c[i] / d[i].shard;
        return s;
    }
    u128 slot_of(u128 index) const
    {
        auto c = lattice(index);
        u128 s = 0;
        for (size_t i = 0; i < nd; ++i)
            s = s * d[i].shard + c[i] % d[i].shard;
        return s;
    }
};
std::string
S128(u128 v)
{
    if (v <= UINT64_MAX)
        return S((uint64_t)v);
    return S((uint64_t)(v >> 64)) + "*2^64+" + S((uint64_t)v);
}

#define SAME(what, got, want)                                                                                          \
    do {                                                                                                               \
        const u128 g_ = (got), w_ = (want);                                                                            \
        if (g_ != w_) {                                                                                                \
            r.errs.push_back(std::string(what) + " is " + S128(g_) + ", expected " + S128(w_));                        \
            return;                                                                                                    \
        }                                                                                                              \
    } while (0)

void
arithmetic(Report& r, const std::vector<Dim>& d, int dtype, const std::vector<uint64_t>& frames, const std::vector<uint64_t>& chunks, bool bijection)
{
    auto ad = make_dims(d, dtype);
    Oracle o(d);
    const size_t nd = d.size();
    const size_t sz = dtype_size(dtype);
    u128 in_mem = 1, nsh = 1, cps = 1, bpc = sz;
    for (size_t i = 0; i < nd; ++i) {
        if (i) {
            in_mem *= o.chunks(i);
            nsh *= o.shards(i);
            SAME("chunks along dimension " + S(i), zarr::chunks_along_dimension(ad->at(i)), o.chunks(i));
            SAME("shards along dimension " + S(i), zarr::shards_along_dimension(ad->at(i)), o.shards(i));
        }
        cps *= d[i].shard;
        bpc *= d[i].chunk;
    }
    SAME("number of dimensions", ad->ndims(), nd);
    if (in_mem <= UINT32_MAX)
        SAME("number of chunks in memory", ad->number_of_chunks_in_memory(), in_mem);
    if (nsh <= UINT32_MAX)
        SAME("number of shards", ad->number_of_shards(), nsh);
    if (cps <= UINT32_MAX)
        SAME("chunks per shard", ad->chunks_per_shard(), cps);
    if (bpc <= UINT64_MAX)
        SAME("bytes per chunk", ad->bytes_per_chunk(), bpc);
    if ((u128)sz * d[nd - 2].array * d[nd - 1].array <= UINT64_MAX)
        SAME("bytes per frame", zarr::bytes_of_frame(*ad, (ZarrDataType)dtype), (u128)sz * d[nd - 2].array * d[nd - 1].array);
    std::set<std::pair<u128, u128>> seen;
    for (uint64_t f : frames) {
        auto c = o.coord(f);
        for (size_t i = 0; i < nd - 2; ++i)
            if (c[i] / d[i].chunk <= UINT32_MAX)
                SAME("chunk lattice index of frame " + S(f) + " along " + S(i), ad->chunk_lattice_index(f, (uint32_t)i), c[i] / d[i].chunk);
        const u128 tg = o.tile_group(f), in = o.internal(f, sz);
        if (tg <= UINT32_MAX) {
            SAME("tile group offset of frame " + S(f), ad->tile_group_offset(f), tg);
            if (bijection && ad->tile_group_offset(f) >= ad->number_of_chunks_in_memory())
                r.errs.push_back("tile group outside the chunks in memory");
        }
        if (bpc <= UINT64_MAX) {
            SAME("offset of frame " + S(f) + " in its chunk", ad->chunk_internal_offset(f), in);
            if (in + (u128)sz * d[nd - 1].chunk * d[nd - 2].chunk > bpc)
                r.errs.push_back("tile outside its chunk");
        }
        if (bijection) {
            // (layer, chunk, offset) identifies the frame
            const u128 key = (u128)ad->chunk_lattice_index(f, 0) << 32 | ad->tile_group_offset(f);
            if (!seen.insert({ key, ad->chunk_internal_offset(f) }).second)
                r.errs.push_back("frame " + S(f) + " shares its place with another frame");
        }
        r.model_states.push_back(hash_mix(hash_mix((uint64_t)tg, (uint64_t)in), f));
        ++r.transitions;
    }
    std::set<std::pair<u128, u128>> slots;
    for (uint64_t k : chunks) {
        if (in_mem * d[0].shard >> 63)
            break; // more chunks than can be counted
        const u128 sh = o.shard_of(k), sl = o.slot_of(k);
        if (sh <= UINT32_MAX && nsh <= UINT32_MAX)
            SAME("shard of chunk " + S(k), ad->shard_index_for_chunk((uint32_t)k), sh);
        if (sl <= UINT32_MAX && cps <= UINT32_MAX)
            SAME("slot of chunk " + S(k), ad->shard_internal_index((uint32_t)k), sl);
        if (bijection && !slots.insert({ ad->shard_index_for_chunk((uint32_t)k), ad->shard_internal_index((uint32_t)k) }).second)
            r.errs.push_back("chunk " + S(k) + " shares its slot with another chunk");
        ++r.transitions;
    }
}
void
small_case(Runner& R, const std::vector<Dim>& d)
{
    json j = json::array();
    for (auto& x : d)
        j.push_back({ x.array, x.chunk, x.shard });
    R.run({ { "dims", j } }, [&](Report& r) {
        Oracle o(d);
        u128 inner = 1, mem = 1;
        for (size_t i = 1; i + 2 < d.size(); ++i)
            inner *= d[i].array;
        for (size_t i = 1; i < d.size(); ++i)
            mem *= o.chunks(i);
        std::vector<uint64_t> frames, chunks;
        const uint64_t nf = (uint64_t)inner * d[0].chunk * d[0].shard * 2 + 1;
        for (uint64_t f = 0; f < nf; ++f)
            frames.push_back(f);
        // chunk indices of the layers that share a shard
        for (uint64_t k = 0; k < (uint64_t)mem * d[0].shard; ++k)
            chunks.push_back(k);
        arithmetic(r, d, (int)((d[0].chunk + d[1].array) % 10), frames, chunks, true);
        r.outcome = S(hash_str(j.dump()));
    });
}
} // namespace

CHECK_FN(C17)
{
    const bool T = R.thorough;
    // 3D: every shape, chunking and sharding
    const uint32_t N = T ? 6 : 5;
    for (uint32_t ct = 1; ct <= 3; ++ct)
        for (uint32_t st = 1; st <= 3; ++st)
            for (uint32_t y = 1; y <= N; ++y)
                for (uint32_t cy = 1; cy <= y; ++cy)
                    for (uint32_t sy = 1; sy <= cdiv(y, cy); ++sy)
                        for (uint32_t x = 1; x <= N; ++x)
                            for (uint32_t cx = 1; cx <= x; ++cx)
                                for (uint32_t sx = 1; sx <= cdiv(x, cx); ++sx) {
                                    if (!T && (ct * 7 + st * 5 + y + cy * 3 + x + cx) % 3)
                                        continue;
                                    small_case(R, { dim("t", TI, 0, ct, st), dim("y", SP, y, cy, sy), dim("x", SP, x, cx, sx) });
                                }
    // 4D and 5D: two inner dimensions
    const uint32_t M = T ? 5 : 4;
    for (uint32_t ct = 1; ct <= 2; ++ct)
        for (uint32_t st = 1; st <= 2; ++st)
            for (uint32_t a = 1; a <= M; ++a)
                for (uint32_t ca = 1; ca <= a; ++ca)
                    for (uint32_t sa = 1; sa <= cdiv(a, ca); ++sa) {
                        for (uint32_t y = 1; y <= 3; ++y)
                            for (uint32_t cy = 1; cy <= y; ++cy)
                                small_case(R, { dim("t", TI, 7, ct, st), dim("c", CH, a, ca, sa), dim("y", SP, y, cy, 1), dim("x", SP, 5, 2, 2) });
                        for (uint32_t b = 1; b <= M; ++b)
                            for (uint32_t cb = 1; cb <= b; ++cb)
                                for (uint32_t sb = 1; sb <= cdiv(b, cb); ++sb)
                                    small_case(R, { dim("t", TI, 0, ct, st), dim("c", CH, a, ca, sa), dim("z", SP, b, cb, sb), dim("y", SP, 3, 2, 1), dim("x", SP, 3, 1, 2) });
                    }
    // 6D and 7D
    for (uint32_t m = 0; m < (T ? 729 : 243); ++m) {
        std::vector<Dim> d = { dim("t", TI, 0, 1 + m % 2, 1 + m % 3) };
        uint32_t q = m;
        for (int i = 0; i < (m % 2 ? 3 : 4); ++i) {
            const uint32_t a = 1 + q % 3;
            q /= 3;
            d.push_back(dim("d", OT, a, 1 + q % a, 1 + q % 2));
        }
        d.push_back(dim("y", SP, 4, 3, 2));
        d.push_back(dim("x", SP, 3, 2, 1));
        small_case(R, d);
    }
    R.bound("every frame and chunk of every 3D shape with y,x 1.." + S(N) + ", 4D and 5D with inner sizes 1.." + S(M) + ", 6D and 7D, all chunkings and shardings");
    // sizes up to the 32-bit limit
    const uint32_t big[] = { 1, 2, 3, 255, 256, 257, 65535, 65536, 65537, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu };
    std::vector<std::array<uint32_t, 3>> ext; // array, chunk, shard
    for (uint32_t a : big)
        for (uint32_t ch : { 1u, 2u, 255u, 65536u, a / 2, a - 1, a })
            if (ch >= 1 && ch <= a)
                for (uint32_t sh : { 1u, 2u, (uint32_t)std::min<uint64_t>(cdiv(a, ch), 65536) })
                    ext.push_back({ a, ch, sh });
    std::sort(ext.begin(), ext.end());
    ext.erase(std::unique(ext.begin(), ext.end()), ext.end());
    auto big_case = [&](const std::vector<Dim>& d) {
        json j = json::array();
        for (auto& x : d)
            j.push_back({ x.array, x.chunk, x.shard });
        R.run({ { "dims", j } }, [&](Report& r) {
            Oracle o(d);
            u128 inner = 1, mem = 1;
            for (size_t i = 1; i + 2 < d.size(); ++i)
                inner *= d[i].array;
            for (size_t i = 1; i < d.size(); ++i)
                mem *= o.chunks(i);
            std::set<uint64_t> frames = { 0, 1, 2, 254, 255, 256, 65535, 65536, 0x7fffffff, 0xfffffffeu, 0xffffffffu, 0x100000000ull, 0x123456789abcull };
            if (inner < (1ull << 50))
                for (uint64_t m : { (uint64_t)inner, (uint64_t)inner * d[0].chunk })
                    for (int k = -1; k <= 1; ++k)
                        for (int q = 1; q <= 3; ++q)
                            if (m < (1ull << 60))
                                frames.insert(m * q + k);
            std::set<uint64_t> chunks = { 0 };
            for (u128 m : { mem, mem / 2, mem * d[0].shard, o.chunks(d.size() - 1), o.chunks(d.size() - 2), o.chunks(d.size() - 1) * o.chunks(d.size() - 2), (u128)UINT32_MAX })
                for (int k = -2; k <= 1; ++k)
                    if (m + 2 + k >= 2 && m + k < mem * d[0].shard && m + k <= UINT32_MAX)
                        chunks.insert((uint64_t)(m + k));
            if (inner * d[0].chunk >> 63)
                return; // more frames than can be counted
            arithmetic(r, d, (int)((d[0].chunk + d[1].array) % 10), { frames.begin(), frames.end() }, { chunks.begin(), chunks.end() }, false);
            r.outcome = S(hash_str(j.dump()));
        });
    };
    for (auto& e : ext)
        for (auto& f : ext) {
            if (!T && (e[0] + f[0] * 3u + e[1] + f[1]) % 4)
                continue;
            big_case({ dim("t", TI, 0, 1 + e[1] % 3, 2), dim("z", SP, e[0], e[1], e[2]), dim("y", SP, f[0], f[1], f[2]), dim("x", SP, 64, 32, 2) });
            big_case({ dim("t", TI, 0, f[1], 1), dim("y", SP, e[0], e[1], e[2]), dim("x", SP, f[0], f[1], f[2]) });
            if (T || (e[0] ^ f[1]) % 2 == 0)
                big_case({ dim("t", TI, 0, e[1], 3), dim("c", CH, e[0], e[1], e[2]), dim("z", SP, f[0], f[1], f[2]), dim("y", SP, 2, 1, 1), dim("x", SP, 3, 2, 2) });
        }
    R.bound(S(ext.size()) + "^2 combinations of (array, chunk, shard) sizes up to 2^32-1, frame ids up to 2^47; results compared where they fit their return type");
}

// ------------------------------------------------------------------------------------------------ C21
CHECK_FN(C21)
{
    const std::vector<int64_t> ints = { INT32_MIN, -1000, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 100, 127, 128, 255, 256, 65535, 65536, INT32_MAX };
    // log level: set/get over all pairs and triples
    const int levels[] = { ZarrLogLevel_Debug, ZarrLogLevel_Info, ZarrLogLevel_Warning, ZarrLogLevel_Error, ZarrLogLevel_None };
    for (int a : levels)
        for (auto b : ints)
            for (auto c : ints)
                R.run({ { "levels", { a, b, c } } }, [&](Report& r) {
                    int cur = a;
                    if (Zarr_set_log_level((ZarrLogLevel)a) != ZarrStatusCode_Success)
                        r.errs.push_back("setting a valid level failed");
                    for (int64_t v : { (int64_t)a, b, c }) {
                        const bool valid = v >= ZarrLogLevel_Debug && v < ZarrLogLevelCount;
                        const auto st = Zarr_set_log_level((ZarrLogLevel)v);
                        if (valid)
                            cur = (int)v;
                        if ((st == ZarrStatusCode_Success) != valid)
                            r.errs.push_back("set_log_level(" + std::to_string(v) + ") returned " + S(st));
                        if (!valid && st != ZarrStatusCode_InvalidArgument)
                            r.errs.push_back("an invalid level is not reported as an invalid argument");
                        if (Zarr_get_log_level() != cur)
                            r.errs.push_back("level is " + S(Zarr_get_log_level()) + " after setting " + std::to_string(v) + ", expected " + S(cur));
                        r.model_states.push_back(hash_mix(cur, (uint64_t)v));
                    }
                    r.transitions = 4;
                    r.outcome = S(cur);
                    Zarr_set_log_level(ZarrLogLevel_None);
                });
    R.run({ { "what", "status messages" } }, [&](Report& r) {
        std::map<std::string, int> seen;
        for (int c = 0; c < ZarrStatusCodeCount; ++c) {
            const char* m = Zarr_get_status_message((ZarrStatusCode)c);
            if (!m || !*m) {
                r.errs.push_back("no message for status " + S(c));
                continue;
            }
            if (seen.count(m))
                r.errs.push_back("statuses " + S(seen[m]) + " and " + S(c) + " share the message '" + m + "'");
            seen[m] = c;
            if (Zarr_get_status_message((ZarrStatusCode)c) != std::string(m))
                r.errs.push_back("the message changes");
            r.model_states.push_back(c);
        }
        for (auto v : ints)
            if (v < 0 || v >= ZarrStatusCodeCount) {
                const char* m = Zarr_get_status_message((ZarrStatusCode)v);
                if (!m)
                    r.errs.push_back("null message for status " + std::to_string(v));
                else if (seen.count(m))
                    r.errs.push_back("invalid status " + std::to_string(v) + " has the message of a valid one");
            }
        const char* ver = Zarr_get_api_version();
        if (!ver || std::string(ver) != ACQUIRE_ZARR_API_VERSION)
            r.errs.push_back("API version");
        r.transitions = ints.size();
        r.outcome = S(seen.size());
    });
    // dimension arrays: every sequence of three operations
    const std::vector<int64_t> counts = { -2 /* destroy */, 0, 1, 2, 3, 4, 5, 100, 1000 };
    for (auto a : counts)
        for (auto b : counts)
            for (auto c : counts)
                for (int tail = 0; tail < 2; ++tail)
                    R.run({ { "dimension_arrays", { a, b, c } }, { "destroy_twice", tail } }, [&](Report& r) {
                        quiet_logs(true);
                        ZarrStreamSettings s{};
                        size_t cur = 0;
                        for (auto n : { a, b, c }) {
                            if (n == -2) {
                                ZarrStreamSettings_destroy_dimension_array(&s);
                                cur = 0;
                            } else {
                                auto* before = s.dimensions;
                                const auto st = ZarrStreamSettings_create_dimension_array(&s, (size_t)n);
                                if ((st == ZarrStatusCode_Success) != (n >= 3))
                                    r.errs.push_back("create_dimension_array(" + std::to_string(n) + ") returned " + S(st));
                                if (n < 3 && st != ZarrStatusCode_InvalidArgument)
                                    r.errs.push_back("too few dimensions are not reported as an invalid argument");
                                if (n >= 3)
                                    cur = n;
                                else if (s.dimensions != before)
                                    r.errs.push_back("a rejected call replaced the array");
                            }
                            if (s.dimension_count != cur || (s.dimensions != nullptr) != (cur > 0))
                                r.errs.push_back("dimension count " + S(s.dimension_count) + ", expected " + S(cur));
                            if (s.dimensions) // the whole array is the caller's to use
                                for (size_t i = 0; i < cur; ++i)
                                    s.dimensions[i] = { "n", ZarrDimensionType_Space, 1, 1, 1 };
                            r.model_states.push_back(hash_mix(cur, (uint64_t)n));
                        }
                        for (int k = 0; k <= tail; ++k)
                            ZarrStreamSettings_destroy_dimension_array(&s);
                        if (s.dimensions || s.dimension_count)
                            r.errs.push_back("array not released");
                        r.transitions = 4 + tail;
                        r.outcome = S(cur);
                    });
    // null and misuse
    R.run({ { "what", "null arguments" } }, [&](Report& r) {
        quiet_logs(true);
        ZarrStreamSettings_destroy_dimension_array(nullptr);
        for (size_t n : { size_t(0), size_t(2), size_t(3), size_t(1) << 20 })
            if (ZarrStreamSettings_create_dimension_array(nullptr, n) != ZarrStatusCode_InvalidArgument)
                r.errs.push_back("create_dimension_array(null) is not an invalid argument");
        ZarrStream_destroy(nullptr);
        if (ZarrStream_create(nullptr))
            r.errs.push_back("a stream for null settings");
        size_t out = 77;
        char byte = 1;
        if (ZarrStream_append(nullptr, &byte, 1, &out) != ZarrStatusCode_InvalidArgument)
            r.errs.push_back("append to a null stream");
        Cfg c = make3(2, 1, 1, dim("y", SP, 2, 2), dim("x", SP, 2, 2));
        Settings st(c, R.scratch + "/s");
        ZarrStream* s = ZarrStream_create(&st.s);
        if (!s) {
            r.errs.push_back("no stream");
            return;
        }
        if (ZarrStream_append(s, nullptr, 4, &out) != ZarrStatusCode_InvalidArgument)
            r.errs.push_back("append of null data");
        if (ZarrStream_append(s, &byte, 1, nullptr) != ZarrStatusCode_InvalidArgument)
            r.errs.push_back("append with null bytes_out");
        if (ZarrStream_append(nullptr, nullptr, 0, nullptr) != ZarrStatusCode_InvalidArgument)
            r.errs.push_back("append with all null");
        // none of them consumed anything
        const Bytes data = make_frames(c, 1);
        if (ZarrStream_append(s, data.data(), data.size(), &out) != ZarrStatusCode_Success || out != data.size())
            r.errs.push_back("append after rejected appends");
        ZarrStream_destroy(s);
        check_data(snapshot_dir(R.scratch + "/s"), c, data, 1, true, false, r.errs);
        r.transitions = 10;
        r.model_states = { 1 };
        r.outcome = "null";
    });
    R.bound("log levels: all triples over 25 integers; all status codes and 25 out-of-range ones; all triples of dimension array operations over 9 counts; all null arguments");
}

// ------------------------------------------------------------------------------------------------ C24
namespace {
struct Sinks
{
    std::shared_ptr<zarr::ThreadPool> tp;
    std::vector<std::string> errors;
    std::unique_ptr<zarr::SinkCreator> sc;
    Sinks(unsigned threads, bool s3)
    {
        tp = std::make_shared<zarr::ThreadPool>(threads, [this](const std::string& e) { errors.push_back(e); });
        sc = std::make_unique<zarr::SinkCreator>(tp, s3 ? pool(2) : nullptr);
    }
    ~Sinks()
    {
        sc.reset();
        tp->await_stop();
    }
};
std::vector<std::string>
expected_keys(const std::vector<Dim>& d, bool shards)
{
    std::vector<std::string> v = { "" };
    for (size_t i = 1; i < d.size(); ++i) {
        std::vector<std::string> w;
        const uint64_t n = shards ? cdiv(cdiv(d[i].array, d[i].chunk), d[i].shard) : cdiv(d[i].array, d[i].chunk);
        for (auto& p : v)
            for (uint64_t k = 0; k < n; ++k)
                w.push_back(p + "/" + S(k));
        v = w;
    }
    return v;
}
// obstacle: index into the list of directories and files, -1 none
void
sinks_case(Runner& R, const std::vector<Dim>& d, bool shards, bool s3, int obstacle, int kind, const std::string& base_name)
{
    json j = json::array();
    for (auto& x : d)
        j.push_back({ x.array, x.chunk, x.shard });
    R.run({ { "dims", j }, { "shards", shards }, { "s3", s3 }, { "obstacle", obstacle }, { "kind", kind }, { "base", base_name } }, [&](Report& r) {
        quiet_logs(true);
        auto ad = make_dims(d, 0);
        const auto keys = expected_keys(d, shards);
        const std::string root = R.scratch + "/r";
        fs::create_directories(root);
        const std::string base = s3 ? base_name : root + "/" + base_name;
        // directories that must appear
        std::set<std::string> dirs, files;
        for (auto& k : keys) {
            files.insert(base_name + k);
            for (fs::path p = fs::path(base_name + k).parent_path(); !p.empty() && p != "."; p = p.parent_path())
                dirs.insert(p.string());
        }
        std::vector<std::string> places(dirs.begin(), dirs.end());
        places.insert(places.end(), files.begin(), files.end());
        bool blocked = false;
        if (obstacle >= 0) {
            if (obstacle >= (int)places.size())
                return;
            const std::string p = places[obstacle];
            const bool is_dir = obstacle < (int)dirs.size();
            fs::create_directories(fs::path(root + "/" + p).parent_path());
            blocked = true;
            if (kind == 0) { // the wrong kind of thing
                if (is_dir)
                    std::ofstream(root + "/" + p) << "in the way";
                else
                    fs::create_directory(root + "/" + p);
            } else if (kind == 1) // dangling link into nowhere
                fs::create_symlink("/nonexistent-dir/x", root + "/" + p);
            else { // already there: no obstacle
                blocked = false;
                if (is_dir)
                    fs::create_directory(root + "/" + p);
                else
                    std::ofstream(root + "/" + p) << "old content";
            }
        }
        std::vector<std::unique_ptr<zarr::Sink>> sinks;
        bool ok = false;
        std::string threw;
        size_t errors = 0;
        {
            Sinks s(1, s3);
            const std::function<size_t(const ZarrDimension&)> parts = shards ? zarr::shards_along_dimension : zarr::chunks_along_dimension;
            try {
                ok = s3 ? s.sc->make_data_sinks(S3_BUCKET, base, ad.get(), parts, sinks) : s.sc->make_data_sinks((shards ? "file://" : "") + base, ad.get(), parts, sinks);
            } catch (const std::exception& e) {
                threw = e.what();
            }
            if (ok) {
                if (blocked)
                    r.errs.push_back("reported success although '" + places[obstacle] + "' can't be created");
                if (sinks.size() != keys.size())
                    r.errs.push_back(S(sinks.size()) + " sinks, expected " + S(keys.size()));
                // identify each sink by writing its number
                for (size_t i = 0; i < sinks.size(); ++i) {
                    if (!sinks[i]) {
                        r.errs.push_back("sink " + S(i) + " is null");
                        continue;
                    }
                    const Bytes b = "#" + S(i);
                    if (!sinks[i]->write(0, span(b)) || !zarr::finalize_sink(std::move(sinks[i])))
                        r.errs.push_back("sink " + S(i) + " can't be written");
                }
            } else {
                if (!blocked)
                    r.errs.push_back("failed without an obstacle " + threw);
                sinks.clear();
            }
            sinks.clear();
            errors = s.errors.size();
        }
        if (ok && r.errs.empty()) {
            if (s3) {
                Store st = snapshot_s3(S3_BUCKET, base);
                if (st.size() != keys.size())
                    r.errs.push_back(S(st.size()) + " objects");
                for (size_t i = 0; i < keys.size(); ++i)
                    if (st[keys[i].substr(1)] != "#" + S(i))
                        r.errs.push_back("sink " + S(i) + " is not bound to '" + keys[i] + "'");
            } else {
                auto tree = snapshot_tree(root);
                std::map<std::string, Bytes> want;
                for (auto& p : dirs)
                    want[p + "/"] = "";
                for (size_t i = 0; i < keys.size(); ++i)
                    want[base_name + keys[i]] = "#" + S(i);
                auto diff = diff_stores(want, tree);
                if (!diff.empty())
                    r.errs.push_back(diff);
            }
        }
        r.transitions = keys.size();
        r.model_states = { hash_mix(hash_str(j.dump()), obstacle * 4 + kind) };
        r.outcome = S(ok) + ":" + S(keys.size()) + ":" + S(errors > 0);
    });
}
} // namespace

CHECK_FN(C24)
{
    const bool T = R.thorough;
    for (int s3 = 0; s3 <= 1; ++s3)
        for (int sh = 0; sh <= 1; ++sh)
            for (uint32_t y = 1; y <= 4; ++y)
                for (uint32_t cy = 1; cy <= y; ++cy)
                    for (uint32_t x : { 1u, 3u, 5u, 12u })
                        for (uint32_t cx : { 1u, 2u, 3u }) {
                            if (cx > x)
                                continue;
                            sinks_case(R, { dim("t", TI, 0, 2, 2), dim("y", SP, y, cy, 2), dim("x", SP, x, cx, 2) }, sh, s3, -1, 0, "b");
                            for (uint32_t a = 1; a <= 3; ++a)
                                for (uint32_t ca = 1; ca <= a; ++ca)
                                    if (x < 12 || T)
                                        sinks_case(R, { dim("t", TI, 0, 1, 1), dim("c", CH, a, ca, 1 + a % 2), dim("y", SP, y, cy, 1), dim("x", SP, x, cx, 3) }, sh, s3, -1, 0, "deep/er/b");
                        }
    for (uint32_t a = 1; a <= 3; ++a)
        for (uint32_t b = 1; b <= 3; ++b)
            for (uint32_t e = 1; e <= 2; ++e)
                for (int s3 = 0; s3 <= 1; ++s3)
                    sinks_case(R, { dim("t", TI, 0, 1, 1), dim("a", OT, a, 1, 1), dim("b", CH, b, 1, 1), dim("e", SP, e, 1, 1), dim("y", SP, 3, 2, 1), dim("x", SP, 2, 1, 1) }, false, s3, -1, 0, "six");
    // an obstacle at each place
    for (int kind = 0; kind < 3; ++kind)
        for (int o = 0; o < 48; ++o) {
            sinks_case(R, { dim("t", TI, 0, 1, 1), dim("y", SP, 3, 1, 1), dim("x", SP, 4, 2, 1) }, false, false, o, kind, "b");
            sinks_case(R, { dim("t", TI, 0, 1, 1), dim("c", CH, 2, 1, 1), dim("y", SP, 4, 1, 2), dim("x", SP, 3, 1, 1) }, true, false, o, kind, "b/0");
            sinks_case(R, { dim("t", TI, 0, 1, 1), dim("c", CH, 3, 1, 1), dim("y", SP, 2, 1, 1), dim("x", SP, 3, 1, 1) }, false, false, o, kind, "p/q/r");
        }
    R.bound("3D to 6D part lattices up to 4x12 parts, filesystem and S3, chunks and shards; an obstacle (wrong kind, dangling link, already there) at every directory and file");
    // metadata sinks
    for (int ver = 0; ver <= 5; ++ver)
        for (int s3 = 0; s3 <= 1; ++s3)
            for (int o = -1; o < 8; ++o)
                for (const char* base : { "m", "m/n" }) {
                    if (s3 && o >= 0)
                        continue;
                    R.run({ { "metadata_version", ver }, { "s3", s3 }, { "obstacle", o }, { "base", base } }, [&](Report& r) {
                        quiet_logs(true);
                        std::vector<std::string> keys = ver == 2   ? std::vector<std::string>{ ".zattrs", ".zgroup", "0/.zattrs", "acquire.json" }
                                                        : ver == 3 ? std::vector<std::string>{ "zarr.json", "meta/root.group.json", "meta/acquire.json" }
                                                                   : std::vector<std::string>{};
                        std::vector<std::string> places = keys;
                        if (ver == 2)
                            places.push_back("0");
                        if (ver == 3)
                            places.push_back("meta");
                        const std::string root = R.scratch + "/r";
                        fs::create_directories(root);
                        const std::string b = s3 ? base : root + "/" + base;
                        bool blocked = keys.empty();
                        if (o >= 0) {
                            if (o >= (int)places.size())
                                return;
                            const std::string p = b + "/" + places[o];
                            fs::create_directories(fs::path(p).parent_path());
                            if (o < (int)keys.size())
                                fs::create_directory(p);
                            else
                                std::ofstream(p) << "x";
                            blocked = true;
                        }
                        bool ok = false;
                        std::unordered_map<std::string, std::unique_ptr<zarr::Sink>> m;
                        {
                            Sinks s(1, s3);
                            try {
                                ok = s3 ? s.sc->make_metadata_sinks(ver, S3_BUCKET, b, m) : s.sc->make_metadata_sinks(ver, b, m);
                            } catch (const std::exception&) {
                            }
                            if (ok && blocked)
                                r.errs.push_back("success although a sink can't be made");
                            if (!ok && !blocked)
                                r.errs.push_back("failed without an obstacle");
                            if (ok) {
                                if (m.size() != keys.size())
                                    r.errs.push_back(S(m.size()) + " metadata sinks");
                                for (auto& k : keys) {
                                    if (!m.count(k) || !m[k]) {
                                        r.errs.push_back("no sink for key '" + k + "'");
                                        continue;
                                    }
                                    if (!m[k]->write(0, span(k)) || !zarr::finalize_sink(std::move(m[k])))
                                        r.errs.push_back("can't write");
                                }
                            }
                            m.clear();
                        }
                        if (ok) {
                            Store st = s3 ? snapshot_s3(S3_BUCKET, base) : snapshot_dir(b), want;
                            for (auto& k : keys)
                                want[k] = k;
                            auto diff = diff_stores(want, st);
                            if (!diff.empty())
                                r.errs.push_back(diff);
                        }
                        r.transitions = keys.size() + 1;
                        r.model_states = { hash_mix(ver, o + 1) };
                        r.outcome = S(ok) + S(keys.size());
                    });
                }
}
