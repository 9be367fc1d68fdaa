// C27: the caller's memory is only read, and only during the call
// C28: the store depends on the settings and the data alone, not on the process around them
#include "apart.hh"
#include "cage.hh"
#include "fake_s3.hh"
#include "runner.hh"
#include "spec.hh"

#include <cerrno>
#include <fcntl.h>
#include <filesystem>
#include <iostream>
#include <locale>
#include <sys/stat.h>
#include <thread>

extern unsigned g_hw_threads;

namespace {
enum { SP = ZarrDimensionType_Space, CH = ZarrDimensionType_Channel, TI = ZarrDimensionType_Time };

Store
snap(const Cfg& c, const std::string& path)
{
    return c.s3 ? snapshot_s3(S3_BUCKET, path) : snapshot_dir(path);
}
void
server()
{
    fake_s3::reset();
    fake_s3::serve_only();
    fake_s3::server().buckets[S3_BUCKET];
    fake_s3::decide = nullptr;
}

void
caged(Runner& R, const Cfg& c, const Bytes& data, const std::vector<size_t>& pieces, bool at_end, unsigned workers)
{
    json d = { { "cfg", to_json(c) }, { "pieces", pieces }, { "page", at_end ? "end" : "start" }, { "workers", workers } };
    R.run(d, [&](Report& r) {
        quiet_logs(true);
        server();
        g_hw_threads = workers;
        const std::string path = c.s3 ? "s" : R.scratch + "/s";
        // all pages stay reserved to the end: nothing else can take their place
        Caged g(c, path, at_end);
        g.protect(PROT_READ);
        ZarrStream* s = ZarrStream_create(g.s);
        ZarrStream_destroy(s); // the same settings again, as they were left
        s = ZarrStream_create(g.s);
        g.protect(PROT_NONE);
        if (!s) {
            r.errs.push_back("stream creation failed");
            return;
        }
        std::vector<std::unique_ptr<Block>> blocks;
        uint64_t h = hash_str(to_json(c).dump()), pos = 0;
        for (size_t n : pieces) {
            blocks.push_back(std::make_unique<Block>(data.data() + pos, n, at_end));
            Block& b = *blocks.back();
            b.protect(PROT_READ);
            const size_t none = 77777;
            Block out(&none, sizeof none, !at_end, alignof(size_t));
            const int rc = ZarrStream_append(s, b.p, n, (size_t*)out.p);
            b.protect(PROT_NONE);
            size_t got;
            memcpy(&got, out.p, sizeof got);
            if (rc != 0 || got != n)
                r.errs.push_back("append of " + std::to_string(n) + " bytes: status " + std::to_string(rc) + ", bytes_out " + std::to_string(got));
            pos += n;
            r.model_states.push_back(hash_mix(h, pos));
            ++r.transitions;
        }
        ZarrStream_destroy(s);
        r.transitions += 2;
        const uint64_t nframes = pos / frame_bytes(c);
        const Store st = snap(c, path);
        check_data(st, c, data.substr(0, nframes * frame_bytes(c)), nframes, true, c.multiscale, r.errs);
        check_metadata(st, c, nframes, r.errs);
        for (auto& v : fake_s3::server().violations)
            r.errs.push_back("S3 server: " + v);
        uint64_t o = 1;
        for (auto& [k, v] : st)
            o = hash_mix(o, hash_mix(hash_str(k), hash_str(v)));
        r.outcome = std::to_string(o);
        g_hw_threads = 1;
    });
}

std::vector<Cfg>
variety()
{
    std::vector<Cfg> v;
    Cfg a = make3(2, 2, 1, dim("y", SP, 3, 2), dim("x", SP, 4, 3));
    v.push_back(a);
    a.dtype = ZarrDataType_uint16;
    a.compressed = true;
    a.custom = "{\"a\":[1,2.5,\"x\"]}";
    v.push_back(a);
    Cfg b = make3(3, 1, 2, dim("y", SP, 4, 2, 2), dim("x", SP, 4, 2, 1));
    b.multiscale = true;
    v.push_back(b);
    b.dtype = ZarrDataType_float32;
    b.compressed = true;
    b.codec = 2;
    v.push_back(b);
    Cfg m = make3(2, 1, 1, dim("y", SP, 5, 2), dim("x", SP, 3, 2));
    m.multiscale = true;
    m.dtype = ZarrDataType_int16;
    v.push_back(m);
    Cfg d;
    d.version = 3;
    d.dims = { dim("t", TI, 0, 2, 1), dim("c", CH, 2, 1, 2), dim("y", SP, 2, 2, 1), dim("x", SP, 3, 2, 2) };
    d.dtype = ZarrDataType_float64;
    v.push_back(d);
    for (int i : { 0, 1, 3 }) {
        v.push_back(v[i]);
        v.back().s3 = true;
    }
    // numbers of two digits everywhere
    Cfg w = make3(3, 1, 1, dim("y", SP, 1, 1, 1), dim("x", SP, 12, 1, 1));
    v.push_back(w);
    w.version = 2;
    w.s3 = true;
    v.push_back(w);
    return v;
}
} // namespace

CHECK_FN(C27)
{
    const bool T = R.thorough;
    auto pieces_of = [](size_t n, size_t k) {
        std::vector<size_t> p;
        for (size_t o = 0; o < n; o += k)
            p.push_back(std::min(k, n - o));
        return p;
    };
    for (const Cfg& c : variety()) {
        if (c.w() > 10)
            continue;
        const size_t fb = frame_bytes(c), n = fb * 5 + fb / 2;
        const Bytes data = make_frames(c, 6).substr(0, n);
        for (bool at_end : { true, false })
            for (unsigned w : { 1u, 3u }) {
                // every piece size
                for (size_t k = 1; k <= 2 * fb + 1; k += (T || k < 4 || k + 2 > fb) ? 1 : 3)
                    if (T || w == 1 || k >= fb)
                        caged(R, c, data, pieces_of(n, k), at_end, w);
                caged(R, c, data, { n }, at_end, w);
                // every first piece, then an empty one, then the rest or whole frames
                for (size_t a = 1; a < 2 * fb; a += T ? 1 : 1 + fb / 7) {
                    caged(R, c, data, { a, 0, n - a }, at_end, w);
                    std::vector<size_t> p{ a };
                    for (size_t k : pieces_of(n - a, fb))
                        p.push_back(k);
                    caged(R, c, data, p, at_end, w);
                }
            }
    }
    // every composition of a few bytes
    for (int ver : { 2, 3 }) {
        Cfg c = make3(ver, 2, 1, dim("y", SP, 1, 1), dim("x", SP, 3, 2));
        const size_t n = T ? 11 : 8;
        const Bytes data = make_frames(c, 4).substr(0, n);
        for (uint64_t m = 0; m < (1ull << (n - 1)); ++m) {
            std::vector<size_t> p;
            size_t last = 0;
            for (size_t i = 1; i <= n; ++i)
                if (i == n || (m >> (i - 1) & 1)) {
                    p.push_back(i - last);
                    last = i;
                }
            for (bool at_end : { true, false })
                caged(R, c, data, p, at_end, 1);
        }
    }
    R.bound("pieces and settings in pages that are read-only during the call, unmapped on one side and closed afterwards; 9 configurations x piece sizes 1..2 frames+1, first pieces 1..2 frames, "
            "compositions of 8 (T: 11) bytes; 1 and 3 workers");
}

namespace {
struct Punct : std::numpunct<char>
{
    std::string do_grouping() const override { return "\1"; }
    char do_thousands_sep() const override { return ','; }
    char do_decimal_point() const override { return ','; }
    std::string do_truename() const override { return "ja"; }
    std::string do_falsename() const override { return "nein"; }
};

enum Kind { HW, ENV, LOCALE, UMASK, CWD, RELATIVE, MOVE, LEVEL, THREADS, ERRNO, STDIN, STREAMS };
struct Dev
{
    Kind kind;
    std::string name, value;
    int n = 0;
};
json
text_of(const Dev& d)
{
    static const char* const k[] = { "hardware threads", "environment", "locale", "umask", "working directory", "relative path", "working directory changes before operation",
                                     "log level", "operations on other threads", "errno", "stdin closed", "standard streams" };
    json j = { k[d.kind] };
    if (!d.name.empty())
        j.push_back(d.name + "=" + d.value);
    else
        j.push_back(d.n);
    return j;
}

uint64_t
life_frames(const Cfg& c)
{
    return c.w() > 10 ? 12 : 7;
}
struct Answer
{
    std::string log;
    Store store;
    std::vector<std::string> errs;
};

// One life in the process as it is. Four appends: whole frames, a piece, several frames, an empty one.
Answer
live(const Cfg& c, const std::string& scratch, const std::vector<Dev>& devs)
{
    Answer a;
    const size_t fb = frame_bytes(c);
    const uint64_t nframes = life_frames(c);
    const Bytes data = make_frames(c, nframes);
    const std::vector<size_t> pieces = { fb, fb / 2, 0, 3 * fb, data.size() - fb - fb / 2 - 3 * fb };
    std::string path = c.s3 ? "s" : scratch + "/s";
    uint32_t other = 0;
    int preset = 0;
    std::vector<std::string> moves(pieces.size() + 2);
    quiet_logs(true);
    const int null = open("/dev/null", O_RDWR);
    for (auto& d : devs)
        switch (d.kind) {
            case HW:
                g_hw_threads = d.n;
                break;
            case ENV:
                setenv(d.name.c_str(), d.value.c_str(), 1);
                tzset();
                break;
            case LOCALE:
                if (d.n == 0)
                    std::locale::global(std::locale(std::locale::classic(), new Punct));
                else
                    setlocale(LC_ALL, d.n == 1 ? "C.UTF-8" : "POSIX");
                std::cout.imbue(std::locale());
                std::cerr.imbue(std::locale());
                break;
            case UMASK:
                umask(d.n);
                break;
            case CWD:
                if (d.n == 0) {
                    if (chdir("/"))
                        a.errs.push_back("harness: chdir");
                } else { // a directory that is gone
                    mkdir((scratch + "/gone").c_str(), 0755);
                    if (chdir((scratch + "/gone").c_str()) || rmdir((scratch + "/gone").c_str()))
                        a.errs.push_back("harness: chdir");
                }
                break;
            case RELATIVE:
                if (!c.s3) {
                    mkdir((scratch + "/d").c_str(), 0755);
                    if (chdir(scratch.c_str()))
                        a.errs.push_back("harness: chdir");
                    path = d.value;
                }
                break;
            case MOVE:
                if (!c.s3 && path[0] == '/') {
                    if (chdir(scratch.c_str()))
                        a.errs.push_back("harness: chdir");
                    path = "s";
                }
                mkdir((scratch + "/e" + std::to_string(d.n)).c_str(), 0755);
                moves[d.n] = scratch + "/e" + std::to_string(d.n);
                break;
            case LEVEL:
                dup2(null, 1);
                dup2(null, 2);
                Zarr_set_log_level((ZarrLogLevel)d.n);
                break;
            case THREADS:
                other = d.n;
                break;
            case ERRNO:
                preset = d.n;
                break;
            case STDIN:
                close(0);
                break;
            case STREAMS:
                std::cout.setstate(d.n & 1 ? std::ios::badbit : std::ios::eofbit);
                std::cerr.setstate(d.n & 1 ? std::ios::badbit : std::ios::eofbit);
                Zarr_set_log_level(ZarrLogLevel_Debug);
                dup2(null, 1);
                dup2(null, 2);
                break;
        }
    ZarrStream* s = nullptr;
    size_t off = 0;
    for (size_t i = 0; i < pieces.size() + 2; ++i) {
        if (!moves[i].empty() && chdir(moves[i].c_str()))
            a.errs.push_back("harness: chdir");
        auto op = [&] {
            errno = preset;
            if (i == 0) {
                s = create_stream(c, path);
                a.log += s ? "made" : "refused";
            } else if (i <= pieces.size()) {
                const size_t n = pieces[i - 1];
                std::vector<char> piece(data.begin() + off, data.begin() + off + n);
                char dummy;
                size_t out = 777;
                if (s) {
                    errno = preset;
                    const int rc = ZarrStream_append(s, n ? piece.data() : &dummy, n, &out);
                    a.log += " " + std::to_string(rc) + ":" + std::to_string(out);
                }
                off += n;
            } else
                ZarrStream_destroy(s);
        };
        if (other >> i & 1)
            std::thread(op).join();
        else
            op();
    }
    std::cout.clear();
    std::cerr.clear();
    std::locale::global(std::locale::classic());
    if (chdir("/"))
        a.errs.push_back("harness: chdir");
    for (auto& m : moves)
        if (!m.empty() && !std::filesystem::is_empty(m))
            a.errs.push_back("something was made in the working directory");
    if (!c.s3) {
        size_t n = 0;
        for (auto& e : std::filesystem::directory_iterator(scratch)) {
            const std::string f = e.path().filename().string();
            if (f != "s" && f != "d" && f[0] != 'e')
                a.errs.push_back("'" + f + "' was made next to the store");
            else
                ++n;
        }
    }
    a.store = snap(c, c.s3 ? "s" : scratch + "/s");
    for (auto& v : fake_s3::server().violations)
        a.errs.push_back("S3 server: " + v);
    return a;
}
json
pack(const Answer& a)
{
    json files = json::array(), errs = json::array();
    for (auto& [k, v] : a.store)
        files.push_back({ binary(k), binary(v) });
    for (auto& e : a.errs)
        errs.push_back(binary(e));
    return { { "log", binary(a.log) }, { "files", files }, { "errs", errs } };
}
Answer
unpack(const json& j)
{
    Answer a;
    a.log = text(j["log"]);
    for (auto& f : j["files"])
        a.store[text(f[0])] = text(f[1]);
    for (auto& e : j["errs"])
        a.errs.push_back(text(e));
    return a;
}

void
around(Runner& R, const Cfg& c, const std::vector<Dev>& devs)
{
    json d = { { "cfg", to_json(c) }, { "process", json::array() } };
    for (auto& x : devs)
        d["process"].push_back(text_of(x));
    R.run(d, [&](Report& r) {
        static std::map<std::string, Answer> memo; // the life in a plain process, checked by the reader
        const std::string key = to_json(c).dump();
        server();
        if (!memo.count(key)) {
            const json j = apart([&] { return pack(live(c, R.scratch, {})); });
            std::filesystem::remove_all(R.scratch);
            std::filesystem::create_directories(R.scratch);
            if (j.is_null()) {
                r.errs.push_back("crash in a plain process (report on stderr)");
                return;
            }
            Answer a = unpack(j);
            const uint64_t n = life_frames(c);
            const Bytes data = make_frames(c, n);
            check_data(a.store, c, data, n, true, c.multiscale, a.errs);
            check_metadata(a.store, c, n, a.errs);
            memo[key] = a;
        }
        const Answer& want = memo[key];
        for (auto& e : want.errs)
            r.errs.push_back("plain process: " + e);
        const json j = apart([&] { return pack(live(c, R.scratch, devs)); });
        if (j.is_null()) {
            r.errs.push_back("crash (report on stderr)");
            return;
        }
        const Answer got = unpack(j);
        for (auto& e : got.errs)
            r.errs.push_back(e);
        if (got.log != want.log)
            r.errs.push_back("returned '" + got.log + "', in a plain process '" + want.log + "'");
        const std::string df = diff_stores(want.store, got.store);
        if (!df.empty())
            r.errs.push_back("store differs from the one made in a plain process: " + df);
        uint64_t h = hash_str(key);
        for (auto& x : devs)
            h = hash_mix(h, hash_str(text_of(x).dump()));
        for (int i = 0; i < 7; ++i)
            r.model_states.push_back(hash_mix(h, i));
        r.transitions = 7;
        for (auto& [k, v] : got.store)
            h = hash_mix(h, hash_mix(hash_str(k), hash_str(v)));
        r.outcome = got.log + std::to_string(h);
    });
}
} // namespace

CHECK_FN(C28)
{
    const bool T = R.thorough;
    std::vector<Dev> devs;
    for (int n : { 2, 3, 4, 5, 7, 8, 16, 64 })
        devs.push_back({ HW, "", "", n });
    const std::vector<std::pair<std::string, std::string>> env = {
        { "BLOSC_CLEVEL", "9" }, { "BLOSC_CLEVEL", "0" }, { "BLOSC_SHUFFLE", "NOSHUFFLE" }, { "BLOSC_SHUFFLE", "BITSHUFFLE" }, { "BLOSC_TYPESIZE", "7" },
        { "BLOSC_COMPRESSOR", "zlib" }, { "BLOSC_COMPRESSOR", "nonsense" }, { "BLOSC_BLOCKSIZE", "64" }, { "BLOSC_NTHREADS", "4" }, { "BLOSC_NOLOCK", "1" },
        { "TZ", "Pacific/Kiritimati" }, { "LC_ALL", "de_DE.UTF-8" }, { "TMPDIR", "/nonexistent" }, { "HOME", "/nonexistent" }, { "PATH", "" },
        { "AWS_ACCESS_KEY_ID", "other" }, { "AWS_SECRET_ACCESS_KEY", "other" }, { "AWS_ENDPOINT_URL", "http://other:1" }, { "AWS_REGION", "other" },
        { "MINIO_ENDPOINT", "http://other:1" }, { "MINIO_ACCESS_KEY", "other" }, { "MINIO_SECRET_KEY", "other" }, { "ZARR_S3_ENDPOINT", "http://other:1" }, { "ZARR_S3_BUCKET_NAME", "other" },
        { "ZARR_S3_ACCESS_KEY_ID", "other" }, { "ZARR_S3_SECRET_ACCESS_KEY", "other" }, { "OMP_NUM_THREADS", "1" } };
    for (auto& [k, v] : env)
        devs.push_back({ ENV, k, v });
    for (int n : { 0, 1, 2 })
        devs.push_back({ LOCALE, "", "", n });
    for (int n : { 0, 022, 027, 077 })
        devs.push_back({ UMASK, "", "", n });
    devs.push_back({ CWD, "", "", 0 });
    devs.push_back({ CWD, "", "", 1 });
    for (const char* p : { "s", "./s", "d/../s", "../c/s" })
        devs.push_back({ RELATIVE, "path", p });
    for (int n = 1; n < 7; ++n)
        devs.push_back({ MOVE, "", "", n });
    for (int n = 0; n < 5; ++n)
        devs.push_back({ LEVEL, "", "", n });
    for (int e : { EINTR, ENOSPC, ENOENT, ERANGE })
        devs.push_back({ ERRNO, "", "", e });
    devs.push_back({ STDIN });
    devs.push_back({ STREAMS, "", "", 1 });
    devs.push_back({ STREAMS, "", "", 2 });
    std::vector<Cfg> cs = variety();
    for (auto& c : cs) {
        around(R, c, {});
        for (auto& d : devs)
            around(R, c, { d });
        // which thread makes which call
        for (int m = 1; m < (1 << 7); m += T ? 1 : c.w() > 10 ? 21 : 2)
            around(R, c, { { THREADS, "", "", m } });
    }
    R.bound("" + std::to_string(cs.size()) + " configurations x " + std::to_string(devs.size()) + " single deviations of the process from a plain one, x all assignments of the seven operations to the main thread or threads of their own");
    // pairs
    devs.push_back({ THREADS, "", "", 0x55 });
    devs.push_back({ THREADS, "", "", 0x7f });
    size_t pairs = 0;
    for (size_t k = 0; k < cs.size(); ++k) {
        if (!T && k != 1 && k != 2)
            continue;
        for (size_t i = 0; i < devs.size(); ++i)
            for (size_t j = i + 1; j < devs.size(); ++j)
                if (devs[i].kind != devs[j].kind || devs[i].kind == MOVE) {
                    if (!T && (devs[i].kind == ENV || devs[j].kind == ENV) && devs[i].kind != HW && devs[j].kind != RELATIVE)
                        continue;
                    if (devs[i].kind == HW && devs[i].n > 8)
                        continue;
                    if (devs[i].kind == CWD && devs[j].kind == RELATIVE)
                        continue; // the same thing twice
                    around(R, cs[k], { devs[i], devs[j] });
                    ++pairs;
                }
    }
    R.bound(std::to_string(pairs) + " pairs of deviations");
}
