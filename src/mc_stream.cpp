// C10: whole streams under all schedules of their workers. C23: two streams at once.
#include "cage.hh"
#include "mc/explore.hh"
#include "fake_s3.hh"

#include <sys/stat.h>
#include <thread>
#include <unistd.h>

extern unsigned g_hw_threads;
namespace {
struct Quiet
{
    Quiet() { mcrt_ignore(1); }
    ~Quiet() { mcrt_ignore(-1); }
};
void
hook(int phase, const void* client, const char*, const std::string& key)
{
    if (phase == 0)
        mcrt::user_point((uint64_t)client, true);
    else
        mcrt::user_point((uint64_t)client, true, mcrt::hash_bytes(key.data(), key.size()) | 1, true);
}
void
setup()
{
    fake_s3::reset();
    fake_s3::serve_only();
    fake_s3::server().buckets[S3_BUCKET];
    fake_s3::decide = nullptr;
    fake_s3::sched_hook = hook;
}
std::string
status(const RunResult& r)
{
    std::string s = r.created ? "created" : "refused";
    for (size_t i = 0; i < r.status.size(); ++i)
        s += " " + std::to_string(r.status[i]) + "/" + std::to_string(r.out[i]);
    return s;
}
uint64_t
store_hash(const Store& s)
{
    uint64_t h = 7;
    for (auto& [k, v] : s)
        h = hash_mix(hash_mix(h, hash_str(k)), hash_str(v));
    return h;
}

enum Obst { NONE, FILE_AS_DIR, DIR_AS_CHUNK, NO_BUCKET, PUT_FAILS, BAD_META, DANGLING };
struct Prog
{
    Cfg c;
    uint64_t frames;
    unsigned workers;
    Obst obst = NONE;
};
std::string
run(const Prog& p, Errs& errs, const std::string& dir)
{
    setup();
    g_hw_threads = p.workers;
    const std::string path = p.c.s3 ? "store" : dir + "/store";
    const Bytes data = make_frames(p.c, p.frames);
    if (p.obst == FILE_AS_DIR) { // a file where a directory of chunks has to be
        mkdir(path.c_str(), 0755);
        mkdir((path + "/0").c_str(), 0755);
        fclose(fopen((path + "/0/1").c_str(), "w"));
    } else if (p.obst == NO_BUCKET)
        fake_s3::server().buckets.clear();
    else if (p.obst == PUT_FAILS)
        fake_s3::decide = [](const fake_s3::Request& r) {
            return r.op == "put" && r.object.size() > 4 && r.object.substr(r.object.size() - 4) == "/0/0" ? fake_s3::Answer::Error : fake_s3::Answer::Ok;
        };
    else if (p.obst == BAD_META) {
        mkdir(path.c_str(), 0755);
        mkdir((path + "/0").c_str(), 0755);
        mkdir((path + "/0/.zarray").c_str(), 0755);
    }
    mcrt::begin();
    if (p.obst == DIR_AS_CHUNK || p.obst == DANGLING) {
        // appears between creation and the first chunk
        RunResult r;
        auto* st = create_stream(p.c, path);
        r.created = st != nullptr;
        if (p.obst == DANGLING) {
            if (symlink("/nonexistent-dir/x", (path + "/0/0").c_str()))
                errs.push_back("harness: symlink");
        } else {
            mkdir((path + "/0/0").c_str(), 0755);
            mkdir((path + "/0/0/0").c_str(), 0755);
            mkdir((path + "/0/0/0/1").c_str(), 0755);
        }
        if (st) {
            const size_t fb = frame_bytes(p.c);
            for (uint64_t f = 0; f < p.frames; ++f) {
                size_t out = 0;
                r.status.push_back(ZarrStream_append(st, data.data() + f * fb, fb, &out));
                r.out.push_back(out);
            }
            ZarrStream_destroy(st);
        }
        mcrt::end();
        return status(r);
    }
    RunResult r = run_frames(p.c, path, data);
    mcrt::end();
    if (p.obst != NONE)
        return status(r);
    const Store s = p.c.s3 ? snapshot_s3(S3_BUCKET, path) : snapshot_dir(path);
    if (!r.created)
        errs.push_back("the stream could not be created");
    for (size_t i = 0; i < r.status.size(); ++i)
        if (r.status[i] != 0)
            errs.push_back("append failed");
    if (errs.empty()) {
        check_metadata(s, p.c, p.frames, errs);
        check_data(s, p.c, data, p.frames, true, true, errs);
    }
    for (auto& v : fake_s3::server().violations)
        errs.push_back("S3 server: " + v);
    return status(r) + " " + std::to_string(store_hash(s));
}
Cfg
small(int version, bool compressed, bool s3, uint32_t y, uint32_t yc, uint32_t x, uint32_t xc, uint32_t ys = 1, uint32_t ts = 1, uint32_t ct = 1)
{
    Cfg c = make3(version, ct, ts, dim("y", 0, y, yc, ys), dim("x", 0, x, xc));
    c.compressed = compressed;
    c.s3 = s3;
    return c;
}
} // namespace

CHECK_FN(C10)
{
    quiet_logs(true);
    std::vector<Prog> ps;
    ps.push_back({ small(2, false, false, 1, 1, 2, 1), 1, 2 });
    ps.push_back({ small(2, true, false, 1, 1, 2, 1), 1, 2 });
    ps.push_back({ small(3, false, false, 2, 1, 1, 1), 1, 2 });
    ps.push_back({ small(3, true, false, 2, 1, 1, 1, 2, 1), 2, 2 });
    ps.push_back({ small(2, false, true, 1, 1, 2, 1), 1, 2 });
    ps.push_back({ small(3, true, true, 2, 1, 1, 1), 1, 2 });
    {
        Cfg c = small(2, false, false, 2, 1, 2, 1);
        c.multiscale = true;
        ps.push_back({ c, 2, 2 });
    }
    ps.push_back({ small(2, false, false, 1, 1, 2, 1), 2, 3 });
    ps.push_back({ small(3, false, false, 2, 1, 1, 1, 1, 2), 3, 2 });
    ps.push_back({ small(2, false, false, 2, 1, 1, 1), 1, 2, FILE_AS_DIR });
    ps.push_back({ small(2, false, false, 1, 1, 2, 1), 2, 2, DIR_AS_CHUNK });
    ps.push_back({ small(2, false, false, 1, 1, 2, 1), 2, 2, DANGLING });
    ps.push_back({ small(2, true, true, 1, 1, 2, 1), 1, 2, NO_BUCKET });
    ps.push_back({ small(2, true, true, 1, 1, 2, 1), 2, 2, PUT_FAILS });
    ps.push_back({ small(2, false, false, 1, 1, 2, 1), 1, 2, BAD_META });
    for (auto& p : ps) {
        json d = { { "cfg", to_json(p.c) }, { "frames", p.frames }, { "workers", p.workers }, { "obstacle", (int)p.obst } };
        mcx::Opts o;
        o.bound = R.thorough ? 2 : 1;
        o.secs = R.thorough ? 10 : 0.6;
        o.hard = R.thorough ? 40 : 60;
        o.one_outcome = true;
        mcx::explore(R, d, o, [p](Errs& e, const std::string& dir) { return run(p, e, dir); });
    }
}

namespace {
// A stream's life on a thread of its own, next to another one's
struct One
{
    Cfg c;
    uint64_t frames;
    int obst = 0; // 1: a directory where a chunk goes; 2: refused
    uint64_t salt = 0;
};
std::string
life(const One& o, const std::string& path, const Bytes& data)
{
    RunResult r;
    ZarrStream* s = create_stream(o.c, path);
    r.created = s != nullptr;
    if (s) {
        if (o.obst == 1) {
            mkdir((path + "/0").c_str(), 0755);
            mkdir((path + "/0/0").c_str(), 0755);
            mkdir((path + "/0/0/0").c_str(), 0755);
            mkdir((path + "/0/0/0/0").c_str(), 0755);
        }
        const size_t fb = frame_bytes(o.c);
        for (uint64_t f = 0; f < o.frames; ++f) {
            size_t out = 0;
            r.status.push_back(ZarrStream_append(s, data.data() + f * fb, fb, &out));
            r.out.push_back(out);
        }
        ZarrStream_destroy(s);
    }
    return status(r);
}
Store
snap(const One& o, const std::string& path)
{
    return o.c.s3 ? snapshot_s3(S3_BUCKET, path) : snapshot_dir(path);
}
std::string
run_two(const One& a, const One& b, bool logs, Errs& errs, const std::string& dir)
{
    const One* o[2] = { &a, &b };
    std::string path[2], log[2], alone[2];
    Bytes data[2];
    Store want[2];
    g_hw_threads = 1;
    mcrt::output = logs ? +[](int, const char*, size_t) {} : nullptr;
    for (int i = 0; i < 2; ++i) {
        path[i] = o[i]->c.s3 ? "store" + std::to_string(i) : dir + "/store" + std::to_string(i);
        data[i] = make_frames(o[i]->c, o[i]->frames, o[i]->salt);
    }
    setup();
    mcrt::begin();
    {
        std::thread t([&] { log[1] = life(*o[1], path[1], data[1]); });
        log[0] = life(*o[0], path[0], data[0]);
        t.join();
    }
    mcrt::end();
    std::string out;
    for (int i = 0; i < 2; ++i) {
        const Store s = snap(*o[i], path[i]);
        if (o[i]->obst == 0) {
            std::string w = "created";
            for (uint64_t f = 0; f < o[i]->frames; ++f)
                w += " 0/" + std::to_string(frame_bytes(o[i]->c));
            if (log[i] != w)
                errs.push_back("stream " + std::to_string(i) + " returned '" + log[i] + "', alone '" + w + "'");
            else {
                check_metadata(s, o[i]->c, o[i]->frames, errs);
                check_data(s, o[i]->c, data[i], o[i]->frames, true, true, errs);
            }
        }
        out += log[i] + " " + std::to_string(store_hash(s)) + "; ";
    }
    for (auto& v : fake_s3::server().violations)
        errs.push_back("S3 server: " + v);
    return out;
}
} // namespace

CHECK_FN(C23m)
{
    auto c2 = small(2, false, false, 1, 1, 1, 1);
    auto c2z = small(2, true, false, 1, 1, 1, 1);
    auto c3 = small(3, false, false, 1, 1, 1, 1);
    auto s2 = small(2, false, true, 1, 1, 1, 1);
    auto s3 = small(3, true, true, 1, 1, 1, 1);
    auto ms = small(2, false, false, 2, 1, 1, 1);
    ms.multiscale = true;
    auto bad = c2;
    bad.dims[1].chunk = 0;
    struct Two
    {
        One a, b;
        bool logs = false;
    };
    std::vector<Two> ts = {
        { { c2, 1 }, { c2, 1, 0, 9 } },
        { { c2z, 1 }, { c3, 1, 0, 9 } },
        { { s2, 1 }, { s2, 1, 0, 9 } },
        { { s3, 1 }, { c2, 1, 0, 9 } },
        { { ms, 2 }, { c3, 2, 0, 9 } },
        { { ms, 2 }, { ms, 2, 0, 9 } },
        { { c2, 1, 1 }, { c2, 1, 0, 9 } },
        { { c2, 1 }, { bad, 1, 2 } },
        { { c2, 1, 1 }, { c3, 1, 1, 9 }, true },
        { { c2, 1 }, { s2, 1, 0, 9 }, true },
    };
    for (auto& t : ts) {
        json d = { { "a", to_json(t.a.c) }, { "b", to_json(t.b.c) }, { "frames", { t.a.frames, t.b.frames } }, { "obstacles", { t.a.obst, t.b.obst } }, { "logs", t.logs } };
        mcx::Opts o;
        o.bound = R.thorough ? 2 : 1;
        o.secs = R.thorough ? 15 : 0.6;
        o.hard = R.thorough ? 40 : 60;
        o.one_outcome = true;
        const bool logs = t.logs;
        mcx::explore(
          R, d, o,
          [t, logs](Errs& e, const std::string& dir) {
              if (logs)
                  Zarr_set_log_level(ZarrLogLevel_Debug);
              else
                  quiet_logs(true);
              return run_two(t.a, t.b, logs, e, dir);
          });
    }
}

namespace {
// Settings and pieces are read-only during the call and inaccessible after it.
std::string
caged(const Cfg& c, uint64_t frames, size_t piece, unsigned workers, Errs& errs, const std::string& dir)
{
    setup();
    g_hw_threads = workers;
    const std::string path = c.s3 ? "store" : dir + "/store";
    const Bytes data = make_frames(c, frames);
    std::vector<std::unique_ptr<Block>> blocks;
    for (size_t o = 0; o < data.size(); o += piece)
        blocks.push_back(std::make_unique<Block>(data.data() + o, std::min(piece, data.size() - o), true));
    Caged g(c, path, true);
    RunResult r;
    mcrt::begin();
    g.protect(PROT_READ);
    ZarrStream* s = ZarrStream_create(g.s);
    g.protect(PROT_NONE);
    r.created = s != nullptr;
    if (s) {
        size_t off = 0;
        for (auto& b : blocks) {
            const size_t n = std::min(piece, data.size() - off);
            size_t out = 0;
            b->protect(PROT_READ);
            r.status.push_back(ZarrStream_append(s, b->p, n, &out));
            b->protect(PROT_NONE);
            r.out.push_back(out);
            off += n;
        }
        ZarrStream_destroy(s);
    }
    mcrt::end();
    if (!r.created)
        errs.push_back("the stream could not be created");
    for (int rc : r.status)
        if (rc != 0)
            errs.push_back("append failed");
    const Store st = c.s3 ? snapshot_s3(S3_BUCKET, path) : snapshot_dir(path);
    if (errs.empty()) {
        check_metadata(st, c, frames, errs);
        check_data(st, c, data, frames, true, true, errs);
    }
    return status(r) + " " + std::to_string(store_hash(st));
}
} // namespace

CHECK_FN(C27m)
{
    quiet_logs(true);
    struct Cage
    {
        Cfg c;
        uint64_t frames;
        size_t piece;
        unsigned workers;
    };
    Cfg ms = small(2, false, false, 2, 1, 2, 1);
    ms.multiscale = true;
    std::vector<Cage> v = {
        { small(2, false, false, 1, 1, 2, 1), 1, 1, 2 }, { small(2, true, false, 1, 1, 2, 1), 1, 2, 2 },   { small(3, false, false, 2, 1, 1, 1), 2, 3, 2 },
        { small(3, true, false, 2, 1, 1, 1, 2), 1, 2, 2 }, { small(2, true, true, 1, 1, 2, 1), 1, 2, 2 }, { small(3, false, true, 2, 1, 1, 1), 1, 1, 2 },
        { ms, 2, 8, 1 },                                 { ms, 2, 3, 1 },
    };
    for (auto& k : v) {
        json d = { { "cfg", to_json(k.c) }, { "frames", k.frames }, { "piece", k.piece }, { "workers", k.workers } };
        mcx::Opts o;
        o.bound = R.thorough ? 2 : 1;
        o.secs = R.thorough ? 10 : 0.6;
        o.hard = R.thorough ? 40 : 60;
        o.one_outcome = true;
        mcx::explore(R, d, o, [k](Errs& e, const std::string& dir) { return caged(k.c, k.frames, k.piece, k.workers, e, dir); });
    }
}
