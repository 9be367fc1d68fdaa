// C23 (sequential part): streams used alternately by one thread do what each does alone
#include "apart.hh"
#include "fake_s3.hh"
#include "runner.hh"
#include "spec.hh"

#include <algorithm>
#include <filesystem>

namespace {
enum { SP = ZarrDimensionType_Space, CH = ZarrDimensionType_Channel, TI = ZarrDimensionType_Time };

struct Life
{
    const char* name;
    Cfg c;
    uint64_t frames;
    std::vector<size_t> pieces;
    int obstacle = 0; // 1: a file where chunks go; 2: settings that are refused; 3: requests for its objects fail
    uint64_t salt = 0;
};

Life
life(const char* name, Cfg c, uint64_t frames, int nap, bool odd, int obstacle = 0, uint64_t salt = 0)
{
    Life l{ name, c, frames, {}, obstacle, salt };
    const size_t total = frame_bytes(c) * frames;
    size_t off = 0;
    for (int i = 0; i < nap; ++i) {
        size_t to = i + 1 == nap ? total : total * (i + 1) / nap;
        if (!odd && i + 1 < nap)
            to -= to % frame_bytes(c);
        l.pieces.push_back(to - off);
        off = to;
    }
    return l;
}

std::vector<Life>
lives(int nap)
{
    std::vector<Life> v;
    Cfg a = make3(2, 2, 1, dim("y", SP, 3, 2), dim("x", SP, 4, 3));
    v.push_back(life("v2", a, 5, nap, false));
    v.push_back(life("v2 other data", a, 5, nap, true, 0, 99));
    Cfg b = make3(3, 1, 2, dim("y", SP, 4, 2, 2), dim("x", SP, 4, 2, 1));
    b.compressed = true;
    b.codec = 2;
    b.multiscale = true;
    b.dtype = ZarrDataType_uint16;
    v.push_back(life("v3 multiscale zstd", b, 5, nap, true, 0, 3));
    Cfg m = a;
    m.multiscale = true;
    m.custom = "{\"who\":\"m\"}";
    v.push_back(life("v2 multiscale", m, 6, nap, false, 0, 4));
    Cfg d;
    d.version = 3;
    d.dims = { dim("t", TI, 0, 2, 1), dim("c", CH, 2, 1, 2), dim("y", SP, 2, 2, 1), dim("x", SP, 3, 2, 2) };
    d.dtype = ZarrDataType_float32;
    d.compressed = true;
    v.push_back(life("v3 4d", d, 7, nap, true, 0, 5));
    Cfg s = a;
    s.s3 = true;
    v.push_back(life("s3 v2", s, 5, nap, false, 0, 6));
    Cfg s3 = b;
    s3.s3 = true;
    v.push_back(life("s3 v3 multiscale", s3, 3, nap, true, 0, 7));
    v.push_back(life("obstructed", a, 5, nap, false, 1, 8));
    Cfg bad = a;
    bad.dims[2].chunk = 0;
    v.push_back(life("refused", bad, 2, nap, false, 2, 9));
    v.push_back(life("s3 failing", s, 5, nap, false, 3, 10));
    return v;
}

struct Run
{
    ZarrStream* s = nullptr;
    std::string log;
    size_t next = 0, off = 0;
};
// one operation of a life
void
step(const Life& l, const std::string& path, const Bytes& data, Run& r)
{
    if (r.next == 0) {
        if (l.obstacle == 1) {
            std::filesystem::create_directories(path + "/0");
            fclose(fopen((path + "/0/0").c_str(), "w"));
        }
        r.s = create_stream(l.c, path);
        if (l.obstacle == 1 && r.s) { // appears after creation, which empties the place
            std::filesystem::create_directories(path + "/0");
            fclose(fopen((path + "/0/0").c_str(), "w"));
        }
        r.log += r.s ? "made" : "refused";
    } else if (r.next <= l.pieces.size()) {
        if (r.s) {
            const size_t n = l.pieces[r.next - 1];
            std::vector<char> piece(data.begin() + r.off, data.begin() + r.off + n);
            static char dummy;
            size_t out = 777;
            const int rc = ZarrStream_append(r.s, n ? piece.data() : &dummy, n, &out);
            r.log += " " + std::to_string(rc) + ":" + std::to_string(out);
            r.off += n;
        }
    } else {
        ZarrStream_destroy(r.s);
        r.s = nullptr;
    }
    ++r.next;
}
Store
snap(const Cfg& c, const std::string& path)
{
    return c.s3 ? snapshot_s3(S3_BUCKET, path) : snapshot_dir(path);
}
std::string
place(const Life& l, const std::string& scratch, int which)
{
    static const char* const names[] = { "a", "ab", "b" };
    return l.c.s3 ? std::string("store-") + names[which] : scratch + "/" + names[which];
}
void
server()
{
    fake_s3::reset();
    fake_s3::serve_only();
    fake_s3::server().buckets[S3_BUCKET];
    fake_s3::decide = nullptr;
}
void
refuse(const std::vector<std::string>& prefixes)
{
    fake_s3::decide = [prefixes](const fake_s3::Request& r) {
        for (auto& p : prefixes)
            if (r.op != "list" && r.op != "bucket_exists" && r.object.compare(0, p.size(), p) == 0 && r.object.find("/0/1/") != std::string::npos)
                return fake_s3::Answer::Error;
        return fake_s3::Answer::Ok;
    };
}
struct Alone
{
    Store store;
    std::string log;
};
Alone alone_here(const Life& l, const std::string& scratch, int which);
const Alone*
alone(const Life& l, const std::string& scratch, int which)
{
    static std::map<std::string, Alone> memo;
    const std::string key = to_json(l.c).dump() + l.name + std::to_string(l.pieces.size()) + place(l, "", which);
    auto it = memo.find(key);
    if (it != memo.end())
        return &it->second;
    const json j = apart([&] {
        const Alone a = alone_here(l, scratch, which);
        json files = json::array();
        for (auto& [k, v] : a.store)
            files.push_back({ binary(k), binary(v) });
        return json{ { "log", binary(a.log) }, { "files", files } };
    });
    std::filesystem::remove_all(place(l, scratch, which));
    if (j.is_null())
        return nullptr;
    Alone& a = memo[key];
    a.log = text(j["log"]);
    for (auto& f : j["files"])
        a.store[text(f[0])] = text(f[1]);
    return &a;
}
Alone
alone_here(const Life& l, const std::string& scratch, int which)
{
    const std::string p = place(l, scratch, which);
    server();
    if (l.obstacle == 3)
        refuse({ p + "/" });
    const Bytes data = make_frames(l.c, l.frames, l.salt);
    Run r;
    for (size_t i = 0; i < l.pieces.size() + 2; ++i)
        step(l, p, data, r);
    return { snap(l.c, p), r.log };
}
uint64_t
choose(int n, int k)
{
    uint64_t r = 1;
    for (int i = 1; i <= k; ++i)
        r = r * (n - k + i) / i;
    return r;
}

void
interleaved(Runner& R, const std::vector<const Life*>& ls, const std::string& order)
{
    json d = { { "order", order } };
    for (auto* l : ls)
        d["streams"].push_back(l->name);
    R.run(d, [&](Report& r0) {
        quiet_logs(true);
        std::vector<const Alone*> want;
        for (size_t i = 0; i < ls.size(); ++i) {
            want.push_back(alone(*ls[i], R.scratch, i));
            if (!want.back()) {
                r0.errs.push_back(std::string(ls[i]->name) + ": crashed alone");
                return;
            }
        }
        const json j = apart([&] {
        Report r;
        for (size_t i = 0; i < ls.size(); ++i) {
            if (!ls[i]->obstacle) {
                const Life& l = *ls[i];
                const Bytes data = make_frames(l.c, l.frames, l.salt);
                if (order.compare(0, 2, "00") == 0) { // what it does alone is right in the first place
                    check_metadata(want[i]->store, l.c, l.frames, r.errs);
                    check_data(want[i]->store, l.c, data, l.frames, true, l.c.multiscale, r.errs);
                }
            }
        }
        server();
        std::vector<std::string> failing;
        std::vector<Bytes> data;
        std::vector<Run> runs(ls.size());
        for (size_t i = 0; i < ls.size(); ++i) {
            data.push_back(make_frames(ls[i]->c, ls[i]->frames, ls[i]->salt));
            if (ls[i]->obstacle == 3)
                failing.push_back(place(*ls[i], R.scratch, i) + "/");
        }
        if (!failing.empty())
            refuse(failing);
        uint64_t h = 1;
        std::vector<int> pos(ls.size());
        for (char c : order) {
            const int i = c - '0';
            step(*ls[i], place(*ls[i], R.scratch, i), data[i], runs[i]);
            ++pos[i];
            ++r.transitions;
            h = 1;
            for (size_t k = 0; k < ls.size(); ++k)
                h = hash_mix(h, hash_mix(hash_str(ls[k]->name), pos[k]));
            r.model_states.push_back(h);
        }
        for (size_t i = 0; i < ls.size(); ++i) {
            if (runs[i].log != want[i]->log)
                r.errs.push_back(std::string(ls[i]->name) + ": returned '" + runs[i].log + "', alone '" + want[i]->log + "'");
            auto df = diff_stores(want[i]->store, snap(ls[i]->c, place(*ls[i], R.scratch, i)));
            if (!df.empty())
                r.errs.push_back(std::string(ls[i]->name) + ": store differs from the one made alone: " + df);
            r.outcome += runs[i].log + ";";
        }
        for (auto& v : fake_s3::server().violations)
            r.errs.push_back("S3 server: " + v);
        json e = json::array();
        for (auto& x : r.errs)
            e.push_back(binary(x));
        return json{ { "errs", e }, { "outcome", binary(r.outcome) }, { "transitions", r.transitions }, { "states", r.model_states } };
        });
        if (j.is_null()) {
            r0.errs.push_back("crash (report on stderr)");
            return;
        }
        for (auto& x : j["errs"])
            r0.errs.push_back(text(x));
        r0.outcome = text(j["outcome"]);
        r0.transitions = j["transitions"];
        r0.model_states = j["states"].get<std::vector<uint64_t>>();
    });
}
void
orders(Runner& R, const std::vector<const Life*>& ls)
{
    std::string o;
    for (size_t i = 0; i < ls.size(); ++i)
        o += std::string(ls[i]->pieces.size() + 2, (char)('0' + i));
    do
        interleaved(R, ls, o);
    while (std::next_permutation(o.begin(), o.end()));
}
} // namespace

CHECK_FN(C23)
{
    const int nap = R.thorough ? 3 : 2;
    const auto v = lives(nap);
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < v.size(); ++j)
            if (R.thorough || i <= j)
                orders(R, { &v[i], &v[j] });
    if (R.thorough) {
        const auto w = lives(1);
        static const int t[][3] = { { 0, 2, 5 }, { 0, 1, 3 }, { 4, 7, 9 }, { 2, 8, 3 }, { 5, 6, 9 }, { 4, 2, 6 } };
        for (auto& x : t)
            orders(R, { &w[x[0]], &w[x[1]], &w[x[2]] });
    }
    R.bound("all " + std::to_string(choose(2 * nap + 4, nap + 2)) + " interleavings of create, " + std::to_string(nap) +
            " appends, destroy of two streams, for every " + (R.thorough ? "ordered" : "unordered") + " pair of 10 lives (V2/V3, filesystem/S3, multiscale, compressed, failing, refused)");
    if (R.thorough)
        R.bound("all 1680 interleavings of create, append, destroy of three streams, for six triples of the lives");
}
