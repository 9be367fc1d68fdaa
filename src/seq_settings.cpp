// C13: settings are validated completely, rejection has no side effects
// C14: an existing store is replaced entirely and nothing else is touched
#include "fake_s3.hh"
#include "runner.hh"
#include "spec.hh"

#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>

namespace fs = std::filesystem;
namespace {
enum { SP = ZarrDimensionType_Space, CH = ZarrDimensionType_Channel, TI = ZarrDimensionType_Time, OT = ZarrDimensionType_Other };
using Str = std::optional<std::string>;

struct RDim
{
    Str name;
    unsigned type;
    uint32_t array, chunk, shard;
};
// One request, every field explicit
struct Req
{
    int version = 2;
    Str path = "@/s"; // "@" stands for the scratch directory
    bool s3 = false;
    Str endpoint = "http://localhost:9000", bucket = S3_BUCKET, key = "key", secret = "secret";
    bool comp = false;
    unsigned compressor = 1, codec = 1, level = 1, shuffle = 1;
    unsigned dtype = 0;
    Str custom = "{}";
    bool null_dims = false;
    std::vector<RDim> dims = { { "t", TI, 0, 2, 1 }, { "c", CH, 2, 1, 1 }, { "y", SP, 3, 2, 1 }, { "x", SP, 4, 2, 1 } };
    long count = -1; // -1: dims.size()
    bool multiscale = false;
    bool null_settings = false;
};

bool
blank(const std::string& s)
{
    return s.find_first_not_of(" \t\n\v\f\r") == std::string::npos;
}
std::string
trimmed(const std::string& s)
{
    if (blank(s))
        return "";
    const auto a = s.find_first_not_of(" \t\n\v\f\r"), b = s.find_last_not_of(" \t\n\v\f\r");
    return s.substr(a, b - a + 1);
}
bool
utf8(const std::string& s)
{
    size_t i = 0;
    while (i < s.size()) {
        const unsigned char c = s[i];
        size_t n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
        if (!n || i + n > s.size())
            return false;
        for (size_t k = 1; k < n; ++k)
            if (((unsigned char)s[i + k] & 0xc0) != 0x80)
                return false;
        const unsigned char d = n > 1 ? s[i + 1] : 0;
        if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d >= 0xa0) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d >= 0x90))
            return false;
        i += n;
    }
    return true;
}
// names of parents in the scratch directory that a store may be made in
bool
good_parent(const std::string& path)
{
    static const std::set<std::string> ok = { "@/s", "@/old", "@/d/s", "s", "./s", "d/s", "@/d/../s", "@/link/s", "@//s", "@/.hidden", "@/with space", "@/\xc3\xa9", "@/oldfile" };
    return ok.count(path) > 0;
}
// The documented rules
bool
valid(const Req& q)
{
    if (q.null_settings)
        return false;
    if (q.version != 2 && q.version != 3)
        return false;
    if (!q.path || blank(*q.path))
        return false;
    if (q.s3) {
        if (!q.endpoint || !q.key || !q.secret || !q.bucket)
            return false;
        if (blank(*q.endpoint) || blank(*q.key) || blank(*q.secret))
            return false;
        const std::string b = trimmed(*q.bucket);
        if (b.size() < 3 || b.size() > 63)
            return false;
        if (!fake_s3::server().buckets.count(b))
            return false;
    } else if (!good_parent(*q.path))
        return false;
    if (q.dtype > ZarrDataType_float64)
        return false;
    if (q.comp) {
        if (q.compressor > 1 || q.codec > 2 || q.level > 9 || q.shuffle > 2)
            return false;
        if (q.compressor == 1 && q.codec == 0)
            return false;
    }
    if (q.custom && !q.custom->empty()) {
        // the documents used are labelled by how they start
        if (json::parse(*q.custom, nullptr, false, true).is_discarded())
            return false;
    }
    const size_t n = q.count < 0 ? q.dims.size() : (size_t)q.count;
    if (q.null_dims || n < 3)
        return false;
    for (size_t i = 0; i < n; ++i) {
        auto& d = q.dims[i];
        if (!d.name || blank(*d.name) || !utf8(*d.name))
            return false;
        if (d.type > 3 || (i + 2 >= n && d.type != ZarrDimensionType_Space))
            return false;
        if ((i > 0 && !d.array) || !d.chunk || (q.version == 3 && !d.shard))
            return false;
    }
    return true;
}

struct Deviation
{
    std::string name;
    std::function<void(Req&)> apply;
    int group; // deviations of one group exclude each other
};
std::vector<Deviation>
deviations()
{
    std::vector<Deviation> v;
    int g = 0;
    auto add = [&](const std::string& n, std::function<void(Req&)> f) { v.push_back({ n, std::move(f), g }); };
    for (int ver : { -1, 0, 1, 2, 3, 4, 255, 256 + 2, INT32_MAX })
        add("version=" + std::to_string(ver), [=](Req& q) { q.version = ver; });
    ++g;
    for (const char* p : { "", " ", "\t\n", "@/missing/s", "@/file/s", "@/file", "@/ro/s", "@/old", "@/d/s", "s", "./s", "d/s", "missing/s", "@/d/../s", "@/link/s", "@/dangling/s", "@//s", "@/.hidden",
                           "@/with space", "@/\xc3\xa9", "@/oldfile" }) {
        if (std::string(p) == "@/file")
            continue;
        add(std::string("path=") + p, [=](Req& q) { q.path = p; });
    }
    add("path=null", [](Req& q) { q.path = std::nullopt; });
    add("path=too long", [](Req& q) { q.path = "@/" + std::string(300, 'p'); });
    add("path=missing, long", [](Req& q) { q.path = "@/" + std::string(5000, 'p') + "/s"; });
    ++g;
    add("s3", [](Req& q) { q.s3 = true; });
    struct
    {
        const char* n;
        Str Req::*m;
    } fields[] = { { "endpoint", &Req::endpoint }, { "key", &Req::key }, { "secret", &Req::secret } };
    for (auto& f : fields) {
        add(std::string(f.n) + "=null", [=](Req& q) { q.s3 = true, q.*f.m = std::nullopt; });
        for (const char* s : { "", " ", "\n\t " })
            add(std::string(f.n) + "=blank" + std::to_string(strlen(s)), [=](Req& q) { q.s3 = true, q.*f.m = s; });
        add(std::string(f.n) + "=padded", [=](Req& q) { q.s3 = true, q.*f.m = " " + *(q.*f.m) + "\n"; });
    }
    add("endpoint=https", [](Req& q) { q.s3 = true, q.endpoint = "https://s3.example.com"; });
    add("endpoint=https padded", [](Req& q) { q.s3 = true, q.endpoint = "  https://s3.example.com:9001 "; });
    add("endpoint=without scheme", [](Req& q) { q.s3 = true, q.endpoint = "localhost:9000"; });
    ++g;
    add("bucket=null", [](Req& q) { q.s3 = true, q.bucket = std::nullopt; });
    for (int n : { 0, 1, 2, 3, 4, 62, 63, 64, 65, 1000 })
        add("bucket length " + std::to_string(n), [=](Req& q) { q.s3 = true, q.bucket = std::string(n, 'b'); });
    add("bucket padded to 3", [](Req& q) { q.s3 = true, q.bucket = " bb"; });
    add("bucket 63 padded", [](Req& q) { q.s3 = true, q.bucket = "  " + std::string(63, 'b') + " \n"; });
    add("bucket missing on the server", [](Req& q) { q.s3 = true, q.bucket = "nosuchbucket"; });
    add("bucket blank", [](Req& q) { q.s3 = true, q.bucket = "     "; });
    ++g;
    for (unsigned t = 0; t <= 12; ++t)
        add("dtype=" + std::to_string(t), [=](Req& q) { q.dtype = t; });
    for (unsigned t : { 255u, 256u, 0x7fffffffu, 0xffffffffu })
        add("dtype=" + std::to_string(t), [=](Req& q) { q.dtype = t; });
    ++g;
    for (unsigned k : { 0u, 1u, 2u, 3u, 256u, 0xffffffffu })
        add("compressor=" + std::to_string(k), [=](Req& q) { q.comp = true, q.compressor = k; });
    ++g;
    for (unsigned k : { 0u, 1u, 2u, 3u, 4u, 257u, 0xffffffffu })
        add("codec=" + std::to_string(k), [=](Req& q) { q.comp = true, q.codec = k; });
    ++g;
    for (unsigned k : { 0u, 5u, 9u, 10u, 11u, 99u, 255u })
        add("level=" + std::to_string(k), [=](Req& q) { q.comp = true, q.level = k; });
    ++g;
    for (unsigned k : { 0u, 1u, 2u, 3u, 4u, 128u, 255u })
        add("shuffle=" + std::to_string(k), [=](Req& q) { q.comp = true, q.shuffle = k; });
    ++g;
    add("custom=null", [](Req& q) { q.custom = std::nullopt; });
    for (const char* c : { "", "{", "}", "{}", "[1,]", "[1", "nul", "null", "{\"a\":}", "{\"a\":1}", "{a:1}", "'x'", "\"x\"", "\"x", "1 2", "{} {}", "/* c */ {}", "{} // c", "// only", " ", "\t{}\n", "[1,2,{\"x\":null}]", "NaN", "-", "1e400", "01", "{\"a\":1,\"a\":2}",
                           "\"\xff\"", "{\"k\":\"\xc3\"}" })
        add(std::string("custom=") + json(c).dump(-1, ' ', true, json::error_handler_t::replace), [=](Req& q) { q.custom = c; });
    ++g;
    add("dims=null", [](Req& q) { q.null_dims = true; });
    for (long n : { 0, 1, 2, 3 })
        add("count=" + std::to_string(n), [=](Req& q) { q.count = n; });
    add("dims=null count=0", [](Req& q) { q.null_dims = true, q.count = 0; });
    for (int n : { 3, 5, 6, 8 })
        add("ndims=" + std::to_string(n), [=](Req& q) {
            while ((int)q.dims.size() < n)
                q.dims.insert(q.dims.begin() + 1, { "extra", OT, 1, 1, 1 });
            while ((int)q.dims.size() > n)
                q.dims.erase(q.dims.begin() + 1);
        });
    ++g;
    for (int i = 0; i < 4; ++i) {
        const std::string w = "dim" + std::to_string(i) + " ";
        add(w + "name=null", [=](Req& q) { q.dims[i < (int)q.dims.size() ? i : 0].name = std::nullopt; });
        const char* names[] = { "", " ", "\t\n", "x", "\"", "\xc3\xa9", "\xff", "\xc3", "a\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82\xac" };
        for (auto n : names)
            add(w + "name=" + json(n).dump(-1, ' ', true, json::error_handler_t::replace) + std::to_string((unsigned char)n[0]), [=](Req& q) { q.dims[std::min<size_t>(i, q.dims.size() - 1)].name = n; });
        for (unsigned t : { 0u, 1u, 2u, 3u, 4u, 5u, 255u, 256u, 0xffffffffu })
            add(w + "type=" + std::to_string(t), [=](Req& q) { q.dims[std::min<size_t>(i, q.dims.size() - 1)].type = t; });
        for (uint32_t a : { 0u, 1u, 7u })
            add(w + "array=" + std::to_string(a), [=](Req& q) { q.dims[std::min<size_t>(i, q.dims.size() - 1)].array = a; });
        for (uint32_t a : { 0u, 1u, 3u })
            add(w + "chunk=" + std::to_string(a), [=](Req& q) { q.dims[std::min<size_t>(i, q.dims.size() - 1)].chunk = a; });
        for (uint32_t a : { 0u, 1u, 2u })
            add(w + "shard=" + std::to_string(a), [=](Req& q) { q.dims[std::min<size_t>(i, q.dims.size() - 1)].shard = a; });
    }
    ++g;
    add("multiscale", [](Req& q) { q.multiscale = true; });
    ++g;
    add("settings=null", [](Req& q) { q.null_settings = true; });
    return v;
}

std::string
subst(const std::string& s, const std::string& root)
{
    return !s.empty() && s[0] == '@' ? root + s.substr(1) : s;
}

void
request(Runner& R, const std::string& what, const Req& q)
{
    R.run({ { "request", what }, { "version", q.version } }, [&](Report& r) {
        quiet_logs(true);
        const std::string root = R.scratch + "/w";
        fs::create_directories(root + "/d");
        fs::create_directories(root + "/ro");
        fs::create_directories(root + "/old/0/0/0");
        std::ofstream(root + "/file") << "file";
        std::ofstream(root + "/oldfile") << "oldfile";
        std::ofstream(root + "/old/0/0/0/0") << "old chunk";
        std::ofstream(root + "/old/.zattrs") << "old metadata";
        fs::create_directory_symlink("d", root + "/link");
        fs::create_symlink("nowhere", root + "/dangling");
        chmod((root + "/ro").c_str(), 0555);
        auto& sv = fake_s3::server();
        sv.buckets["bbb"];
        sv.buckets[std::string(4, 'b')];
        sv.buckets[std::string(62, 'b')];
        sv.buckets[std::string(63, 'b')];
        sv.buckets[std::string(64, 'b')];
        sv.buckets["bb"];
        sv.buckets[S3_BUCKET]["s/.zattrs"] = "old object";
        if (q.endpoint && q.key && q.secret) // what surrounds them is not part of them
            fake_s3::serve_only(trimmed(*q.endpoint), trimmed(*q.key), trimmed(*q.secret));
        const auto before = snapshot_tree(root);
        const auto buckets = sv.buckets;
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd) || chdir(root.c_str()))
            r.errs.push_back("chdir");

        // exactly sized copies of everything
        auto dup = [&](const Str& s) -> std::unique_ptr<char[]> {
            if (!s)
                return nullptr;
            std::unique_ptr<char[]> p(new char[s->size() + 1]);
            memcpy(p.get(), s->c_str(), s->size() + 1);
            return p;
        };
        std::unique_ptr<char[]> strs[6] = { dup(q.path ? Str(subst(*q.path, root)) : q.path), dup(q.custom), dup(q.endpoint), dup(q.bucket), dup(q.key), dup(q.secret) };
        std::vector<std::unique_ptr<char[]>> names;
        std::unique_ptr<ZarrDimensionProperties[]> dims(new ZarrDimensionProperties[q.dims.size()]);
        for (size_t i = 0; i < q.dims.size(); ++i) {
            names.push_back(dup(q.dims[i].name));
            dims[i].name = names.back().get();
            dims[i].type = (ZarrDimensionType)q.dims[i].type;
            dims[i].array_size_px = q.dims[i].array;
            dims[i].chunk_size_px = q.dims[i].chunk;
            dims[i].shard_size_chunks = q.dims[i].shard;
        }
        auto s3 = std::make_unique<ZarrS3Settings>();
        s3->endpoint = strs[2].get();
        s3->bucket_name = strs[3].get();
        s3->access_key_id = strs[4].get();
        s3->secret_access_key = strs[5].get();
        auto comp = std::make_unique<ZarrCompressionSettings>();
        comp->compressor = (ZarrCompressor)q.compressor;
        comp->codec = (ZarrCompressionCodec)q.codec;
        comp->level = q.level;
        comp->shuffle = q.shuffle;
        auto s = std::make_unique<ZarrStreamSettings>();
        s->store_path = strs[0].get();
        s->custom_metadata = strs[1].get();
        s->s3_settings = q.s3 ? s3.get() : nullptr;
        s->compression_settings = q.comp ? comp.get() : nullptr;
        s->dimensions = q.null_dims ? nullptr : dims.get();
        s->dimension_count = q.count < 0 ? q.dims.size() : q.count;
        s->multiscale = q.multiscale;
        s->data_type = (ZarrDataType)q.dtype;
        s->version = (ZarrVersion)q.version;
        const bool want = valid(q);
        ZarrStream* z = ZarrStream_create(q.null_settings ? nullptr : s.get());
        if ((z != nullptr) != want)
            r.errs.push_back(want ? "valid settings were rejected" : "invalid settings were accepted");
        const bool created = z != nullptr;
        if (z)
            ZarrStream_destroy(z);
        if (chdir(cwd))
            r.errs.push_back("chdir back");
        // a request that passes the rules but fails in the environment is not "rejected"
        const bool environment = q.s3 && q.bucket && !blank(*q.bucket) && !buckets.count(trimmed(*q.bucket));
        if (!want && !created && !environment) {
            auto after = snapshot_tree(root);
            auto diff = diff_stores(before, after);
            if (!diff.empty())
                r.errs.push_back("a rejected request changed the file system: " + diff);
        }
        if (!want && !created && sv.buckets != buckets)
            r.errs.push_back("a rejected request changed the server");
        chmod((root + "/ro").c_str(), 0755);
        if (sv.clients_alive)
            r.errs.push_back("connections left open");
        r.transitions = 1 + created;
        r.model_states = { hash_str(what) };
        r.outcome = std::to_string(created) + what.substr(0, what.find('='));
    });
}
} // namespace

CHECK_FN(C13)
{
    const bool T = R.thorough;
    auto dv = deviations();
    Req base;
    request(R, "base", base);
    for (int ver : { 2, 3 })
        for (int s3 = 0; s3 <= 1; ++s3)
            for (auto& d : dv) {
                Req q;
                q.version = ver;
                q.s3 = s3;
                d.apply(q);
                request(R, std::string(s3 ? "s3 " : "") + d.name, q);
            }
    size_t n = 0;
    for (size_t i = 0; i < dv.size(); ++i)
        for (size_t j = i + 1; j < dv.size(); ++j) {
            if (dv[i].group == dv[j].group && dv[i].name.compare(0, 3, "dim") != 0)
                continue;
            if (dv[i].group == dv[j].group && dv[i].name.substr(0, dv[i].name.find('=')) == dv[j].name.substr(0, dv[j].name.find('=')))
                continue;
            for (int ver : { 2, 3 }) {
                if (!T && (i + j + ver) % 3)
                    continue;
                Req q;
                q.version = ver;
                dv[i].apply(q);
                if (dv[j].name.compare(0, 3, "dim") == 0 && q.dims.size() < 4 && dv[j].name.compare(0, 5, "dims=") != 0)
                    continue;
                dv[j].apply(q);
                if (q.count >= 0 && q.count > (long)q.dims.size())
                    continue;
                request(R, dv[i].name + " & " + dv[j].name, q);
                ++n;
            }
        }
    // an accepted stream has its own copy of everything
    for (int ver : { 2, 3 })
        for (int s3 = 0; s3 <= 1; ++s3)
            for (int comp = 0; comp <= 2; ++comp)
                for (int ms = 0; ms <= 1; ++ms)
                    for (int names = 0; names <= 1; ++names) {
                        Cfg c;
                        c.version = ver;
                        c.dims = { dim(names ? "a name longer than any small string buffer" : "t", TI, 0, 2, 1),
                                   dim(names ? "another name longer than any small string buffer" : "c", ZarrDimensionType_Channel, 2, 1, 2),
                                   dim(names ? "yet another name longer than any small buffer" : "y", SP, 4, 2, 1), dim("x", SP, 3, 2, 2) };
                        c.s3 = s3;
                        c.compressed = comp;
                        c.codec = comp;
                        c.multiscale = ms;
                        c.custom = names ? "{\"a key longer than any small string buffer\": [1, 2]}" : "{\"k\":1}";
                        R.run({ { "settings go away", to_json(c) } }, [&](Report& r) {
                            quiet_logs(true);
                            const std::string path = s3 ? "a store path that is longer than any small string buffer" : R.scratch + "/a store path that is longer than any small string buffer";
                            const Bytes data = make_frames(c, 6);
                            RunResult rr = run_frames(c, path, data); // overwrites and frees the settings first
                            if (!rr.created)
                                r.errs.push_back("stream creation failed");
                            for (int st : rr.status)
                                if (st)
                                    r.errs.push_back("append failed");
                            if (r.errs.empty()) {
                                const Store st = s3 ? snapshot_s3(S3_BUCKET, path) : snapshot_dir(path);
                                check_metadata(st, c, 6, r.errs);
                                check_data(st, c, data, 6, true, ms, r.errs);
                            }
                            r.transitions = 8;
                            r.model_states = { hash_str(to_json(c).dump()) };
                            r.outcome = "copied";
                        });
                    }
    R.bound(std::to_string(dv.size()) + " deviations from valid settings, each alone with V2/V3 x filesystem/S3, and " + std::to_string(n) + " pairs");
}

// ------------------------------------------------------------------------------------------------ C14
namespace {
void
put(const std::string& p, const std::string& content = "content that is longer than what a store would put here, to show truncation problems.....")
{
    fs::create_directories(fs::path(p).parent_path());
    std::ofstream(p) << content;
}
struct State
{
    const char* name;
    std::function<void(const std::string& w)> make; // w: directory in which the store "s" lies
    bool may_fail = false;
};
std::vector<State>
states14()
{
    std::vector<State> v;
    auto add = [&](const char* n, std::function<void(const std::string&)> f, bool may_fail = false) { v.push_back({ n, f, may_fail }); };
    add("missing", [](auto&) {});
    add("empty file", [](auto& w) { put(w + "/s", ""); });
    add("file", [](auto& w) { put(w + "/s"); });
    add("empty directory", [](auto& w) { fs::create_directories(w + "/s"); });
    add("nested directories", [](auto& w) {
        put(w + "/s/a/b/c/d/file");
        put(w + "/s/a/other");
        fs::create_directories(w + "/s/x/y/z");
        put(w + "/s/.hidden/.more");
    });
    add("old V2 store with more chunks", [](auto& w) {
        for (const char* f : { ".zattrs", ".zgroup", "0/.zattrs", "0/.zarray", "acquire.json", "1/.zarray", "7/.zarray" })
            put(w + "/s/" + f);
        for (int t = 0; t < 6; ++t)
            for (int y = 0; y < 4; ++y)
                for (int x = 0; x < 4; ++x)
                    put(w + "/s/0/" + std::to_string(t) + "/" + std::to_string(y) + "/" + std::to_string(x));
    });
    add("old V3 store with more shards", [](auto& w) {
        for (const char* f : { "zarr.json", "meta/root.group.json", "meta/acquire.json", "meta/root/0.array.json", "meta/root/5.array.json" })
            put(w + "/s/" + f);
        for (int t = 0; t < 6; ++t)
            for (int y = 0; y < 4; ++y)
                for (int x = 0; x < 4; ++x)
                    put(w + "/s/data/root/0/c" + std::to_string(t) + "/" + std::to_string(y) + "/" + std::to_string(x));
    });
    add("files where directories belong", [](auto& w) {
        put(w + "/s/0");
        put(w + "/s/meta");
        put(w + "/s/data");
    });
    add("directories where files belong", [](auto& w) {
        for (const char* f : { ".zattrs/x", ".zgroup/x", "zarr.json/x", "acquire.json", "0/.zarray/x", "0/0/0/0/0", "meta/root.group.json/x", "meta/acquire.json/y" })
            fs::create_directories(w + "/s/" + f);
    });
    add("symlink to a directory outside", [](auto& w) { fs::create_directory_symlink("../out", w + "/s"); });
    add("symlink to a file outside", [](auto& w) { fs::create_symlink("../out/file", w + "/s"); });
    add("dangling symlink", [](auto& w) { fs::create_symlink("../out/nothing", w + "/s"); }, true);
    add("symlink loop", [](auto& w) { fs::create_symlink("s", w + "/s"); }, true);
    add("symlink to its parent", [](auto& w) { fs::create_directory_symlink(".", w + "/s"); });
    add("symlinks inside pointing out", [](auto& w) {
        fs::create_directories(w + "/s/0/0/0");
        fs::create_directory_symlink(fs::absolute(w + "/../out"), w + "/s/dirlink");
        fs::create_symlink("../../out/file", w + "/s/filelink");
        fs::create_symlink("../../../out/nothing", w + "/s/0/dangling");
        fs::create_directory_symlink("../../../out/dir", w + "/s/0/1");
        fs::create_symlink("../../../../../out/file", w + "/s/0/0/0/0");
        fs::create_symlink("../../out/file", w + "/s/.zattrs");
        fs::create_symlink("../../out/file", w + "/s/zarr.json");
        fs::create_directory_symlink("../../out/dir", w + "/s/meta");
        fs::create_directory_symlink("../../out/dir", w + "/s/data");
        fs::create_directory_symlink("..", w + "/s/up");
    });
    add("hard links to files outside", [](auto& w) {
        fs::create_directories(w + "/s/0/0/0");
        for (const char* f : { ".zattrs", ".zgroup", "acquire.json", "zarr.json", "0/.zarray", "0/0/0/0" })
            fs::create_hard_link(w + "/../out/file", w + "/s/" + f);
    });
    add("store path is a hard link", [](auto& w) { fs::create_hard_link(w + "/../out/file", w + "/s"); });
    add("siblings with similar names", [](auto& w) {
        for (const char* f : { "s1", "s.bak", "S", "s ", " s", "sx/0/0/0/0", "s.zarr/.zattrs", "0", "data/root/0/c0/0/0", "meta/root.group.json", ".zattrs", "zarr.json", "acquire.json", "s.tmp", ".s" })
            put(w + "/" + f);
        put(w + "/s/0/0/0/0");
    });
    add("read-only files inside", [](auto& w) {
        put(w + "/s/0/.zarray");
        put(w + "/s/.zattrs");
        chmod((w + "/s/.zattrs").c_str(), 0444);
        chmod((w + "/s/0/.zarray").c_str(), 0400);
    });
    add("read-only directory inside", [](auto& w) {
        put(w + "/s/ro/file");
        put(w + "/s/a");
        chmod((w + "/s/ro").c_str(), 0555);
    }, true);
    add("unreadable directory inside", [](auto& w) {
        put(w + "/s/no/file");
        chmod((w + "/s/no").c_str(), 0000);
    }, true);
    add("fifo inside", [](auto& w) {
        fs::create_directories(w + "/s");
        mkfifo((w + "/s/fifo").c_str(), 0644);
        mkfifo((w + "/s/.zattrs").c_str(), 0644);
        mkfifo((w + "/s/zarr.json").c_str(), 0644);
    });
    add("fifo", [](auto& w) { mkfifo((w + "/s").c_str(), 0644); });
    add("deep nesting", [](auto& w) {
        std::string p = w + "/s";
        for (int i = 0; i < 150; ++i)
            p += "/n";
        put(p + "/file");
    });
    add("odd names", [](auto& w) {
        for (const char* f : { "new\nline", "sp ace", "back\\slash", "*", "..x", "...", "-rf", "\xff\xfe", "~", "$HOME", "%s" })
            put(w + "/s/" + f);
    });
    return v;
}
// a way of naming the store "s" in directory w
struct Spelling
{
    const char* name;
    const char* path; // "@" is w; relative paths are relative to w
    bool may_fail;
};
} // namespace

CHECK_FN(C14)
{
    std::vector<Cfg> cfgs;
    for (int ver : { 2, 3 })
        for (int ms = 0; ms <= 1; ++ms) {
            Cfg c = make3(ver, 2, 1, dim("y", SP, 4, 2), dim("x", SP, 4, 2));
            c.multiscale = ms;
            cfgs.push_back(c);
        }
    static const Spelling sp[] = { { "absolute", "@/s", false },         { "relative", "s", false },       { "dot", "./s", false },
                                   { "dotdot", "@/../w/s", false },      { "double slash", "@//s", false }, { "through a link", "@/../wl/s", false },
                                   { "trailing slash", "@/s/", true },   { "trailing slashes", "@/s//", true }, { "trailing dot", "@/s/.", true } };
    auto sts = states14();
    for (auto& c : cfgs)
        for (auto& st : sts)
            for (auto& p : sp)
                for (uint64_t f : { 0, 3 }) {
                    if (!R.thorough && f == 0 && &p != sp && !c.multiscale)
                        continue;
                    // a trailing slash makes the path denote the directory that a link leads to
                    if (p.may_fail && !strncmp(st.name, "symlink", 7) && strcmp(st.name, "symlinks inside pointing out"))
                        continue;
                    R.run({ { "state", st.name }, { "spelling", p.name }, { "version", c.version }, { "multiscale", c.multiscale }, { "frames", f } }, [&](Report& r) {
                        quiet_logs(true);
                        const Bytes data = make_frames(c, f);
                        // from an empty start
                        const std::string fresh = R.scratch + "/fresh";
                        run_frames(c, fresh, data);
                        const auto want = snapshot_tree(fresh);
                        fs::remove_all(fresh);
                        const std::string top = R.scratch + "/top", w = top + "/w";
                        fs::create_directories(w);
                        put(top + "/out/file", "outside");
                        put(top + "/out/dir/inner/file2", "outside 2");
                        put(top + "/out/dir/root.group.json", "outside 3");
                        put(w + "/neighbour", "neighbour");
                        fs::create_directory_symlink("w", top + "/wl");
                        st.make(w);
                        auto outside = [&] {
                            auto t = snapshot_tree(top);
                            std::map<std::string, Bytes> o;
                            for (auto& [k, v] : t)
                                if (k != "w/s" && k.compare(0, 4, "w/s/") != 0)
                                    o[k] = v;
                            return o;
                        };
                        const auto before = outside();
                        char cwd[4096];
                        if (!getcwd(cwd, sizeof cwd) || chdir(w.c_str()))
                            r.errs.push_back("chdir");
                        std::string path = p.path;
                        if (path[0] == '@')
                            path = w + path.substr(1);
                        RunResult rr = run_frames(c, path, data);
                        if (chdir(cwd))
                            r.errs.push_back("chdir back");
                        if (!rr.created && !st.may_fail && !p.may_fail)
                            r.errs.push_back("stream creation failed");
                        for (int s : rr.status)
                            if (s)
                                r.errs.push_back("append failed");
                        auto diff = diff_stores(before, outside());
                        if (!diff.empty())
                            r.errs.push_back("outside the store: " + diff);
                        if (rr.created) {
                            if (fs::is_symlink(w + "/s") || !fs::is_directory(w + "/s"))
                                r.errs.push_back("the store path is not a directory");
                            else {
                                diff = diff_stores(want, snapshot_tree(w + "/s"));
                                if (!diff.empty())
                                    r.errs.push_back("store: " + diff);
                            }
                        }
                        for (auto d : { "/s/ro", "/s/no" })
                            chmod((w + d).c_str(), 0755);
                        r.transitions = f + 2;
                        r.model_states = { hash_str(std::string(st.name) + p.name + c.custom) };
                        r.outcome = std::string(st.name) + p.name + std::to_string(rr.created);
                    });
                }
    R.bound(std::to_string(sts.size()) + " states of the store path and its surroundings x 9 spellings of the path x V2/V3 x single/multiscale x {0, 3} frames");
}
