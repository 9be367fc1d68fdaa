#include "cfg.hh"
#include "fake_s3.hh"

#include <filesystem>
#include <fstream>
#include <memory>
#include <sstream>

namespace fs = std::filesystem;
const char* const S3_BUCKET = "verif-bucket";

json
to_json(const Cfg& c)
{
    json j;
    j["version"] = c.version;
    for (auto& d : c.dims)
        j["dims"].push_back({ d.name, d.type, d.array, d.chunk, d.shard });
    j["dtype"] = c.dtype;
    if (c.compressed)
        j["compression"] = { c.compressor, c.codec, c.level, c.shuffle };
    if (c.multiscale)
        j["multiscale"] = true;
    if (c.s3)
        j["s3"] = true;
    if (!c.has_custom)
        j["custom"] = nullptr;
    else if (c.custom != "{}")
        j["custom"] = c.custom;
    return j;
}

Cfg
cfg_from_json(const json& j)
{
    Cfg c;
    c.version = j["version"];
    for (auto& d : j["dims"])
        c.dims.push_back({ d[0], d[1], d[2], d[3], d[4] });
    c.dtype = j["dtype"];
    if (j.contains("compression")) {
        c.compressed = true;
        c.compressor = j["compression"][0];
        c.codec = j["compression"][1];
        c.level = j["compression"][2];
        c.shuffle = j["compression"][3];
    }
    c.multiscale = j.value("multiscale", false);
    c.s3 = j.value("s3", false);
    if (j.contains("custom")) {
        if (j["custom"].is_null())
            c.has_custom = false;
        else
            c.custom = j["custom"];
    }
    return c;
}

Bytes
make_frames(const Cfg& c, uint64_t nframes, uint64_t salt)
{
    const uint64_t n = nframes * c.h() * c.w();
    const size_t sz = dtype_size(c.dtype);
    Bytes b(n * sz, 0);
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t v = i + salt * 7919;
        switch (c.dtype) {
            case ZarrDataType_float32: {
                float f = (float)(1 + v % 100003) + 0.5f;
                if (v % 3 == 1)
                    f = -f;
                memcpy(&b[i * sz], &f, sz);
                break;
            }
            case ZarrDataType_float64: {
                double f = (double)(1 + v % 1000003) * 1.25;
                if (v % 3 == 1)
                    f = -f;
                memcpy(&b[i * sz], &f, sz);
                break;
            }
            default:
                // bytes cycle with different primes: all nonzero, signed values of both signs
                static const unsigned prime[8] = { 251, 241, 239, 233, 229, 227, 223, 211 };
                for (size_t k = 0; k < sz; ++k)
                    b[i * sz + k] = (char)(1 + (v + 17 * k) % prime[k]);
                if (sz == 8 && c.multiscale) // means are stated for 64-bit values that a double holds exactly
                    b[i * sz + 6] = b[i * sz + 7] = c.dtype == ZarrDataType_int64 && b[i * sz + 5] < 0 ? -1 : 0;
        }
    }
    return b;
}

Bytes
make_contents(const Cfg& c, uint64_t nframes, int kind)
{
    Bytes b = make_frames(c, nframes);
    uint64_t x = 0x9E3779B97F4A7C15ull;
    for (size_t i = 0; i < b.size(); ++i) {
        x ^= x << 13, x ^= x >> 7, x ^= x << 17;
        if (kind == 1)
            b[i] = 0;
        if (kind == 2)
            b[i] = (char)0xff;
        if (kind == 3)
            b[i] = (char)(x >> 40);
        if (kind == 4 && i % 61 != 17)
            b[i] = 0;
    }
    return b;
}

Cfg
make3(int version, uint32_t ct, uint32_t st, Dim y, Dim x)
{
    Cfg c;
    c.version = version;
    c.dims = { dim("t", ZarrDimensionType_Time, 0, ct, st), y, x };
    return c;
}

Settings::Settings(const Cfg& c, const std::string& p)
  : path(p)
  , custom(c.custom)
{
    for (auto& d : c.dims)
        names.push_back(d.name);
    for (size_t i = 0; i < c.dims.size(); ++i) {
        auto& d = c.dims[i];
        dims.push_back(ZarrDimensionProperties{
          names[i].c_str(), (ZarrDimensionType)d.type, d.array, d.chunk, d.shard });
    }
    s.store_path = path.c_str();
    s.custom_metadata = c.has_custom ? custom.c_str() : nullptr;
    if (c.compressed) {
        comp.compressor = (ZarrCompressor)c.compressor;
        comp.codec = (ZarrCompressionCodec)c.codec;
        comp.level = (uint8_t)c.level;
        comp.shuffle = (uint8_t)c.shuffle;
        s.compression_settings = &comp;
    }
    if (c.s3) {
        s3.endpoint = s3_text[0].c_str();
        s3.bucket_name = s3_text[1].c_str();
        s3.access_key_id = s3_text[2].c_str();
        s3.secret_access_key = s3_text[3].c_str();
        s.s3_settings = &s3;
    }
    s.dimensions = dims.data();
    s.dimension_count = dims.size();
    s.multiscale = c.multiscale;
    s.data_type = (ZarrDataType)c.dtype;
    s.version = (ZarrVersion)c.version;
}

void
Settings::scribble()
{
    for (auto& n : names)
        std::fill(n.begin(), n.end(), '#');
    std::fill(this->path.begin(), this->path.end(), '#');
    std::fill(custom.begin(), custom.end(), '#');
    for (auto& t : s3_text)
        std::fill(t.begin(), t.end(), '#');
    memset((void*)dims.data(), 0x23, dims.size() * sizeof dims[0]);
    memset((void*)&comp, 0x23, sizeof comp);
    memset((void*)&s3, 0x23, sizeof s3);
    memset((void*)&s, 0x23, sizeof s);
}

ZarrStream*
create_stream(const Cfg& c, const std::string& path)
{
    // the settings belong to the caller: they change and go away as soon as the stream is there
    auto st = std::make_unique<Settings>(c, path);
    ZarrStream* s = ZarrStream_create(&st->s);
    st->scribble();
    return s;
}

RunResult
run_stream(const Cfg& c, const std::string& path, const Bytes& data, const std::vector<size_t>& pieces)
{
    RunResult r;
    ZarrStream* s = create_stream(c, path);
    if (!s)
        return r;
    r.created = true;
    size_t off = 0;
    for (size_t n : pieces) {
        // a private, exactly sized copy: reading past the piece is a detectable error
        std::vector<char> piece(data.begin() + off, data.begin() + off + n);
        static char dummy;
        size_t out = (size_t)-1;
        r.status.push_back(ZarrStream_append(s, n ? piece.data() : &dummy, n, &out));
        r.out.push_back(out);
        off += n;
    }
    ZarrStream_destroy(s);
    return r;
}

RunResult
run_frames(const Cfg& c, const std::string& path, const Bytes& data)
{
    std::vector<size_t> p;
    const size_t fb = frame_bytes(c);
    for (size_t o = 0; o < data.size(); o += fb)
        p.push_back(std::min(fb, data.size() - o));
    return run_stream(c, path, data, p);
}

static Bytes
slurp(const fs::path& p)
{
    std::ifstream f(p, std::ios::binary);
    std::ostringstream ss;
    ss << f.rdbuf();
    return std::move(ss).str();
}

Store
snapshot_dir(const std::string& root)
{
    Store s;
    if (!fs::exists(root))
        return s;
    for (auto& e : fs::recursive_directory_iterator(root))
        if (e.is_regular_file())
            s[fs::relative(e.path(), root).string()] = slurp(e.path());
    return s;
}

std::map<std::string, Bytes>
snapshot_tree(const std::string& root)
{
    std::map<std::string, Bytes> s;
    for (auto& e : fs::recursive_directory_iterator(root, fs::directory_options::skip_permission_denied)) {
        auto rel = e.path().lexically_relative(root).string();
        if (e.is_symlink())
            s[rel] = "-> " + fs::read_symlink(e.path()).string();
        else if (e.is_directory())
            s[rel + "/"] = "";
        else if (e.is_regular_file())
            s[rel] = slurp(e.path());
        else
            s[rel] = "?";
    }
    return s;
}

Store
snapshot_s3(const std::string& bucket, const std::string& prefix)
{
    Store s;
    for (auto& [k, v] : fake_s3::server().buckets[bucket])
        if (k.size() > prefix.size() && k.compare(0, prefix.size(), prefix) == 0 && k[prefix.size()] == '/')
            s[k.substr(prefix.size() + 1)] = v;
    return s;
}

std::string
diff_stores(const Store& a, const Store& b, bool ignore_empty)
{
    for (auto& [k, v] : a) {
        if (ignore_empty && v.empty())
            continue;
        auto it = b.find(k);
        if (it == b.end())
            return "'" + k + "' is missing";
        if (it->second != v) {
            size_t i = 0;
            while (i < v.size() && i < it->second.size() && v[i] == it->second[i])
                ++i;
            return "'" + k + "' differs at byte " + std::to_string(i) + " (sizes " + std::to_string(v.size()) +
                   " and " + std::to_string(it->second.size()) + ")";
        }
    }
    for (auto& [k, v] : b)
        if (!(ignore_empty && v.empty()) && !a.count(k))
            return "'" + k + "' is unexpected";
    return {};
}
