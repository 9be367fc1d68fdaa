#include "spec.hh"

#include <blosc.h>

#include <algorithm>
#include <cmath>
#include <set>

namespace {
const char* v2_types[] = { "<u1", "<u2", "<u4", "<u8", "<i1", "<i2", "<i4", "<i8", "<f4", "<f8" };
const char* v3_types[] = { "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64" };

std::string
join(const std::vector<uint64_t>& v, size_t from = 0)
{
    std::string s;
    for (size_t i = from; i < v.size(); ++i)
        s += (i > from ? "/" : "") + std::to_string(v[i]);
    return s;
}

bool
parse(const Store& s, const std::string& key, json& j, Errs& errs)
{
    auto it = s.find(key);
    if (it == s.end()) {
        errs.push_back("'" + key + "' is missing");
        return false;
    }
    j = json::parse(it->second, nullptr, false);
    if (j.is_discarded()) {
        errs.push_back("'" + key + "' is not valid JSON: '" + it->second.substr(0, 80) + "'");
        return false;
    }
    return true;
}

// Decode one stored chunk; must give exactly nbytes.
bool
decode(const Bytes& raw, const Cfg& c, size_t nbytes, Bytes& out, std::string& why)
{
    if (!c.real_compression()) {
        if (raw.size() != nbytes) {
            why = "has " + std::to_string(raw.size()) + " bytes, expected " + std::to_string(nbytes);
            return false;
        }
        out = raw;
        return true;
    }
    size_t nb = 0, cb = 0, bs = 0, ts = 0;
    int fl = 0;
    if (raw.size() < BLOSC_MIN_HEADER_LENGTH || blosc_cbuffer_validate(raw.data(), raw.size(), &nb) != 0) {
        why = "is not a valid blosc buffer (" + std::to_string(raw.size()) + " bytes)";
        return false;
    }
    blosc_cbuffer_sizes(raw.data(), &nb, &cb, &bs);
    blosc_cbuffer_metainfo(raw.data(), &ts, &fl);
    if (nb != nbytes || cb != raw.size()) {
        why = "decodes to " + std::to_string(nb) + " bytes, expected " + std::to_string(nbytes);
        return false;
    }
    if (ts != dtype_size(c.dtype)) {
        why = "is compressed with item size " + std::to_string(ts);
        return false;
    }
    if (!(fl & BLOSC_MEMCPYED)) {
        const char* lib = blosc_cbuffer_complib(raw.data());
        const char* want = c.codec == ZarrCompressionCodec_BloscZstd ? "Zstd" : "LZ4";
        if (!lib || std::string(lib) != want) {
            why = std::string("is compressed with ") + (lib ? lib : "?") + " instead of " + want;
            return false;
        }
        // Blosc itself turns bitshuffle off for buffers smaller than 8 items: no demand there.
        const bool bytesh = fl & BLOSC_DOSHUFFLE, bitsh = fl & BLOSC_DOBITSHUFFLE;
        if ((c.shuffle == 0 && (bytesh || bitsh)) || (c.shuffle == 1 && bitsh) || (c.shuffle == 2 && bytesh)) {
            why = "has shuffle flags " + std::to_string(fl) + " for shuffle setting " + std::to_string(c.shuffle);
            return false;
        }
    }
    out.resize(nbytes);
    if (blosc_decompress_ctx(raw.data(), out.data(), nbytes, 1) != (int)nbytes) {
        why = "cannot be decompressed";
        return false;
    }
    return true;
}

bool
next(std::vector<uint64_t>& idx, const std::vector<uint64_t>& n)
{
    for (size_t i = idx.size(); i-- > 0;) {
        if (++idx[i] < n[i])
            return true;
        idx[i] = 0;
    }
    return false;
}
uint64_t
prod(const std::vector<uint64_t>& v)
{
    uint64_t p = 1;
    for (auto x : v)
        p *= x;
    return p;
}

// copy a decoded chunk at lattice position pos into the dense array
void
place(Level& L, const std::vector<uint64_t>& pos, const Bytes& chunk, size_t sz, Errs& errs, const std::string& name)
{
    const size_t nd = L.shape.size();
    std::vector<uint64_t> i(nd, 0);
    uint64_t ci = 0;
    bool pad_bad = false;
    do {
        uint64_t off = 0;
        bool inside = true;
        for (size_t k = 0; k < nd; ++k) {
            const uint64_t p = pos[k] * L.chunk[k] + i[k];
            if (p >= L.shape[k])
                inside = false;
            off = off * L.shape[k] + p;
        }
        if (inside)
            memcpy(&L.data[off * sz], &chunk[ci * sz], sz);
        else if (!pad_bad)
            for (size_t b = ci * sz; b < (ci + 1) * sz; ++b)
                if (chunk[b]) {
                    pad_bad = true;
                    errs.push_back("chunk " + name + ": padding outside the array is not zero");
                    break;
                }
        ++ci;
    } while (next(i, L.chunk));
}
} // namespace

bool
read_level(const Store& s, const Cfg& c, int l, Level& L, Errs& errs)
{
    const size_t e0 = errs.size();
    const std::string ls = std::to_string(l);
    const std::string mkey = c.version == 2 ? ls + "/.zarray" : "meta/root/" + ls + ".array.json";
    if (!parse(s, mkey, L.meta, errs))
        return false;
    json& m = L.meta;
    try {
        L.shape = m.at("shape").get<std::vector<uint64_t>>();
        std::string t;
        if (c.version == 2) {
            L.chunk = m.at("chunks").get<std::vector<uint64_t>>();
            t = m.at("dtype");
            for (int i = 0; i < 10; ++i)
                if (t == v2_types[i])
                    L.dtype = i;
        } else {
            L.chunk = m.at("chunk_grid").at("chunk_shape").get<std::vector<uint64_t>>();
            t = m.at("data_type");
            for (int i = 0; i < 10; ++i)
                if (t == v3_types[i])
                    L.dtype = i;
            L.shard = m.at("storage_transformers").at(0).at("configuration").at("chunks_per_shard").get<std::vector<uint64_t>>();
        }
    } catch (const std::exception& ex) {
        errs.push_back(mkey + ": " + ex.what());
        return false;
    }
    const size_t nd = c.nd();
    if (L.shape.size() != nd || L.chunk.size() != nd || (c.version == 3 && L.shard.size() != nd) || L.dtype != c.dtype) {
        errs.push_back(mkey + ": wrong rank or data type");
        return false;
    }
    for (size_t k = 0; k < nd; ++k)
        if (L.chunk[k] == 0 || (c.version == 3 && L.shard[k] == 0) || (k && L.shape[k] == 0) ||
            L.shape[k] > (1u << 30) || L.chunk[k] > (1u << 30)) {
            errs.push_back(mkey + ": impossible shape");
            return false;
        }
    const size_t sz = dtype_size(c.dtype);
    const uint64_t chunk_elems = prod(L.chunk), total = prod(L.shape);
    if (chunk_elems > (1u << 28) || total > (1u << 28)) {
        errs.push_back(mkey + ": shape too large");
        return false;
    }
    L.data.assign(total * sz, '\0');
    std::vector<uint64_t> lattice(nd);
    for (size_t k = 0; k < nd; ++k)
        lattice[k] = cdiv(L.shape[k], L.chunk[k]);
    L.present.assign(prod(lattice), false);

    std::set<std::string> seen;
    if (total > 0) {
        if (c.version == 2) {
            std::vector<uint64_t> pos(nd, 0);
            uint64_t n = 0;
            do {
                const std::string key = ls + "/" + join(pos);
                seen.insert(key);
                auto it = s.find(key);
                if (it == s.end()) {
                    errs.push_back("chunk '" + key + "' is missing");
                } else {
                    Bytes d;
                    std::string why;
                    if (decode(it->second, c, chunk_elems * sz, d, why)) {
                        place(L, pos, d, sz, errs, key);
                        L.present[n] = true;
                    } else
                        errs.push_back("chunk '" + key + "' " + why);
                }
                ++n;
            } while (errs.size() - e0 < 4 && next(pos, lattice));
        } else {
            std::vector<uint64_t> shards(nd), spos(nd, 0);
            for (size_t k = 0; k < nd; ++k)
                shards[k] = cdiv(lattice[k], L.shard[k]);
            const uint64_t slots = prod(L.shard);
            do {
                const std::string key = "data/root/" + ls + "/c" + join(spos);
                seen.insert(key);
                auto it = s.find(key);
                if (it == s.end()) {
                    errs.push_back("shard '" + key + "' is missing");
                    continue;
                }
                const Bytes& raw = it->second;
                if (raw.size() < slots * 16) {
                    errs.push_back("shard '" + key + "' has " + std::to_string(raw.size()) + " bytes, too short for its index");
                    continue;
                }
                const size_t body = raw.size() - slots * 16;
                std::vector<std::pair<uint64_t, uint64_t>> used;
                std::vector<uint64_t> in(nd, 0);
                uint64_t slot = 0;
                do {
                    uint64_t off, nb;
                    memcpy(&off, &raw[body + slot * 16], 8);
                    memcpy(&nb, &raw[body + slot * 16 + 8], 8);
                    const std::string name = key + " slot " + std::to_string(slot);
                    ++slot;
                    std::vector<uint64_t> pos(nd);
                    bool inside = true;
                    uint64_t lin = 0;
                    for (size_t k = 0; k < nd; ++k) {
                        pos[k] = spos[k] * L.shard[k] + in[k];
                        if (pos[k] >= lattice[k])
                            inside = false;
                        lin = lin * lattice[k] + pos[k];
                    }
                    if (off == UINT64_MAX && nb == UINT64_MAX)
                        continue;
                    if (!inside) {
                        errs.push_back(name + ": entry for a chunk outside the array");
                        continue;
                    }
                    if (off > body || nb > body - off || nb == 0) {
                        errs.push_back(name + ": extent " + std::to_string(off) + "+" + std::to_string(nb) + " outside the shard's data");
                        continue;
                    }
                    used.push_back({ off, nb });
                    Bytes d;
                    std::string why;
                    if (decode(raw.substr(off, nb), c, chunk_elems * sz, d, why)) {
                        place(L, pos, d, sz, errs, name);
                        L.present[lin] = true;
                    } else
                        errs.push_back(name + " " + why);
                } while (errs.size() - e0 < 4 && next(in, L.shard));
                std::sort(used.begin(), used.end());
                for (size_t i = 1; i < used.size(); ++i)
                    if (used[i - 1].first + used[i - 1].second > used[i].first)
                        errs.push_back("shard '" + key + "': overlapping extents");
            } while (errs.size() - e0 < 4 && next(spos, shards));
        }
    }
    // nothing else below the data root of this level
    const std::string pre = c.version == 2 ? ls + "/" : "data/root/" + ls + "/";
    for (auto it = s.lower_bound(pre); it != s.end() && it->first.compare(0, pre.size(), pre) == 0; ++it)
        if (!seen.count(it->first) && it->first != ls + "/.zarray" && it->first != ls + "/.zattrs")
            errs.push_back("unexpected file '" + it->first + "'");
    return errs.size() == e0;
}

std::vector<std::vector<Dim>>
pyramid(const Cfg& c)
{
    std::vector<std::vector<Dim>> out{ c.dims };
    if (!c.multiscale)
        return out;
    while (out.size() < 40) {
        std::vector<Dim> d = out.back();
        bool smaller = false, changed = false;
        for (auto& x : d) {
            if (x.type == ZarrDimensionType_Channel)
                continue;
            const Dim o = x;
            x.array = (uint32_t)cdiv(o.array, 2);
            x.chunk = o.array == 0 ? o.chunk : std::min(o.chunk, x.array);
            x.shard = o.array == 0 ? 1 : (uint32_t)std::min<uint64_t>(cdiv(x.array, x.chunk), o.shard);
            smaller |= x.chunk < o.chunk;
            changed |= x.array != o.array;
        }
        out.push_back(d);
        if (smaller || !changed)
            break;
    }
    return out;
}

namespace {
template<typename T>
Bytes
down(const Bytes& a, const Bytes& b, uint64_t h, uint64_t w)
{
    const T* f[2] = { (const T*)a.data(), (const T*)b.data() };
    const uint64_t H = cdiv(h, 2), W = cdiv(w, 2);
    std::vector<T> out(H * W);
    for (uint64_t y = 0; y < H; ++y)
        for (uint64_t x = 0; x < W; ++x) {
            T m[2];
            for (int k = 0; k < 2; ++k) {
                // long double has 64 bits of mantissa: exact for all values in use
                long double sum = 0;
                for (int dy = 0; dy < 2; ++dy)
                    for (int dx = 0; dx < 2; ++dx) {
                        const uint64_t yy = std::min(2 * y + dy, h - 1), xx = std::min(2 * x + dx, w - 1);
                        sum += (long double)f[k][yy * w + xx];
                    }
                m[k] = (T)(sum / 4);
            }
            out[y * W + x] = (T)(((long double)m[0] + (long double)m[1]) / 2);
        }
    return Bytes((const char*)out.data(), out.size() * sizeof(T));
}
using DownFn = Bytes (*)(const Bytes&, const Bytes&, uint64_t, uint64_t);
DownFn downs[] = { down<uint8_t>, down<uint16_t>, down<uint32_t>, down<uint64_t>, down<int8_t>,
                   down<int16_t>, down<int32_t>, down<int64_t>, down<float>, down<double> };
} // namespace

std::vector<Bytes>
expected_levels(const Cfg& c, const Bytes& frames, uint64_t nframes)
{
    auto pyr = pyramid(c);
    std::vector<Bytes> out{ frames.substr(0, nframes * frame_bytes(c)) };
    uint64_t n = nframes;
    for (size_t l = 1; l < pyr.size(); ++l) {
        const uint64_t h = pyr[l - 1][c.nd() - 2].array, w = pyr[l - 1][c.nd() - 1].array;
        const uint64_t fb = h * w * dtype_size(c.dtype);
        Bytes o;
        n /= 2;
        for (uint64_t k = 0; k < n; ++k)
            o += downs[c.dtype](out.back().substr(2 * k * fb, fb), out.back().substr((2 * k + 1) * fb, fb), h, w);
        out.push_back(o);
    }
    return out;
}

void
check_level(const Store& s, const Cfg& c, int l, const std::vector<Dim>& dims, const Bytes& frames, uint64_t nframes, Errs& errs)
{
    Level L;
    if (!read_level(s, c, l, L, errs))
        return;
    uint64_t inner = 1;
    for (size_t i = 1; i + 2 < dims.size(); ++i)
        inner *= dims[i].array;
    std::vector<uint64_t> want{ cdiv(nframes, inner) };
    for (size_t i = 1; i < dims.size(); ++i)
        want.push_back(dims[i].array);
    if (L.shape != want) {
        errs.push_back("level " + std::to_string(l) + ": shape [" + join(L.shape) + "], expected [" + join(want) + "]");
        return;
    }
    for (size_t i = 0; i < dims.size(); ++i)
        if (L.chunk[i] != dims[i].chunk || (c.version == 3 && L.shard[i] != dims[i].shard))
            errs.push_back("level " + std::to_string(l) + ": chunk or shard shape differs from the geometry");
    Bytes exp = frames;
    exp.resize(L.data.size(), '\0');
    if (exp != L.data) {
        size_t i = 0;
        while (exp[i] == L.data[i])
            ++i;
        const size_t fb = want[dims.size() - 1] * want[dims.size() - 2] * dtype_size(c.dtype);
        errs.push_back("level " + std::to_string(l) + ": data differ in frame " + std::to_string(i / fb) + " at byte " + std::to_string(i % fb));
    }
    // every chunk that has a frame in it must be present, in V2 simply every chunk (checked by the reader)
    if (c.version == 3 && !L.data.empty()) {
        std::vector<uint64_t> lat(c.nd()), pos(c.nd(), 0);
        for (size_t k = 0; k < c.nd(); ++k)
            lat[k] = cdiv(L.shape[k], L.chunk[k]);
        uint64_t n = 0;
        do {
            if (!L.present[n++]) {
                uint64_t first = 0; // first frame that falls into this chunk
                for (size_t k = 0; k + 2 < c.nd(); ++k)
                    first = first * (k ? want[k] : 1) + pos[k] * L.chunk[k];
                if (first < nframes) {
                    errs.push_back("level " + std::to_string(l) + ": chunk " + join(pos) + " has data but is not in its shard's index");
                    break;
                }
            }
        } while (next(pos, lat));
    }
}

void
check_data(const Store& s, const Cfg& c, const Bytes& frames, uint64_t nframes, bool level0, bool higher, Errs& errs)
{
    if (!higher || !c.multiscale) {
        if (level0)
            check_level(s, c, 0, c.dims, frames, nframes, errs);
        return;
    }
    auto pyr = pyramid(c);
    auto exp = expected_levels(c, frames, nframes);
    uint64_t n = nframes;
    for (size_t l = 0; l < pyr.size(); ++l) {
        if (l || level0)
            check_level(s, c, (int)l, pyr[l], exp[l], n, errs);
        n /= 2;
    }
    const std::string extra = std::to_string(pyr.size());
    for (auto& [k, v] : s)
        if (k.compare(0, extra.size() + 1, extra + "/") == 0 || k.find("/root/" + extra + "/") != std::string::npos ||
            k == "meta/root/" + extra + ".array.json")
            errs.push_back("unexpected level: '" + k + "'");
}

void
check_metadata(const Store& s, const Cfg& c, uint64_t nframes, Errs& errs)
{
    static const char* types[] = { "space", "channel", "time", "other" };
    auto pyr = pyramid(c);
    std::set<std::string> keys;
    json ms, custom;
    auto need = [&](bool ok, const std::string& what) {
        if (!ok)
            errs.push_back(what);
    };
    if (c.version == 2) {
        json g, a, z;
        keys = { ".zattrs", ".zgroup", "0/.zattrs", "acquire.json" };
        if (parse(s, ".zgroup", g, errs))
            need(g == json{ { "zarr_format", 2 } }, ".zgroup is not a V2 group");
        if (parse(s, ".zattrs", a, errs))
            ms = a.value("multiscales", json());
        if (parse(s, "0/.zattrs", z, errs))
            need(z.is_object(), "0/.zattrs is not an object");
        parse(s, "acquire.json", custom, errs);
    } else {
        json g, a;
        keys = { "zarr.json", "meta/root.group.json", "meta/acquire.json" };
        if (parse(s, "zarr.json", g, errs)) {
            need(g.value("zarr_format", json()) == "https://purl.org/zarr/spec/protocol/core/3.0", "zarr.json: zarr_format");
            need(g.value("metadata_encoding", json()) == "https://purl.org/zarr/spec/protocol/core/3.0", "zarr.json: metadata_encoding");
            need(g.value("metadata_key_suffix", json()) == ".json", "zarr.json: metadata_key_suffix");
            need(g.value("extensions", json()) == json::array(), "zarr.json: extensions");
        }
        if (parse(s, "meta/root.group.json", a, errs))
            ms = a.value("attributes", json::object()).value("multiscales", json());
        parse(s, "meta/acquire.json", custom, errs);
    }
    // custom metadata
    std::string text = c.has_custom ? c.custom : "{}";
    text.erase(0, std::min(text.size(), text.find_first_not_of(" \t\r\n\v\f")));
    if (text.empty())
        text = "{}";
    need(json::parse(text, nullptr, false, true) == custom, "custom metadata is not preserved: " + custom.dump());

    // multiscales
    try {
        json& m = ms.at(0);
        need(ms.size() == 1, "multiscales has more than one entry");
        need(m.at("version") == "0.4", "multiscales version");
        need(m.at("axes").size() == c.nd(), "number of axes");
        for (size_t i = 0; i < c.nd(); ++i) {
            json& ax = m.at("axes").at(i);
            need(ax.at("name") == c.dims[i].name, "axis " + std::to_string(i) + " has name " + ax.at("name").dump());
            need(ax.at("type") == types[c.dims[i].type], "axis " + std::to_string(i) + " has type " + ax.at("type").dump());
            need(ax.contains("unit") == (i + 2 >= c.nd()), "axis " + std::to_string(i) + ": unit");
        }
        json& ds = m.at("datasets");
        need(ds.size() == pyr.size(), "datasets: " + std::to_string(ds.size()) + " listed, " + std::to_string(pyr.size()) + " levels expected");
        for (size_t l = 0; l < ds.size(); ++l) {
            need(ds[l].at("path") == std::to_string(l), "dataset path of level " + std::to_string(l));
            json& ct = ds[l].at("coordinateTransformations");
            need(ct.size() == 1 && ct[0].at("type") == "scale" && ct[0].at("scale").size() == c.nd(), "dataset scale of level " + std::to_string(l));
            for (size_t i = 0; i < c.nd(); ++i) {
                const bool scaled = i == 0 || i + 2 >= c.nd();
                const double e = scaled ? std::pow(2., l) : 1.;
                need(ct[0]["scale"][i].get<double>() == e, "dataset scale of level " + std::to_string(l) + ", axis " + std::to_string(i));
            }
        }
    } catch (const std::exception& ex) {
        errs.push_back(std::string("multiscales metadata: ") + ex.what());
    }
    // array metadata of every level
    uint64_t n = nframes;
    for (size_t l = 0; l < pyr.size(); ++l, n /= 2) {
        const std::string ls = std::to_string(l);
        const std::string key = c.version == 2 ? ls + "/.zarray" : "meta/root/" + ls + ".array.json";
        keys.insert(key);
        json m;
        if (!parse(s, key, m, errs))
            continue;
        uint64_t inner = 1;
        for (size_t i = 1; i + 2 < c.nd(); ++i)
            inner *= pyr[l][i].array;
        std::vector<uint64_t> shape{ cdiv(n, inner) }, chunk, shard;
        for (size_t i = 0; i < c.nd(); ++i) {
            if (i)
                shape.push_back(pyr[l][i].array);
            chunk.push_back(pyr[l][i].chunk);
            shard.push_back(pyr[l][i].shard);
        }
        json want;
        const char* cname = c.codec == ZarrCompressionCodec_BloscZstd ? "zstd" : "lz4";
        if (c.version == 2) {
            want = { { "zarr_format", 2 }, { "shape", shape }, { "chunks", chunk }, { "dtype", v2_types[c.dtype] },
                     { "fill_value", 0 }, { "order", "C" }, { "filters", nullptr }, { "dimension_separator", "/" } };
            want["compressor"] = nullptr;
            if (c.real_compression())
                want["compressor"] = { { "id", "blosc" }, { "cname", cname }, { "clevel", c.level }, { "shuffle", c.shuffle } };
        } else {
            want = { { "attributes", json::object() }, { "chunk_memory_layout", "C" }, { "data_type", v3_types[c.dtype] },
                     { "extensions", json::array() }, { "fill_value", 0 }, { "shape", shape },
                     { "chunk_grid", { { "chunk_shape", chunk }, { "separator", "/" }, { "type", "regular" } } } };
            want["compressor"] = nullptr;
            if (c.real_compression())
                want["compressor"] = { { "codec", "https://purl.org/zarr/spec/codec/blosc/1.0" },
                                       { "configuration", { { "blocksize", 0 }, { "clevel", c.level }, { "cname", cname }, { "shuffle", c.shuffle } } } };
            json st;
            st["type"] = "indexed";
            st["extension"] = "https://purl.org/zarr/spec/storage_transformers/sharding/1.0";
            st["configuration"]["chunks_per_shard"] = shard;
            want["storage_transformers"] = json::array({ st });
        }
        // every expected field must be there with this value; further descriptive fields are allowed
        for (auto& [k, v] : want.items()) {
            if (!m.contains(k))
                errs.push_back(key + ": no field '" + k + "'");
            else if (m[k] != v && !(v.is_object() && m[k].is_object() && [&] {
                         for (auto& [kk, vv] : v.items())
                             if (!m[k].contains(kk) || m[k][kk] != vv)
                                 return false;
                         return true;
                     }()))
                errs.push_back(key + ": '" + k + "' is " + m[k].dump() + ", expected " + v.dump());
        }
    }
    // no other files (besides chunk data, which the data checks enumerate)
    for (auto& [k, v] : s) {
        if (keys.count(k))
            continue;
        bool data = false;
        for (size_t l = 0; l < pyr.size(); ++l) {
            const std::string pre = c.version == 2 ? std::to_string(l) + "/" : "data/root/" + std::to_string(l) + "/c";
            if (k.compare(0, pre.size(), pre) == 0 && k.find_first_not_of("0123456789/", pre.size()) == std::string::npos)
                data = true;
        }
        if (!data)
            errs.push_back("unexpected file '" + k + "'");
    }
}
