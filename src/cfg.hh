// Stream configurations, pixel generator, and running a real stream on them.
#pragma once
#include "acquire.zarr.h"

#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <nlohmann/json.hpp>
#include <optional>
#include <string>
#include <vector>

using json = nlohmann::json;
using Bytes = std::string;

extern const char* const S3_BUCKET;

struct Dim
{
    std::string name;
    int type; // ZarrDimensionType
    uint32_t array, chunk, shard;
};

struct Cfg
{
    int version = 2;
    std::vector<Dim> dims;
    int dtype = 0;
    bool compressed = false;
    int compressor = 1; // 0: settings present but compressor None
    int codec = 1, level = 1, shuffle = 1;
    bool multiscale = false;
    bool s3 = false;
    bool has_custom = true;
    std::string custom = "{}";

    size_t nd() const { return dims.size(); }
    uint64_t h() const { return dims[nd() - 2].array; }
    uint64_t w() const { return dims[nd() - 1].array; }
    bool real_compression() const { return compressed && compressor != 0; }
};

json to_json(const Cfg&);
Cfg cfg_from_json(const json&);

inline size_t
dtype_size(int t)
{
    static const size_t s[] = { 1, 2, 4, 8, 1, 2, 4, 8, 4, 8 };
    return s[t];
}
inline uint64_t
frame_bytes(const Cfg& c)
{
    return dtype_size(c.dtype) * c.h() * c.w();
}
inline uint64_t
cdiv(uint64_t a, uint64_t b)
{
    return (a + b - 1) / b;
}
// product of the dimensions between the append dimension and y
inline uint64_t
inner_frames(const Cfg& c)
{
    uint64_t p = 1;
    for (size_t i = 1; i + 2 < c.nd(); ++i)
        p *= c.dims[i].array;
    return p;
}

// Bytes of the nframes frames; every element is nonzero and neighbours differ in every byte.
Bytes make_frames(const Cfg& c, uint64_t nframes, uint64_t salt = 0);
// the same number of frames with other contents: 1 all zero, 2 all bytes 0xff, 3 incompressible, 4 mostly zero
Bytes make_contents(const Cfg& c, uint64_t nframes, int kind);

// Convenience constructors
Cfg make3(int version, uint32_t ct, uint32_t st, Dim y, Dim x);
inline Dim
dim(const std::string& n, int type, uint32_t a, uint32_t c, uint32_t s = 1)
{
    return Dim{ n, type, a, c, s };
}

// Owns the C structs for a configuration.
struct Settings
{
    ZarrStreamSettings s{};
    std::vector<ZarrDimensionProperties> dims;
    ZarrCompressionSettings comp{};
    ZarrS3Settings s3{};
    std::string path, custom;
    std::vector<std::string> names, s3_text{ "http://localhost:9000", S3_BUCKET, "key", "secret" };
    Settings(const Cfg& c, const std::string& path);
    Settings(const Settings&) = delete;
    void scribble(); // overwrites everything the structs point to
};

// A stream whose settings have been overwritten and freed.
ZarrStream* create_stream(const Cfg& c, const std::string& path);

struct RunResult
{
    bool created = false;
    std::vector<int> status;
    std::vector<size_t> out;
};
// Create, append the pieces, destroy.
RunResult run_stream(const Cfg& c, const std::string& path, const Bytes& data, const std::vector<size_t>& pieces);
RunResult run_frames(const Cfg& c, const std::string& path, const Bytes& data); // one append per frame

// Store snapshots: relative path -> content
using Store = std::map<std::string, Bytes>;
Store snapshot_dir(const std::string& root);
// every path below root, directories with a trailing '/', symlinks as "-> target"
std::map<std::string, Bytes> snapshot_tree(const std::string& root);
Store snapshot_s3(const std::string& bucket, const std::string& prefix);
std::string diff_stores(const Store& a, const Store& b, bool ignore_empty = false);
