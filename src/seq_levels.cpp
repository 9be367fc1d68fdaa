// C04: metadata; C05: pyramid contents; C25: pyramid geometry
#include "fake_s3.hh"
#include "runner.hh"
#include "spec.hh"

#include <algorithm>
#include <array>
#include <cfloat>
#include <cmath>

namespace {
enum { SP = ZarrDimensionType_Space, CH = ZarrDimensionType_Channel, TI = ZarrDimensionType_Time, OT = ZarrDimensionType_Other };

void
states(Report& r, const Cfg& c, uint64_t n)
{
    const uint64_t h = hash_str(to_json(c).dump());
    for (uint64_t f = 0; f <= n; ++f)
        r.model_states.push_back(hash_mix(h, f));
}

// one stream with this pixel data; metadata and / or data compared with the model
void
go(Runner& R, const Cfg& c, uint64_t nframes, bool meta, bool data_check, const Bytes* pixels = nullptr, const char* tag = nullptr)
{
    json d = { { "cfg", to_json(c) }, { "frames", nframes } };
    if (tag)
        d["pixels"] = tag;
    R.run(d, [&](Report& r) {
        quiet_logs(true);
        const Bytes data = pixels ? *pixels : make_frames(c, nframes);
        const std::string path = R.scratch + "/s";
        RunResult rr = run_frames(c, path, data);
        if (!rr.created) {
            r.errs.push_back("stream creation failed for valid settings");
            return;
        }
        for (size_t i = 0; i < rr.status.size(); ++i)
            if (rr.status[i])
                r.errs.push_back("append " + std::to_string(i) + " failed");
        Store s = c.s3 ? snapshot_s3(S3_BUCKET, path) : snapshot_dir(path);
        if (meta)
            check_metadata(s, c, nframes, r.errs);
        if (data_check)
            check_data(s, c, data, nframes, true, true, r.errs);
        states(r, c, nframes);
        r.transitions = nframes + 2;
        for (auto& [k, v] : s)
            if (data_check || k.find("json") != std::string::npos || k.find(".z") != std::string::npos)
                r.outcome += k + ":" + std::to_string(hash_str(v)) + ";";
    });
}
} // namespace

CHECK_FN(C04)
{
    const bool T = R.thorough;
    // geometry: every shape up to 5D in a small alphabet, with frame counts that make the extent change digits
    for (int ver : { 2, 3 })
        for (int ms = 0; ms <= 1; ++ms)
            for (uint32_t y = 1; y <= 4; ++y)
                for (uint32_t cy = 1; cy <= y; ++cy)
                    for (uint32_t x : { 1u, 3u, 5u })
                        for (uint32_t cx = 1; cx <= x; cx += 2)
                            for (uint32_t s : { 1u, 2u }) {
                                if (ver == 2 && s > 1)
                                    continue;
                                Cfg c = make3(ver, 2, s, dim("y", SP, y, cy, std::min<uint64_t>(s, cdiv(y, cy))), dim("x", SP, x, cx));
                                c.multiscale = ms;
                                for (uint64_t f : { 0, 1, 5 })
                                    go(R, c, f, true, false);
                            }
    // the recorded extent after every number of frames (rewritten at each roll-over, growing by digits)
    for (int ver : { 2, 3 })
        for (uint32_t ct : { 1u, 3u })
            for (uint64_t f = 0; f <= (T ? 140 : 115); ++f) {
                Cfg c = make3(ver, ct, 2, dim("y", SP, 2, 1), dim("x", SP, 1, 1));
                c.multiscale = f % 2;
                go(R, c, f, true, false);
                c.s3 = true;
                if (f % 9 < 3)
                    go(R, c, f, true, false);
            }
    for (int ver : { 2, 3 })
        for (uint32_t a1 = 1; a1 <= 3; ++a1)
            for (uint32_t a2 = 1; a2 <= 3; ++a2)
                for (int ms = 0; ms <= 1; ++ms)
                    for (uint64_t f = 0; f <= 2 * a1 * a2 + 1; ++f) {
                        Cfg c = make3(ver, 1, 1, dim("y", SP, 2, 1), dim("x", SP, 2, 2));
                        c.dims.insert(c.dims.begin() + 1, { dim("c", CH, a1, 1), dim("z", SP, a2, cdiv(a2, 2)) });
                        c.multiscale = ms;
                        go(R, c, f, true, false);
                    }
    // many dimensions, many levels (two-digit level names)
    for (int ver : { 2, 3 })
        for (int ms = 0; ms <= 1; ++ms) {
            for (size_t n = 6; n <= 9; ++n)
                for (uint64_t f : { 0, 1, 70 }) {
                    Cfg c = make3(ver, 1, 1, dim("y", SP, 5, 2), dim("x", SP, 3, 2));
                    for (size_t i = 3; i < n; ++i)
                        c.dims.insert(c.dims.begin() + 1, dim("d" + std::to_string(i), (int)((i + f) % 4), 1 + i % 2, 1));
                    c.multiscale = ms;
                    go(R, c, f, true, false);
                }
            for (uint32_t w : { 513u, 1024u, 1500u, 2100u })
                for (uint64_t f : { 0, 3 }) {
                    Cfg c = make3(ver, 2, 1, dim("y", SP, 1, 1), dim("x", SP, w, 1, ver == 3 ? w : 1));
                    c.multiscale = ms;
                    go(R, c, f, true, false);
                }
        }
    // dimension names and types
    const char* names[] = { "x", "\"quoted\"", "back\\slash", "\xc3\xa9\xe2\x82\xac", "tab\there", " padded ", "{}", "%s%n", "x", "a/b" };
    for (int ver : { 2, 3 })
        for (int i = 0; i < 10; ++i)
            for (int ty = 0; ty < 4; ++ty)
                for (int ty0 = 0; ty0 < 4; ++ty0) {
                    Cfg c = make3(ver, 1, 1, dim(names[i], SP, 3, 2), dim(names[(i + 3) % 10], SP, 3, 2));
                    c.dims[0].name = names[(i + 7) % 10];
                    c.dims[0].type = ty0;
                    c.dims.insert(c.dims.begin() + 1, dim(names[(i + 5) % 10], ty, 2, 1));
                    c.multiscale = i % 2;
                    go(R, c, 3, true, false);
                }
    // data types and compression
    for (int ver : { 2, 3 })
        for (int t = 0; t < 10; ++t)
            for (int comp = -1; comp <= 1; ++comp)
                for (int codec = 1; codec <= 2; ++codec)
                    for (int lv = 0; lv <= 9; lv += T ? 1 : 3)
                        for (int sh = 0; sh <= 2; ++sh)
                            for (int ms = 0; ms <= 1; ++ms) {
                                if (comp < 1 && (codec > 1 || lv || sh))
                                    continue;
                                Cfg c = make3(ver, 1, 1, dim("y", SP, 4, 2), dim("x", SP, 4, 2));
                                c.dtype = t;
                                c.multiscale = ms;
                                c.compressed = comp >= 0;
                                c.compressor = comp > 0;
                                c.codec = codec;
                                c.level = lv;
                                c.shuffle = sh;
                                go(R, c, 2, true, false);
                            }
    // custom metadata documents
    const std::string docs[] = { "{}", "", "[]", "null", "true", "0", "\"str\"", "{\"a\": 1}", "{\"a\": {\"b\": [1, 2, {\"c\": null}]}, \"d\": -1.5e10}",
                                 " {\"padded\": 1} ", "\n{\"nl\": 1}\n", "{\"u\": \"\\u20ac \xc3\xa9\"}", "/* comment */ {\"a\": 2} // end", "{\"big\": 18446744073709551615, \"neg\": -9223372036854775808}",
                                 "{\"z\":1,\"a\":2,\"m\":3}", "{\"k\": \"" + std::string(5000, 'k') + "\"}", "[[[[[[[[[[]]]]]]]]]]", "{\"\": {\"\": \"\"}}" };
    for (int ver : { 2, 3 })
        for (int s3 = 0; s3 <= 1; ++s3)
            for (auto& doc : docs)
                for (int f = 0; f <= 1; ++f) {
                    Cfg c = make3(ver, 1, 1, dim("y", SP, 2, 1), dim("x", SP, 2, 2));
                    c.custom = doc;
                    c.s3 = s3;
                    go(R, c, f, true, false);
                    if (doc == "{}") {
                        c.has_custom = false;
                        go(R, c, f, true, false);
                    }
                }
    R.bound("3D y 1..4, x {1,3,5}, 5D inner dims 1..3, 6D to 9D, up to 13 levels, all chunkings, V2/V3, single/multiscale; every frame count 0..115; 10 names x 4 types; all data types x compression settings; 18 custom documents");
}

namespace {
template<typename T>
Bytes
all_blocks(const T (&v)[4])
{
    // two frames of 512x512: the 2x2 blocks run through all 4^4 x 4^4 combinations of the values
    std::vector<T> f(2 * 512 * 512);
    for (unsigned b = 0; b < 65536; ++b) {
        const unsigned by = b / 256, bx = b % 256;
        for (unsigned k = 0; k < 8; ++k) {
            const unsigned frame = k / 4, dy = k / 2 % 2, dx = k % 2;
            f[(frame * 512 + 2 * by + dy) * 512 + 2 * bx + dx] = v[b >> (2 * k) & 3];
        }
    }
    return Bytes((const char*)f.data(), f.size() * sizeof(T));
}
template<typename T>
void
values(Runner& R, int dtype, std::initializer_list<std::array<T, 4>> alphabets)
{
    int n = 0;
    for (auto& a : alphabets) {
        T v[4] = { a[0], a[1], a[2], a[3] };
        const Bytes px = all_blocks(v);
        for (int ver : { 2, 3 }) {
            Cfg c = make3(ver, 2, 1, dim("y", SP, 512, 256), dim("x", SP, 512, 512));
            c.dtype = dtype;
            c.multiscale = true;
            const std::string tag = "all 2x2x2 blocks over value alphabet " + std::to_string(n);
            go(R, c, 2, false, true, &px, tag.c_str());
            if (!R.thorough)
                break;
        }
        ++n;
    }
}
// every value of an 8-bit type in every position of a pair of averages
template<typename T>
void
all8(Runner& R, int dtype)
{
    std::vector<T> f(2 * 512 * 512);
    for (unsigned b = 0; b < 65536; ++b) {
        const unsigned by = b / 256, bx = b % 256;
        for (unsigned k = 0; k < 8; ++k)
            f[(k / 4 * 512 + 2 * by + k / 2 % 2) * 512 + 2 * bx + k % 2] = (T)(k < 4 ? by : bx) + (T)(k % 4 == 3 ? by & 1 : 0);
    }
    const Bytes px((const char*)f.data(), f.size());
    Cfg c = make3(2, 1, 1, dim("y", SP, 512, 512), dim("x", SP, 512, 512));
    c.dtype = dtype;
    c.multiscale = true;
    go(R, c, 2, false, true, &px, "all pairs of 8-bit block values");
}
} // namespace

CHECK_FN(C05)
{
    const bool T = R.thorough;
    const int64_t B = 1ll << 50;
    values<uint8_t>(R, ZarrDataType_uint8, { { 0, 1, 254, 255 }, { 3, 127, 128, 200 } });
    values<int8_t>(R, ZarrDataType_int8, { { 0, -1, 127, -128 }, { -3, 2, 1, -100 } });
    values<uint16_t>(R, ZarrDataType_uint16, { { 0, 1, 65534, 65535 }, { 255, 256, 32767, 32768 } });
    values<int16_t>(R, ZarrDataType_int16, { { 0, -1, 32767, -32768 }, { 255, -256, 3, -3 } });
    values<uint32_t>(R, ZarrDataType_uint32, { { 0, 1, 0xfffffffeu, 0xffffffffu }, { 0x7fffffffu, 0x80000000u, 65536, 3 } });
    values<int32_t>(R, ZarrDataType_int32, { { 0, -1, INT32_MAX, INT32_MIN }, { 65536, -65537, 3, -2 } });
    values<uint64_t>(R, ZarrDataType_uint64, { { 0, 1, (uint64_t)B - 1, (uint64_t)B }, { 0xffffffffu, 0x100000000u, 255, 3 } });
    values<int64_t>(R, ZarrDataType_int64, { { 0, -1, B, -B }, { 0x100000000, -0x100000001, 3, -2 } });
    values<float>(R, ZarrDataType_float32, { { 0.f, 1.f, -1.5f, 1024.25f }, { FLT_MAX, -FLT_MAX, 0.f, FLT_MAX / 2 }, { 0x1p-10f, 3.f, -64.f, 64.f } });
    values<double>(R, ZarrDataType_float64, { { 0., 1., -1.5, 1024.25 }, { 1e300, -1e300, 0., 5e299 }, { 1099511627776., 1., -1., 0.25 } });
    all8<uint8_t>(R, ZarrDataType_uint8);
    all8<int8_t>(R, ZarrDataType_int8);
    R.bound("for every data type: all 4^8 contents of a 2x2x2 block over alphabets with the extremes of the type; all pairs of 8-bit block means");
    // shapes
    const uint32_t N = T ? 9 : 6;
    for (int ver : { 2, 3 })
        for (uint32_t y = 1; y <= N; ++y)
            for (uint32_t x = 1; x <= N; ++x)
                for (uint32_t cy = 1; cy <= y; ++cy)
                    for (uint32_t cx = 1; cx <= x; ++cx) {
                        if (!T && ((cy > 3 && cy < y) || (cx > 3 && cx < x)))
                            continue;
                        if (!T && ver == 3 && (x + y + cx + cy) % 2)
                            continue;
                        Cfg c = make3(ver, 1 + (x + y) % 3, ver == 3 ? 1 + (cx + y) % 2 : 1, dim("y", SP, y, cy, ver == 3 ? cdiv(cdiv(y, cy), 2) : 1), dim("x", SP, x, cx));
                        c.multiscale = true;
                        c.dtype = (y * 7 + x * 3 + cy + cx) % 10;
                        for (uint64_t f : { 1, 2, 5, 8 })
                            if (T || f != 1 || x == y)
                                go(R, c, f, false, true);
                    }
    R.bound("3D y,x 1.." + std::to_string(N) + " with " + (T ? "all" : "most") + " chunk sizes, up to 8 frames");
    // every number of frames, several levels
    for (int ver : { 2, 3 })
        for (int t = 0; t < 10; ++t)
            for (uint64_t f = 0; f <= (T ? 35 : 18); ++f) {
                Cfg c = make3(ver, 3, 2, dim("y", SP, 8, 1, 2), dim("x", SP, 9, 2, 2));
                c.multiscale = true;
                c.dtype = t;
                if (T || f < 6 || (f + t) % 5 == 0)
                    go(R, c, f, false, true);
            }
    // so many that their names have two digits, with frames in all of them
    for (int ver : { 2, 3 }) {
        Cfg c = make3(ver, 1100, 1, dim("y", SP, 1, 1), dim("x", SP, 600, 1, ver == 3 ? 600 : 1));
        c.multiscale = true;
        go(R, c, 1100, false, true);
    }
    // many levels
    for (uint32_t n : { 15u, 16u, 17u, 33u, 64u, 100u })
        for (int ver : { 2, 3 })
            for (uint64_t f : { 16, 33, 70 }) {
                Cfg c = make3(ver, 2, 3, dim("y", SP, n, std::max(1u, n / 16), 2), dim("x", SP, n + 3, 4, 2));
                c.multiscale = true;
                c.dtype = ZarrDataType_uint16;
                go(R, c, f, false, true);
            }
    // inner dimensions
    for (int ver : { 2, 3 })
        for (int ty : { (int)CH, (int)SP, (int)OT })
            for (uint32_t a = 1; a <= 4; ++a)
                for (uint32_t ch = 1; ch <= a; ++ch)
                    for (uint64_t f : { 3, 8, 13 }) {
                        Cfg c = make3(ver, 2, 2, dim("y", SP, 5, 2), dim("x", SP, 4, 2));
                        c.dims.insert(c.dims.begin() + 1, dim("c", ty, a, ch, ver == 3 ? cdiv(a, ch) : 1));
                        c.multiscale = true;
                        c.dtype = (a + ch) % 10;
                        go(R, c, f, false, true);
                    }
}

CHECK_FN(C25)
{
    const bool T = R.thorough;
    std::vector<uint32_t> sz = { 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33 };
    if (T)
        sz.insert(sz.end(), { 6, 15, 31, 32, 63, 64, 65, 100 });
    for (int ver : { 2, 3 })
        for (auto y : sz)
            for (auto x : sz)
                for (auto cy : sz)
                    for (auto cx : sz) {
                        if (cy > y || cx > x)
                            continue;
                        if (!T && ver == 3 && (y * 31 + x * 17 + cy * 5 + cx) % 3)
                            continue;
                        Cfg c = make3(ver, 2, ver == 3 ? 1 + y % 3 : 1, dim("y", SP, y, cy, ver == 3 ? 1 + (x + cy) % cdiv(y, cy) : 1), dim("x", SP, x, cx, ver == 3 ? cdiv(x, cx) : 1));
                        c.multiscale = true;
                        c.dims[0].array = x % 4 == 0 ? y : 0;
                        go(R, c, (x * y) % 2, true, false);
                    }
    // the append dimension with any nominal size, including the largest
    for (int ver : { 2, 3 })
        for (uint32_t a : { 0u, 1u, 2u, 3u, 255u, 256u, 65535u, 65536u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu })
            for (uint32_t ct : { 1u, 2u, 3u, 100u, 65536u })
                for (int ty : { (int)TI, (int)CH, (int)SP }) {
                    Cfg c = make3(ver, ct, 2, dim("y", SP, 4, 2), dim("x", SP, 6, 1));
                    c.dims[0].array = a;
                    c.dims[0].type = ty;
                    c.multiscale = true;
                    go(R, c, 0, true, false);
                }
    // large inner dimensions (no memory is used for them before the first frame)
    for (uint32_t a : { 255u, 256u, 65535u, 65537u, 1000003u })
        for (uint32_t ch : { a, a / 2, a - 1 })
            for (int ty : { (int)SP, (int)CH })
                for (int ver : { 2, 3 }) {
                    Cfg c = make3(ver, 1, 1, dim("y", SP, 3, 1, 2), dim("x", SP, 2, 1));
                    c.dims.insert(c.dims.begin() + 1, dim("z", ty, a, ch, 1));
                    c.multiscale = true;
                    go(R, c, 0, true, false);
                }
    // wide frames
    for (uint32_t w : { 65535u, 65536u, 65537u, 1000003u })
        for (uint32_t cw : { 1u, 3u, 1000u, w / 2, w })
            for (uint32_t sh : { 1u, 2u, 7u }) {
                Cfg c = make3(sh == 1 ? 2 : 3, 1, 1, dim("y", SP, 1, 1), dim("x", SP, w, cw, sh));
                c.multiscale = true;
                go(R, c, 0, true, false);
            }
    // inner dimensions of every type in 4D and 5D
    for (int ver : { 2, 3 })
        for (int t1 = 0; t1 < 4; ++t1)
            for (int t2 = 0; t2 < 4; ++t2)
                for (uint32_t a1 : { 1u, 2u, 3u, 5u })
                    for (uint32_t a2 : { 1u, 4u, 7u })
                        for (uint32_t c1 = 1; c1 <= a1; ++c1)
                            for (uint32_t c2 = 1; c2 <= a2; c2 += 2) {
                                if (!T && (t1 * 4 + t2 + a1 + c1 + c2) % 2)
                                    continue;
                                Cfg c = make3(ver, 1, 1, dim("y", SP, 4, 1), dim("x", SP, 4, 1));
                                c.dims.insert(c.dims.begin() + 1, { dim("p", t1, a1, c1, ver == 3 ? cdiv(a1, c1) : 1), dim("q", t2, a2, c2, ver == 3 ? (cdiv(a2, c2) + 1) / 2 : 1) });
                                c.multiscale = true;
                                go(R, c, 1, true, false);
                            }
    R.bound("y,x and their chunks over " + std::to_string(sz.size()) + " sizes up to " + std::to_string(*std::max_element(sz.begin(), sz.end())) +
            "; nominal append sizes up to 2^32-1; wide frames and large inner dimensions up to 10^6; all dimension types in 5D");
}
