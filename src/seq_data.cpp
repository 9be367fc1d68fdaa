// C02, C03: finished stores read back exactly; C01: append segmentation; C06: S3 == filesystem
#include "fake_s3.hh"
#include "runner.hh"
#include "spec.hh"

namespace {
using V = std::vector<size_t>;
enum { SP = ZarrDimensionType_Space, CH = ZarrDimensionType_Channel, TI = ZarrDimensionType_Time, OT = ZarrDimensionType_Other };

// model states of a stream: (configuration, frames appended so far)
void
model_states(Report& r, const Cfg& c, uint64_t nframes)
{
    const uint64_t h = hash_str(to_json(c).dump());
    for (uint64_t f = 0; f <= nframes; ++f)
        r.model_states.push_back(hash_mix(h, f));
}

void
roundtrip(Runner& R, const Cfg& c, uint64_t nframes, int contents = 0)
{
    json d = to_json(c);
    d["frames"] = nframes;
    if (contents)
        d["contents"] = contents;
    R.run(d, [&](Report& r) {
        quiet_logs(true);
        const Bytes data = contents ? make_contents(c, nframes, contents) : make_frames(c, nframes);
        const std::string path = R.scratch + "/s";
        RunResult rr = run_frames(c, path, data);
        if (!rr.created) {
            r.errs.push_back("stream creation failed for valid settings");
            return;
        }
        for (size_t i = 0; i < rr.status.size(); ++i)
            if (rr.status[i] != 0 || rr.out[i] != frame_bytes(c))
                r.errs.push_back("append " + std::to_string(i) + ": status " + std::to_string(rr.status[i]) + ", bytes_out " + std::to_string(rr.out[i]));
        Store s = c.s3 ? snapshot_s3(S3_BUCKET, path) : snapshot_dir(path);
        check_data(s, c, data, nframes, true, false, r.errs);
        model_states(r, c, nframes);
        r.transitions = nframes + 2;
        std::string o;
        for (auto& [k, v] : s)
            o += k + ":" + std::to_string(hash_str(v)) + ";";
        r.outcome = o;
    });
}

std::vector<uint64_t>
frame_counts(uint64_t period, uint64_t inner, uint64_t ct, bool all, uint64_t cap)
{
    std::set<uint64_t> f{ 0, 1, period - 1, period, period + 1, 2 * period, 2 * period + 1, ct * inner, ct * inner + 1, inner, inner + 1 };
    if (all)
        for (uint64_t i = 0; i <= 2 * period + 1; ++i)
            f.insert(i);
    std::vector<uint64_t> v;
    for (auto x : f)
        if (x <= cap)
            v.push_back(x);
    return v;
}

// shapes whose sizes sit at boundaries a small alphabet does not reach
void
special_shapes(Runner& R, int ver)
{
    auto go = [&](Cfg c, uint64_t n) { roundtrip(R, c, n); };
    // many chunks along x, y and t: two- and three-digit names, more than 256 parts
    go(make3(ver, 1, 1, dim("y", SP, 2, 1), dim("x", SP, 300, 1)), 2);
    go(make3(ver, 1, 2, dim("y", SP, 130, 1, 3), dim("x", SP, 3, 2)), 3);
    go(make3(ver, 1, 1, dim("y", SP, 1, 1), dim("x", SP, 2, 2)), 270);
    go(make3(ver, 2, 40, dim("y", SP, 1, 1), dim("x", SP, 3, 2, 2)), 165);
    go(make3(ver, 1, 300, dim("y", SP, 1, 1), dim("x", SP, 2, 1, 2)), 601);        // > 256 layers in a shard
    go(make3(ver, 1, 1, dim("y", SP, 40, 1, 40), dim("x", SP, 40, 1, 40)), 2);     // > 1024 chunks in a shard
    go(make3(ver, 1, 1, dim("y", SP, 33, 1, 2), dim("x", SP, 34, 1, 3)), 2);       // > 1024 chunks in a layer
    go(make3(ver, 2, 150, dim("y", SP, 3, 1, 2), dim("x", SP, 3, 1, 3)), 301); // > 256 chunks in a shard
    // realistic tiles, ragged edges
    go(make3(ver, 5, 1, dim("y", SP, 48, 16, 3), dim("x", SP, 64, 16, 2)), 12);
    go(make3(ver, 4, 2, dim("y", SP, 67, 16, 2), dim("x", SP, 101, 32, 2)), 9);
    go(make3(ver, 3, 1, dim("y", SP, 300, 257), dim("x", SP, 270, 256)), 4);
    // more frames than 16 bits count
    go(make3(ver, 33000, 1, dim("y", SP, 1, 1), dim("x", SP, 1, 1)), 66001);
    Cfg c = make3(ver, 700, 2, dim("y", SP, 2, 1), dim("x", SP, 1, 1));
    c.dtype = ZarrDataType_uint16;
    go(c, 1500);
    // frame larger than 64 KiB, chunk larger than 64 KiB
    c = make3(ver, 2, 1, dim("y", SP, 260, 260), dim("x", SP, 300, 290));
    c.dtype = ZarrDataType_uint32;
    go(c, 3);
    // array size given for the append dimension is not binding
    c = make3(ver, 2, 2, dim("y", SP, 2, 2), dim("x", SP, 2, 2));
    c.dims[0].array = 3;
    go(c, 2);
    go(c, 5);
    // dimension types in unusual places
    c = make3(ver, 2, 1, dim("y", SP, 3, 2), dim("x", SP, 3, 2));
    c.dims[0].type = CH;
    go(c, 5);
    c.dims[0].type = SP;
    go(c, 5);
}

void
round_trips(Runner& R, int ver)
{
    const bool T = R.thorough;
    // --- 3D, uint8, raw: all (array, chunk[, shard]) pairs
    const uint32_t A = T ? 5 : 4;
    std::vector<Dim> sides;
    for (uint32_t a = 1; a <= A; ++a)
        for (uint32_t ch = 1; ch <= a + 1; ++ch)
            for (uint32_t sh = 1; sh <= (ver == 3 ? cdiv(a, ch) + (T ? 1 : 0) : 1); ++sh)
                sides.push_back(dim("q", SP, a, ch, sh));
    for (uint32_t ct = 1; ct <= (T ? 3 : 2); ++ct)
        for (uint32_t st = 1; st <= (ver == 3 ? 3 : 1); ++st)
            for (auto y : sides)
                for (auto x : sides) {
                    if (!T && ver == 3 && st == 3 && (y.array == 3 || x.array == 3))
                        continue;
                    y.name = "y";
                    x.name = "x";
                    Cfg c = make3(ver, ct, st, y, x);
                    const uint64_t p = ct * st;
                    std::set<uint64_t> fr{ p, 2 * p + 1, ct + 1 };
                    if (T || (y.array + x.array) % 2)
                        fr.insert({ 1, p + 1, 2 * p, p - 1 });
                    for (auto f : fr)
                        if (f)
                            roundtrip(R, c, f);
                }
    R.bound("3D uint8 raw: y,x array 1.." + std::to_string(A) + ", chunk 1..array+1" + (ver == 3 ? ", all shard sizes, append shard 1..3" : "") +
            ", append chunk 1.." + (T ? "3" : "2"));
    // --- 4D and 5D
    std::vector<std::pair<Dim, Dim>> yx = { { dim("y", SP, 2, 2), dim("x", SP, 3, 2) },
                                            { dim("y", SP, 3, 2, 2), dim("x", SP, 2, 1, 2) },
                                            { dim("y", SP, 3, 1, 2), dim("x", SP, 1, 1) } };
    for (uint32_t a = 1; a <= (T ? 5 : 4); ++a)
        for (uint32_t ch = 1; ch <= a + 1; ++ch)
            for (uint32_t sh = 1; sh <= (ver == 3 ? cdiv(a, ch) : 1); ++sh)
                for (uint32_t ct = 1; ct <= 3; ++ct)
                    for (uint32_t st = 1; st <= (ver == 3 ? 2 : 1); ++st)
                        for (auto& [y, x] : yx) {
                            Cfg c = make3(ver, ct, st, y, x);
                            c.dims.insert(c.dims.begin() + 1, dim("c", a % 2 ? CH : SP, a, ch, sh));
                            for (auto f : frame_counts((uint64_t)ct * st * a, a, ct, T, T ? 40 : 30))
                                roundtrip(R, c, f);
                        }
    R.bound(std::string("4D: inner dimension array 1..") + (T ? "5" : "4") + " x chunk x shard x append chunk 1..3 x 3 frame shapes, frame counts at and around every boundary");
    for (uint32_t a1 = 1; a1 <= 3; ++a1)
        for (uint32_t c1 = 1; c1 <= a1; ++c1)
            for (uint32_t a2 = 1; a2 <= 3; ++a2)
                for (uint32_t c2 = 1; c2 <= a2; ++c2)
                    for (uint32_t sh = 1; sh <= (ver == 3 ? 2 : 1); ++sh)
                        for (uint32_t ct = 1; ct <= 2; ++ct)
                            for (uint32_t st = 1; st <= sh; ++st) {
                                Cfg c = make3(ver, ct, st, dim("y", SP, 2, 1, sh), dim("x", SP, 3, 2, 1));
                                c.dims.insert(c.dims.begin() + 1, { dim("c", CH, a1, c1, sh), dim("z", SP, a2, c2, cdiv(a2, c2) >= sh ? sh : 1) });
                                const uint64_t inner = a1 * a2;
                                std::set<uint64_t> fr{ 1, inner, inner + 1, ct * st * inner, ct * st * inner + 1, 2 * ct * inner + a2 };
                                for (auto f : fr)
                                    roundtrip(R, c, f);
                            }
    R.bound("5D: two inner dimensions 1..3 with all chunk sizes");
    // 6D, one shape
    {
        Cfg c = make3(ver, 2, 2, dim("y", SP, 2, 1), dim("x", SP, 2, 2));
        c.dims.insert(c.dims.begin() + 1, { dim("p", OT, 2, 1, 2), dim("c", CH, 3, 2, 1), dim("z", SP, 2, 2, 1) });
        for (uint64_t f : { 1, 11, 12, 13, 24, 25, 48, 49, 50 })
            roundtrip(R, c, f);
    }
    // --- data types x compression
    for (int t = 0; t < 10; ++t)
        for (int shape = 0; shape < 3; ++shape) {
            Cfg c = shape == 0   ? make3(ver, 2, 2, dim("y", SP, 3, 2, 2), dim("x", SP, 5, 3, 1))
                    : shape == 1 ? make3(ver, 3, 1, dim("y", SP, 16, 8, 1), dim("x", SP, 24, 8, 3))
                                 : make3(ver, 1, 3, dim("y", SP, 2, 1, 1), dim("x", SP, 2, 1, 2));
            c.dtype = t;
            for (uint64_t f : { 1, 2, 3, 4, 5, 6, 7 }) {
                c.compressed = false;
                roundtrip(R, c, f);
                if (!T && shape && f % 3 != 1)
                    continue;
                for (int comp = 0; comp <= 1; ++comp)
                    for (int codec = comp; codec <= 2; ++codec)
                        for (int lv = 0; lv <= 9; lv += (T ? 1 : 3))
                            for (int sh = 0; sh <= 2; ++sh) {
                                if (comp == 0 && (lv || sh))
                                    continue;
                                c.compressed = true;
                                c.compressor = comp;
                                c.codec = codec;
                                c.level = lv;
                                c.shuffle = sh;
                                if (!T && f != 5 && (lv + sh + codec + t) % 4)
                                    continue;
                                roundtrip(R, c, f);
                            }
            }
        }
    // contents that might be treated specially: nothing but zeros or ones, incompressible, sparse
    for (int t : { 0, 1, 3, 8, 9 })
        for (int kind = 1; kind <= 4; ++kind)
            for (int codec = 0; codec <= 2; ++codec)
                for (int shape = 0; shape < 3; ++shape) {
                    Cfg c = shape == 0   ? make3(ver, 2, 2, dim("y", SP, 3, 2, 2), dim("x", SP, 5, 3, 1))
                            : shape == 1 ? make3(ver, 1, 3, dim("y", SP, 40, 20, 2), dim("x", SP, 30, 15, 2))
                                         : make3(ver, 1, 1, dim("y", SP, 1, 1, 1), dim("x", SP, 1, 1, 1));
                    c.dtype = t;
                    c.compressed = codec;
                    c.compressor = codec > 0;
                    c.codec = codec;
                    c.level = 1 + 4 * (t % 3);
                    c.shuffle = kind % 3;
                    for (uint64_t f : { 1, 2, 4, 6 })
                        roundtrip(R, c, f, kind);
                }
    R.bound("contents: all zero, all ones, incompressible, sparse x types x codecs x 3 shapes");
    // many dimensions
    for (size_t n = 6; n <= (T ? 12 : 9); ++n)
        for (int k = 0; k < 4; ++k) {
            Cfg c = make3(ver, 1 + k % 2, 1 + k / 2, dim("y", SP, 2, 1 + k % 2), dim("x", SP, 3, 2, 1 + k % 2));
            for (size_t i = 3; i < n; ++i)
                c.dims.insert(c.dims.begin() + 1, dim("d" + std::to_string(i), (int)(i % 4), 1 + (i + k) % 2 + (i == 4), 1 + (i * k) % 2, 1 + (ver == 3 && (i + k) % 2 && !(i * k % 2))));
            uint64_t inner = 1;
            for (size_t i = 1; i < n - 2; ++i)
                inner *= c.dims[i].array;
            for (uint64_t f : { uint64_t(1), inner - 1, inner, inner + 1, 2 * inner + 1 })
                if (f)
                    roundtrip(R, c, f, 0);
        }
    R.bound(std::string("6 to ") + (T ? "12" : "9") + " dimensions");
    R.bound("all data types x {no settings, compressor none, lz4, zstd} x levels x shuffles x 3 shapes");
    special_shapes(R, ver);
    R.bound("boundary shapes: >256 chunks along a dimension, >1024 in a layer and in a shard, 300 layers in a shard; >65535 frames; chunks >64 KiB");
}
} // namespace

CHECK_FN(C02)
{
    round_trips(R, 2);
}
CHECK_FN(C03)
{
    round_trips(R, 3);
}
