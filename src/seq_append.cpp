// C01: the store does not depend on how the bytes are cut into appends
// C06: an S3 store holds what a filesystem store holds
#include "fake_s3.hh"
#include "runner.hh"
#include "spec.hh"

#include <filesystem>

namespace {
enum { SP = ZarrDimensionType_Space, CH = ZarrDimensionType_Channel, TI = ZarrDimensionType_Time, OT = ZarrDimensionType_Other };

Store
snap(const Cfg& c, const std::string& path)
{
    return c.s3 ? snapshot_s3(S3_BUCKET, path) : snapshot_dir(path);
}

// The store for whole-frame appends of the same complete frames, itself checked by the reader.
struct Reference
{
    Cfg c;
    Bytes data;
    uint64_t nframes;
    Store store;
    bool ready = false;
    std::vector<std::string> errs;
    const Store& get(const std::string& scratch)
    {
        if (!ready) {
            ready = true;
            nframes = data.size() / frame_bytes(c);
            RunResult r = run_frames(c, scratch + "/s", data.substr(0, nframes * frame_bytes(c)));
            store = snap(c, scratch + "/s");
            if (!r.created)
                errs.push_back("reference: stream creation failed");
            check_data(store, c, data.substr(0, nframes * frame_bytes(c)), nframes, true, c.multiscale, errs);
            check_metadata(store, c, nframes, errs);
        }
        return store;
    }
};

void
cut(Runner& R, Reference& ref, const std::vector<size_t>& pieces)
{
    json d = { { "cfg", to_json(ref.c) }, { "pieces", pieces } };
    R.run(d, [&](Report& r) {
        quiet_logs(true);
        const Store& want = ref.get(R.scratch);
        r.errs = ref.errs;
        std::filesystem::remove_all(R.scratch + "/s");
        fake_s3::reset();
        fake_s3::serve_only();
        fake_s3::server().buckets[S3_BUCKET];
        RunResult rr = run_stream(ref.c, R.scratch + "/s", ref.data, pieces);
        if (!rr.created) {
            r.errs.push_back("stream creation failed");
            return;
        }
        uint64_t h = hash_str(to_json(ref.c).dump()), pos = 0;
        r.model_states.push_back(hash_mix(h, 0));
        std::string o;
        for (size_t i = 0; i < pieces.size(); ++i) {
            if (rr.status[i] != 0 || rr.out[i] != pieces[i])
                r.errs.push_back("append " + std::to_string(i) + " of " + std::to_string(pieces[i]) + " bytes: status " + std::to_string(rr.status[i]) +
                                 ", bytes_out " + std::to_string(rr.out[i]));
            pos += pieces[i];
            r.model_states.push_back(hash_mix(h, pos));
            o += std::to_string(rr.out[i]) + ",";
        }
        r.transitions = pieces.size() + 2;
        auto diff = diff_stores(want, snap(ref.c, R.scratch + "/s"));
        if (!diff.empty())
            r.errs.push_back("store differs from whole-frame appends: " + diff);
        r.outcome = o;
    });
}

Reference
make_ref(const Cfg& c, size_t nbytes)
{
    Reference f;
    f.c = c;
    f.data = make_frames(c, cdiv(nbytes, frame_bytes(c))).substr(0, nbytes);
    return f;
}

// every composition of n into positive parts
void
all_compositions(Runner& R, const Cfg& c, size_t n)
{
    Reference ref = make_ref(c, n);
    for (uint64_t m = 0; m < (1ull << (n - 1)); ++m) {
        std::vector<size_t> p;
        size_t last = 0;
        for (size_t i = 1; i < n; ++i)
            if (m >> (i - 1) & 1) {
                p.push_back(i - last);
                last = i;
            }
        p.push_back(n - last);
        cut(R, ref, p);
    }
}

// every choice of up to k cut points
void
few_cuts(Runner& R, const Cfg& c, size_t n, int k, size_t step = 1)
{
    Reference ref = make_ref(c, n);
    cut(R, ref, { n });
    for (size_t a = step; a < n; a += step) {
        cut(R, ref, { a, n - a });
        cut(R, ref, { a, 0, n - a });
        if (k >= 2)
            for (size_t b = a + step; b < n; b += step) {
                cut(R, ref, { a, b - a, n - b });
                if (k >= 3)
                    for (size_t e = b + step; e < n; e += step)
                        cut(R, ref, { a, b - a, e - b, n - e });
            }
    }
}
} // namespace

CHECK_FN(C01)
{
    const bool T = R.thorough;
    auto c3 = [](int ver, uint32_t h, uint32_t w, uint32_t ct = 2, uint32_t st = 1) {
        return make3(ver, ct, st, dim("y", SP, h, 1), dim("x", SP, w, 2));
    };
    for (int ver : { 2, 3 }) {
        all_compositions(R, c3(ver, 1, 1), 7);
        all_compositions(R, c3(ver, 1, 2), 9);
        all_compositions(R, c3(ver, 1, 3, 2, ver == 3 ? 2 : 1), T ? 14 : 11);
        Cfg c = c3(ver, 1, 2);
        c.dtype = ZarrDataType_uint16; // frames of 4 bytes, cuts inside a pixel
        all_compositions(R, c, T ? 14 : 11);
        c = c3(ver, 2, 2, 1);
        c.multiscale = true;
        all_compositions(R, c, T ? 14 : 10);
        c.multiscale = false;
        c.compressed = true;
        all_compositions(R, c, 9);
        c.s3 = true;
        all_compositions(R, c, 8);
        // larger frames: few cuts, anywhere
        c = c3(ver, 4, 8, 2);
        few_cuts(R, c, 97, T ? 2 : 1);
        few_cuts(R, c, 70, 2, T ? 1 : 3);
        c = c3(ver, 3, 2, 2);
        few_cuts(R, c, 26, T ? 3 : 2);
        c.multiscale = true;
        few_cuts(R, c, 40, T ? 2 : 1);
        // empty appends in every position, repeated
        c = c3(ver, 1, 3, 1);
        Reference e = make_ref(c, 10);
        for (size_t z1 = 0; z1 <= 4; ++z1)
            for (size_t z2 = 0; z2 <= 4; ++z2) {
                std::vector<size_t> base = { 2, 4, 1, 3 }, p;
                for (size_t i = 0; i <= 4; ++i) {
                    if (i == z1)
                        p.push_back(0);
                    if (i == z2)
                        p.push_back(0);
                    if (i < 4)
                        p.push_back(base[i]);
                }
                cut(R, e, p);
            }
        // pieces of one size k, for every k: cycles through all phases within the frame
        c = make3(ver, 3, 1, dim("y", SP, 5, 2), dim("x", SP, 7, 3));
        Reference k5 = make_ref(c, 35 * 7 + 11);
        for (size_t k = 1; k <= 35 * 7 + 11; ++k) {
            std::vector<size_t> p;
            for (size_t o = 0; o < k5.data.size(); o += k)
                p.push_back(std::min(k, k5.data.size() - o));
            cut(R, k5, p);
        }
        // large frames, pieces around 4 KiB, 64 KiB and the frame size
        c = make3(ver, 2, 1, dim("y", SP, 300, 200), dim("x", SP, 250, 250));
        const size_t fb = 75000, n = 3 * fb + 1000;
        Reference big = make_ref(c, n);
        for (size_t a : { (size_t)1, (size_t)4095, (size_t)4096, (size_t)65535, (size_t)65536, (size_t)65537, fb - 1, fb, fb + 1, 2 * fb - 1, 2 * fb, 2 * fb + 1, 3 * fb, 3 * fb + 1 })
            for (size_t b : { (size_t)1, (size_t)65536, fb - 1, fb, fb + 1, 2 * fb })
                if (a + b < n)
                    cut(R, big, { a, b, n - a - b });
    }
    R.bound("all compositions of up to " + std::string(T ? "14" : "11") + " bytes over frames of 1, 2, 3, 4 bytes (V2, V3, uint16, compressed, multiscale, S3)");
    R.bound("all placements of 1-2 (thorough: 3) cuts in streams of 26-97 bytes, of empty appends, and every fixed piece size 1..256");
}

CHECK_FN(C06)
{
    const bool T = R.thorough;
    auto both = [&](Cfg c, uint64_t nframes, int contents = 0, const char* at = "some/prefix") {
        json d = to_json(c);
        d["frames"] = nframes;
        if (contents)
            d["contents"] = contents;
        d["prefix"] = at;
        R.run(d, [&](Report& r) {
            quiet_logs(true);
            const Bytes data = contents ? make_contents(c, nframes, contents) : make_frames(c, nframes);
            c.s3 = false;
            RunResult a = run_frames(c, R.scratch + "/s", data);
            Store want = snapshot_dir(R.scratch + "/s");
            c.s3 = true;
            auto& srv = fake_s3::server();
            const std::string prefix = at;
            // neighbours that must not be touched, with confusable keys
            std::map<std::string, std::string> foreign = {
                { "some/prefi", "a" }, { "some/prefix0", "b" }, { "some/prefix.bak/0/0", "c" }, { "0/0/0/0", "d" }, { "other/data/root/0/c0/0/0", "e" }, { ".zattrs", "f" }
            };
            srv.buckets[S3_BUCKET] = foreign;
            srv.buckets["another"] = foreign;
            RunResult b = run_frames(c, prefix, data);
            if (!a.created || !b.created)
                r.errs.push_back(std::string("stream creation failed: ") + (a.created ? "S3" : "filesystem"));
            else if (a.status != b.status || a.out != b.out)
                r.errs.push_back("appends report different results on S3 and on the filesystem");
            for (auto st : a.status)
                if (st)
                    r.errs.push_back("append failed");
            auto diff = diff_stores(want, snapshot_s3(S3_BUCKET, prefix), true);
            if (!diff.empty())
                r.errs.push_back("S3 store differs from the filesystem store: " + diff);
            for (auto& [k, v] : snapshot_s3(S3_BUCKET, prefix))
                if (v.empty())
                    r.errs.push_back("empty object " + k);
            for (auto& [k, v] : foreign)
                if (!srv.buckets[S3_BUCKET].count(k) || srv.buckets[S3_BUCKET][k] != v)
                    r.errs.push_back("foreign object " + k + " changed");
            for (auto& [k, v] : srv.buckets[S3_BUCKET])
                if (!foreign.count(k) && k.rfind(prefix + "/", 0) != 0)
                    r.errs.push_back("object outside the store: " + k);
            if (srv.buckets["another"] != foreign || srv.buckets.size() != 2)
                r.errs.push_back("another bucket changed");
            for (auto& v : srv.violations)
                r.errs.push_back("S3 protocol: " + v);
            for (auto& [id, u] : srv.uploads)
                if (!u.done)
                    r.errs.push_back("multipart upload of " + u.object + " left open");
            if (srv.clients_alive)
                r.errs.push_back("S3 connections not closed");
            uint64_t h = hash_str(to_json(c).dump());
            for (uint64_t f = 0; f <= nframes; ++f)
                r.model_states.push_back(hash_mix(h, f));
            r.transitions = srv.log.size() + 2 * nframes;
            std::string o;
            for (auto& q : srv.log)
                o += q.op + q.object + ":" + std::to_string(q.size) + ";";
            r.outcome = o;
        });
    };
    std::vector<Dim> sides;
    for (uint32_t a = 1; a <= 3; ++a)
        for (uint32_t ch = 1; ch <= a; ++ch)
            for (uint32_t sh = 1; sh <= cdiv(a, ch); ++sh)
                sides.push_back(dim("q", SP, a, ch, sh));
    for (int ver : { 2, 3 })
        for (auto y : sides)
            for (auto x : sides)
                for (uint32_t st = 1; st <= (ver == 3 ? 2 : 1); ++st) {
                    if (ver == 2 && (y.shard > 1 || x.shard > 1))
                        continue;
                    y.name = "y", x.name = "x";
                    Cfg c = make3(ver, 2, st, y, x);
                    for (uint64_t f : { 0, 1, 2, 3, 4, 5 })
                        if (T || f != 2)
                            both(c, f);
                }
    for (int ver : { 2, 3 })
        for (int ms = 0; ms <= 1; ++ms)
            for (int comp = 0; comp <= 1; ++comp)
                for (int t = 0; t < 10; t += T ? 1 : 3)
                    for (uint64_t f : { 0, 1, 4, 7, 8, 9 }) {
                        Cfg c = make3(ver, 2, 2, dim("y", SP, 6, 2, 2), dim("x", SP, 5, 2, 1));
                        c.dims.insert(c.dims.begin() + 1, dim("c", CH, 2, 1, 2));
                        c.dtype = t;
                        c.multiscale = ms;
                        c.compressed = comp;
                        c.custom = f % 2 ? "{\"a\": [1, 2, \"x\"]}" : "{}";
                        c.has_custom = f != 4;
                        both(c, f);
                    }
    for (int ver : { 2, 3 }) {
        // contents, dimensions, places
        for (int kind = 1; kind <= 4; ++kind)
            for (int comp = 0; comp <= 1; ++comp)
                for (uint64_t f : { 1, 3, 4 }) {
                    Cfg c = make3(ver, 2, 2, dim("y", SP, 6, 2, 2), dim("x", SP, 5, 2, 1));
                    c.compressed = comp;
                    both(c, f, kind);
                }
        for (size_t n = 5; n <= 9; ++n)
            for (int ms = 0; ms <= 1; ++ms) {
                Cfg c = make3(ver, 2, 1, dim("y", SP, 3, 1), dim("x", SP, 3, 2));
                for (size_t i = 3; i < n; ++i)
                    c.dims.insert(c.dims.begin() + 1, dim("d" + std::to_string(i), (int)(i % 4), 1 + i % 2, 1));
                c.multiscale = ms;
                both(c, 5);
            }
        for (const char* at : { "s", "a/b/c/d/e", "data/root", "meta", "x.zarr", "1", "with space/s", "c0", "zarr.json" })
            for (int ms = 0; ms <= 1; ++ms)
                for (uint64_t f : { 0, 5 }) {
                    Cfg c = make3(ver, 2, 1, dim("y", SP, 4, 2, 2), dim("x", SP, 4, 2, 1));
                    c.multiscale = ms;
                    both(c, f, 0, at);
                }
        // three-digit names
        both(make3(ver, 1, 1, dim("y", SP, 2, 1), dim("x", SP, 300, 1)), 2);
        both(make3(ver, 1, 1, dim("y", SP, 1, 1), dim("x", SP, 2, 2)), 270);
    }
    // objects around the 5 MiB part size
    const uint32_t P = 5 << 20;
    for (int ver : { 2, 3 })
        for (uint64_t n : { (uint64_t)P - 1, (uint64_t)P, (uint64_t)P + 1 }) {
            Cfg c = make3(ver, 1, 1, dim("y", SP, 1, 1), dim("x", SP, (uint32_t)n, (uint32_t)n));
            both(c, 1);
            both(c, 2);
        }
    for (uint32_t rows : { 1023u, 1024u, 1025u, 2048u, 2600u }) {
        Cfg c = make3(3, 1, 2, dim("y", SP, rows, rows / 2 + 1, 2), dim("x", SP, 5120, 5120, 1));
        both(c, 2); // several chunks add up to parts of one shard object
        both(c, 3);
    }
    {
        Cfg c = make3(3, 1, 4, dim("y", SP, 1024, 512, 2), dim("x", SP, 2048, 1024, 2));
        both(c, 4);
        both(c, 6);
        c.multiscale = true;
        both(c, 6);
        c.compressed = true;
        c.level = 1;
        both(c, 5);
        // metadata larger than a part
        Cfg m = make3(2, 1, 1, dim("y", SP, 1, 1), dim("x", SP, 2, 2));
        m.custom = "\"" + std::string(P + 1000, 'm') + "\"";
        both(m, 1);
        m.version = 3;
        both(m, 1);
    }
    R.bound("3D y,x array 1..3 with all chunk and shard sizes; 4D x data types x compression x multiscale; 5D to 9D; 4 kinds of contents; 9 prefixes; more than 256 objects along a dimension; objects around 1x and 2x the 5 MiB part size");
}
