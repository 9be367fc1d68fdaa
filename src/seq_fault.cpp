// C11, C12, C22, C16, C15: every fault at every point of a stream's life.
#include "fake_s3.hh"
#include "hist.hh"
#include "sysfault.hh"

extern "C" size_t __sanitizer_get_current_allocated_bytes();

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <memory>

namespace fs = std::filesystem;
extern unsigned g_hw_threads;

namespace {
enum { SP = ZarrDimensionType_Space, CH = ZarrDimensionType_Channel, TI = ZarrDimensionType_Time };

Store
snap(const Cfg& c, const std::string& path)
{
    return c.s3 ? snapshot_s3(S3_BUCKET, path) : snapshot_dir(path);
}
} // namespace

// ------------------------------------------------------------------ histories
std::vector<Hist>
fault_histories(bool s3, bool T)
{
    std::vector<Hist> v;
    auto add = [&](const std::string& name, Cfg c, std::vector<size_t> frames_per_append, bool old = false, size_t extra = 0) {
        Hist h;
        h.name = name;
        h.c = c;
        h.c.s3 = s3;
        for (size_t f : frames_per_append)
            h.pieces.push_back(f * frame_bytes(c));
        if (extra)
            h.pieces.push_back(extra);
        h.old_store = old;
        v.push_back(h);
    };
    for (int ver : { 2, 3 }) {
        const std::string V = "v" + std::to_string(ver);
        Cfg c = make3(ver, 1, ver == 3 ? 2 : 1, dim("y", SP, 2, 2), dim("x", SP, 4, 2, ver == 3 ? 2 : 1));
        add(V + " 1 frame per append", c, { 1, 1, 1, 1, 1 });
        add(V + " several frames per append", c, { 3, 2 }, false, 3);
        if (!s3)
            add(V + " over an old store", c, { 2, 1 }, true);
        c = make3(ver, 2, 1, dim("y", SP, 2, 1, ver == 3 ? 2 : 1), dim("x", SP, 3, 3));
        c.dtype = ZarrDataType_uint16;
        add(V + " partial layer", c, { 1, 1, 1 });
        c.compressed = true;
        add(V + " compressed", c, { 2, 1, 1 });
        c = make3(ver, 1, 1, dim("y", SP, 2, 1), dim("x", SP, 2, 1));
        c.multiscale = true;
        add(V + " multiscale", c, { 1, 1, 1, 1, 1 });
        // frames larger than any stream buffer
        c = make3(ver, 1, ver == 3 ? 2 : 1, dim("y", SP, 3, 3), dim("x", SP, 9000, 4500));
        add(V + " chunks larger than the stream buffer", c, { 1, 1, 1 });
        c = make3(ver, 1, 1, dim("y", SP, 1, 1), dim("x", SP, 2, 2));
        c.dims.insert(c.dims.begin() + 1, dim("c", CH, 2, 1));
        add(V + " 4D", c, { 1, 1, 1, 1, 1 });
        if (T) {
            c = make3(ver, 2, ver == 3 ? 2 : 1, dim("y", SP, 4, 2, ver == 3 ? 2 : 1), dim("x", SP, 4, 2));
            c.multiscale = true;
            c.compressed = true;
            add(V + " multiscale compressed", c, { 1, 2, 3, 4, 1 });
            c = make3(ver, 1, 1, dim("y", SP, 2, 1), dim("x", SP, 3, 1));
            add(V + " many small layers", c, { 1, 1, 1, 1, 1, 1, 1, 1 });
        }
        if (s3) { // multipart uploads
            const uint32_t P = 5 << 20;
            c = make3(ver, 1, ver == 3 ? 2 : 1, dim("y", SP, 1, 1), dim("x", SP, P + 5, P + 5));
            add(V + " chunk of more than one part", c, { 1, 1, 1 });
            if (ver == 3) {
                c = make3(ver, 1, 3, dim("y", SP, 2, 1), dim("x", SP, P / 2 + 7, P / 2 + 7));
                add(V + " shard grows over the part size", c, { 1, 1, 1, 1 });
                c = make3(ver, 1, 2, dim("y", SP, 1, 1), dim("x", SP, P, P));
                add(V + " parts of exactly the part size", c, { 1, 1, 1 });
            }
        }
    }
    return v;
}

json
hist_json(const Hist& h)
{
    return { { "history", h.name }, { "cfg", to_json(h.c) }, { "pieces", h.pieces } };
}

Bytes
hist_data(const Hist& h)
{
    size_t n = 0;
    for (size_t p : h.pieces)
        n += p;
    return make_frames(h.c, cdiv(n, frame_bytes(h.c)) + 1);
}

Outcome
run_hist(const Hist& h, const std::string& path, const Bytes& data, const std::function<void(size_t, int)>& on_append)
{
    Outcome o;
    sysfault::phase = PhCreate;
    ZarrStream* s = create_stream(h.c, path);
    if (!s)
        return o;
    o.created = true;
    auto append = [&](size_t off, size_t n) {
        std::vector<char> piece(data.begin() + off, data.begin() + off + n);
        static char dummy;
        size_t out = (size_t)-1;
        sysfault::phase = PhAppend + (int)o.status.size();
        int rc = ZarrStream_append(s, n ? piece.data() : &dummy, n, &out);
        if (rc == 0 && out != n)
            rc = 1000; // success that is not
        if (on_append)
            on_append(o.status.size(), rc);
        o.status.push_back(rc);
        return rc;
    };
    size_t off = 0;
    bool failed = false;
    for (size_t n : h.pieces) {
        failed |= append(off, n) != 0;
        off += n;
    }
    if (failed) {
        append(off, 0);
        append(off, frame_bytes(h.c));
    }
    sysfault::phase = PhDestroy;
    const uint64_t before = sysfault::stderr_bytes();
    ZarrStream_destroy(s);
    o.destroy_logged = sysfault::stderr_bytes() != before;
    return o;
}

void
make_old_store(const Hist& h, const std::string& path)
{
    if (!h.old_store || h.c.s3)
        return;
    fs::create_directories(path + "/0/0/0");
    fs::create_directories(path + "/junk/deep");
    std::ofstream(path + "/0/0/0/0") << "old";
    std::ofstream(path + "/0/0/0/7") << "old";
    std::ofstream(path + "/junk/deep/f") << "old";
    std::ofstream(path + "/zarr.json") << "old";
}

Store
reference_store(const Hist& h, const std::string& tmp, uint64_t frames)
{
    Cfg c = h.c;
    c.s3 = false;
    fs::remove_all(tmp);
    const Bytes data = hist_data(h);
    run_frames(c, tmp, data.substr(0, frames * frame_bytes(c)));
    Store s = snapshot_dir(tmp);
    fs::remove_all(tmp);
    if (h.c.s3)
        for (auto it = s.begin(); it != s.end();)
            it = it->second.empty() ? s.erase(it) : std::next(it);
    return s;
}

uint64_t
frames_ok(const Hist& h, const std::vector<int>& status)
{
    uint64_t n = 0;
    for (size_t i = 0; i < h.pieces.size() && i < status.size() && status[i] == 0; ++i)
        n += h.pieces[i];
    return n / frame_bytes(h.c);
}

static std::vector<uint64_t>
full_layers(const Cfg& c, uint64_t frames, std::vector<uint64_t>* layer_frames = nullptr)
{
    auto pyr = pyramid(c);
    std::vector<uint64_t> r;
    for (size_t l = 0; l < pyr.size(); ++l) {
        uint64_t n = pyr[l][0].chunk * (c.version == 3 ? pyr[l][0].shard : 1ull);
        for (size_t i = 1; i + 2 < c.nd(); ++i)
            n *= pyr[l][i].array;
        r.push_back((frames >> l) / n);
        if (layer_frames)
            layer_frames->push_back(n);
    }
    return r;
}

static std::string
layer_prefix(const Cfg& c, size_t l, uint64_t t)
{
    return c.version == 2 ? std::to_string(l) + "/" + std::to_string(t) + "/" : "data/root/" + std::to_string(l) + "/c" + std::to_string(t) + "/";
}

Store
completed_part(const Store& s, const Cfg& c, uint64_t frames)
{
    auto full = full_layers(c, frames);
    Store out;
    for (size_t l = 0; l < full.size(); ++l)
        for (uint64_t t = 0; t < full[l]; ++t) {
            const std::string p = layer_prefix(c, l, t);
            for (auto it = s.lower_bound(p); it != s.end() && it->first.compare(0, p.size(), p) == 0; ++it)
                out.insert(*it);
        }
    return out;
}

void
check_completed(const Store& s, const Cfg& c, const Bytes& data, uint64_t frames, Errs& errs)
{
    auto pyr = pyramid(c);
    std::vector<uint64_t> lf;
    auto full = full_layers(c, frames, &lf);
    auto levels = expected_levels(c, data, frames);
    Store part = completed_part(s, c, frames);
    static const char* v2[] = { "<u1", "<u2", "<u4", "<u8", "<i1", "<i2", "<i4", "<i8", "<f4", "<f8" };
    static const char* v3[] = { "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64" };
    const char* cname = c.codec == ZarrCompressionCodec_BloscZstd ? "zstd" : "lz4";
    for (size_t l = 0; l < pyr.size(); ++l) {
        if (!full[l])
            continue;
        const uint64_t n = full[l] * lf[l];
        uint64_t inner = 1;
        for (size_t i = 1; i + 2 < c.nd(); ++i)
            inner *= pyr[l][i].array;
        std::vector<uint64_t> shape{ n / inner }, chunk, shard;
        for (size_t i = 0; i < c.nd(); ++i) {
            if (i)
                shape.push_back(pyr[l][i].array);
            chunk.push_back(pyr[l][i].chunk);
            shard.push_back(pyr[l][i].shard);
        }
        json m;
        if (c.version == 2) {
            m = { { "zarr_format", 2 }, { "shape", shape }, { "chunks", chunk }, { "dtype", v2[c.dtype] }, { "fill_value", 0 },
                  { "order", "C" }, { "filters", nullptr }, { "dimension_separator", "/" }, { "compressor", nullptr } };
            if (c.real_compression())
                m["compressor"] = { { "id", "blosc" }, { "cname", cname }, { "clevel", c.level }, { "shuffle", c.shuffle } };
            part[std::to_string(l) + "/.zarray"] = m.dump();
        } else {
            m = { { "attributes", json::object() }, { "chunk_memory_layout", "C" }, { "data_type", v3[c.dtype] },
                  { "extensions", json::array() }, { "fill_value", 0 }, { "shape", shape }, { "compressor", nullptr },
                  { "chunk_grid", { { "chunk_shape", chunk }, { "separator", "/" }, { "type", "regular" } } } };
            if (c.real_compression())
                m["compressor"] = { { "codec", "https://purl.org/zarr/spec/codec/blosc/1.0" },
                                    { "configuration", { { "blocksize", 0 }, { "clevel", c.level }, { "cname", cname }, { "shuffle", c.shuffle } } } };
            json st;
            st["type"] = "indexed";
            st["extension"] = "https://purl.org/zarr/spec/storage_transformers/sharding/1.0";
            st["configuration"]["chunks_per_shard"] = shard;
            m["storage_transformers"] = json::array({ st });
            part["meta/root/" + std::to_string(l) + ".array.json"] = m.dump();
        }
        const uint64_t fb = shape[c.nd() - 1] * shape[c.nd() - 2] * dtype_size(c.dtype);
        Errs e;
        check_level(part, c, (int)l, pyr[l], levels[l].substr(0, n * fb), n, e);
        for (auto& x : e)
            errs.push_back("completed by " + std::to_string(frames) + " acknowledged frames, but: " + x);
    }
}

// ------------------------------------------------------------------ C11, C22 (file system)
namespace {
struct FsFault
{
    sysfault::Act act;
    int err;
    bool persistent;
    const char* name;
    bool same_path = false;
    int then = 0; // 1: the next write and all later ones fail for want of space; 2: a later call fails as well
    bool silent = false; // logging is switched off, so that only return values can report
};
const FsFault fs_faults[] = {
    { sysfault::Act::Fail, ENOSPC, false, "ENOSPC once" },   { sysfault::Act::Fail, ENOSPC, true, "ENOSPC from here" },
    { sysfault::Act::Fail, EIO, false, "EIO once" },         { sysfault::Act::Fail, EIO, true, "EIO from here" },
    { sysfault::Act::Fail, EACCES, false, "EACCES once" },   { sysfault::Act::Fail, EMFILE, true, "EMFILE from here" },
    { sysfault::Act::Fail, EINTR, false, "EINTR once" },     { sysfault::Act::Short, 0, false, "half written" },
    { sysfault::Act::ShortOne, 0, false, "one byte written" }, { sysfault::Act::Short, 0, true, "half written from here" },
    { sysfault::Act::Fail, ENOSPC, true, "ENOSPC for this file", true },
    { sysfault::Act::Short, 0, false, "half written, then ENOSPC", false, 1 },
    { sysfault::Act::Fail, EINTR, false, "EINTR, then ENOSPC", false, 1 },
    { sysfault::Act::Fail, ENOSPC, false, "ENOSPC once and later once more", false, 2 },
    { sysfault::Act::Fail, ENOSPC, false, "ENOSPC once, logging off", false, 0, true },
    { sysfault::Act::Fail, ENOSPC, true, "ENOSPC for this file, logging off", true, 0, true },
};
// With logging switched off, what would have been logged at the end counts as logged.
void
assume_logged(const Hist& h, int ph, Outcome& o)
{
    o.destroy_logged = ph == PhDestroy || (ph >= PhAppend && (size_t)(ph - PhAppend) + 1 >= h.pieces.size());
}
bool
transient(const FsFault& f)
{
    return !f.then && (f.act != sysfault::Act::Fail || f.err == EINTR);
}

// Number and kinds of the file-system calls of a history without faults.
std::vector<sysfault::Op>
dry_run(const Hist& h, const std::string& dir)
{
    sysfault::install();
    quiet_logs(false);
    fs::remove_all(dir);
    fs::create_directories(dir);
    make_old_store(h, dir + "/s");
    const Bytes data = hist_data(h);
    sysfault::arm(dir.c_str(), {});
    run_hist(h, dir + "/s", data);
    sysfault::disarm();
    std::vector<sysfault::Op> ops;
    for (uint64_t i = 0; i < sysfault::count() && i < sysfault::MAX_LOG; ++i)
        ops.push_back(sysfault::entry(i).op);
    fs::remove_all(dir);
    return ops;
}

void
check_sticky(const Outcome& o, Errs& errs)
{
    bool failed = false;
    for (size_t i = 0; i < o.status.size(); ++i) {
        if (o.status[i] == 1000)
            errs.push_back("append " + std::to_string(i) + " succeeded without taking all bytes");
        if (failed && o.status[i] == 0)
            errs.push_back("append " + std::to_string(i) + " succeeded after an earlier append had failed");
        failed |= o.status[i] != 0;
    }
}

// A failure that persists was met first in phase ph: it must have been reported.
void
check_reported(const Hist& h, const Outcome& o, int ph, Errs& errs)
{
    if (ph == PhCreate && o.created)
        errs.push_back("a failure during creation was not reported by it");
    if (ph == PhDestroy && !o.destroy_logged)
        errs.push_back("a failure during destruction was not logged");
    if (ph >= PhAppend) {
        const size_t k = ph - PhAppend;
        bool reported = k + 1 >= h.pieces.size() && o.destroy_logged;
        for (size_t j = k; j < o.status.size(); ++j)
            reported |= o.status[j] != 0;
        if (!reported)
            errs.push_back("a failure during append " + std::to_string(k) + " was not reported by it or a later append");
    }
}

std::string
outcome_text(const Outcome& o)
{
    std::string t = o.created ? "c" : "n";
    for (int s : o.status)
        t += s ? "e" : "o";
    return t + (o.destroy_logged ? "L" : "-");
}

void
fs_fault_cases(Runner& R, const std::function<void(const Hist&, const Outcome&, const FsFault&, sysfault::Op, const Bytes&, const Store&, const std::string&, Report&)>& judge,
               bool track)
{
    for (auto& h : fault_histories(false, R.thorough)) {
        // the number of calls is that of the code as it is now
        const auto ops = dry_run(h, R.top + "/dry");
        auto want = std::make_shared<Store>();
        for (size_t i = 0; i < ops.size(); ++i)
            for (auto& f : fs_faults) {
                if (f.act != sysfault::Act::Fail && ops[i] != sysfault::Op::Write)
                    continue;
                if (f.err == EMFILE && ops[i] != sysfault::Op::Open)
                    continue;
                if ((f.err == EACCES) && ops[i] == sysfault::Op::Write)
                    continue;
                if (f.err == EINTR && ops[i] != sysfault::Op::Write && ops[i] != sysfault::Op::Open)
                    continue;
                for (size_t j = i + 1; j <= (f.then == 2 ? R.thorough ? ops.size() + 2 : i + 2 : i + 1); ++j) {
                    json d = hist_json(h);
                    d["call"] = i;
                    d["fault"] = f.name;
                    if (f.then == 2)
                        d["second"] = j;
                    R.run(d, [&](Report& r) {
                        if (want->empty())
                            *want = reference_store(h, R.top + "/ref", h.frames());
                        const Bytes data = hist_data(h);
                        const std::string path = R.scratch + "/s";
                        make_old_store(h, path);
                        quiet_logs(f.silent);
                        sysfault::Plan p;
                        p.at = i;
                        p.act = f.act;
                        p.err = f.err;
                        p.persistent = f.persistent;
                        p.same_path = f.same_path;
                        if (f.then) {
                            p.at2 = j;
                            p.act2 = sysfault::Act::Fail;
                            p.err2 = ENOSPC;
                            p.persistent2 = f.then == 1;
                        }
                        Store last; // completed chunks as they were after the append that failed
                        bool have_last = false;
                        uint64_t ok = 0, at_last = 0;
                        bool failed = false;
                        sysfault::arm(R.scratch.c_str(), p);
                        Outcome o = run_hist(h, path, data, [&](size_t k, int rc) {
                            if (rc == 0 && !failed && k < h.pieces.size())
                                ok += h.pieces[k];
                            if (rc && !failed && track) {
                                at_last = ok / frame_bytes(h.c);
                                last = completed_part(snapshot_dir(path), h.c, at_last);
                                have_last = true;
                            }
                            failed |= rc != 0;
                        });
                        sysfault::disarm();
                        quiet_logs(true);
                        if (f.silent)
                            assume_logged(h, sysfault::fired_phase(), o);
                        Store s = snapshot_dir(path);
                        judge(h, o, f, ops[i], data, s, path, r);
                        if (have_last) {
                            auto diff = diff_stores(last, completed_part(s, h.c, at_last));
                            if (!diff.empty())
                                r.errs.push_back("a completed chunk changed after the stream had failed: " + diff);
                        }
                        if (!r.errs.empty())
                            for (auto& e : r.errs)
                                e += " [call " + std::to_string(i) + ": " + f.name + (f.then == 2 ? " at " + std::to_string(j) : "") + ", observed " + outcome_text(o) + "]";
                        if (o.created && !failed && !o.destroy_logged) {
                            auto diff = diff_stores(*want, s);
                            if (!diff.empty())
                                r.errs.push_back("nothing was reported, but " + diff + " [call " + std::to_string(i) + ": " + f.name + "]");
                        }
                        uint64_t hs = hash_str(h.name);
                        r.model_states.push_back(hash_mix(hs, (i * 64 + (&f - fs_faults)) * 1024 + j));
                        r.transitions = sysfault::count();
                        r.outcome = h.name + outcome_text(o);
                    });
                }
            }
    }
}
} // namespace

CHECK_FN(C11)
{
    fs_fault_cases(
      R,
      [&](const Hist& h, const Outcome& o, const FsFault& f, sysfault::Op op, const Bytes& data, const Store& s, const std::string&, Report& r) {
          // data acknowledged before the failure
          check_completed(s, h.c, data, frames_ok(h, o.status), r.errs);
          if (f.same_path && sysfault::fired()) { // no second try can have helped
              check_reported(h, o, sysfault::fired_phase(), r.errs);
          }
          if (transient(f) && op == sysfault::Op::Write) {
              for (int st : o.status)
                  if (st)
                      r.errs.push_back("a transient short write or interrupted call made an append fail");
              if (!o.created)
                  r.errs.push_back("a transient short write or interrupted call made the creation fail");
              if (o.destroy_logged)
                  r.errs.push_back("a transient short write or interrupted call lost data at the end");
          }
      },
      false);
    R.bound("every file-system call (open, mkdir, write, remove) of every listed history x {ENOSPC, EIO, EACCES, EMFILE, EINTR, half, one byte} x {once, from there on}; and ENOSPC for that call and all later ones of its kind on the same file (must be reported at once or by a later append); half a write or EINTR followed by ENOSPC; every pair of calls (quick: at most 2 apart) failing with ENOSPC; single faults again with logging switched off");
    R.bound("histories: V2 and V3, several chunks and shards, two-layer shards, partial layers and frames, compression, multiscale, 4D, old store at the path, chunks below and above the stream buffer");
}

CHECK_FN(C22)
{
    fs_fault_cases(
      R,
      [&](const Hist& h, const Outcome& o, const FsFault&, sysfault::Op, const Bytes& data, const Store& s, const std::string&, Report& r) {
          check_sticky(o, r.errs);
          check_completed(s, h.c, data, frames_ok(h, o.status), r.errs);
      },
      true);
    R.bound("file system: every call x every fault of C11, appends continued after the failure (data, empty, one more frame), then destroyed");
}

// ------------------------------------------------------------------ C12, C22 (S3)
namespace {
struct S3Fault
{
    fake_s3::Answer a;
    bool persistent;
    const char* name;
    bool same_object = false;
    bool twice = false; // a later request fails as well
    bool silent = false; // logging is switched off
};
const S3Fault s3_faults[] = {
    { fake_s3::Answer::Error, false, "error once" },
    { fake_s3::Answer::Error, true, "errors from here" },
    { fake_s3::Answer::EmptyEtag, false, "no tag once" },
    { fake_s3::Answer::EmptyEtag, true, "no tags from here" },
    { fake_s3::Answer::Error, true, "errors for this object", true },
    { fake_s3::Answer::EmptyEtag, true, "no tags for this object", true },
    { fake_s3::Answer::Error, false, "error once and later once more", false, true },
    { fake_s3::Answer::EmptyEtag, false, "no tag once, later an error", false, true },
    { fake_s3::Answer::Error, false, "error once, logging off", false, false, true },
    { fake_s3::Answer::EmptyEtag, true, "no tags for this object, logging off", true, false, true },
};

uint64_t
dry_requests(const Hist& h)
{
    quiet_logs(true);
    fake_s3::reset();
    fake_s3::serve_only();
    fake_s3::decide = nullptr;
    fake_s3::server().buckets[S3_BUCKET];
    run_hist(h, "s", hist_data(h));
    const uint64_t n = fake_s3::server().seq;
    fake_s3::reset();
    fake_s3::serve_only();
    return n;
}

void
s3_fault_cases(Runner& R, bool sticky)
{
    sysfault::install();
    for (auto& h : fault_histories(true, R.thorough)) {
        const uint64_t n = dry_requests(h);
        auto refs = std::make_shared<std::map<std::string, std::set<uint64_t>>>(); // key -> hashes of legal contents
        auto want = std::make_shared<Store>();
        for (uint64_t i = 0; i < n; ++i)
            for (auto& f : s3_faults) {
                if (f.silent && !R.thorough && frame_bytes(h.c) > 1 << 20)
                    continue;
                if (f.twice && !R.thorough && (frame_bytes(h.c) > 1 << 20 || f.a != fake_s3::Answer::Error))
                    continue;
                for (uint64_t j = i + 1; j <= (f.twice ? R.thorough ? n + 2 : i + 4 : i + 1); ++j) {
                    json d = hist_json(h);
                    d["request"] = i;
                    d["fault"] = f.name;
                    if (f.twice)
                        d["second"] = j;
                    R.run(d, [&](Report& r) {
                        if (want->empty())
                            for (uint64_t k = 0; k <= h.frames(); ++k) {
                                Store s = reference_store(h, R.top + "/ref", k);
                                for (auto& [key, v] : s)
                                    (*refs)[key].insert(hash_str(v));
                                if (k == h.frames())
                                    *want = s;
                            }
                        const Bytes data = hist_data(h);
                        auto& srv = fake_s3::server();
                        bool fired = false;
                        int phase = 0;
                        std::string op, object;
                        fake_s3::decide = [&](const fake_s3::Request& q) {
                            if (q.seq == i || (f.persistent && q.seq > i && (!f.same_object || (q.object == object && q.op == op)))) {
                                if (!fired) {
                                    phase = sysfault::phase;
                                    op = q.op;
                                    object = q.object;
                                }
                                fired = true;
                                return f.a;
                            }
                            if (f.twice && q.seq == j)
                                return fake_s3::Answer::Error;
                            return fake_s3::Answer::Ok;
                        };
                        quiet_logs(f.silent);
                        Store last;
                        bool have_last = false, failed = false;
                        uint64_t ok = 0, at_last = 0;
                        sysfault::arm("/nonexistent", {});
                        Outcome o = run_hist(h, "s", data, [&](size_t k, int rc) {
                            if (rc == 0 && !failed && k < h.pieces.size())
                                ok += h.pieces[k];
                            if (rc && !failed) {
                                at_last = ok / frame_bytes(h.c);
                                last = completed_part(snap(h.c, "s"), h.c, at_last);
                                have_last = true;
                            }
                            failed |= rc != 0;
                        });
                        sysfault::disarm();
                        fake_s3::decide = nullptr;
                        quiet_logs(true);
                        if (f.silent)
                            assume_logged(h, phase, o);
                        Store s = snap(h.c, "s");
                        if (sticky)
                            check_sticky(o, r.errs);
                        check_completed(s, h.c, data, frames_ok(h, o.status), r.errs);
                        if (have_last) {
                            auto diff = diff_stores(last, completed_part(s, h.c, at_last));
                            if (!diff.empty())
                                r.errs.push_back("a completed object changed after the stream had failed: " + diff);
                        }
                        if (!sticky) {
                            for (auto& [key, v] : s)
                                if (!refs->count(key) || !(*refs)[key].count(hash_str(v)))
                                    r.errs.push_back("object '" + key + "' was completed with " + std::to_string(v.size()) + " bytes that are no state of the data");
                            for (auto& v : srv.violations)
                                r.errs.push_back("S3 protocol: " + v);
                            if (srv.clients_alive)
                                r.errs.push_back(std::to_string(srv.clients_alive) + " S3 connections were lost");
                            if (o.created && !failed && !o.destroy_logged) {
                                auto diff = diff_stores(*want, s);
                                if (!diff.empty())
                                    r.errs.push_back("nothing was reported, but " + diff);
                            }
                            if (f.same_object && (f.a == fake_s3::Answer::Error || op == "put" || op == "create_mp" || op == "upload_part"))
                                check_reported(h, o, phase, r.errs);
                            if (!fired)
                                r.errs.push_back("harness: request " + std::to_string(i) + " was not made");
                        }
                        if (!r.errs.empty())
                            for (auto& e : r.errs)
                                e += " [request " + std::to_string(i) + ": " + f.name + (f.twice ? " at " + std::to_string(j) : "") + ", observed " + outcome_text(o) + "]";
                        r.model_states.push_back(hash_mix(hash_str(h.name), (i * 64 + (&f - s3_faults)) * 1024 + j));
                        r.transitions = srv.log.size();
                        r.outcome = h.name + outcome_text(o);
                    });
                }
            }
    }
}
} // namespace

CHECK_FN(C12)
{
    s3_fault_cases(R, false);
    R.bound("every request of every listed S3 history x {error, answer without tag} x {once, from there on, from there on for the same object}; pairs of failing requests (quick: errors at most 4 apart, frames up to 1 MiB); single faults again with logging switched off (quick: frames up to 1 MiB); a pool of one connection, so that a lost one hangs");
    R.bound("histories: V2 and V3, several chunks and shards, two-layer shards, partial layers and frames, compression, multiscale, 4D, objects of one and several parts");
}

CHECK_FN(C22s3)
{
    s3_fault_cases(R, true);
    R.bound("S3: every request x every fault of C12, appends continued after the failure (data, empty, one more frame), then destroyed");
}

// ------------------------------------------------------------------ C16
namespace {
struct Progress
{
    volatile uint64_t acked_bytes;
    volatile uint64_t appends;
    volatile int done;
};
}

CHECK_FN(C16)
{
    auto* prog = (Progress*)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto hs = fault_histories(false, R.thorough);
    const size_t n_short = hs.size();
    for (int ver : { 2, 3 }) // more layers than eight bits can number
        for (size_t per : { 1, 130 }) {
            Hist h;
            h.name = "v" + std::to_string(ver) + " 261 layers, " + std::to_string(per) + " per append";
            h.c = make3(ver, 1, 1, dim("y", SP, 1, 1), dim("x", SP, 2, 2));
            for (size_t f = 0; f < 261; f += per)
                h.pieces.push_back(std::min<size_t>(per, 261 - f) * frame_bytes(h.c));
            hs.push_back(h);
        }
    for (auto& h : hs) {
        const bool brief = (size_t)(&h - hs.data()) >= n_short;
        const auto ops = dry_run(h, R.top + "/dry");
        for (size_t i = brief && ops.size() > 12 ? ops.size() - 12 : 0; i <= ops.size(); ++i)
            for (int part = 0; part <= 1; ++part) {
                if (part && (i == ops.size() || ops[i] != sysfault::Op::Write))
                    continue;
                json d = hist_json(h);
                d["crash_before_call"] = i;
                if (part)
                    d["torn_write"] = true;
                R.run(d, [&](Report& r) {
                    const Bytes data = hist_data(h);
                    const std::string path = R.scratch + "/s";
                    make_old_store(h, path);
                    quiet_logs(true);
                    memset((void*)prog, 0, sizeof *prog);
                    fflush(nullptr);
                    pid_t pid = fork();
                    if (pid == 0) {
                        alarm(30);
                        sysfault::Plan p;
                        p.at = i;
                        p.act = part ? sysfault::Act::CrashPartial : sysfault::Act::Crash;
                        sysfault::arm(R.scratch.c_str(), p);
                        bool failed = false;
                        run_hist(h, path, data, [&](size_t k, int rc) {
                            if (rc == 0 && !failed && k < h.pieces.size())
                                prog->acked_bytes = prog->acked_bytes + h.pieces[k];
                            prog->appends = k + 1;
                            failed |= rc != 0;
                        });
                        prog->done = 1;
                        _exit(0);
                    }
                    int st = 0;
                    waitpid(pid, &st, 0);
                    if (!WIFEXITED(st) || (WEXITSTATUS(st) != 99 && WEXITSTATUS(st) != 0))
                        r.errs.push_back("harness: the crashing process ended with status " + std::to_string(st));
                    const uint64_t f = prog->acked_bytes / frame_bytes(h.c);
                    check_completed(snapshot_dir(path), h.c, data, f, r.errs);
                    if (!r.errs.empty())
                        for (auto& e : r.errs)
                            e += " [died before call " + std::to_string(i) + (part ? ", half of which was written" : "") + "]";
                    r.model_states.push_back(hash_mix(hash_str(h.name), i * 2 + part));
                    r.transitions = i;
                    r.outcome = h.name + std::to_string(f) + (prog->done ? "d" : "");
                });
            }
        // nothing that is complete changes later: compare after every append and after destruction
        json d = hist_json(h);
        d["stability"] = true;
        R.run(d, [&](Report& r) {
            const Bytes data = hist_data(h);
            const std::string path = R.scratch + "/s";
            make_old_store(h, path);
            quiet_logs(true);
            Store complete;
            uint64_t ok = 0, f = 0;
            Outcome o = run_hist(h, path, data, [&](size_t k, int rc) {
                if (brief && k % 40 && k + 6 < h.pieces.size()) {
                    ok += rc ? 0 : h.pieces[k];
                    return;
                }
                Store s = snapshot_dir(path);
                for (auto& [key, v] : complete)
                    if (!s.count(key) || s[key] != v)
                        r.errs.push_back("append " + std::to_string(k) + " changed the completed '" + key + "'");
                if (rc == 0)
                    ok += h.pieces[k];
                else
                    r.errs.push_back("append failed");
                f = ok / frame_bytes(h.c);
                check_completed(s, h.c, data, f, r.errs);
                complete = completed_part(s, h.c, f);
                r.model_states.push_back(hash_mix(hash_str(h.name), 1000000 + k));
            });
            Store s = snapshot_dir(path);
            for (auto& [key, v] : complete)
                if (!s.count(key) || s[key] != v)
                    r.errs.push_back("finalization changed the completed '" + key + "'");
            r.transitions = h.pieces.size() + 2;
            r.outcome = h.name + "stable" + std::to_string(complete.size());
        });
    }
    R.bound("the process dies before every file-system call and in the middle of every write of every listed history; the remaining files are read back");
    R.bound("completed chunks and shards compared after every later append and after finalization");
    R.bound("streams of 261 layers: compared after every 40th append and the last six, death before each of the last 12 calls");
}

// ------------------------------------------------------------------ C15
namespace {
int
count_dir(const char* d)
{
    DIR* p = opendir(d);
    int n = 0;
    if (p) {
        while (auto* e = readdir(p))
            n += e->d_name[0] != '.';
        closedir(p);
    }
    return n;
}
struct Held
{
    size_t bytes;
    int fds, tasks, clients;
};
Held
held()
{
    return { __sanitizer_get_current_allocated_bytes(), count_dir("/proc/self/fd"), count_dir("/proc/self/task"), fake_s3::server().clients_alive };
}

// Runs `life` three times; nothing may be left behind by the third run.
void
balanced(Runner& R, Report& r, const std::function<std::string()>& life)
{
    Held h[3];
    std::string o;
    for (int k = 0; k < 3; ++k) {
        fs::remove_all(R.scratch);
        fs::create_directories(R.scratch);
        fake_s3::reset();
        fake_s3::serve_only();
        fake_s3::server().buckets[S3_BUCKET];
        o = life();
        o.shrink_to_fit();
        r.outcome = "";
        fake_s3::decide = nullptr;
        const int alive = fake_s3::server().clients_alive;
        fake_s3::reset();
        fake_s3::serve_only();
        h[k] = held();
        h[k].clients = alive;
        if (k == 0)
            for (int w = 0; w < 200 && h[0].tasks > 1; ++w) {
                usleep(1000);
                h[0].tasks = count_dir("/proc/self/task");
            }
        if (k < 2)
            o.clear(), o.shrink_to_fit();
    }
    for (int k = 1; k < 3; ++k) {
        if (h[k].tasks > 1) {
            // an exiting thread needs a moment to vanish from /proc after it has been joined
            for (int w = 0; w < 2000 && h[k].tasks > 1; ++w) {
                usleep(1000);
                h[k].tasks = count_dir("/proc/self/task");
            }
        }
        if (h[k].tasks > 1)
            r.errs.push_back(std::to_string(h[k].tasks - 1) + " threads are left");
        if (h[k].clients)
            r.errs.push_back(std::to_string(h[k].clients) + " S3 connections are left");
    }
    if (h[2].fds > h[1].fds)
        r.errs.push_back(std::to_string(h[2].fds - h[1].fds) + " file descriptors are left");
    if (h[2].bytes > h[1].bytes + 15)
        r.errs.push_back(std::to_string(h[2].bytes - h[1].bytes) + " bytes of memory are left");
    r.outcome = o;
}
} // namespace

CHECK_FN(C15)
{
    sysfault::install();
    quiet_logs(true);
    // every history without faults, with 1 and with several threads; every fault of it
    for (bool s3 : { false, true })
        for (auto& h : fault_histories(s3, R.thorough)) {
            for (unsigned threads : { 1u, 3u }) {
                json d = hist_json(h);
                d["threads"] = threads;
                R.run(d, [&](Report& r) {
                    quiet_logs(true);
                    const Bytes data = hist_data(h);
                    balanced(R, r, [&] {
                        g_hw_threads = threads;
                        make_old_store(h, R.scratch + "/s");
                        Outcome o = run_hist(h, s3 ? "s" : R.scratch + "/s", data);
                        g_hw_threads = 1;
                        return outcome_text(o);
                    });
                    r.model_states.push_back(hash_mix(hash_str(h.name), threads + 100 * s3));
                    r.transitions = 3 * (h.pieces.size() + 2);
                });
            }
            if (s3) {
                const uint64_t n = dry_requests(h);
                for (uint64_t i = 0; i < n; ++i)
                    for (auto& f : s3_faults) {
                        if (f.a == fake_s3::Answer::EmptyEtag && f.persistent || f.same_object || f.twice)
                            continue;
                        json d = hist_json(h);
                        d["request"] = i;
                        d["fault"] = f.name;
                        R.run(d, [&](Report& r) {
                            quiet_logs(true);
                            const Bytes data = hist_data(h);
                            balanced(R, r, [&] {
                                fake_s3::decide = [&](const fake_s3::Request& q) {
                                    return q.seq == i || (f.persistent && q.seq > i) ? f.a : fake_s3::Answer::Ok;
                                };
                                return outcome_text(run_hist(h, "s", data));
                            });
                            r.model_states.push_back(hash_mix(hash_str(h.name), 1000 + i * 4 + (&f - s3_faults)));
                            r.transitions = 3 * i;
                        });
                    }
            } else {
                const auto ops = dry_run(h, R.top + "/dry");
                for (size_t i = 0; i < ops.size(); ++i)
                    for (auto& f : fs_faults) {
                        if (f.err != EIO && !(f.err == EMFILE && ops[i] == sysfault::Op::Open))
                            continue;
                        json d = hist_json(h);
                        d["call"] = i;
                        d["fault"] = f.name;
                        R.run(d, [&](Report& r) {
                            quiet_logs(true);
                            const Bytes data = hist_data(h);
                            balanced(R, r, [&] {
                                make_old_store(h, R.scratch + "/s");
                                sysfault::Plan p;
                                p.at = i;
                                p.act = f.act;
                                p.err = f.err;
                                p.persistent = f.persistent;
                                sysfault::arm(R.scratch.c_str(), p);
                                Outcome o = run_hist(h, R.scratch + "/s", data);
                                sysfault::disarm();
                                return outcome_text(o);
                            });
                            r.model_states.push_back(hash_mix(hash_str(h.name), 100000 + i * 16 + (&f - fs_faults)));
                            r.transitions = 3 * i;
                        });
                    }
            }
        }
    // rejected settings of every kind leave nothing behind either
    for (int kind = 0; kind < 12; ++kind)
        R.run({ { "rejected_settings", kind } }, [&](Report& r) {
            quiet_logs(true);
            balanced(R, r, [&] {
                Cfg c = make3(kind % 2 ? 2 : 3, 1, 1, dim("y", SP, 2, 1), dim("x", SP, 2, 1));
                if (kind == 7)
                    c.s3 = true;
                if (kind == 8)
                    c.compressed = true;
                if (kind == 9)
                    c.custom = "{";
                if (kind == 10)
                    c.dims[1].chunk = 0;
                Settings st(c, kind == 11 ? R.scratch + "/no/such/dir/s" : kind == 7 ? "s" : R.scratch + "/s");
                switch (kind) {
                    case 0: st.s.version = (ZarrVersion)9; break;
                    case 1: st.s.data_type = (ZarrDataType)99; break;
                    case 2: st.s.dimension_count = 2; break;
                    case 3: st.s.dimensions = nullptr; break;
                    case 4: st.s.store_path = nullptr; break;
                    case 5: st.s.store_path = ""; break;
                    case 6: st.dims[0].name = nullptr; break;
                    case 7: fake_s3::server().buckets.clear(); break;
                    case 8: st.comp.level = 77; break;
                }
                ZarrStream* s = ZarrStream_create(&st.s);
                const bool made = s;
                ZarrStream_destroy(s);
                return std::string(made ? "made" : "null");
            });
            r.transitions = 3;
            r.model_states.push_back(hash_mix(77, kind));
        });
    // bounded while streaming: what is held after k and after k + 24 whole periods of the stream differs by nothing
    for (bool s3 : { false, true })
        for (int ver : { 2, 3 })
            for (int ms = 0; ms <= 1; ++ms)
                for (int comp = 0; comp <= 1; ++comp)
                    for (int piece = 0; piece < 3; ++piece) {
                        Cfg c = make3(ver, 2, ver == 3 ? 2 : 1, dim("y", SP, 4, 2, 1), dim("x", SP, 6, 3, ver == 3 ? 2 : 1));
                        c.multiscale = ms;
                        c.compressed = comp;
                        c.s3 = s3;
                        json d = to_json(c);
                        d["growth"] = piece;
                        R.run(d, [&](Report& r) {
                            quiet_logs(true);
                            Settings st(c, s3 ? "s" : R.scratch + "/s");
                            const size_t fb = frame_bytes(c);
                            // one period: whole shards of the coarsest level
                            const size_t period = 64;
                            const Bytes data = make_frames(c, period);
                            const size_t step = piece == 0 ? fb : piece == 1 ? 5 * fb + 7 : 3;
                            ZarrStream* s = ZarrStream_create(&st.s);
                            if (!s) {
                                r.errs.push_back("stream creation failed");
                                return;
                            }
                            Held at[3];
                            auto periods = [&](int n) {
                                for (int k = 0; k < n; ++k)
                                    for (size_t o = 0; o < data.size(); o += step) {
                                        size_t out, len = std::min(step, data.size() - o);
                                        if (ZarrStream_append(s, data.data() + o, len, &out) && r.errs.empty())
                                            r.errs.push_back("append failed");
                                    }
                                if (s3) { // what the server holds is not the library's
                                    auto& b = fake_s3::server().buckets[S3_BUCKET];
                                    std::map<std::string, std::string>().swap(b);
                                    std::vector<fake_s3::Request>().swap(fake_s3::server().log);
                                    fake_s3::server().uploads.clear();
                                }
                            };
                            const int N = R.thorough ? 48 : 16;
                            periods(4);
                            at[0] = held();
                            periods(N);
                            at[1] = held();
                            if (at[1].fds > at[0].fds)
                                r.errs.push_back("descriptors grow: " + std::to_string(at[0].fds) + " to " + std::to_string(at[1].fds));
                            if (at[1].tasks > at[0].tasks)
                                r.errs.push_back("threads grow");
                            if (at[1].bytes > at[0].bytes + 4 * N)
                                r.errs.push_back("memory grows by " + std::to_string((at[1].bytes - at[0].bytes) / N) + " bytes for every " + std::to_string(period) + " frames");
                            ZarrStream_destroy(s);
                            r.transitions = (N + 4) * data.size() / step;
                            r.model_states.push_back(hash_mix(hash_str(d.dump()), 1));
                            r.outcome = std::to_string(at[1].fds);
                        });
                    }
    R.bound("every history of C11 and C12 without a fault (1 and 3 threads), and with every file-system call or request failing (once, from there on), run three times: threads, descriptors, connections and allocated bytes after the second and third run are equal");
    R.bound("streams of 20 (thorough: 52) periods of 64 frames: held memory and descriptors after 4 periods and at the end are equal");
}
