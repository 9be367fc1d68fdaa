// A stream's life as a history of appends, run on the real library under file-system or S3 faults.
#pragma once
#include "runner.hh"
#include "spec.hh"

struct Hist
{
    std::string name;
    Cfg c;
    std::vector<size_t> pieces; // bytes of each append
    bool old_store = false;     // an older store lies at the path
    uint64_t frames() const
    {
        size_t n = 0;
        for (size_t p : pieces)
            n += p;
        return n / frame_bytes(c);
    }
};
struct Outcome
{
    bool created = false;
    std::vector<int> status;
    bool destroy_logged = false; // something was written to stderr while the stream was destroyed
};
enum Phase { PhCreate = 1, PhDestroy = 2, PhAppend = 16 };

std::vector<Hist> fault_histories(bool s3, bool thorough);
json hist_json(const Hist& h);
// Bytes of the whole history.
Bytes hist_data(const Hist& h);
// Creates, appends every piece (also after errors; after an error additionally an empty append and one
// more frame), destroys. `on_append(i, status)` after each append, `on_phase` before each phase.
Outcome run_hist(const Hist& h, const std::string& path, const Bytes& data, const std::function<void(size_t, int)>& on_append = {});
// What lay at the path before, when old_store.
void make_old_store(const Hist& h, const std::string& path);
// The store after the first `bytes` bytes and finalization (computed once, without faults; keeps the scratch
// directory `tmp` for itself)
Store reference_store(const Hist& h, const std::string& tmp, uint64_t frames);
// Every layer of chunks (V2) or shards (V3) that the first `frames` frames fill must be complete in the store.
void check_completed(const Store& s, const Cfg& c, const Bytes& data, uint64_t frames, Errs& errs);
// keys and contents of those layers
Store completed_part(const Store& s, const Cfg& c, uint64_t frames);
// Frames whose bytes were all in the first k successful appends.
uint64_t frames_ok(const Hist& h, const std::vector<int>& status);
