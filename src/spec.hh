// Independent reader of the Zarr V2 / V3-draft layouts, and the checks on a finished store.
#pragma once
#include "cfg.hh"

using Errs = std::vector<std::string>;

struct Level
{
    std::vector<uint64_t> shape, chunk, shard; // shard: chunks per shard (V3)
    int dtype = -1;
    json meta;
    std::vector<bool> present; // per chunk of the lattice
    Bytes data;                // the dense array, zero where missing
};
// Reads level `l`; appends errors. `strict`: every chunk / slot must be as the properties demand.
bool read_level(const Store& s, const Cfg& c, int l, Level& out, Errs& errs);

// Geometry of the pyramid by the property text.
std::vector<std::vector<Dim>> pyramid(const Cfg& c);

// Frames expected at each level, as dense byte strings of frames.
std::vector<Bytes> expected_levels(const Cfg& c, const Bytes& frames, uint64_t nframes);

// Level contents: frames written at this level, in the geometry dims.
void check_level(const Store& s, const Cfg& c, int l, const std::vector<Dim>& dims, const Bytes& frames, uint64_t nframes, Errs& errs);
void check_metadata(const Store& s, const Cfg& c, uint64_t nframes, Errs& errs);
// level 0 or all levels
void check_data(const Store& s, const Cfg& c, const Bytes& frames, uint64_t nframes, bool level0, bool higher, Errs& errs);
