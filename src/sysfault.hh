// Intercepts every system call that can change a file (seccomp user trap), whichever library
// function it came from, numbers those that touch the scratch directory, and lets the harness
// decide what the n-th one does.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sysfault {
enum class Op : uint8_t
{
    Open,  // open for writing or creating
    Mkdir, //
    Write, // write, pwrite, writev, pwritev...
    Remove,
    Other, // rename, link, truncate, ...
};
enum class Act : uint8_t
{
    Pass,
    Fail,         // error `err`, nothing done
    Short,        // writes only: half of the bytes (at least one), reported truthfully
    ShortOne,     // writes only: one byte
    Crash,        // the process dies before the call
    CrashPartial, // writes only: half of the bytes are written, then the process dies
};
struct Plan
{
    int64_t at = -1;        // number of the call to affect, -1 none
    bool persistent = false; // and all later ones of the same kind
    bool same_path = false;  // ... that concern the same file
    Act act = Act::Pass;
    int err = 0;
    // a second fault
    int64_t at2 = -1;
    bool persistent2 = false;
    Act act2 = Act::Pass;
    int err2 = 0;
};
struct Entry
{
    Op op;
    int phase;
    uint32_t size;
    uint64_t path_hash;
};
constexpr size_t MAX_LOG = 8192;

bool install();                    // once per process, before other threads exist
void arm(const char* root, Plan p); // start numbering
void disarm();
bool pause(); // the harness's own calls are neither numbered nor affected; returns whether it was armed
void resume(bool);
extern volatile int phase;          // set by the harness, recorded with each call
uint64_t count();                   // calls numbered so far
bool fired();
int fired_phase(); // when the plan took effect first
const Entry& entry(uint64_t i);
uint64_t stderr_bytes();            // bytes written to descriptors 1 and 2 while armed
} // namespace sysfault
