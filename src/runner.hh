// Exhaustive case runner: enumerates a finite list of cases, splits it over processes by index,
// isolates each shard in a child (a crash or hang is a result of the case that was running),
// replays every failure before reporting it.
#pragma once
#include "cfg.hh"

#include <set>
#include <unordered_set>

struct Report
{
    std::vector<std::string> errs;
    std::vector<uint64_t> model_states; // hashes of reference-model states visited by the case
    uint64_t transitions = 0;           // model transitions (operations) replayed on the real code
    std::string outcome;                // canonical form of what was observed (distinct outcomes are counted)
    // a case that explores many executions by itself
    uint64_t n_exec = 0, n_states = 0;
    std::vector<uint64_t> more_outcomes;
    std::map<std::string, double> extra; // summed over the cases, for the evidence
    std::vector<std::string> incomplete;
    std::string trace, note;
};

class Runner
{
  public:
    bool thorough = false;
    // Registers one case. `key` names it uniquely; `body` runs it.
    // Only executed when it belongs to this shard (or is the one being replayed).
    template<typename F>
    void run(const json& desc, F&& body)
    {
        if (begin(desc)) {
            Report r;
            body(r);
            end(desc, r);
        }
    }
    // a scratch directory of this process, emptied for each case
    std::string scratch, top;
    void bound(const std::string& text) { bounds.push_back(text); }
    void tick(); // the case is alive

    // internal
    uint64_t index = 0, only = UINT64_MAX, executed = 0, transitions = 0, resume = 0;
    unsigned shard = 0, nshards = 1;
    bool counting = false;
    std::unordered_set<uint64_t> states;
    std::unordered_set<uint64_t> outcomes;
    std::vector<json> samples;
    std::vector<std::string> bounds;
    std::vector<json> failures;
    uint64_t n_exec = 0, n_states = 0;
    std::map<std::string, double> extra;
    std::vector<std::string> incomplete, case_notes;
    bool round_robin = false;
    void* shm = nullptr;

  private:
    bool begin(const json& desc);
    void end(const json& desc, const Report& r);
};

struct Check
{
    const char* id;
    void (*enumerate)(Runner&);
};
// filled in by each seq_*.cpp
std::vector<Check>& checks();
struct Register
{
    Register(const char* id, void (*f)(Runner&)) { checks().push_back({ id, f }); }
};
#define CHECK_FN(ID)                                                                                                   \
    static void check_##ID(Runner&);                                                                                   \
    static Register reg_##ID(#ID, check_##ID);                                                                         \
    static void check_##ID(Runner& R)

uint64_t hash_str(const std::string& s);
inline uint64_t
hash_mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
}
// captured stdout+stderr of the process during the case, when enabled
void quiet_logs(bool quiet); // sets the library's log level to None / Error
