// Exhaustive exploration of the schedules of a scenario under mcrt (see mcrt.h).
#pragma once
#include "../runner.hh"
#include "../spec.hh"
#include "mcrt.h"

#include <functional>
#include <string>
#include <vector>

namespace mcx {
struct Opts
{
    int bound = 2;        // deviations from the default schedule that have to be covered completely
    int max_bound = 99;   // goes on to this bound (or until nothing is left) while time permits
    double secs = 1;      // once `bound` is covered: goes on while less than this has been spent
    double hard = 60;     // gives up (evidence: incomplete) after this
    bool spurious = false;
    bool one_outcome = false; // every schedule has to lead to the same outcome
    int max_steps = 6000;
    int alarm_s = 30;
};
// Called in a process of its own for each execution. Prepares (uncontrolled), calls mcrt::begin(),
// runs the scenario, calls mcrt::end(), judges the outcome. Appends errors; returns the canonical outcome.
// `dir` is an empty directory whose name has the same length every time.
using Body = std::function<std::string(std::vector<std::string>& errs, const std::string& dir)>;

// One case per policy.
void explore(Runner& R, const json& desc, const Opts& o, const Body& body, unsigned policies = 7);
} // namespace mcx
