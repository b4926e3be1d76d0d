// mcrt: controlled runtime. Replaces libgomp and the pthread synchronisation primitives at link time.
// OpenMP threads are OS threads of which exactly one runs at a time; every synchronisation operation is a scheduling
// point whose outcome is decided by a strategy, so that all schedules within a bound can be enumerated.
// Objects compiled with -fsanitize=thread report their memory accesses to the detector in here (vector clocks).
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Options {
    int preemptions = -1;      // bound on switches away from an enabled thread; -1 = none (all interleavings)
    int delays = -1;           // bound on departures from the default order of any kind; -1 = none
    bool races = false;        // report data races (needs instrumented objects)
    bool spurious = false;     // condition waits may wake up spuriously (counts as a deviation)
    int region = -1;           // enumerate choices inside this parallel region only (counted from 0); -1 = all
    uint64_t max_schedules = 0;// cap (0 = none)
};

struct Stats { uint64_t schedules = 0, points = 0, branches = 0, max_points = 0, max_threads = 0, regions = 0; bool capped = false; };

// Default (uncontrolled) mode: deterministic, first-come order; order: 0 = master first, 1 = highest thread first,
// 2 = rotate at every scheduling point.
void set_default_order(int order);
void set_team_cap(int cap);            // the runtime delivers at most this many threads (0 = as requested)
void set_hang_limit(uint64_t points);  // scheduling points per run after which it counts as non-terminating
void reset_points();                   // a new run begins (outside explore)
uint64_t run_points();                 // scheduling points of the last run / current run
int max_team_seen();                   // largest team since the last call
int parallel_regions();                // regions since last call

// Enumerate schedules of body. body must be deterministic up to the schedule. `done` is called after every execution;
// returning false stops the enumeration. Deadlock / livelock / race are reported through `problem`; a deadlock cannot be
// continued from, so problem() must not return for it.
Stats explore(const Options& o, const std::function<void()>& body, const std::function<bool()>& done,
              const std::function<void(const std::string&)>& problem);

// For runs outside explore(): what to do on deadlock/livelock; races are collected if enabled.
void set_problem_handler(const std::function<void(const std::string&)>& problem);
void set_races(bool on);

std::string schedule();                // choices of the current / last execution, "2.0.1..."
void choice_point(const char* what);   // harness-made scheduling point (e.g. inside a callback)

} // namespace mc
