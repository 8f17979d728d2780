// Deterministic thread scheduler: real threads, exactly one of which runs at any time; it changes only at yield points (memory
// accesses of instrumented code, mutex and atomic operations, step boundaries) and only as the plan says.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
namespace sim::sched
{
/** A slice of the schedule: whoever runs goes on for count yield points of the kind, then target runs. */
struct Preempt
{
  int kind; // 0 shared access or synchronisation, 1 any access, 2 step boundary
  int64_t count;
  int target;
};
struct Stats
{
  bool deadlock = false;
  int64_t switches = 0, shared = 0, accesses = 0, contended = 0;
  uint64_t hash = 1469598103934665603ull; // of the sequence of switches
};
/** Runs n threads to completion. body(i) must not let exceptions out. */
Stats run(int n, const std::function<void(int)> & body, const std::vector<Preempt> & plan);
/** To be called by a thread between two steps. */
void boundary();
/** Stops everything: the remaining threads never run again. */
void abandon();
} // namespace sim::sched
