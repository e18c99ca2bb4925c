// sched.hpp - a controlled scheduler for code compiled by clang with
// -fsanitize=thread.  The instrumentation calls our own runtime (sched.cpp), not
// ThreadSanitizer's: every memory access of the code under test is a point at
// which another thread can be scheduled, and is checked for data races against
// a happens-before relation.  One thread runs at a time.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP

#include <cstdint>

namespace sched {

constexpr int MAXTHREADS = 3;
constexpr int MAXPOINTS = 1 << 15;
constexpr int MAXDEV = 16;
constexpr int MAXHOT = 1024;

enum Status { UNFINISHED, OK, DEADLOCK, RACE, TOO_LONG };

struct Point {
    std::uint8_t enabled; // mask of the threads that can be scheduled
    std::uint8_t chosen;
    std::uint8_t current; // or 0xFF
};

// in memory shared between the explorer and the process that runs a schedule
struct Run {
    // in
    int nthreads;
    int all_points; // every access is a scheduling point, or only the hot ones
    int ndev;       // departures from the default schedule
    struct {
        int point, thread;
    } dev[MAXDEV];
    int nhot; // bytes accessed by several threads, one of which writes
    std::uint64_t hot[MAXHOT];
    // out
    int status;
    int npoints;
    Point point[MAXPOINTS];
    std::uint64_t accesses;
    int nconflicts;
    std::uint64_t conflict[MAXHOT];
    char message[512];
    std::uint64_t result[MAXTHREADS];
};

// Executes body(i, result) in thread i, under the schedule of `run`.  To be
// called in a process of its own.
void execute(Run* run, void (*body)(int, std::uint64_t&));

} // namespace sched

#endif
