// Deterministic scheduler for pthread programs, and a bounded search over their schedules.
//
// The program's calls of pthread_create/join, pthread_mutex_*, and pthread_cond_* bind to the definitions in
// sched.cpp (linked into the executable).  While a run is active exactly one thread runs; every such call is a
// point where another thread may be chosen.  Each schedule runs in its own forked process.
#pragma once
#include <string>
#include <vector>

// in the program under test
void sched_point();                     // an additional point, e.g. in an I/O callback
void emit(const std::string& line);     // appends a line to the trace of this run
const int SCHED_MAXOUT = 1 << 23;

struct SearchOptions {
    int bound = 2;            // preemptions and spurious wake-ups
    long max_runs = 2000;
    unsigned seed = 1;
    int spurious = 1;         // allow spurious wake-ups
    int wall_ms = 10000;      // for a single run
    bool native = false;      // the threads run freely: max_runs runs
    bool entries = false;     // switch at entries of functions compiled with -finstrument-functions, few or many, chosen by seed and run
    int order = 0;            // who runs when the running thread cannot: 0 the next one, 1 the first two, then from the newest to the oldest
};

// runs body() under many schedules, and prints one JSON line for each distinct outcome
//   {"n": runs with it, "end": "ok|DEADLOCK|CRASH|HANG", "sched": [...], "trace": [lines]}
// and a last line {"runs": .., "exhausted": bool, "points": max number of points, "prefixes": .. }
void explore(const SearchOptions& o, void (*body)());

// runs body() once under the given schedule, and prints the outcome and every decision
void replay(const std::vector<int>& schedule, const SearchOptions& o, void (*body)());

int sched_threads_alive();              // threads of the run that have not ended, without the caller
void sched_quiesce();                   // returns when all other threads have ended or wait
void sched_end();                       // ends the run well, from any thread
extern void (*sched_hook)();            // called at every point
extern bool sched_files;                // opening files and changing the directory are points as well
int sched_self();                       // number of the running thread, 0 for the first
