// pcrt - deterministic execution runtime used to drive the real portable_concurrency code.
//
// Code under test is compiled with -fsanitize=thread but linked against *this* runtime instead of
// libtsan: every atomic operation, every pthread call and every plain memory access calls into
// pcrt.cpp. Threads are fibers on one OS thread, so that the interleaving is chosen by the runtime
// (and can be enumerated and replayed). The runtime keeps vector clocks per the C++ memory model
// to detect data races, quarantines memory to detect use-after-free and reports deadlocks.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace rt {

struct Options {
  int preemptions = 2;       // DFS: preemption bound
  long max_runs = 20000;     // DFS: run limit
  long random_runs = 0;      // extra runs with random (PCT like) schedules
  unsigned long seed = 1;
  int spurious = 0;          // max number of spurious condvar wakeups per run
  int timeouts = 1;          // allow firing timeouts although someone can run
  bool racecheck = true;
  bool dump_sync = false;    // put memory/sync events in the trace (HB validation)
  double max_seconds = 1e9;
  long max_traces = 1000000;
};

struct Trace {
  std::string events;               // comma separated JSON objects
  std::vector<unsigned char> sched; // choices
  long count = 0;
  bool bad = false;
};

struct Result {
  std::vector<Trace> traces;
  long runs = 0, steps = 0, stuck = 0;
  bool exhaustive = false;   // DFS finished within its preemption bound
  bool bad = false;
  int bound_done = -1;       // largest preemption bound explored completely
};

using Body = void (*)(void *);
Result explore(Body body, void *arg, const Options &opt);
Result replay(Body body, void *arg, const Options &opt, const std::vector<unsigned char> &sched);

// --- callable from fibers -------------------------------------------------------------------
int tid();
void event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// like event() but ends the run: the trace contains something no specification allows
[[noreturn]] void bad(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void hb_release(void *addr);
void hb_acquire(void *addr);
void await_blocked(int tid); // continue when that thread sleeps on a condition variable (or is done)
void point();                // extra scheduling point
unsigned long live_blocks(); // blocks allocated and not freed in this run
long counter_add(int which, long delta); // uninstrumented counters reset every run
void *raw_alloc(std::size_t); // run scoped storage which is not tracked (reset every run)
long choose(long n);          // nondeterministic choice explored by the scheduler
bool in_run();
long now_ns();
} // namespace rt
