// Harness entry point: explores the schedules of every program in a file and writes the distinct
// event traces. usage: harness PROGRAMS.ndjson OUT.ndjson [key=value...]
#include "harness.h"
#include "json.h"
#include "pcrt.h"
#include <cstring>
#include <fstream>
#include <iostream>

static const J *g_prog;
void load_program(const J &) __attribute__((weak)); // preparation outside of the explored runs
static void body(void *) { run_program(*g_prog); }

int main(int argc, char **argv) {
  if (argc < 3)
    return 9;
  rt::Options base;
  auto apply = [](rt::Options &o, const std::string &k, long v) {
    if (k == "pb") o.preemptions = (int)v;
    else if (k == "runs") o.max_runs = v;
    else if (k == "rand") o.random_runs = v;
    else if (k == "seed") o.seed = (unsigned long)v;
    else if (k == "spur") o.spurious = (int)v;
    else if (k == "tmo") o.timeouts = (int)v;
    else if (k == "race") o.racecheck = v;
    else if (k == "sync") o.dump_sync = v;
    else if (k == "ms") o.max_seconds = v / 1000.0;
    else if (k == "traces") o.max_traces = v;
  };
  for (int i = 3; i < argc; ++i) {
    char *eq = strchr(argv[i], '=');
    if (eq)
      apply(base, std::string(argv[i], eq), atol(eq + 1));
  }
  std::ifstream in(argv[1]);
  FILE *out = fopen(argv[2], "w");
  if (!in || !out)
    return 9;
  std::string line;
  long idx = 0;
  while (std::getline(in, line)) {
    if (line.empty())
      continue;
    const char *p = line.c_str();
    J prog = J::parse(p);
    g_prog = &prog;
    if (load_program)
      load_program(prog);
    rt::Options o = base;
    for (auto &kv : prog["opt"].o)
      apply(o, kv.first, kv.second.n);
    rt::Result r = rt::explore(body, nullptr, o);
    fprintf(out, "{\"p\":%ld,\"runs\":%ld,\"steps\":%ld,\"exh\":%d,\"pb\":%d,\"bad\":%d,\"traces\":[", idx, r.runs, r.steps,
            (int)r.exhaustive, r.bound_done, (int)r.bad);
    bool first = true;
    for (auto &t : r.traces) {
      fprintf(out, "%s{\"n\":%ld,\"bad\":%d,\"sched\":[", first ? "" : ",", t.count, (int)t.bad);
      for (size_t i = 0; i < t.sched.size(); ++i)
        fprintf(out, "%s%d", i ? "," : "", t.sched[i]);
      fprintf(out, "],\"ev\":[%s]}", t.events.c_str());
      first = false;
    }
    fprintf(out, "]}\n");
    fflush(out);
    ++idx;
  }
  fclose(out);
  return 0;
}
