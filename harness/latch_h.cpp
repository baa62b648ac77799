// Drives pc::latch. Program: {"count":N,"pre":[..],"threads":[[op..]..],"post":[..]}
// op: {"o":"cd","n":k} | {"o":"wait"} | {"o":"cdw"} | {"o":"rdy"} | {"o":"del"}
#include "harness.h"
#include "pcrt.h"
#include <memory>
#include <portable_concurrency/latch>
#include <thread>
#include <vector>

namespace {
struct Ctx {
  pc::latch *l;
  long side[8];  // written before counting down, read after the latch has opened
  bool counts[8];
};

void exec_ops(Ctx &c, int me, const J &ops) {
  for (const J &op : ops.a) {
    const std::string &o = op["o"].s;
    int t = rt::tid();
    if (o == "cd") {
      long n = op.num_or("n", 1);
      c.side[me] += 1;
      rt::event("{\"k\":\"call\",\"t\":%d,\"o\":\"cd\",\"n\":%ld}", t, n);
      if (n == 1 && op.has("def"))
        c.l->count_down();
      else
        c.l->count_down(n);
      rt::event("{\"k\":\"ret\",\"t\":%d,\"r\":\"ok\"}", t);
    } else if (o == "cdw" || o == "wait") {
      if (o == "cdw")
        c.side[me] += 1;
      rt::event("{\"k\":\"call\",\"t\":%d,\"o\":\"%s\",\"n\":%d}", t, o.c_str(), o == "cdw" ? 1 : 0);
      if (o == "cdw")
        c.l->count_down_and_wait();
      else
        c.l->wait();
      rt::event("{\"k\":\"ret\",\"t\":%d,\"r\":\"ok\"}", t);
      long sum = 0;
      for (int i = 0; i < 8; ++i)
        if (c.counts[i])
          sum += c.side[i];
      (void)sum;
    } else if (o == "rdy") {
      rt::event("{\"k\":\"call\",\"t\":%d,\"o\":\"rdy\",\"n\":0}", t);
      bool r = c.l->is_ready();
      rt::event("{\"k\":\"ret\",\"t\":%d,\"r\":\"%s\"}", t, r ? "true" : "false");
      if (r) {
        long sum = 0;
        for (int i = 0; i < 8; ++i)
          if (c.counts[i])
            sum += c.side[i];
        (void)sum;
      }
    } else if (o == "ent") { // continue when that thread is inside a blocking operation
      rt::await_blocked((int)op["n"].n);
    } else if (o == "del") {
      rt::event("{\"k\":\"call\",\"t\":%d,\"o\":\"del\",\"n\":0}", t);
      delete c.l;
      rt::event("{\"k\":\"ret\",\"t\":%d,\"r\":\"ok\"}", t);
    }
  }
}
} // namespace

void run_program(const J &prog) {
  Ctx c{};
  c.l = new pc::latch(prog["count"].n);
  int n = (int)prog["threads"].a.size();
  for (int i = 0; i < n; ++i)
    for (const J &op : prog["threads"].a[i].a)
      if (op["o"].s == "cd" || op["o"].s == "cdw")
        c.counts[i + 1] = true;
  exec_ops(c, 0, prog["pre"]);
  {
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i)
      th.emplace_back([&c, i, &prog] { exec_ops(c, i + 1, prog["threads"].a[i]); });
    for (auto &t : th)
      t.join();
  }
  exec_ops(c, 0, prog["post"]);
  rt::event("{\"k\":\"end\",\"leak\":%lu}", rt::live_blocks());
}
