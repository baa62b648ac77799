// Drives pc::static_thread_pool.
// Program: {"n":workers,"threads":[[op..]..],"pre":[..],"post":[..],"tasks":{"id":{"ops":[..],"dops":[..],"big":0/1,"thr":0/1}}}
// ops: post/async{id} stop wait attach del get{id} dropf{id} open{g} await{g}
#include "harness.h"
#include "pcrt.h"
#include <condition_variable>
#include <cstring>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <portable_concurrency/future>
#include <portable_concurrency/thread_pool>
#include <thread>
#include <vector>

namespace {
constexpr int MAXTASK = 24;
struct Gate {
  std::mutex m;
  std::condition_variable cv;
  bool open = false;
};
struct Ctx {
  const J *prog;
  pc::static_thread_pool *pool = nullptr;
  Gate gates[4];
  long before[MAXTASK] = {}; // written by the poster before post
  long after[MAXTASK] = {};  // written by the task
  pc::future<int> futs[MAXTASK];
};
void exec_ops(Ctx &c, const J &ops);

const J &task_desc(Ctx &c, int id) {
  return (*c.prog)["tasks"][std::to_string(id).c_str()];
}

// one logical function object: exactly one instance is active at a time
template <int Pad> struct Fun {
  Ctx *c;
  int id;
  bool active;
  char pad[Pad];
  Fun(Ctx *c, int id) : c(c), id(id), active(true) { memset(pad, id, Pad); }
  Fun(Fun &&o) noexcept : c(o.c), id(o.id), active(o.active) {
    memcpy(pad, o.pad, Pad);
    o.active = false;
  }
  Fun(const Fun &) = delete;
  ~Fun() {
    if (!active)
      return;
    active = false;
    rt::event("{\"k\":\"dtor\",\"t\":%d,\"f\":%d}", rt::tid(), id);
    const J &d = (*c->prog)["tasks"][std::to_string(id).c_str()];
    if (d.has("dops"))
      exec_ops(*c, d["dops"]);
    rt::event("{\"k\":\"dend\",\"t\":%d,\"f\":%d}", rt::tid(), id);
  }
  int operator()() {
    rt::event("{\"k\":\"run\",\"t\":%d,\"f\":%d,\"ok\":\"%s\"}", rt::tid(), id,
              active && pad[Pad - 1] == (char)id ? "y" : "n");
    long v = c->before[id];
    (void)v;
    const J &d = (*c->prog)["tasks"][std::to_string(id).c_str()];
    exec_ops(*c, d["ops"]);
    c->after[id] += 1;
    rt::event("{\"k\":\"fin\",\"t\":%d,\"f\":%d}", rt::tid(), id);
    return id;
  }
};

template <class F> void do_post(Ctx &c, int id) { post(c.pool->executor(), F{&c, id}); }
template <class F> void do_async(Ctx &c, int id) { c.futs[id] = pc::async(c.pool->executor(), F{&c, id}); }

void call(const char *o, int id) { rt::event("{\"k\":\"call\",\"t\":%d,\"o\":\"%s\",\"id\":%d}", rt::tid(), o, id); }
void ret(const char *r) { rt::event("{\"k\":\"ret\",\"t\":%d,\"r\":\"%s\"}", rt::tid(), r); }

void exec_ops(Ctx &c, const J &ops) {
  for (const J &op : ops.a) {
    const std::string &o = op["o"].s;
    int id = (int)op.num_or("id", 0);
    if (o == "post" || o == "async") {
      c.before[id] = 1;
      bool big = task_desc(c, id).num_or("big", 0);
      call(o.c_str(), id);
      if (o == "post")
        big ? do_post<Fun<96>>(c, id) : do_post<Fun<4>>(c, id);
      else
        big ? do_async<Fun<96>>(c, id) : do_async<Fun<4>>(c, id);
      ret("ok");
    } else if (o == "mk") {
      call("mk", 0);
      c.pool = new pc::static_thread_pool((size_t)(*c.prog)["n"].n);
      ret("ok");
    } else if (o == "stop") {
      call("stop", 0);
      c.pool->stop();
      ret("ok");
    } else if (o == "wait") {
      call("wait", 0);
      c.pool->wait();
      ret("ok");
    } else if (o == "attach") {
      call("attach", 0);
      c.pool->attach();
      ret("ok");
    } else if (o == "del") {
      call("del", 0);
      delete c.pool;
      c.pool = nullptr;
      ret("ok");
    } else if (o == "see") { // after wait(): effects of these tasks must be visible
      for (const J &t : op["ids"].a) {
        long v = c.after[t.n];
        if (v != 1)
          rt::event("{\"k\":\"bad\",\"t\":%d,\"what\":\"effect of task not visible\",\"detail\":\"%ld\"}", rt::tid(), t.n);
      }
    } else if (o == "get") {
      call("get", id);
      std::string r;
      try {
        int v = c.futs[id].get();
        r = v == id ? "v" : "garbage";
      } catch (const std::future_error &e) {
        r = e.code() == std::future_errc::broken_promise ? "broken" : "other";
      }
      ret(r.c_str());
    } else if (o == "dropf") {
      call("dropf", id);
      c.futs[id] = pc::future<int>{};
      ret("ok");
    } else if (o == "open") {
      std::lock_guard<std::mutex> l{c.gates[id].m};
      c.gates[id].open = true;
      c.gates[id].cv.notify_all();
    } else if (o == "await") {
      std::unique_lock<std::mutex> l{c.gates[id].m};
      c.gates[id].cv.wait(l, [&] { return c.gates[id].open; });
    } else {
      fprintf(stderr, "bad op %s\n", o.c_str());
      exit(9);
    }
  }
}
} // namespace

void run_program(const J &prog) {
  {
    Ctx c;
    c.prog = &prog;
    exec_ops(c, prog["pre"]);
    {
      std::vector<std::thread> th;
      for (size_t i = 0; i < prog["threads"].a.size(); ++i)
        th.emplace_back([&c, i, &prog] { exec_ops(c, prog["threads"].a[i]); });
      for (auto &t : th)
        t.join();
    }
    exec_ops(c, prog["post"]);
  }
  rt::event("{\"k\":\"end\",\"leak\":%lu}", rt::live_blocks());
}
