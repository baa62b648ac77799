// Self-test of pcrt: correct programs built from primitives the library may be rewritten to use
// must come out clean in every schedule, and their broken variants must not.
#include "harness.h"
#include "pcrt.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <shared_mutex>
#include <string>
#include <thread>
#include <vector>

static void par(std::vector<std::function<void()>> fs) {
  std::vector<std::thread> ts;
  for (auto &f : fs)
    ts.emplace_back(f);
  for (auto &t : ts)
    t.join();
}
static void check(bool b) {
  if (!b)
    rt::bad("{\"k\":\"bad\",\"what\":\"check\"}");
}
struct SpinLock {
  std::atomic_flag f = ATOMIC_FLAG_INIT;
  bool yield;
  void lock() {
    while (f.test_and_set(std::memory_order_acquire))
      if (yield)
        std::this_thread::yield();
  }
  void unlock() { f.clear(std::memory_order_release); }
};
thread_local int tl = 5;
struct TlObj {
  int *p = new int(1);
  ~TlObj() { delete p; }
};
static int &tlobj() {
  thread_local TlObj o;
  return *o.p;
}
template <class L> static void count(L &l) {
  int n = 0;
  auto f = [&] {
    for (int i = 0; i < 2; ++i) {
      std::lock_guard<L> g(l);
      ++n;
    }
  };
  par({f, f, f});
  check(n == 6);
}

void run_program(const J &prog) {
  std::string w = prog["w"].s;
  if (w == "mutex") {
    std::mutex m;
    count(m);
  } else if (w == "recursive") {
    std::recursive_mutex m;
    int n = 0;
    auto f = [&] {
      std::lock_guard<std::recursive_mutex> a(m), b(m);
      ++n;
    };
    par({f, f});
    check(n == 2);
  } else if (w == "timed") {
    std::timed_mutex m;
    int n = 0, got = 0;
    std::mutex k;
    auto f = [&] {
      if (m.try_lock_for(std::chrono::milliseconds(5))) {
        ++n;
        m.unlock();
        std::lock_guard<std::mutex> g(k);
        ++got;
      }
    };
    par({f, f});
    check(n == got);
  } else if (w == "spin" || w == "spiny") {
    SpinLock l;
    l.yield = w == "spiny";
    count(l);
  } else if (w == "shared") {
    std::shared_timed_mutex m;
    int n = 0;
    auto rd = [&] {
      std::shared_lock<std::shared_timed_mutex> g(m);
      check(n >= 0);
    };
    auto wr = [&] {
      std::lock_guard<std::shared_timed_mutex> g(m);
      ++n;
    };
    par({rd, wr, wr});
    check(n == 2);
  } else if (w == "once") {
    std::once_flag o;
    int n = 0;
    auto f = [&] {
      std::call_once(o, [&] { ++n; });
      check(n == 1);
    };
    par({f, f, f});
  } else if (w == "cvany") {
    std::mutex m;
    std::condition_variable_any cv;
    bool b = false;
    par({[&] {
           std::unique_lock<std::mutex> l(m);
           cv.wait(l, [&] { return b; });
         },
         [&] {
           {
             std::lock_guard<std::mutex> l(m);
             b = true;
           }
           cv.notify_all();
         }});
  } else if (w == "flag" || w == "flagy" || w == "flags") {
    std::atomic<bool> a{false};
    int n = 0;
    par({[&] {
           while (!a.load(std::memory_order_acquire)) {
             if (w == "flagy")
               std::this_thread::yield();
             if (w == "flags")
               std::this_thread::sleep_for(std::chrono::milliseconds(1));
           }
           check(n == 1);
         },
         [&] {
           n = 1;
           a.store(true, std::memory_order_release);
         }});
  } else if (w == "fence") {
    std::atomic<bool> a{false};
    int n = 0;
    par({[&] {
           while (!a.load(std::memory_order_relaxed))
             std::this_thread::yield();
           std::atomic_thread_fence(std::memory_order_acquire);
           check(n == 1);
         },
         [&] {
           n = 1;
           std::atomic_thread_fence(std::memory_order_release);
           a.store(true, std::memory_order_relaxed);
         }});
  } else if (w == "tls") {
    auto f = [&] {
      check(tl == 5);
      ++tl;
      rt::point();
      check(tl == 6);
      ++tlobj();
      rt::point();
      check(tlobj() == 2);
    };
    par({f, f});
  } else if (w == "bad_relaxed") {
    std::atomic<bool> a{false};
    int n = 0;
    par({[&] {
           while (!a.load(std::memory_order_relaxed))
             ;
           check(n == 1);
         },
         [&] {
           n = 1;
           a.store(true, std::memory_order_release);
         }});
  } else if (w == "bad_race") {
    int n = 0;
    auto f = [&] { ++n; };
    par({f, f});
  } else if (w == "bad_lostwake") {
    std::mutex m;
    std::condition_variable cv;
    std::atomic<bool> b{false};
    par({[&] {
           std::unique_lock<std::mutex> l(m);
           while (!b)
             cv.wait(l);
         },
         [&] {
           b = true;
           cv.notify_all();
         }});
  } else if (w == "bad_deadlock") {
    std::mutex a, b;
    par({[&] {
           std::lock_guard<std::mutex> l(a), k(b);
         },
         [&] {
           std::lock_guard<std::mutex> l(b), k(a);
         }});
  } else if (w == "bad_forever") {
    std::atomic<bool> b{false};
    par({[&] {
      while (!b)
        std::this_thread::yield();
    }});
  } else if (w == "bad_uaf") {
    int *p = new int(1);
    std::atomic<int> a{0};
    par({[&] { check(*p == 1); }, [&] {
           rt::point();
           delete p;
         }});
  } else if (w == "bad_rdlock") {
    std::shared_timed_mutex m;
    int n = 0;
    auto f = [&] {
      std::shared_lock<std::shared_timed_mutex> g(m);
      ++n;
    };
    par({f, f});
  }
  rt::event("{\"k\":\"end\",\"leak\":%ld}", (long)rt::live_blocks());
}
