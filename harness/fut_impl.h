#pragma once
#include "fut.h"
#include <condition_variable>
#include <cstring>
#include <deque>
#include <future>
#include <list>
#include <memory>
#include <mutex>
#include <portable_concurrency/future>
#include <portable_concurrency/timed_waiter>
#include <thread>

namespace fut {
using pc::future;
using pc::packaged_task;
using pc::promise;
using pc::shared_future;

struct Boom {};
// user exception, counted: all copies have to be gone at the end of a run
struct Exc {
  int id;
  explicit Exc(int id) : id(id) { rt::counter_add(0, 1); }
  Exc(const Exc &o) : id(o.id) { rt::counter_add(0, 1); }
  ~Exc() { rt::counter_add(0, -1); }
};

// copyable and movable value owning memory, its copy or move may be told to throw
struct Val {
  long *p;
  bool boom = false;
  explicit Val(int c, bool b = false) : p(new long(c)), boom(b) {}
  Val(const Val &o) : p(nullptr) {
    if (o.boom)
      throw Boom{};
    p = o.p ? new long(*o.p) : nullptr;
  }
  Val(Val &&o) : p(nullptr) {
    if (o.boom)
      throw Boom{};
    p = o.p;
    o.p = nullptr;
  }
  Val &operator=(const Val &) = delete;
  ~Val() { delete p; }
  long get() const { return p ? *p : -1; }
};
struct Mov {
  long *p;
  bool boom = false;
  explicit Mov(int c, bool b = false) : p(new long(c)), boom(b) {}
  Mov(Mov &&o) : p(nullptr) {
    if (o.boom)
      throw Boom{};
    p = o.p;
    o.p = nullptr;
  }
  Mov(const Mov &) = delete;
  ~Mov() { delete p; }
  long get() const { return p ? *p : -1; }
};
struct Obj {
  int id = 0;
  Obj() = default;
  Obj(const Obj &) = delete;
};
// argument of tasks
struct Arg {
  long *p;
  explicit Arg(int c) : p(new long(c)) {}
  Arg(const Arg &o) : p(o.p ? new long(*o.p) : nullptr) {}
  Arg(Arg &&o) noexcept : p(o.p) { o.p = nullptr; }
  ~Arg() { delete p; }
  long get() const { return p ? *p : -1; }
};
// second argument, which can only be moved
struct Mo {
  std::unique_ptr<long> p;
  explicit Mo(int c) : p(new long(c)) {}
};

// allocator which checks that memory comes back to an equal allocator with the same size
template <class T> struct TrackAlloc {
  using value_type = T;
  long arena;
  explicit TrackAlloc(long a) : arena(a) {}
  template <class U> TrackAlloc(const TrackAlloc<U> &o) : arena(o.arena) {}
  T *allocate(std::size_t n) {
    static_assert(alignof(T) <= 16, "");
    auto *h = static_cast<long *>(::operator new(16 + n * sizeof(T)));
    h[0] = arena;
    h[1] = (long)(n * sizeof(T));
    rt::counter_add(0, 1);
    return reinterpret_cast<T *>(h + 2);
  }
  void deallocate(T *p, std::size_t n) {
    long *h = reinterpret_cast<long *>(p) - 2;
    if (h[0] != arena || h[1] != (long)(n * sizeof(T)))
      rt::event("{\"k\":\"bad\",\"t\":%d,\"what\":\"deallocate mismatch\",\"detail\":\"\"}", rt::tid());
    rt::counter_add(0, -1);
    ::operator delete(h);
  }
  template <class U> bool operator==(const TrackAlloc<U> &o) const { return arena == o.arena; }
  template <class U> bool operator!=(const TrackAlloc<U> &o) const { return arena != o.arena; }
};

struct TaskBase {
  virtual ~TaskBase() = default;
  virtual void run() = 0;
};
template <class F> struct TaskImpl final : TaskBase {
  F f;
  TaskImpl(F &&f) : f(std::move(f)) {}
  void run() override { f(); }
};
struct QItem {
  int label;
  std::unique_ptr<TaskBase> task;
};
struct Queue {
  std::mutex m;
  std::condition_variable cv;
  std::deque<QItem> q;
};

struct Base {
  Queue qs[2];
  long side[MAXOP] = {};
  Obj objs[MAXOP];
  const void *addrs[32] = {};
  // hand over between threads of a program (not part of what is verified)
  std::mutex sm;
  std::condition_variable scv;
  bool sigs[8] = {};
  virtual void exec_ops(const std::vector<int> &ids) = 0;
};

extern Base *g_base;

inline void call(int i) { rt::event("{\"k\":\"call\",\"t\":%d,\"i\":%d}", rt::tid(), i); }
inline void ret(const char *r, int ad = 0) {
  rt::event("{\"k\":\"ret\",\"t\":%d,\"r\":\"%s\",\"ad\":%d}", rt::tid(), r, ad);
}
inline const char *qname(char q) { return q == '1' ? "q1" : q == '2' ? "q2" : q == 'z' || q == 'w' ? "nul" : "inl"; }

// user executor; the label tells which operation it was given to
struct Ex {
  char q;
  short label;
};
inline Ex ex(const Op &op) { return Ex{op.x == 'z' && op.xi ? 'w' : op.x, (short)op.i}; }
template <class Task> void post(Ex e, Task task) {
  auto ev = [&] {
    rt::event("{\"k\":\"post\",\"t\":%d,\"q\":\"%s\",\"n\":%d}", rt::tid(), qname(e.q), e.label);
  };
  if (e.q == 'z') {
    ev();
    Task dropped(std::move(task));
  } else if (e.q == 'w') { // gives up a task by putting another one in its place
    ev();
    Task slot(std::move(task));
    if constexpr (std::is_move_assignable<Task>::value)
      slot = std::move(task);
  } else if (e.q == 'l') {
    ev();
    task();
  } else {
    Queue &q = g_base->qs[e.q - '1'];
    std::unique_ptr<TaskBase> t(new TaskImpl<Task>(std::move(task)));
    {
      std::lock_guard<std::mutex> l(q.m);
      ev();
      q.q.push_back({e.label, std::move(t)});
    }
    q.cv.notify_one();
  }
}

// one logical function object; counts its active instances
struct FunBase {
  short id;
  bool act;
  bool orig; // the caller's lvalue, of which the library has to make its own copy
  FunBase(int id, bool orig = false) : id((short)id), act(true), orig(orig) {
    if (!orig)
      rt::counter_add(id, 1);
  }
  FunBase(const FunBase &o) : id(o.id), act(o.act), orig(false) {
    if (act)
      rt::counter_add(id, 1);
  }
  FunBase(FunBase &&o) noexcept : id(o.id), act(o.act), orig(o.orig) { o.act = false; }
  FunBase &operator=(const FunBase &) = delete;
  ~FunBase() {
    if (act && !orig && rt::counter_add(id, -1) == 0)
      rt::event("{\"k\":\"dtor\",\"t\":%d,\"f\":%d}", rt::tid(), id);
    act = false;
  }
  void poison() { act = false; }
  void check() const {
    if (!act || orig)
      rt::event("{\"k\":\"bad\",\"t\":%d,\"what\":\"call of a function object which is moved from or not owned\","
                "\"detail\":\"%d\"}",
                rt::tid(), id);
  }
};

// ------------------------------------------------------------------------------ result kinds
template <class T> struct Kind {
  static T make(Base &, int id, bool boom = false) { return T{id, boom}; }
  static long code(Base &, const T &v) { return v.get(); }
  static const void *addr(const T &v) { return &v; }
  using ShArg = const T &;
};
template <> struct Kind<Obj &> {
  static Obj &make(Base &c, int id, bool = false) { return c.objs[id]; }
  static long code(Base &c, Obj &o) {
    long id = o.id;
    return id >= 0 && id < MAXOP && &o == &c.objs[id] ? id : -1;
  }
  static const void *addr(Obj &v) { return &v; }
  using ShArg = Obj &;
};

template <class T> struct Ctx;

inline void side_read(Base &c, long id) {
  if (id > 0 && id < MAXOP && c.side[id] != 1)
    rt::event("{\"k\":\"bad\",\"t\":%d,\"what\":\"effects of the producer not visible\",\"detail\":\"%ld\"}", rt::tid(),
              id);
}

// reads what producers wrote, unsynchronised, before they made the source of this operation ready
inline void peek(Base &c, const std::vector<int> &pk) {
  for (int id : pk)
    (void)*static_cast<volatile long *>(&c.side[id]);
}

inline void err_code(char *buf, const std::future_error &e) {
  if (e.code() == std::future_errc::no_state)
    strcpy(buf, "nostate");
  else if (e.code() == std::future_errc::broken_promise)
    strcpy(buf, "broken");
  else if (e.code() == std::future_errc::promise_already_satisfied)
    strcpy(buf, "satisfied");
  else if (e.code() == std::future_errc::future_already_retrieved)
    strcpy(buf, "retrieved");
  else
    strcpy(buf, "other");
}

// runs f, converts exceptions into result codes
template <class F> void guarded(Base &c, char *buf, F f) {
  try {
    f();
  } catch (const Exc &e) {
    sprintf(buf, "e%d", e.id);
    side_read(c, e.id);
  } catch (const std::future_error &e) {
    err_code(buf, e);
  } catch (const Boom &) {
    strcpy(buf, "thrown");
  } catch (...) {
    strcpy(buf, "other");
  }
}
template <class T, class V> void val_code(Base &c, char *buf, V &&v) {
  long k = Kind<T>::code(c, v);
  if (k < 0)
    strcpy(buf, "garbage");
  else {
    sprintf(buf, "v%ld", k);
    side_read(c, k);
  }
}
template <class T> void get_code(Base &c, char *buf, future<T> &f, bool adapt = false) {
  guarded(c, buf, [&] {
    if constexpr (std::is_void<T>::value) {
      f.get();
      strcpy(buf, "v0");
    } else
      val_code<T>(c, buf, adapt ? pc::future_get(f) : f.get());
  });
}
inline int addr_id(Base &c, const void *p) {
  for (int i = 1; i < 32; ++i) {
    if (!c.addrs[i])
      c.addrs[i] = p;
    if (c.addrs[i] == p)
      return i;
  }
  return 0;
}
template <class T> void get_code(Base &c, char *buf, const shared_future<T> &f, int *ad = nullptr, bool adapt = false) {
  guarded(c, buf, [&] {
    if constexpr (std::is_void<T>::value) {
      f.get();
      strcpy(buf, "v0");
    } else {
      auto &&r = adapt ? pc::future_get(f) : f.get();
      val_code<T>(c, buf, r);
      if (ad) {
        rt::hb_acquire(&c.addrs);
        *ad = addr_id(c, Kind<T>::addr(r));
        rt::hb_release(&c.addrs);
      }
    }
  });
}

// ------------------------------------------------------------------------------ function objects
template <class T, class Ret> struct Finish;

inline void ev_run(int f, const char *a, bool y) {
  rt::event("{\"k\":\"run\",\"t\":%d,\"f\":%d,\"a\":\"%s\",\"y\":\"%s\"}", rt::tid(), f, a, y ? "y" : "n");
}
inline void ev_arg(int f, const char *a) {
  rt::event("{\"k\":\"arg\",\"t\":%d,\"f\":%d,\"a\":\"%s\"}", rt::tid(), f, a);
}
inline void ev_fin(int f) { rt::event("{\"k\":\"fin\",\"t\":%d,\"f\":%d}", rt::tid(), f); }

template <class T, class Res> struct CombTake;

template <class V> struct IsFut : std::false_type {};
template <class V> struct IsFut<future<V>> : std::true_type {};
template <class T> struct Take {
  Ctx<T> &c;
  const Op &op;
  void operator()() { ev_run(op.i, "-", true); }
  void operator()(future<T> &f) {
    ev_run(op.i, "-", f.valid() && f.is_ready());
    arg(f);
  }
  void operator()(shared_future<T> &f) {
    ev_run(op.i, "-", f.valid() && f.is_ready());
    arg(f);
  }
  template <class F> void operator()(promise<T> &p, F &f) {
    ev_run(op.i, "-", f.valid() && f.is_ready());
    c.P[op.i].reset(new promise<T>(std::move(p)));
    arg(f);
  }
  void operator()(Arg &a) {
    char b[32];
    sprintf(b, "a%ld", a.get());
    ev_run(op.i, b, true);
  }
  void operator()(Arg &a, Mo &m) {
    char b[32];
    sprintf(b, "a%ld", m.p && *m.p == 7 ? a.get() : -2);
    ev_run(op.i, b, true);
  }
  template <class V> void operator()(V &v) {
    if constexpr (std::is_same<std::remove_const_t<V>, std::remove_reference_t<T>>::value) {
      char b[32];
      val_code<T>(c, b, v);
      ev_run(op.i, b, true);
    } else {
      if constexpr (IsFut<V>::value)
        ev_run(op.i, "-", v.valid() && v.is_ready());
      else
        ev_run(op.i, "-", true);
      char b[32];
      CombTake<T, V>::take(c, op, v, b);
      ev_arg(op.i, b);
    }
  }
  void arg(future<T> &f) {
    char b[32];
    if (op.keep) {
      c.F[op.b] = std::move(f);
      strcpy(b, "kept");
    } else
      get_code(c, b, f);
    ev_arg(op.i, b);
  }
  void arg(shared_future<T> &f) {
    char b[32];
    if (op.keep) {
      c.S[op.b] = std::move(f);
      strcpy(b, "kept");
    } else {
      get_code<T>(c, b, f);
      f = shared_future<T>{};
    }
    ev_arg(op.i, b);
  }
};

template <class T, class Ret> struct Finish { // Ret == T
  static Ret go(Ctx<T> &c, const Op &op) {
    c.side[op.i] = 1;
    ev_fin(op.i);
    if (op.r == 'e')
      throw Exc{op.i};
    return Kind<T>::make(c, op.i, op.thr);
  }
};
template <class T> struct Finish<T, void> {
  static void go(Ctx<T> &c, const Op &op) {
    c.side[op.i] = 1;
    ev_fin(op.i);
    if (op.r == 'e')
      throw Exc{op.i};
  }
};
template <class T> struct Finish<T, future<T>> {
  static future<T> go(Ctx<T> &c, const Op &op) {
    c.side[op.i] = 1;
    ev_fin(op.i);
    if (op.r == 'g')
      throw Exc{op.i};
    if (op.r == 'i')
      return {};
    return std::move(c.F[op.ro]);
  }
};
template <class T> struct Finish<T, shared_future<T>> {
  static shared_future<T> go(Ctx<T> &c, const Op &op) {
    c.side[op.i] = 1;
    ev_fin(op.i);
    if (op.r == 'j')
      return {};
    if (op.lv)
      return c.S[op.ro];
    return std::move(c.S[op.ro]);
  }
};
struct NoRet {};
template <class T> struct Finish<T, NoRet> {
  static void go(Ctx<T> &, const Op &op) { ev_fin(op.i); }
};

template <class T, class Ret, class... A> struct Fun : FunBase {
  using FunBase::FunBase;
  using R = std::conditional_t<std::is_same<Ret, NoRet>::value, void, Ret>;
  R operator()(A... a) {
    check();
    Ctx<T> &cc = *static_cast<Ctx<T> *>(g_base);
    const Op &op = prog.ops[id];
    peek(cc, op.pk);
    Take<T>{cc, op}(a...);
    cc.exec_ops(op.ops);
    return Finish<T, Ret>::go(cc, op);
  }
};
template <class T, class Ret, class... A> struct BigFun : Fun<T, Ret, A...> {
  char pad[120] = {};
  using Fun<T, Ret, A...>::Fun;
};
// a continuation whose result travels through a future of another type
template <class T> struct Box {
  std::unique_ptr<T> v;
  explicit Box(T &&x) : v(new T(std::move(x))) {}
  T take() { return std::move(*v); }
};
template <class T> struct Box<T &> {
  std::unique_ptr<T *> v;
  explicit Box(T &x) : v(new T *(&x)) {}
  T &take() { return **v; }
};
template <> struct Box<void> {
  std::unique_ptr<int> v;
  void take() {}
};
template <class T, class U, class... A> struct HopFun : FunBase {
  using FunBase::FunBase;
  U operator()(A... a) {
    check();
    Ctx<T> &cc = *static_cast<Ctx<T> *>(g_base);
    const Op &op = prog.ops[id];
    peek(cc, op.pk);
    Take<T>{cc, op}(a...);
    cc.exec_ops(op.ops);
    auto box = [&]() -> Box<T> {
      if constexpr (std::is_void<T>::value) {
        Finish<T, T>::go(cc, op);
        return Box<T>{};
      } else
        return Box<T>(Finish<T, T>::go(cc, op));
    };
    if constexpr (std::is_void<U>::value)
      cc.boxes[op.i].reset(new Box<T>(box()));
    else
      return box();
  }
};
// packaged_task<T(Arg)> given a function which returns a reference: the result has to be a copy
template <class T> struct RefFun : FunBase {
  using FunBase::FunBase;
  T &operator()(Arg a) {
    check();
    Ctx<T> &cc = *static_cast<Ctx<T> *>(g_base);
    const Op &op = prog.ops[id];
    Take<T>{cc, op}(a);
    cc.exec_ops(op.ops);
    cc.side[id] = 1;
    ev_fin(id);
    if (op.r == 'e')
      throw Exc{op.i};
    cc.refs[id].reset(new T(id));
    return *cc.refs[id];
  }
};
// ------------------------------------------------------------------------------ combinators
template <class T> struct CombBase {
  virtual ~CombBase() = default;
  virtual bool isr() = 0;
  virtual bool valid() = 0;
  virtual void wait() = 0;
  virtual void geta(Ctx<T> &c, const Op &op, char *out) = 0;
  virtual void thena(Ctx<T> &c, const Op &op) = 0;
};
template <class T> void store(Ctx<T> &c, int slot, future<T> &f) { c.F[slot] = std::move(f); }
template <class T> void store(Ctx<T> &c, int slot, shared_future<T> &f) { c.S[slot] = std::move(f); }
template <class T, class F, class A>
bool store_seq(Ctx<T> &c, const std::vector<int> &bs, std::vector<F, A> &seq, long need) {
  bool ok = seq.size() == bs.size();
  for (size_t j = 0; j < seq.size() && ok; ++j) {
    ok = seq[j].valid() && ((need >= 0 && need != (long)j) || seq[j].is_ready());
    if (ok)
      store(c, bs[j], seq[j]);
  }
  return ok;
}
template <class T, class... F> bool store_seq(Ctx<T> &c, const std::vector<int> &bs, std::tuple<F...> &seq, long need) {
  long j = 0;
  bool ok = sizeof...(F) == bs.size();
  auto one = [&](auto &f) {
    if (ok)
      ok = f.valid() && ((need >= 0 && need != j) || f.is_ready());
    if (ok)
      store(c, bs[j], f);
    ++j;
  };
  std::apply([&](auto &...f) { (one(f), ...); }, seq);
  return ok;
}
template <class T, class Seq> struct CombTake<T, pc::when_any_result<Seq>> {
  static void take(Ctx<T> &c, const Op &op, pc::when_any_result<Seq> &r, char *out) {
    guarded(c, out, [&] {
      sprintf(out, "x%ld", (long)r.index);
      if (r.index < op.pka.size())
        peek(c, op.pka[r.index]);
      if (!store_seq(c, op.bs, r.futures, op.bs.empty() ? 99 : (long)r.index))
        strcpy(out, "badseq");
    });
  }
};
template <class T, class Seq> struct CombTake {
  static void take(Ctx<T> &c, const Op &op, Seq &r, char *out) {
    guarded(c, out, [&] {
      strcpy(out, "all");
      peek(c, op.pk);
      if (!store_seq(c, op.bs, r, -1))
        strcpy(out, "badseq");
    });
  }
};
template <class T, class Res> struct CombTake<T, future<Res>> {
  static void take(Ctx<T> &c, const Op &op, future<Res> &f, char *out) {
    guarded(c, out, [&] {
      auto r = f.get();
      CombTake<T, Res>::take(c, op, r, out);
    });
  }
};
template <class T, class Res> struct Comb final : CombBase<T> {
  future<Res> f;
  Comb(future<Res> &&f) : f(std::move(f)) {}
  bool isr() override { return f.is_ready(); }
  bool valid() override { return f.valid(); }
  void wait() override { f.wait(); }
  void geta(Ctx<T> &c, const Op &op, char *out) override { CombTake<T, future<Res>>::take(c, op, f, out); }
  void thena(Ctx<T> &c, const Op &op) override {
    if (op.vr == "nx") {
      Fun<T, T, Res> fn(op.i);
      if (op.x == 'n')
        c.F[op.i] = f.next(std::move(fn));
      else
        c.F[op.i] = f.next(ex(op), std::move(fn));
      return;
    }
    Fun<T, T, future<Res>> fn(op.i);
    if (op.x == 'n')
      c.F[op.i] = f.then(std::move(fn));
    else
      c.F[op.i] = f.then(ex(op), std::move(fn));
  }
};

// ------------------------------------------------------------------------------ interpreter
template <class T> struct Ctx : Base {
  std::vector<future<T>> F;
  std::vector<shared_future<T>> S;
  std::vector<std::unique_ptr<promise<T>>> P;
  std::vector<packaged_task<T(Arg)>> K1;
  std::vector<packaged_task<T(Arg &, Mo)>> K4;
  std::unique_ptr<Box<T>> boxes[MAXOP];
  std::vector<packaged_task<future<T>(Arg)>> K2;
  std::vector<packaged_task<shared_future<T>(Arg)>> K3;
  std::vector<std::unique_ptr<CombBase<T>>> C;
  std::vector<pc::timed_waiter> W;
  std::unique_ptr<std::conditional_t<std::is_same<T, Val>::value, Val, Arg>> refs[MAXOP];

  explicit Ctx(size_t n) : F(n), S(n), P(n), K1(n), K4(n), K2(n), K3(n), C(n), W(n) {
    for (int i = 0; i < MAXOP; ++i)
      objs[i].id = i;
  }

  void exec_ops(const std::vector<int> &ids) override {
    for (int i : ids)
      exec(prog.ops[i]);
  }

  // passes a function object either as rvalue or as an lvalue that is modified afterwards
  template <class Fn, class Do> void with_fun(const Op &op, Do d) {
    if (op.lv) {
      Fn f(op.i, true);
      d(f);
      f.poison();
    } else {
      Fn f(op.i);
      d(std::move(f));
    }
  }

  template <class Fut, class Ret> void do_then(const Op &op, Fut &f) {
    with_fun<Fun<T, Ret, Fut>>(op, [&](auto &&fn) {
      using FT = decltype(fn);
      auto assign = [&](auto &&r) { keep(op.i, std::move(r)); };
      if (op.x != 'n')
        assign(f.then(ex(op), std::forward<FT>(fn)));
      else if (op.xi)
        assign(f.then(pc::inplace_executor, std::forward<FT>(fn)));
      else
        assign(f.then(std::forward<FT>(fn)));
    });
  }
  template <class Fut> void do_ithen(const Op &op, Fut &f) {
    with_fun<Fun<T, NoRet, promise<T>, Fut>>(op, [&](auto &&fn) {
      using FT = decltype(fn);
      if (op.x != 'n')
        F[op.i] = f.then(ex(op), std::forward<FT>(fn));
      else if (op.xi)
        F[op.i] = f.then(pc::inplace_executor, std::forward<FT>(fn));
      else
        F[op.i] = f.then(std::forward<FT>(fn));
    });
  }
  template <class Fn, class Fut> void do_next1(const Op &op, Fut &f) {
    with_fun<Fn>(op, [&](auto &&fn) {
      using FT = decltype(fn);
      auto assign = [&](auto &&r) { keep(op.i, std::move(r)); };
      if (op.x != 'n')
        assign(f.next(ex(op), std::forward<FT>(fn)));
      else if (op.xi)
        assign(f.next(pc::inplace_executor, std::forward<FT>(fn)));
      else
        assign(f.next(std::forward<FT>(fn)));
    });
  }
  template <class Fut, class Ret> void do_next(const Op &op, Fut &f) {
    if constexpr (std::is_void<T>::value)
      do_next1<Fun<T, Ret>>(op, f);
    else if constexpr (std::is_same<Fut, future<T>>::value)
      do_next1<Fun<T, Ret, T>>(op, f);
    else
      do_next1<Fun<T, Ret, typename Kind<T>::ShArg>>(op, f);
  }
  template <class U, class Fn, class Fut> void do_hop1(const Op &op, Fut &f) {
    with_fun<Fn>(op, [&](auto &&fn) {
      using FT = decltype(fn);
      int i = op.i;
      if constexpr (!std::is_invocable<Fn, Fut>::value) {
        future<U> h = op.x != 'n' ? f.next(ex(op), std::forward<FT>(fn)) : f.next(std::forward<FT>(fn));
        if constexpr (std::is_void<U>::value)
          F[i] = h.next([this, i]() -> T { return boxes[i]->take(); });
        else
          F[i] = h.next([](U b) -> T { return b.take(); });
      } else {
        future<U> h = op.x != 'n' ? f.then(ex(op), std::forward<FT>(fn)) : f.then(std::forward<FT>(fn));
        if constexpr (std::is_void<U>::value)
          F[i] = h.then([this, i](future<U> b) -> T { return b.get(), boxes[i]->take(); });
        else
          F[i] = h.then([](future<U> b) -> T { return b.get().take(); });
      }
    });
  }
  template <class U, class Fut> void do_hop(const Op &op, Fut &f) {
    if (op.o == o_then)
      do_hop1<U, HopFun<T, U, Fut>>(op, f);
    else if constexpr (std::is_void<T>::value)
      do_hop1<U, HopFun<T, U>>(op, f);
    else if constexpr (std::is_same<Fut, future<T>>::value)
      do_hop1<U, HopFun<T, U, T>>(op, f);
    else
      do_hop1<U, HopFun<T, U, typename Kind<T>::ShArg>>(op, f);
  }
  template <class Fut> void do_cnt(const Op &op, Fut &f) {
    bool nx = op.o == o_next;
    if (op.vr == "hv")
      return do_hop<void>(op, f);
    if (op.vr == "hb")
      return do_hop<Box<T>>(op, f);
    if (op.o == o_ithen)
      do_ithen(op, f);
    else if (op.r == 'f' || op.r == 'i' || op.r == 'g')
      nx ? do_next<Fut, future<T>>(op, f) : do_then<Fut, future<T>>(op, f);
    else if (op.r == 's' || op.r == 'j')
      nx ? do_next<Fut, shared_future<T>>(op, f) : do_then<Fut, shared_future<T>>(op, f);
    else
      nx ? do_next<Fut, T>(op, f) : do_then<Fut, T>(op, f);
  }
  template <class Fut> void do_note(const Op &op, Fut &f) {
    auto go = [&](auto &&fn) {
      using FT = decltype(fn);
      if (op.x != 'n')
        f.notify(ex(op), std::forward<FT>(fn));
      else if (op.xi)
        f.notify(pc::inplace_executor, std::forward<FT>(fn));
      else
        f.notify(std::forward<FT>(fn));
    };
    with_fun<Fun<T, NoRet>>(op, go);
  }
  void keep(int i, future<T> &&f) { F[i] = std::move(f); }
  void keep(int i, shared_future<T> &&f) { S[i] = std::move(f); }

  template <class Ret, class Fn> void do_async1(const Op &op) {
    with_fun<Fn>(op, [&](auto &&fn) {
      using FT = decltype(fn);
      if constexpr (std::is_same<Fn, Fun<T, Ret, Arg, Mo>>::value) {
        Mo m(7);
        if (op.vr == "pm") { // member of an object which is an argument itself
          if (op.x != 'n')
            keep(op.i, pc::async(ex(op), &Fn::operator(), std::forward<FT>(fn), Arg(op.i), std::move(m)));
          else
            keep(op.i, pc::async(pc::inplace_executor, &Fn::operator(), std::forward<FT>(fn), Arg(op.i), std::move(m)));
        } else {
          Arg a(op.i);
          if (op.x != 'n')
            keep(op.i, pc::async(ex(op), std::forward<FT>(fn), a, std::move(m)));
          else
            keep(op.i, pc::async(pc::inplace_executor, std::forward<FT>(fn), a, std::move(m)));
          *a.p = 0;
        }
      } else if (op.lv) {
        Arg a(op.i);
        if (op.x != 'n')
          keep(op.i, pc::async(ex(op), std::forward<FT>(fn), a));
        else
          keep(op.i, pc::async(pc::inplace_executor, std::forward<FT>(fn), a));
        *a.p = 0;
      } else {
        if (op.x != 'n')
          keep(op.i, pc::async(ex(op), std::forward<FT>(fn), Arg(op.i)));
        else
          keep(op.i, pc::async(pc::inplace_executor, std::forward<FT>(fn), Arg(op.i)));
      }
    });
  }
  template <class Ret> void do_async(const Op &op) {
    if (op.vr == "pm" || op.vr == "two")
      do_async1<Ret, Fun<T, Ret, Arg, Mo>>(op);
    else if (op.big)
      do_async1<Ret, BigFun<T, Ret, Arg>>(op);
    else
      do_async1<Ret, Fun<T, Ret, Arg>>(op);
  }

  template <class K> void task_op(const Op &op, std::vector<K> &ks, char *r) {
    switch (op.o) {
    case o_getfk:
      guarded(*this, r, [&] { keep(op.b, ks[op.a].get_future()); });
      break;
    case o_call:
      guarded(*this, r, [&] {
        if constexpr (std::is_same<K, packaged_task<T(Arg &, Mo)>>::value) {
          Arg a(op.i);
          ks[op.a](a, Mo(7));
        } else
          ks[op.a](Arg(op.i));
      });
      break;
    case o_dropk:
      ks[op.a] = K{};
      break;
    case o_mvk:
      ks[op.b] = std::move(ks[op.a]);
      break;
    case o_swapk:
      ks[op.a].swap(ks[op.b]);
      break;
    case o_validk:
      strcpy(r, ks[op.a].valid() ? "true" : "false");
      break;
    default:
      break;
    }
  }
  template <class Ret> void mk_task(const Op &op, std::vector<packaged_task<Ret(Arg)>> &ks) {
    auto mk = [&](auto &&fn) { ks[op.i] = packaged_task<Ret(Arg)>(std::forward<decltype(fn)>(fn)); };
    if (op.vr == "ref") { // the function returns an lvalue
      if constexpr (std::is_same<Ret, Val>::value)
        return with_fun<RefFun<T>>(op, mk);
    }
    with_fun<Fun<T, Ret, Arg>>(op, mk);
  }

  future<T> &&inF(const Op &op, int j) { return std::move(F[op.as[j]]); }
  const shared_future<T> &inS(const Op &op, int j) { return S[op.as[j]]; }
  template <class Fn> void comb(const Op &op, Fn all_or_any) {
    auto put = [&](auto &&f) {
      using R = typename std::decay_t<decltype(f)>::value_type;
      C[op.i].reset(new Comb<T, R>(std::move(f)));
    };
    const std::string &k = op.ks;
    if (op.vr == "vec" || op.vr == "it" || op.vr == "al") {
      if (k.empty() || k[0] == 'F') {
        if (op.vr == "al") {
          using A = TrackAlloc<future<T>>;
          std::vector<future<T>, A> v((A(op.i)));
          for (size_t j = 0; j < k.size(); ++j)
            v.push_back(inF(op, j));
          put(all_or_any(std::move(v)));
          return;
        }
        if (op.vr == "it") { // list iterators
          std::list<future<T>> l;
          for (size_t j = 0; j < k.size(); ++j)
            l.push_back(inF(op, j));
          put(all_or_any(l.begin(), l.end()));
          return;
        }
        std::vector<future<T>> v;
        for (size_t j = 0; j < k.size(); ++j)
          v.push_back(inF(op, j));
        put(all_or_any(std::move(v)));
      } else {
        std::vector<shared_future<T>> v;
        for (size_t j = 0; j < k.size(); ++j)
          v.push_back(inS(op, j));
        if (op.vr == "it")
          put(all_or_any(v.begin(), v.end()));
        else
          put(all_or_any(std::move(v)));
      }
      return;
    }
    if (k == "")
      put(all_or_any());
    else if (k == "F")
      put(all_or_any(inF(op, 0)));
    else if (k == "S")
      put(all_or_any(inS(op, 0)));
    else if (k == "FF")
      put(all_or_any(inF(op, 0), inF(op, 1)));
    else if (k == "FS")
      put(all_or_any(inF(op, 0), inS(op, 1)));
    else if (k == "SF")
      put(all_or_any(inS(op, 0), inF(op, 1)));
    else if (k == "SS")
      put(all_or_any(inS(op, 0), inS(op, 1)));
    else if (k == "FFF")
      put(all_or_any(inF(op, 0), inF(op, 1), inF(op, 2)));
    else if (k == "SFS")
      put(all_or_any(inS(op, 0), inF(op, 1), inS(op, 2)));
    else {
      fprintf(stderr, "unsupported tuple %s\n", k.c_str());
      exit(9);
    }
  }

  std::unique_ptr<TaskBase> pop(char x, bool block) {
    Queue &q = qs[x - '1'];
    std::unique_lock<std::mutex> l(q.m);
    if (block)
      q.cv.wait(l, [&] { return !q.q.empty(); });
    if (q.q.empty())
      return nullptr;
    std::unique_ptr<TaskBase> t = std::move(q.q.front().task);
    rt::event("{\"k\":\"pop\",\"t\":%d,\"q\":\"%s\",\"n\":%d}", rt::tid(), qname(x), q.q.front().label);
    q.q.pop_front();
    return t;
  }

  template <class Fut> void fut_op(const Op &op, Fut &f, char *r) {
    switch (op.o) {
    case o_wait:
      guarded(*this, r, [&] {
        f.wait();
        peek(*this, op.pk);
      });
      break;
    case o_isr:
      guarded(*this, r, [&] {
        bool y = op.i & 1 ? f.is_ready() : pc::future_ready(f);
        if (y)
          peek(*this, op.pk);
        strcpy(r, y ? "true" : "false");
      });
      break;
    case o_valid:
      strcpy(r, f.valid() ? "true" : "false");
      break;
    case o_drop:
      f = Fut{};
      break;
    case o_then:
    case o_next:
    case o_ithen:
      guarded(*this, r, [&] { do_cnt(op, f); });
      break;
    case o_note:
      guarded(*this, r, [&] { do_note(op, f); });
      break;
    case o_tw:
      guarded(*this, r, [&] { W[op.i] = pc::timed_waiter(f); });
      break;
    case o_waitfor:
      guarded(*this, r, [&] {
        long t0 = rt::now_ns();
        auto st = timed(op, f);
        timed_res(op, r, st, t0);
      });
      break;
    default:
      break;
    }
  }
  // waits for op.d ms and a bit, which no coarser unit can represent
  template <class W_> static pc::future_status timed(const Op &op, W_ &w) {
    auto us = std::chrono::microseconds(op.d * 1000 + 700);
    if (op.vr == "until")
      return w.wait_until(std::chrono::steady_clock::now() + us);
    if (op.vr == "sys")
      return w.wait_until(std::chrono::system_clock::now() + us);
    if (op.vr == "fd")
      return w.wait_for(std::chrono::duration<double, std::milli>(op.d + .7));
    return w.wait_for(us);
  }
  void timed_res(const Op &op, char *r, pc::future_status st, long t0) {
    if (st == pc::future_status::ready) {
      strcpy(r, "ready");
      peek(*this, op.pk);
    } else if (st == pc::future_status::timeout)
      strcpy(r, rt::now_ns() - t0 >= op.d * 1000000l + 699000l ? "timeout" : "early");
    else
      strcpy(r, "other");
  }

#if defined(PC_HAS_COROUTINES)
  template <class Fut> static Fut coro(Ctx *c, int id) {
    struct Guard {
      int id;
      ~Guard() { rt::event("{\"k\":\"dtor\",\"t\":%d,\"f\":%d}", rt::tid(), id); }
    } g{id};
    const Op &op = prog.ops[id];
    ev_run(id, "-", true);
    for (int i : op.ops) {
      const Op &n = prog.ops[i];
      if (n.o != o_aw) {
        c->exec(n);
        continue;
      }
      call(n.i);
      char r[40] = "ok";
      if (!(n.ak == 'S' ? c->S[n.a].valid() : c->F[n.a].valid())) {
        ret("nostate"); // awaiting an invalid future is an error of the program
        continue;
      }
      try {
        if (n.ak == 'S') {
          shared_future<T> loc;
          if (n.lv) // the coroutine owns what it awaits
            loc = c->S[n.a];
          if constexpr (std::is_void<T>::value) {
            co_await (n.lv ? loc : c->S[n.a]);
            strcpy(r, "v0");
          } else
            val_code<T>(*c, r, co_await (n.lv ? loc : c->S[n.a]));
        } else {
          future<T> loc;
          if (n.lv)
            loc = std::move(c->F[n.a]);
          if constexpr (std::is_void<T>::value) {
            co_await (n.lv ? loc : c->F[n.a]);
            strcpy(r, "v0");
          } else
            val_code<T>(*c, r, co_await (n.lv ? loc : c->F[n.a]));
        }
      } catch (const Exc &e) {
        sprintf(r, "e%d", e.id);
        side_read(*c, e.id);
      } catch (const std::future_error &e) {
        err_code(r, e);
      }
      peek(*c, n.pk);
      ret(r);
    }
    c->side[id] = 1;
    ev_fin(id);
    if (op.r == 'e')
      throw Exc{id};
    if constexpr (std::is_void<T>::value)
      co_return;
    else
      co_return Kind<T>::make(*c, id);
  }
#endif

  void exec(const Op &op) {
    if (op.o == o_awb) {
      rt::await_blocked(op.a);
      return;
    }
    if (op.o == o_sig) {
      std::lock_guard<std::mutex> l(sm);
      sigs[op.a] = true;
      scv.notify_all();
      return;
    }
    if (op.o == o_aws) {
      std::unique_lock<std::mutex> l(sm);
      scv.wait(l, [&] { return sigs[op.a]; });
      return;
    }
    char r[40] = "ok";
    int ad = 0;
    switch (op.o) {
    case o_mkp: {
      call(op.i);
      auto canceler = [i = op.i] { rt::event("{\"k\":\"cancel\",\"t\":%d,\"n\":%d}", rt::tid(), i); };
      auto put = [&](std::pair<promise<T>, future<T>> pf) {
        P[op.i].reset(new promise<T>(std::move(pf.first)));
        F[op.i] = std::move(pf.second);
      };
      if (op.vr == "canc")
        put(pc::make_promise<T>(pc::canceler_arg, canceler));
      else if (op.vr == "alloc")
        put(pc::make_promise<T>(TrackAlloc<char>(op.i)));
      else if (op.vr == "leg")
        P[op.i].reset(new promise<T>());
      else if (op.vr == "legc")
        P[op.i].reset(new promise<T>(pc::canceler_arg, canceler));
      else if (op.vr == "lega")
        P[op.i].reset(new promise<T>(std::allocator_arg, TrackAlloc<char>(op.i)));
      else
        put(pc::make_promise<T>());
      break;
    }
    case o_getf:
      call(op.i);
      if (!P[op.a])
        strcpy(r, "nostate");
      else
        guarded(*this, r, [&] { F[op.b] = P[op.a]->get_future(); });
      break;
    case o_mkr:
      side[op.i] = 1;
      call(op.i);
      if (op.r == 'e') {
        if (op.vr == "ptr")
          F[op.i] = pc::make_exceptional_future<T>(std::make_exception_ptr(Exc{op.i}));
        else
          F[op.i] = pc::make_exceptional_future<T>(Exc{op.i});
      } else if constexpr (std::is_void<T>::value)
        F[op.i] = pc::make_ready_future();
      else if constexpr (std::is_reference<T>::value)
        F[op.i] = pc::make_ready_future(std::ref(objs[op.i]));
      else
        F[op.i] = pc::make_ready_future(T(op.i));
      break;
    case o_set: {
      side[op.i] = 1;
      if constexpr (std::is_void<T>::value) {
        call(op.i);
        if (!P[op.a])
          strcpy(r, "nostate");
        else
          guarded(*this, r, [&] { P[op.a]->set_value(); });
      } else if constexpr (std::is_reference<T>::value) {
        call(op.i);
        if (!P[op.a])
          strcpy(r, "nostate");
        else
          guarded(*this, r, [&] { P[op.a]->set_value(objs[op.i]); });
      } else {
        T v(op.i);
        v.boom = op.thr;
        call(op.i);
        if (!P[op.a])
          strcpy(r, "nostate");
        else
          guarded(*this, r, [&] {
            if constexpr (std::is_same<T, Val>::value) {
              if (op.lv) {
                const T &cv = v;
                P[op.a]->set_value(cv);
                if (v.get() != op.i)
                  strcpy(r, "stolen");
                return;
              }
            }
            P[op.a]->set_value(std::move(v));
          });
      }
      break;
    }
    case o_sete:
      side[op.i] = 1;
      call(op.i);
      if (!P[op.a])
        strcpy(r, "nostate");
      else
        guarded(*this, r, [&] { P[op.a]->set_exception(std::make_exception_ptr(Exc{op.i})); });
      break;
    case o_dropp:
      call(op.i);
      P[op.a].reset();
      break;
    case o_movep:
      call(op.i);
      if (P[op.a] && P[op.b])
        *P[op.b] = std::move(*P[op.a]);
      else if (P[op.a])
        P[op.b].reset(new promise<T>(std::move(*P[op.a])));
      else
        P[op.b].reset();
      break;
    case o_awaiten:
      call(op.i);
      if (!P[op.a])
        strcpy(r, "nostate");
      else
        guarded(*this, r, [&] { strcpy(r, P[op.a]->is_awaiten() ? "true" : "false"); });
      break;
    case o_get:
      call(op.i);
      if (op.ak == 'S')
        get_code<T>(*this, r, S[op.a], &ad, op.i & 1);
      else
        get_code<T>(*this, r, F[op.a], op.i & 1);
      if (strcmp(r, "nostate"))
        peek(*this, op.pk);
      break;
    case o_shr:
      call(op.i);
      if (op.vr == "conv")
        S[op.b] = shared_future<T>(std::move(F[op.a]));
      else
        S[op.b] = F[op.a].share();
      break;
    case o_copy:
      call(op.i);
      if (op.vr == "ctor") {
        shared_future<T> tmp(S[op.a]);
        S[op.b] = std::move(tmp);
      } else
        S[op.b] = S[op.a];
      break;
    case o_mv:
      call(op.i);
      if (op.ak == 'S')
        S[op.b] = std::move(S[op.a]);
      else
        F[op.b] = std::move(F[op.a]);
      break;
    case o_det:
      call(op.i);
      guarded(*this, r, [&] {
        if (op.ak == 'S')
          S[op.b] = S[op.a].detach();
        else
          F[op.b] = F[op.a].detach();
      });
      break;
    case o_task:
      call(op.i);
      if (op.r == 'f' || op.r == 'i' || op.r == 'g')
        mk_task(op, K2);
      else if (op.r == 's' || op.r == 'j')
        mk_task(op, K3);
      else if (op.vr == "two")
        with_fun<Fun<T, T, Arg &, Mo>>(op, [&](auto &&fn) {
          K4[op.i] = packaged_task<T(Arg &, Mo)>(std::forward<decltype(fn)>(fn));
        });
      else
        mk_task(op, K1);
      break;
    case o_getfk:
    case o_call:
    case o_dropk:
    case o_mvk:
    case o_swapk:
    case o_validk:
      call(op.i);
      if (op.d == 2)
        task_op(op, K2, r);
      else if (op.d == 3)
        task_op(op, K3, r);
      else if (op.d == 4)
        task_op(op, K4, r);
      else
        task_op(op, K1, r);
      break;
    case o_async:
      call(op.i);
      if (op.r == 'f' || op.r == 'i' || op.r == 'g')
        do_async<future<T>>(op);
      else if (op.r == 's' || op.r == 'j')
        do_async<shared_future<T>>(op);
      else
        do_async<T>(op);
      break;
    case o_all:
      call(op.i);
      comb(op, [](auto &&...a) { return pc::when_all(std::forward<decltype(a)>(a)...); });
      break;
    case o_any:
      call(op.i);
      comb(op, [](auto &&...a) { return pc::when_any(std::forward<decltype(a)>(a)...); });
      break;
    case o_geta:
      call(op.i);
      if (!C[op.a])
        strcpy(r, "nostate");
      else
        C[op.a]->geta(*this, op, r);
      break;
    case o_thena:
      call(op.i);
      if (!C[op.a])
        strcpy(r, "nostate");
      else
        guarded(*this, r, [&] { C[op.a]->thena(*this, op); });
      break;
    case o_twait: {
      call(op.i);
      long t0 = rt::now_ns();
      auto st = timed(op, W[op.a]);
      timed_res(op, r, st, t0);
      break;
    }
    case o_cpw:
      call(op.i);
      W[op.b] = W[op.a];
      break;
    case o_dropw:
      call(op.i);
      W[op.a] = pc::timed_waiter{};
      break;
    case o_xrun:
    case o_xrunb: {
      call(op.i);
      auto t = pop(op.x, op.o == o_xrunb);
      strcpy(r, t ? "ran" : "none");
      if (t)
        t->run();
      break;
    }
    case o_xdrop: {
      call(op.i);
      auto t = pop(op.x, false);
      strcpy(r, t ? "ran" : "none");
      break;
    }
    case o_xclr:
      call(op.i);
      for (bool more = true; more;) {
        more = false;
        for (char q : {'1', '2'})
          if (op.x == q || op.x == 'a')
            while (auto t = pop(q, false)) {
              t.reset();
              more = true;
            }
      }
      break;
#if defined(PC_HAS_COROUTINES)
    case o_co:
      call(op.i);
      if (op.ak == 'S')
        S[op.i] = coro<shared_future<T>>(this, op.i);
      else
        F[op.i] = coro<future<T>>(this, op.i);
      break;
#endif
    default:
      call(op.i);
      if (op.ak == 'C') {
        if (!C[op.a])
          strcpy(r, op.o == o_valid ? "false" : op.o == o_drop ? "ok" : "nostate");
        else
          guarded(*this, r, [&] {
            if (op.o == o_isr)
{
              bool y = C[op.a]->isr();
              if (y)
                peek(*this, op.pk);
              strcpy(r, y ? "true" : "false");
            }
            else if (op.o == o_valid)
              strcpy(r, C[op.a]->valid() ? "true" : "false");
            else if (op.o == o_wait)
              C[op.a]->wait(), peek(*this, op.pk);
            else
              C[op.a].reset();
          });
      } else if (op.ak == 'S')
        fut_op(op, S[op.a], r);
      else
        fut_op(op, F[op.a], r);
    }
    ret(r, ad);
  }
};

template <class T> struct Run {
  static void run() {
    {
      std::unique_ptr<Ctx<T>> c(new Ctx<T>(prog.nn + 1));
      g_base = c.get();
      c->exec_ops(prog.pre);
      {
        std::vector<std::thread> th;
        th.reserve(prog.threads.size());
        for (size_t i = 0; i < prog.threads.size(); ++i)
          th.emplace_back([&c, i] { c->exec_ops(prog.threads[i]); });
        for (auto &t : th)
          t.join();
      }
      c->exec_ops(prog.post);
      for (int i = 0; i < MAXOP; ++i)
        if (c->refs[i] && c->refs[i]->get() != i)
          rt::event("{\"k\":\"bad\",\"t\":0,\"what\":\"object of the user moved from\",\"detail\":\"%d\"}", i);
    }
    rt::event("{\"k\":\"end\",\"leak\":%ld}", (long)rt::live_blocks() + rt::counter_add(0, 0));
  }
};
} // namespace fut

namespace portable_concurrency {
template <> struct is_executor<fut::Ex> : std::true_type {};
} // namespace portable_concurrency
