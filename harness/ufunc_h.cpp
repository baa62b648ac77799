// Drives pc::unique_function (and the small_unique_function it converts to) of several signatures.
// Program: {"sg":signature,"ops":[{"i":..,"o":..,"a":slot,"b":slot,"kd":kind,"f":callable,"thr":0/1,"lv":0/1}]}
#include "harness.h"
#include "pcrt.h"
#include <cstring>
#include <functional>
#include <memory>
#include <portable_concurrency/functional>
#include <stdexcept>
#include <utility>

namespace {
constexpr int NSLOT = 5, MAXF = 40, NFP = 12;
struct Boom {};
struct G { // per run
  int armed = 0;      // move/copy constructors of "throwing" functors throw
  int curop = 0;
  int throwcall = 0;  // callable throws when invoked
  int fpn = 0, fpown[NFP] = {};
  long cnt[MAXF] = {};
  long bodies = 0;    // functor objects, moved from ones included
};
G *g;
constexpr unsigned ALIVE = 0x600df00d, DEAD = 0xdeadf00d;

// argument and result objects: code = what has been done to them
struct Obj {
  long op = 0, f = 0, n = 0;
  int copies = 0;
  bool live = true;
  Obj() = default;
  Obj(const Obj &o) : op(o.op), f(o.f), n(o.n), copies(o.copies + 1), live(o.live) {}
  Obj(Obj &&o) noexcept : op(o.op), f(o.f), n(o.n), copies(o.copies), live(o.live) { o.live = false; }
  Obj &operator=(const Obj &) = delete;
};
struct MO {
  long op = 0, f = 0, n = 0;
  int copies = 0;
  bool live = true;
  MO() = default;
  MO(MO &&o) noexcept : op(o.op), f(o.f), n(o.n), live(o.live) { o.live = false; }
};
struct S;
} // namespace

namespace {
void log_run(int f, long n, const char *a, bool y) {
  rt::event("{\"k\":\"run\",\"t\":%d,\"f\":%d,\"n\":%ld,\"a\":\"%s\",\"y\":\"%s\"}", rt::tid(), f, n, a, y ? "y" : "n");
}
template <class O> std::string argcode(const O &o) {
  char b[60];
  snprintf(b, sizeof b, "a%ld%s%s", o.op, o.copies ? "+copied" : "", o.live ? "" : "+movedfrom");
  return b;
}
// what a callable does: work on the argument and return it as the signature demands
template <class R> struct Act;
template <> struct Act<void> {
  static void go(int f, long n, bool y) {
    log_run(f, n, ("a" + std::to_string(g->curop)).c_str(), y);
    if (g->throwcall)
      throw Boom{};
  }
};
template <> struct Act<long> {
  static long go(int f, long n, bool y, Obj o) {
    log_run(f, n, argcode(o).c_str(), y);
    if (g->throwcall)
      throw Boom{};
    return f * 10000 + n * 100 + o.op;
  }
};
template <> struct Act<Obj &> {
  static Obj &go(int f, long n, bool y, Obj &o) {
    log_run(f, n, argcode(o).c_str(), y);
    if (g->throwcall)
      throw Boom{};
    o.f = f, o.n = n;
    return o;
  }
};
template <> struct Act<const Obj &> {
  static const Obj &go(int f, long n, bool y, const Obj &o) {
    log_run(f, n, argcode(o).c_str(), y);
    if (g->throwcall)
      throw Boom{};
    const_cast<Obj &>(o).f = f, const_cast<Obj &>(o).n = n;
    return o;
  }
};
template <> struct Act<Obj &&> {
  static Obj &&go(int f, long n, bool y, Obj &&o) {
    log_run(f, n, argcode(o).c_str(), y);
    if (g->throwcall)
      throw Boom{};
    o.f = f, o.n = n;
    return std::move(o);
  }
};
template <> struct Act<MO> {
  static MO go(int f, long n, bool y, MO o) {
    log_run(f, n, argcode(o).c_str(), y);
    if (g->throwcall)
      throw Boom{};
    o.f = f, o.n = n;
    return o;
  }
};

// tracked functor: one logical instance, which is the active one
template <class Sig, int Pad, bool Thr, int Al, bool Copy> struct Fn;
template <class R, class... A, int Pad, bool Thr, int Al, bool Copy> struct alignas(Al) Fn<R(A...), Pad, Thr, Al, Copy> {
  mutable int n;
  short f;
  bool active, proto;
  volatile unsigned life; // a body is used only between its constructor and its destructor
  char pad[Pad];
  void born(const Fn *from) {
    if (from && from->life != ALIVE)
      rt::event("{\"k\":\"deaduse\",\"t\":%d,\"f\":%d}", rt::tid(), f);
    life = ALIVE;
    ++g->bodies;
  }
  Fn(int f, bool proto) : n(0), f((short)f), active(true), proto(proto) {
    memset(pad, f, Pad);
    born(nullptr);
  }
  Fn(Fn &&o) noexcept(!Thr) : n(o.n), f(o.f), active(o.active), proto(o.proto) {
    if (Thr && g->armed)
      throw Boom{};
    born(&o);
    memcpy(pad, o.pad, Pad);
    o.active = false;
  }
  Fn(const Fn &o) : n(o.n), f(o.f), active(o.active), proto(false) {
    static_assert(Copy, "");
    if (g->armed)
      throw Boom{};
    born(&o);
    memcpy(pad, o.pad, Pad);
    rt::event("{\"k\":\"cpy\",\"t\":%d,\"f\":%d}", rt::tid(), f);
  }
  ~Fn() {
    if (active && !proto)
      rt::event("{\"k\":\"dtor\",\"t\":%d,\"f\":%d}", rt::tid(), f);
    active = false;
    if (life != ALIVE)
      rt::event("{\"k\":\"deaduse\",\"t\":%d,\"f\":%d}", rt::tid(), f);
    life = DEAD;
    --g->bodies;
  }
  bool ok() const { return life == ALIVE && active && !proto && pad[Pad - 1] == (char)f && reinterpret_cast<uintptr_t>(this) % Al == 0; }
  R operator()(A... a) const { return Act<R>::go(f, ++n, ok(), std::forward<A>(a)...); }
};
// the same as a move-only functor
template <class Sig, int Pad, bool Thr, int Al> struct MFn;
template <class R, class... A, int Pad, bool Thr, int Al> struct MFn<R(A...), Pad, Thr, Al> : Fn<R(A...), Pad, Thr, Al, true> {
  using B = Fn<R(A...), Pad, Thr, Al, true>;
  using B::B;
  MFn(MFn &&) = default;
  MFn(const MFn &) = delete;
};
// function pointers
template <class Sig, int K> struct FP;
template <class R, class... A, int K> struct FP<R(A...), K> {
  static R fun(A... a) {
    int f = g->fpown[K];
    return Act<R>::go(f, ++g->cnt[f], true, std::forward<A>(a)...);
  }
};
template <class Sig, int K = 0> struct FPT {
  static auto at(int k) -> decltype(&FP<Sig, 0>::fun) { return k == K ? &FP<Sig, K>::fun : FPT<Sig, K + 1>::at(k); }
};
template <class Sig> struct FPT<Sig, NFP> {
  static auto at(int) -> decltype(&FP<Sig, 0>::fun) { return nullptr; }
};

// classes for member pointers
struct S {
  Obj m[NFP];
  Obj x0, x1, x2, x3;
  template <int K> Obj &mf() {
    int f = g->fpown[K];
    return Act<Obj &>::go(f, ++g->cnt[f], true, m[K]);
  }
  template <int K> long cf(Obj o) const {
    int f = g->fpown[K];
    return Act<long>::go(f, ++g->cnt[f], true, std::move(o));
  }
};
using MF = Obj &(S::*)();
using CF = long (S::*)(Obj) const;
MF mf_at(int k) {
  switch (k % 4) {
  case 0: return &S::mf<0>;
  case 1: return &S::mf<1>;
  case 2: return &S::mf<2>;
  default: return &S::mf<3>;
  }
}
CF cf_at(int k) {
  switch (k % 4) {
  case 0: return &S::cf<0>;
  case 1: return &S::cf<1>;
  case 2: return &S::cf<2>;
  default: return &S::cf<3>;
  }
}
Obj S::*md_at(int k) {
  switch (k % 4) {
  case 0: return &S::x0;
  case 1: return &S::x1;
  case 2: return &S::x2;
  default: return &S::x3;
  }
}

std::string code(long f, long n, long op) {
  char b[60];
  snprintf(b, sizeof b, "r%ld.%ld.%ld", f, n, op);
  return b;
}
// invoking a function object of each signature
template <class Sig> struct Inv;
template <> struct Inv<void()> {
  template <class U> static std::string go(U &u, long) {
    u();
    return "ok";
  }
};
template <> struct Inv<long(Obj)> {
  template <class U> static std::string go(U &u, long i) {
    Obj o;
    o.op = i;
    long r = u(std::move(o));
    return code(r / 10000, r / 100 % 100, r % 100);
  }
};
template <> struct Inv<Obj &(Obj &)> {
  template <class U> static std::string go(U &u, long i) {
    Obj o;
    o.op = i;
    Obj &r = u(o);
    return &r == &o && !o.copies && o.live ? code(r.f, r.n, r.op) : "other object";
  }
};
template <> struct Inv<const Obj &(const Obj &)> {
  template <class U> static std::string go(U &u, long i) {
    Obj o;
    o.op = i;
    const Obj &r = u(o);
    return &r == &o && o.live ? code(r.f, r.n, r.op) : "other object";
  }
};
template <> struct Inv<Obj && (Obj &&)> {
  template <class U> static std::string go(U &u, long i) {
    Obj o;
    o.op = i;
    Obj &&r = u(std::move(o));
    return &r == &o && o.live ? code(r.f, r.n, r.op) : "other object";
  }
};
template <> struct Inv<MO(MO)> {
  template <class U> static std::string go(U &u, long i) {
    MO o;
    o.op = i;
    MO r = u(std::move(o));
    return r.live && !o.live ? code(r.f, r.n, r.op) : "other object";
  }
};
template <> struct Inv<Obj &(S &)> {
  template <class U> static std::string go(U &u, long i) {
    S s;
    for (auto &o : s.m)
      o.op = i;
    s.x0.f = 1000;
    Obj &r = u(s);
    for (int k = 0; k < 4; ++k) {
      if (&r == &s.m[k])
        return code(r.f, r.n, r.op);
      if (&r == &(s.*md_at(k)))
        return "m" + std::to_string(g->fpown[k]);
    }
    return "other object";
  }
};
template <> struct Inv<long(const S *, Obj)> {
  template <class U> static std::string go(U &u, long i) {
    S s;
    Obj o;
    o.op = i;
    long r = u(&s, std::move(o));
    return code(r / 10000, r / 100 % 100, r % 100);
  }
};
template <class Sig> struct WithS : std::false_type {};
template <> struct WithS<Obj &(S &)> : std::true_type {};
template <> struct WithS<long(const S *, Obj)> : std::true_type {};

template <class Sig> struct Make {
  using U = pc::unique_function<Sig>;
  // put(u, callable): construct and assign
  template <class F> static void put(U &u, F &&f, int vr) {
    if (vr == 1) {
      U t{std::forward<F>(f)};
      u = std::move(t);
    } else if (vr == 2) {
      u.~U();
      new (&u) U(std::forward<F>(f));
    } else
      u = U(std::forward<F>(f));
  }
  template <class F> static void obj(U &u, int f, bool lv, int vr) {
    if (lv) {
      F proto{f, true};
      const F &c = proto;
      if (vr == 1)
        put(u, proto, vr);
      else
        put(u, c, vr);
    } else
      put(u, F{f, false}, vr);
  }
  static bool functor(U &u, const std::string &kd, int f, bool lv, int vr) {
    if (kd == "small")
      obj<Fn<Sig, 4, false, 8, true>>(u, f, lv, vr);
    else if (kd == "full") // exactly the small buffer
      obj<Fn<Sig, 28, false, 8, true>>(u, f, lv, vr);
    else if (kd == "over") // one byte more
      obj<Fn<Sig, 29, false, 8, true>>(u, f, lv, vr);
    else if (kd == "big")
      obj<Fn<Sig, 120, false, 8, true>>(u, f, lv, vr);
    else if (kd == "thr")
      obj<Fn<Sig, 4, true, 8, true>>(u, f, lv, vr);
    else if (kd == "al")
      obj<Fn<Sig, 4, false, 32, true>>(u, f, lv, vr);
    else if (kd == "mon")
      put(u, MFn<Sig, 4, false, 8>{f, false}, vr);
    else if (kd == "mob")
      put(u, MFn<Sig, 90, true, 8>{f, false}, vr);
    else if (kd == "std")
      stdfn(u, f, vr, std::is_same<Sig, MO(MO)>{});
    else if (kd == "nstd")
      put(u, std::function<Sig>{}, vr);
    else if (kd == "uf") { // unique_function of another type around it
      pc::unique_function<Sig> in{Fn<Sig, 4, false, 8, true>{f, false}};
      put(u, wrap(std::move(in)), vr);
    } else
      return false;
    return true;
  }
  template <class F> struct Wrap;
  template <class R, class... A> struct Wrap<R(A...)> {
    pc::unique_function<R(A...)> in;
    R operator()(A... a) { return in(std::forward<A>(a)...); }
  };
  static Wrap<Sig> wrap(U &&u) { return Wrap<Sig>{std::move(u)}; }
  static void stdfn(U &u, int f, int vr, std::false_type) {
    std::function<Sig> s{Fn<Sig, 4, false, 8, true>{f, false}};
    put(u, std::move(s), vr);
  }
  static void stdfn(U &u, int f, int vr, std::true_type) { stdfn(u, f, vr, std::false_type{}); }
};
int fp_index(int f) {
  int k = g->fpn++ % NFP;
  g->fpown[k] = f;
  return k;
}
template <class Sig> struct Kinds {
  using U = pc::unique_function<Sig>;
  static void mk(U &u, const std::string &kd, int f, bool lv, int vr) {
    if (Make<Sig>::functor(u, kd, f, lv, vr))
      return;
    if (kd == "fp") {
      auto p = FPT<Sig>::at(fp_index(f));
      if (lv)
        Make<Sig>::put(u, *p, vr); // function reference
      else
        Make<Sig>::put(u, p, vr);
    } else if (kd == "nfp") {
      decltype(&FP<Sig, 0>::fun) p = nullptr;
      Make<Sig>::put(u, p, vr);
    } else if (kd == "null")
      Make<Sig>::put(u, nullptr, vr);
    else {
      fprintf(stderr, "bad kind %s\n", kd.c_str());
      exit(9);
    }
  }
};
template <> struct Kinds<Obj &(S &)> {
  using Sig = Obj &(S &);
  using U = pc::unique_function<Sig>;
  static void mk(U &u, const std::string &kd, int f, bool, int vr) {
    if (kd == "mfp")
      Make<Sig>::put(u, mf_at(fp_index(f)), vr);
    else if (kd == "mdp")
      Make<Sig>::put(u, md_at(fp_index(f)), vr);
    else if (kd == "nmfp")
      Make<Sig>::put(u, static_cast<MF>(nullptr), vr);
    else if (kd == "nmdp")
      Make<Sig>::put(u, static_cast<Obj S::*>(nullptr), vr);
    else
      Make<Sig>::put(u, nullptr, vr);
  }
};
template <> struct Kinds<long(const S *, Obj)> {
  using Sig = long(const S *, Obj);
  using U = pc::unique_function<Sig>;
  static void mk(U &u, const std::string &kd, int f, bool, int vr) {
    if (kd == "mfp")
      Make<Sig>::put(u, cf_at(fp_index(f)), vr);
    else if (kd == "nmfp")
      Make<Sig>::put(u, static_cast<CF>(nullptr), vr);
    else
      Make<Sig>::put(u, nullptr, vr);
  }
};

template <class Sig> struct Runner {
  using U = pc::unique_function<Sig>;
  using SU = pc::detail::small_unique_function<Sig>;
  template <class X> static std::string inv(X &x, long i) {
    try {
      return Inv<Sig>::go(x, i);
    } catch (const std::bad_function_call &) {
      return "badcall";
    } catch (const Boom &) {
      return "thrown";
    }
  }
  static void run(const J &prog) {
    U *u = new U[NSLOT];
    rw(u, prog, WithS<Sig>{});
    delete[] u;
  }
  // objects reference wrappers refer to
  static void rw(U *u, const J &prog, std::true_type) { body(u, prog, [](U &, int, int) {}); }
  static void rw(U *u, const J &prog, std::false_type) {
    using F = Fn<Sig, 60, true, 8, true>;
    std::vector<std::unique_ptr<F>> keep;
    body(u, prog, [&](U &x, int f, int vr) {
      keep.emplace_back(new F{f, false});
      Make<Sig>::put(x, std::ref(*keep.back()), vr);
    });
    for (int s = 0; s < NSLOT; ++s)
      u[s] = U{};
    for (auto &k : keep)
      k->active = false; // their end is not an event
  }
  template <class RW> static void body(U *u, const J &prog, RW mkref) {
    for (const J &op : prog["ops"].a) {
      const std::string &o = op["o"].s;
      long i = op.num_or("i", 0);
      int a = (int)op.num_or("a", 0), b = (int)op.num_or("b", 0), f = (int)op.num_or("f", 0), vr = (int)op.num_or("vr", 0);
      bool thr = op.num_or("thr", 0), lv = op.num_or("lv", 0);
      g->curop = (int)i;
      rt::event("{\"k\":\"call\",\"t\":%d,\"i\":%ld,\"o\":\"%s\",\"a\":%d,\"b\":%d,\"f\":%d,\"kd\":\"%s\",\"thr\":%d,\"lv\":%d,\"sg\":\"%s\"}",
                rt::tid(), i, o.c_str(), a, b, f, op["kd"].s.c_str(), (int)thr, (int)lv, prog["sg"].s.c_str());
      std::string r = "ok";
      unsigned long before = rt::live_blocks();
      long al = -1;
      if (o == "mk") {
        g->armed = thr;
        try {
          if (op["kd"].s == "rw") {
            mkref(u[a], f, vr);
          } else
            Kinds<Sig>::mk(u[a], op["kd"].s, f, lv, vr);
        } catch (const Boom &) {
          r = "thrown";
        }
        g->armed = 0;
      } else if (o == "mv") {
        g->armed = 1;
        if (vr == 0)
          u[b] = std::move(u[a]);
        else {
          U t{std::move(u[a])};
          u[b] = std::move(t);
        }
        g->armed = 0;
      } else if (o == "smv") {
        U &x = u[a];
        g->armed = 1;
        u[a] = std::move(x);
        g->armed = 0;
      } else if (o == "swap") {
        g->armed = 1;
        std::swap(u[a], u[b]);
        g->armed = 0;
      } else if (o == "drop") {
        if (vr)
          u[a] = U(nullptr);
        else
          u[a] = U{};
      } else if (o == "bool") {
        bool x = static_cast<bool>(u[a]);
        bool y = u[a] == nullptr;
        r = x == y ? "inconsistent" : x ? "true" : "false";
      } else if (o == "call") {
        g->throwcall = thr;
        const U &c = u[a];
        r = inv(c, i);
        g->throwcall = 0;
      } else if (o == "sm") { // through the small function object executors are given
        g->armed = 1;
        SU s(static_cast<SU &&>(std::move(u[a])));
        SU t;
        t = std::move(s);
        g->armed = 0;
        r = inv(t, i);
        g->armed = 1;
        u[b] = std::move(t);
        g->armed = 0;
      } else {
        fprintf(stderr, "bad op %s\n", o.c_str());
        exit(9);
      }
      if (o == "mk")
        al = (long)rt::live_blocks() - (long)before;
      rt::event("{\"k\":\"ret\",\"t\":%d,\"r\":\"%s\",\"al\":%ld}", rt::tid(), r.c_str(), al);
    }
  }
};
} // namespace

void run_program(const J &prog) {
  long bodies;
  {
    G gg;
    g = &gg;
    const std::string &s = prog["sg"].s;
    if (s == "void") Runner<void()>::run(prog);
    else if (s == "val") Runner<long(Obj)>::run(prog);
    else if (s == "ref") Runner<Obj &(Obj &)>::run(prog);
    else if (s == "cref") Runner<const Obj &(const Obj &)>::run(prog);
    else if (s == "rref") Runner<Obj && (Obj &&)>::run(prog);
    else if (s == "mo") Runner<MO(MO)>::run(prog);
    else if (s == "mem") Runner<Obj &(S &)>::run(prog);
    else if (s == "cmem") Runner<long(const S *, Obj)>::run(prog);
    else exit(9);
    bodies = gg.bodies;
  }
  rt::event("{\"k\":\"end\",\"leak\":%lu,\"bodies\":%ld}", rt::live_blocks(), bodies);
}
