// See pcrt.h. This file is compiled WITHOUT -fsanitize=thread.
#include "pcrt.h"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <link.h>
#include <new>
#include <pthread.h>
#include <random>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

extern "C" char __data_start, _end;

namespace {

constexpr int MAXT = 12;
constexpr size_t STACK = 256 * 1024;
constexpr size_t ARENA_PER_THREAD = 4u << 20;
constexpr long MAX_STEPS = 30000;

struct VC {
  uint32_t c[MAXT];
  void clear() { memset(c, 0, sizeof c); }
  void join(const VC &o) {
    for (int i = 0; i < MAXT; ++i)
      if (o.c[i] > c[i])
        c[i] = o.c[i];
  }
};

// runtime internal containers must not use the tracked operator new
template <class T> struct MA {
  using value_type = T;
  MA() = default;
  template <class U> MA(const MA<U> &) {}
  T *allocate(size_t n) { return static_cast<T *>(malloc(n * sizeof(T))); }
  void deallocate(T *p, size_t) { free(p); }
  template <class U> bool operator==(const MA<U> &) const { return true; }
  template <class U> bool operator!=(const MA<U> &) const { return false; }
};
template <class K, class V> using Map = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, MA<std::pair<const K, V>>>;
template <class K> using Set = std::unordered_set<K, std::hash<K>, std::equal_to<K>, MA<K>>;
template <class T> using Vec = std::vector<T, MA<T>>;
using Str = std::basic_string<char, std::char_traits<char>, MA<char>>;

enum class St : uint8_t { none, runnable, mutex, cond, condtimed, join, done , until };

struct Fiber {
  void *sp;
  char *stack;
  St st;
  const void *wait_on;  // mutex / cond address
  void *wait_mutex;     // mutex to reacquire after cond wait
  bool signaled, timed_out;
  long deadline;
  int join_target;
  bool joined, detached;
  void *(*fn)(void *);
  void *arg, *ret;
  uint64_t cxa[2];
  VC vc, acq_fence, rel_fence;
  bool has_rel_fence;
  int prio;
  char *tls;                // the thread_local variables of the program
  struct TlsDtor *tls_dtors;
};
struct TlsDtor {
  void (*fn)(void *);
  void *obj;
  TlsDtor *next;
};

struct Mutex {
  int owner = -1, depth = 0;
  VC vc{};
};
struct RwLock {
  int writer = -1, readers = 0;
  VC vc{}, rvc{};
};
struct Cond {
  Vec<int> waiters;
};
struct Access {
  uint32_t clk;
  uint8_t tid, mask, write, atomic;
};
struct Cell {
  uintptr_t key;
  uint32_t gen;
  uint8_t n;
  Access a[16];
};

struct Choice {
  unsigned char n, chosen, curfree; // curfree: alternatives cost nothing
};

// ---------------------------------------------------------------- global state
Fiber fibers[MAXT];
int nfibers, cur = -1;
void *main_sp;
bool running = false, in_rt = false, dead = false;
uint64_t main_cxa[2];
Map<const void *, Mutex> *mutexes;
Map<const void *, Cond> *conds;
Map<const void *, RwLock> *rwlocks;
Map<const void *, VC> *onces;
Map<const void *, VC> *atom_vc;
char *arena, *arena_state; // arena_state: one byte per 8 byte granule
size_t arena_pos[MAXT];
char *raw_arena;
size_t raw_pos;
long nlive, counters[64];
long vtime;
long steps, plain_steps;
rt::Options opt;

Cell *cells;
constexpr size_t NCELLS = 1 << 18;
uint32_t cell_gen = 1;

Str *log_buf;
bool log_bad;
Vec<Choice> *choices;
size_t choice_pos;
Vec<unsigned char> *prefix;
bool random_mode;
std::mt19937_64 *rng;
int preempts_used, spurious_used;
bool learned_frozen;
Set<uintptr_t> *shared_addrs;          // frozen set of addresses touched by >1 thread
Map<uintptr_t, uint16_t> *addr_thr;    // learning: address -> thread bitmask
sigjmp_buf crash_jmp;

extern "C" void pcrt_switch(void **save, void *load);
asm(R"(
.text
.globl pcrt_switch
pcrt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

uint64_t *cxa_globals() { return reinterpret_cast<uint64_t *>(abi::__cxa_get_globals()); }

// thread_local variables of the program: one copy for each fiber
char *tls_block;
const char *tls_image;
size_t tls_size, tls_file;
char *main_tls;
int find_tls(struct dl_phdr_info *info, size_t, void *) {
  for (int i = 0; i < info->dlpi_phnum; ++i)
    if (info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_tls_data) {
      tls_block = static_cast<char *>(info->dlpi_tls_data);
      tls_image = reinterpret_cast<const char *>(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
      tls_size = info->dlpi_phdr[i].p_memsz;
      tls_file = info->dlpi_phdr[i].p_filesz;
    }
  return 1; // only the program itself
}

long streak;
void switch_fiber(int to) {
  if (to == cur)
    return;
  int from = cur;
  streak = 0;
  if (tls_size) {
    memcpy(fibers[from].tls, tls_block, tls_size);
    memcpy(tls_block, fibers[to].tls, tls_size);
  }
  memcpy(fibers[from].cxa, cxa_globals(), 16);
  memcpy(cxa_globals(), fibers[to].cxa, 16);
  cur = to;
  pcrt_switch(&fibers[from].sp, fibers[to].sp);
}

[[noreturn]] void end_run() {
  dead = true;
  memcpy(cxa_globals(), main_cxa, 16);
  if (tls_size)
    memcpy(tls_block, main_tls, tls_size);
  void *dummy;
  pcrt_switch(&dummy, main_sp);
  __builtin_unreachable();
}

void vlog(const char *fmt, va_list ap) {
  char buf[4096];
  vsnprintf(buf, sizeof buf, fmt, ap);
  if (!log_buf->empty())
    log_buf->push_back(',');
  log_buf->append(buf);
}
void logf(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vlog(fmt, ap);
  va_end(ap);
}

[[noreturn]] void bad_event(const char *what, const char *detail) {
  logf("{\"k\":\"bad\",\"t\":%d,\"what\":\"%s\",\"detail\":\"%s\"}", cur, what, detail);
  log_bad = true;
  end_run();
}

// ---------------------------------------------------------------- choices
int pick(int n, bool free_alt) {
  if (n <= 1)
    return 0;
  if (n > 250)
    n = 250;
  int c = 0;
  if (choice_pos < prefix->size()) {
    c = (*prefix)[choice_pos];
    if (c >= n)
      c = n - 1;
  } else if (random_mode) {
    c = (*rng)() % n;
  }
  choices->push_back({(unsigned char)n, (unsigned char)c, (unsigned char)free_alt});
  ++choice_pos;
  return c;
}

struct Option {
  int fiber;
  char kind; // 'r' run, 't' timeout, 's' spurious
};

bool mutex_free(const void *m) {
  auto it = mutexes->find(m);
  return it == mutexes->end() || it->second.owner < 0;
}

bool can_run(int f) {
  Fiber &fb = fibers[f];
  switch (fb.st) {
  case St::runnable:
    return true;
  case St::mutex:
    return mutex_free(fb.wait_on);
  case St::join:
    return fibers[fb.join_target].st == St::done;
  case St::until: {
    St t = fibers[fb.join_target].st;
    return fb.join_target < nfibers && (t == St::cond || t == St::condtimed || t == St::done);
  }
  default:
    return false;
  }
}

void report_stuck() {
  Str s = "{\"k\":\"stuck\",\"bl\":[";
  bool first = true;
  for (int i = 0; i < nfibers; ++i)
    if (fibers[i].st != St::done) {
      char b[64];
      snprintf(b, sizeof b, "%s{\"t\":%d,\"on\":\"%s\"}", first ? "" : ",", i,
               fibers[i].st == St::mutex ? "mutex" : fibers[i].st == St::join ? "join" : "cond");
      s += b;
      first = false;
    }
  s += "]}";
  logf("%s", s.c_str());
}

// Picks the fiber to run next. cur_ok: the current fiber may continue; yield: only if no other one can.
void schedule(bool cur_ok, bool yield = false) {
  if (++steps > MAX_STEPS)
    bad_event("livelock", "step bound exceeded");
  Option o[3 * MAXT];
  int n = 0;
  if (yield) {
    for (int i = 0; i < nfibers && cur_ok; ++i)
      if (i != cur && (can_run(i) || (fibers[i].st == St::condtimed && mutex_free(fibers[i].wait_mutex))))
        cur_ok = false;
    if (cur_ok)
      return;
  }
  if (cur_ok)
    o[n++] = {cur, 'r'};
  for (int k = 0; k < nfibers; ++k) {
    int i = yield ? (cur + 1 + k) % nfibers : k; // fair to all who wait for someone else
    if (!(i == cur && (cur_ok || yield)) && can_run(i))
      o[n++] = {i, 'r'};
  }
  int nrun = n;
  for (int i = 0; i < nfibers; ++i)
    if (fibers[i].st == St::condtimed && (opt.timeouts || nrun == 0))
      o[n++] = {i, 't'};
  if (spurious_used < opt.spurious && nrun > 0)
    for (int i = 0; i < nfibers; ++i)
      if (fibers[i].st == St::cond || fibers[i].st == St::condtimed)
        o[n++] = {i, 's'};
  if (n == 0)
    for (int i = 0; i < nfibers; ++i)
      if (fibers[i].st == St::until)
        o[n++] = {i, 'r'};
  if (n == 0) {
    report_stuck();
    end_run();
  }
  int c = 0;
  if (random_mode && choice_pos >= prefix->size()) {
    if (n > 1) {
      // PCT-like: highest priority among runnable, with random priority change points
      int best = 0;
      for (int i = 1; i < nrun; ++i)
        if (fibers[o[i].fiber].prio > fibers[o[best].fiber].prio)
          best = i;
      c = best;
      unsigned r = (*rng)() % 1000;
      if (r < 60 || yield)
        c = (*rng)() % n;
      else if (r < 110 && nrun > 0)
        fibers[o[best].fiber].prio = -(int)((*rng)() % 1000);
      choices->push_back({(unsigned char)n, (unsigned char)c, 0});
      ++choice_pos;
    }
  } else {
    c = pick(n, !cur_ok && !yield);
  }
  Option &ch = o[c];
  Fiber &fb = fibers[ch.fiber];
  if (ch.kind == 't') {
    fb.timed_out = true;
    logf("{\"k\":\"tmo\",\"t\":%d}", ch.fiber);
    if (fb.deadline > vtime)
      vtime = fb.deadline;
  } else if (ch.kind == 's') {
    ++spurious_used;
    if (fb.st == St::condtimed && fb.deadline <= vtime) { // its time is over as well
      fb.timed_out = true;
      logf("{\"k\":\"tmo\",\"t\":%d}", ch.fiber);
    }
  }
  if (ch.kind != 'r') {
    auto &w = (*conds)[fb.wait_on].waiters;
    for (size_t i = 0; i < w.size(); ++i)
      if (w[i] == ch.fiber) {
        w.erase(w.begin() + i);
        break;
      }
    fb.wait_on = fb.wait_mutex;
    fb.st = St::mutex;
    if (!can_run(ch.fiber)) { // has to wait for the mutex first
      schedule(cur_ok, yield && !cur_ok);
      return;
    }
  }
  if (ch.fiber != cur)
    switch_fiber(ch.fiber);
}

inline bool active() { return running && cur >= 0 && !in_rt && !dead; }

// scheduling point before a visible operation on addr
void sync_point(const void *addr) {
  if (nfibers == 1)
    return;
  uintptr_t k = reinterpret_cast<uintptr_t>(addr);
  if (addr) {
    if (!learned_frozen)
      (*addr_thr)[k] |= 1u << cur;
    else if (!random_mode && !shared_addrs->count(k))
      return;
  }
  if (++streak > 400) { // a loop which waits for another thread
    streak = 0;
    bool other = false;
    for (int i = 0; i < nfibers; ++i)
      other = other || (i != cur && can_run(i));
    if (other)
      return schedule(true, true);
  }
  schedule(true);
}

// ---------------------------------------------------------------- memory checks
const char *describe(const void *p, char *buf) {
  auto c = static_cast<const char *>(p);
  if (c >= arena && c < arena + ARENA_PER_THREAD * MAXT)
    sprintf(buf, "heap+0x%lx", (long)(c - arena));
  else {
    for (int i = 0; i < MAXT; ++i)
      if (fibers[i].stack && c >= fibers[i].stack && c < fibers[i].stack + STACK) {
        sprintf(buf, "stack%d", i);
        return buf;
      }
    sprintf(buf, "static");
  }
  return buf;
}

Str caller_desc(void *pc) {
  Dl_info di;
  char b[256];
  if (pc && dladdr(pc, &di) && di.dli_fbase)
    snprintf(b, sizeof b, "pc=0x%lx", (long)((char *)pc - (char *)di.dli_fbase));
  else
    snprintf(b, sizeof b, "pc=%p", pc);
  return b;
}

void check_valid(const void *p, size_t sz, void *pc) {
  auto c = static_cast<const char *>(p);
  if (c >= arena && c < arena + ARENA_PER_THREAD * MAXT) {
    for (long g = (c - arena) >> 3; g <= (c + (long)sz - 1 - arena) >> 3; ++g) {
      char s = arena_state[g];
      if (s == 1)
        continue;
      char b[64];
      Str d = Str(describe(p, b)) + " " + caller_desc(pc);
      bad_event(s == 2 ? "use-after-free" : "out-of-bounds", d.c_str());
    }
    return;
  }
  for (int i = 0; i < nfibers; ++i) {
    if (i == cur)
      continue;
    Fiber &f = fibers[i];
    if (c >= f.stack && c < f.stack + STACK) {
      if (f.st == St::done || c < static_cast<char *>(f.sp) - 128) {
        char b[64];
        Str d = Str(describe(p, b)) + " " + caller_desc(pc);
        bad_event("stack-use-after-return", d.c_str());
      }
      return;
    }
  }
}

Cell *find_cell(uintptr_t key) {
  size_t h = (key * 0x9E3779B97F4A7C15ull) >> 46;
  h &= NCELLS - 1;
  for (size_t i = 0; i < NCELLS; ++i) {
    Cell &c = cells[(h + i) & (NCELLS - 1)];
    if (c.gen != cell_gen) {
      c.gen = cell_gen;
      c.key = key;
      c.n = 0;
      return &c;
    }
    if (c.key == key)
      return &c;
  }
  abort();
}

void access_cell(uintptr_t key, uint8_t mask, bool write, bool atomic, void *pc) {
  Cell *c = find_cell(key);
  Fiber &f = fibers[cur];
  int out = 0;
  bool placed = false;
  uint32_t clk = f.vc.c[cur];
  for (int i = 0; i < c->n; ++i) {
    Access a = c->a[i];
    if (a.mask & mask) {
      if (a.tid != cur) {
        if ((a.write || write) && !(a.atomic && atomic) && a.clk > f.vc.c[a.tid]) {
          char b[64], d[256];
          snprintf(d, sizeof d, "%s %s%s by %d conflicts with %s%s by %d %s",
                   describe(reinterpret_cast<void *>(key << 3), b), atomic ? "atomic " : "",
                   write ? "write" : "read", cur, a.atomic ? "atomic " : "",
                   a.write ? "write" : "read", a.tid, caller_desc(pc).c_str());
          bad_event("data-race", d);
        }
        if (write && !atomic && (a.mask & ~mask) == 0)
          continue; // dominated
      } else if (a.mask == mask && a.atomic == atomic && (a.write == write || write)) {
        if (placed)
          continue;
        a.clk = clk;
        a.write = write;
        placed = true;
      }
    }
    c->a[out++] = a;
  }
  if (!placed) {
    if (out == 16) {
      memmove(c->a, c->a + 1, sizeof(Access) * 15);
      out = 15;
    }
    c->a[out++] = {clk, (uint8_t)cur, mask, write, atomic};
  }
  c->n = out;
}

// Memory whose allocation this runtime does not see (exception objects: their reference counter
// lives in uninstrumented libstdc++) is recycled without a visible happens-before edge.
bool tracked_memory(const void *p) {
  auto c = static_cast<const char *>(p);
  if (c >= arena && c < arena + ARENA_PER_THREAD * MAXT)
    return true;
  if (c >= &__data_start && c < &_end)
    return true;
  for (int i = 0; i < nfibers; ++i)
    if (c >= fibers[i].stack && c < fibers[i].stack + STACK)
      return true;
  return false;
}

void access(const void *p, size_t sz, bool write, bool atomic, void *pc) {
  check_valid(p, sz, pc);
  if (!opt.racecheck || !tracked_memory(p))
    return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p), e = a + sz;
  while (a < e) {
    uintptr_t w = a >> 3;
    unsigned lo = a & 7;
    unsigned hi = (e - (w << 3)) < 8 ? (e - (w << 3)) : 8;
    access_cell(w, (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1)), write, atomic, pc);
    a = (w + 1) << 3;
  }
}

// ---------------------------------------------------------------- atomics & clocks
int mo_norm(int mo) { return mo & 0xff; }
bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void atomic_sync(const void *addr, int mo, bool load, bool store) {
  Fiber &f = fibers[cur];
  VC &l = (*atom_vc)[addr];
  if (load) {
    f.acq_fence.join(l);
    if (is_acq(mo))
      f.vc.join(l);
  }
  if (store) {
    if (!load)
      l.clear();
    if (is_rel(mo))
      l.join(f.vc);
    else if (f.has_rel_fence)
      l.join(f.rel_fence);
    if (is_rel(mo))
      ++f.vc.c[cur];
  }
  if (opt.dump_sync)
    logf("{\"k\":\"at\",\"t\":%d,\"a\":\"%lx\",\"o\":\"%s\",\"mo\":%d}", cur, (long)addr,
         load && store ? "u" : load ? "l" : "s", mo);
}

template <class T> void at_pre(const volatile T *a, bool write, void *pc) {
  if (!active())
    return;
  sync_point(const_cast<const T *>(a));
  access(const_cast<const T *>(a), sizeof(T), write, true, pc);
}

// ---------------------------------------------------------------- fibers
void fiber_main();

void prepare_stack(Fiber &f) {
  uintptr_t top = reinterpret_cast<uintptr_t>(f.stack + STACK) & ~15ul;
  void **sp = reinterpret_cast<void **>(top);
  *--sp = nullptr;
  *--sp = reinterpret_cast<void *>(&fiber_main);
  for (int i = 0; i < 6; ++i)
    *--sp = nullptr;
  f.sp = sp;
}

int new_fiber(void *(*fn)(void *), void *arg) {
  if (nfibers >= MAXT) {
    fprintf(stderr, "pcrt: too many fibers\n");
    _exit(9);
  }
  int id = nfibers++;
  Fiber &f = fibers[id];
  char *st = f.stack;
  if (!st)
    st = static_cast<char *>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  char *tls = f.tls;
  f = Fiber{};
  f.stack = st;
  if (tls_size) {
    f.tls = tls ? tls : static_cast<char *>(malloc(tls_size));
    memcpy(f.tls, tls_image, tls_file);
    memset(f.tls + tls_file, 0, tls_size - tls_file);
  }
  f.fn = fn;
  f.arg = arg;
  f.st = St::runnable;
  f.vc.clear();
  f.acq_fence.clear();
  if (cur >= 0)
    f.vc.join(fibers[cur].vc);
  f.vc.c[id] = 1;
  f.prio = random_mode ? 1 + (int)((*rng)() % 1000) : 0;
  prepare_stack(f);
  return id;
}

void fiber_main() {
  Fiber &f = fibers[cur];
  f.ret = f.fn(f.arg);
  while (TlsDtor *d = f.tls_dtors) {
    f.tls_dtors = d->next;
    d->fn(d->obj);
    free(d);
  }
  f.st = St::done;
  bool all = true;
  for (int i = 0; i < nfibers; ++i)
    all = all && fibers[i].st == St::done;
  if (all) {
    end_run();
  }
  schedule(false);
  abort();
}

// ---------------------------------------------------------------- run
void crash_handler(int sig) {
  if (running && cur >= 0) {
    logf("{\"k\":\"bad\",\"t\":%d,\"what\":\"crash\",\"detail\":\"signal %d\"}", cur, sig);
    log_bad = true;
    siglongjmp(crash_jmp, 1);
  }
  signal(sig, SIG_DFL);
  raise(sig);
}

void terminate_handler() {
  if (running && cur >= 0 && !dead) {
    logf("{\"k\":\"bad\",\"t\":%d,\"what\":\"terminate\",\"detail\":\"\"}", cur);
    log_bad = true;
    end_run();
  }
  abort();
}

struct BodyArg {
  rt::Body b;
  void *a;
};
void *body_thunk(void *p) {
  auto *b = static_cast<BodyArg *>(p);
  b->b(b->a);
  return nullptr;
}

void init_once() {
  static bool done = false;
  if (done)
    return;
  done = true;
  __libc_single_threaded = 0;
  mutexes = new Map<const void *, Mutex>;
  conds = new Map<const void *, Cond>;
  rwlocks = new Map<const void *, RwLock>;
  onces = new Map<const void *, VC>;
  atom_vc = new Map<const void *, VC>;
  shared_addrs = new Set<uintptr_t>;
  addr_thr = new Map<uintptr_t, uint16_t>;
  arena = static_cast<char *>(mmap(nullptr, ARENA_PER_THREAD * MAXT, PROT_READ | PROT_WRITE,
                                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  arena_state = static_cast<char *>(mmap(nullptr, ARENA_PER_THREAD * MAXT / 8, PROT_READ | PROT_WRITE,
                                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  raw_arena = static_cast<char *>(mmap(nullptr, 4 << 20, PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  cells = static_cast<Cell *>(mmap(nullptr, sizeof(Cell) * NCELLS, PROT_READ | PROT_WRITE,
                                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  log_buf = new Str;
  choices = new Vec<Choice>;
  prefix = new Vec<unsigned char>;
  rng = new std::mt19937_64;
  static char alt[64 * 1024];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = crash_handler;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL})
    sigaction(s, &sa, nullptr);
  std::set_terminate(terminate_handler);
}

void run_once(rt::Body body, void *arg) {
  for (int i = 0; i < MAXT; ++i) {
    if (arena_pos[i]) {
      memset(arena_state + i * (ARENA_PER_THREAD / 8), 0, arena_pos[i] / 8 + 8);
      arena_pos[i] = 0;
    }
  }
  raw_pos = 0;
  nlive = 0;
  memset(counters, 0, sizeof counters);
  mutexes->clear();
  conds->clear();
  rwlocks->clear();
  onces->clear();
  streak = 0;
  atom_vc->clear();
  if (++cell_gen == 0) {
    memset(static_cast<void *>(cells), 0, sizeof(Cell) * NCELLS);
    cell_gen = 1;
  }
  vtime = 1000000000;
  steps = plain_steps = 0;
  log_buf->clear();
  log_bad = false;
  choices->clear();
  choice_pos = 0;
  preempts_used = spurious_used = 0;
  if (!learned_frozen)
    addr_thr->clear();
  nfibers = 0;
  cur = -1;
  dead = false;
  static BodyArg ba;
  ba = {body, arg};
  if (!tls_block)
    dl_iterate_phdr(find_tls, nullptr);
  new_fiber(body_thunk, &ba);
  if (tls_size) {
    if (!main_tls)
      main_tls = static_cast<char *>(malloc(tls_size));
    memcpy(main_tls, tls_block, tls_size);
    memcpy(tls_block, fibers[0].tls, tls_size);
  }
  memcpy(main_cxa, cxa_globals(), 16);
  running = true;
  if (sigsetjmp(crash_jmp, 1) == 0) {
    cur = 0;
    memset(cxa_globals(), 0, 16);
    pcrt_switch(&main_sp, fibers[0].sp);
  } else {
    memcpy(cxa_globals(), main_cxa, 16);
    if (tls_size)
      memcpy(tls_block, main_tls, tls_size);
  }
  running = false;
  cur = -1;
  dead = false;
}

uint64_t hash_str(const Str &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}

double wall() {
  struct timespec ts;
  static int (*real)(clockid_t, struct timespec *) =
      reinterpret_cast<int (*)(clockid_t, struct timespec *)>(dlsym(RTLD_NEXT, "clock_gettime"));
  real(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

} // namespace

namespace rt {

static void record(Result &r, std::unordered_map<uint64_t, size_t> &seen, const Options &o) {
  ++r.runs;
  r.steps += steps;
  uint64_t h = hash_str(*log_buf);
  auto it = seen.find(h);
  if (it != seen.end()) {
    ++r.traces[it->second].count;
    return;
  }
  if ((long)r.traces.size() >= o.max_traces && !log_bad)
    return;
  seen.emplace(h, r.traces.size());
  Trace t;
  t.events.assign(log_buf->data(), log_buf->size());
  for (auto &c : *choices)
    t.sched.push_back(c.chosen);
  while (!t.sched.empty() && t.sched.back() == 0)
    t.sched.pop_back();
  t.count = 1;
  t.bad = log_bad;
  r.bad = r.bad || log_bad;
  r.traces.push_back(std::move(t));
}

Result explore(Body body, void *arg, const Options &o) {
  init_once();
  opt = o;
  Result r;
  std::unordered_map<uint64_t, size_t> seen;
  double t0 = wall();
  // warm up + learning which addresses are shared
  shared_addrs->clear();
  rng->seed(o.seed * 7919 + 13);
  learned_frozen = false;
  for (int i = 0; i < 12 && !r.bad; ++i) {
    random_mode = i > 1;
    prefix->clear();
    run_once(body, arg);
    if (i > 0 || log_bad)
      record(r, seen, o);
    for (auto &kv : *addr_thr)
      if (kv.second & (kv.second - 1))
        shared_addrs->insert(kv.first);
  }
  learned_frozen = true;
  random_mode = false;
  // DFS with iteratively increased preemption bound
  Vec<Choice> ch;
  Vec<int> cost;
  for (int bound = 0; bound <= o.preemptions && !r.bad; ++bound) {
    prefix->clear();
    long dfs = 0;
    bool complete = false;
    while (!r.bad) {
      run_once(body, arg);
      record(r, seen, o);
      ch = *choices;
      ++dfs;
      cost.assign(ch.size() + 1, 0);
      for (size_t i = 0; i < ch.size(); ++i)
        cost[i + 1] = cost[i] + (ch[i].chosen && !ch[i].curfree ? 1 : 0);
      long i = (long)ch.size() - 1;
      for (; i >= 0; --i) {
        if (ch[i].chosen + 1 >= ch[i].n)
          continue;
        if (cost[i] + (ch[i].curfree ? 0 : 1) <= bound)
          break;
      }
      if (i < 0) {
        complete = true;
        break;
      }
      prefix->clear();
      for (long j = 0; j < i; ++j)
        prefix->push_back(ch[j].chosen);
      prefix->push_back(ch[i].chosen + 1);
      if (dfs >= o.max_runs || ((dfs & 63) == 0 && wall() - t0 > o.max_seconds))
        break;
    }
    r.exhaustive = complete && bound == o.preemptions;
    if (!complete)
      break;
    r.bound_done = bound;
  }
  random_mode = true;
  prefix->clear();
  for (long i = 0; i < o.random_runs && !r.bad; ++i) {
    rng->seed(o.seed * 1000003 + i);
    run_once(body, arg);
    record(r, seen, o);
    if ((i & 63) == 0 && wall() - t0 > 1.5 * o.max_seconds)
      break;
  }
  random_mode = false;
  // the replay of a bad random schedule needs all scheduling points
  return r;
}

Result replay(Body body, void *arg, const Options &o, const std::vector<unsigned char> &sched) {
  // The set of scheduling points depends on what explore() learned: redo the same exploration
  // deterministically is the supported way to reproduce; see driver. Here: all points are used.
  init_once();
  opt = o;
  Result r;
  std::unordered_map<uint64_t, size_t> seen;
  learned_frozen = false;
  random_mode = false;
  prefix->clear();
  run_once(body, arg);
  prefix->assign(sched.begin(), sched.end());
  run_once(body, arg);
  record(r, seen, o);
  return r;
}

int tid() { return cur; }
void event(const char *fmt, ...) {
  if (dead)
    return;
  va_list ap;
  va_start(ap, fmt);
  vlog(fmt, ap);
  va_end(ap);
}
void bad(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vlog(fmt, ap);
  va_end(ap);
  log_bad = true;
  end_run();
}
void hb_release(void *a) {
  if (!active())
    return;
  (*atom_vc)[a].join(fibers[cur].vc);
  ++fibers[cur].vc.c[cur];
}
void hb_acquire(void *a) {
  if (active())
    fibers[cur].vc.join((*atom_vc)[a]);
}
void point() {
  if (active())
    sync_point(nullptr);
}
void await_blocked(int t) {
  if (!active())
    return;
  fibers[cur].join_target = t;
  fibers[cur].st = St::until;
  schedule(false);
  fibers[cur].st = St::runnable;
}
unsigned long live_blocks() { return nlive; }
long counter_add(int w, long d) { return counters[w] += d; }
void *raw_alloc(size_t n) {
  n = (n + 15) & ~15ul;
  void *p = raw_arena + raw_pos;
  raw_pos += n;
  memset(p, 0, n);
  return p;
}
long choose(long n) { return active() ? pick((int)n, true) : 0; }
bool in_run() { return running && cur >= 0; }
long now_ns() { return vtime; }
} // namespace rt

// ==================================================================== allocation
static void *rt_new(size_t n, size_t align) {
  if (!running || cur < 0 || dead) {
    void *p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
    if (!p)
      throw std::bad_alloc{};
    return p;
  }
  if (n == 0)
    n = 1;
  size_t &pos = arena_pos[cur];
  size_t start = (pos + 16 + (align - 1)) & ~(align - 1);
  if (start < pos + 16)
    start += align;
  size_t len = (n + 7) & ~7ul;
  if (start + len + 32 > ARENA_PER_THREAD) {
    fprintf(stderr, "pcrt: arena exhausted\n");
    _exit(9);
  }
  char *base = arena + cur * ARENA_PER_THREAD;
  char *p = base + start;
  reinterpret_cast<size_t *>(p)[-1] = n;
  size_t g = (p - arena) >> 3;
  memset(arena_state + g, 1, len >> 3);
  memset(p, 0xCD, len);
  pos = start + len + 16;
  ++nlive;
  return p;
}
static void rt_delete(void *p, size_t sized, void *pc) {
  if (!p)
    return;
  char *c = static_cast<char *>(p);
  if (!(arena && c >= arena && c < arena + ARENA_PER_THREAD * MAXT)) {
    free(p);
    return;
  }
  if (!running || dead)
    return;
  size_t n = reinterpret_cast<size_t *>(p)[-1];
  size_t g = (c - arena) >> 3, len = (n + 7) >> 3;
  if (arena_state[g] != 1 || (g > 0 && arena_state[g - 1] == 1)) {
    bad_event(arena_state[g] == 2 ? "double-free" : "invalid-free", caller_desc(pc).c_str());
  }
  if (sized && sized != n)
    bad_event("sized-delete-mismatch", caller_desc(pc).c_str());
  access(p, n, true, false, pc);
  memset(arena_state + g, 2, len);
  memset(p, 0xDD, n);
  --nlive;
}
#define PC __builtin_return_address(0)
void *operator new(size_t n) { return rt_new(n, 16); }
void *operator new[](size_t n) { return rt_new(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return rt_new(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return rt_new(n, (size_t)a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return rt_new(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return rt_new(n, 16); }
void operator delete(void *p) noexcept { rt_delete(p, 0, PC); }
void operator delete[](void *p) noexcept { rt_delete(p, 0, PC); }
void operator delete(void *p, size_t n) noexcept { rt_delete(p, n, PC); }
void operator delete[](void *p, size_t n) noexcept { rt_delete(p, n, PC); }
void operator delete(void *p, std::align_val_t) noexcept { rt_delete(p, 0, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { rt_delete(p, 0, PC); }
void operator delete(void *p, size_t n, std::align_val_t) noexcept { rt_delete(p, n, PC); }
void operator delete[](void *p, size_t n, std::align_val_t) noexcept { rt_delete(p, n, PC); }

// ==================================================================== pthread
extern "C" {

static const unsigned char POISON[8] = {0xDE, 0xAD, 0xC0, 0x0D, 0xDE, 0xAD, 0xC0, 0x0D};

static void check_obj(const void *p, size_t n, void *pc) {
  check_valid(p, n, pc);
  if (memcmp(p, POISON, 8) == 0)
    bad_event("use-after-destroy", caller_desc(pc).c_str());
}

static int real_mutex(const char *name, pthread_mutex_t *m) {
  auto fn = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, name));
  return fn(m);
}

int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!active())
    return dead ? 0 : (running ? 0 : real_mutex("pthread_mutex_lock", m));
  check_obj(m, sizeof *m, PC);
  sync_point(m);
  check_obj(m, sizeof *m, PC);
  Mutex *mx = &(*mutexes)[m];
  if (mx->owner == cur && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
    ++mx->depth;
    return 0;
  }
  if (mx->owner >= 0) {
    fibers[cur].st = St::mutex;
    fibers[cur].wait_on = m;
    schedule(false);
    fibers[cur].st = St::runnable;
    check_obj(m, sizeof *m, PC);
    mx = &(*mutexes)[m];
  }
  mx->owner = cur;
  fibers[cur].vc.join(mx->vc);
  if (opt.dump_sync)
    logf("{\"k\":\"lk\",\"t\":%d,\"a\":\"%lx\"}", cur, (long)m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!active())
    return dead ? 0 : (running ? 0 : real_mutex("pthread_mutex_trylock", m));
  check_obj(m, sizeof *m, PC);
  sync_point(m);
  Mutex &mx = (*mutexes)[m];
  if (mx.owner == cur && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
    ++mx.depth;
    return 0;
  }
  if (mx.owner >= 0)
    return EBUSY;
  mx.owner = cur;
  fibers[cur].vc.join(mx.vc);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!active())
    return dead ? 0 : (running ? 0 : real_mutex("pthread_mutex_unlock", m));
  check_obj(m, sizeof *m, PC);
  Mutex &mx = (*mutexes)[m];
  if (mx.owner != cur)
    bad_event("unlock-not-owner", caller_desc(PC).c_str());
  if (mx.depth) {
    --mx.depth;
    return 0;
  }
  mx.owner = -1;
  mx.vc.join(fibers[cur].vc);
  ++fibers[cur].vc.c[cur];
  if (opt.dump_sync)
    logf("{\"k\":\"ul\",\"t\":%d,\"a\":\"%lx\"}", cur, (long)m);
  sync_point(m); // after unlock: others may run before this thread does anything else
  return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) {
  memset(m, 0, sizeof *m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (active()) {
    Mutex &mx = (*mutexes)[m];
    if (mx.owner >= 0)
      bad_event("destroy-locked-mutex", caller_desc(PC).c_str());
    memcpy(m, POISON, 8);
  }
  return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) {
  memset(c, 0, sizeof *c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) {
  if (!active())
    return 0;
  check_obj(c, sizeof *c, PC);
  auto it = conds->find(c);
  if (it != conds->end() && !it->second.waiters.empty())
    bad_event("destroy-cond-with-waiters", caller_desc(PC).c_str());
  access(c, sizeof *c, true, false, PC);
  memcpy(c, POISON, 8);
  return 0;
}

static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, long deadline, void *pc) {
  if (!active())
    return 0;
  check_obj(c, sizeof *c, pc);
  check_obj(m, sizeof *m, pc);
  Mutex *mx = &(*mutexes)[m];
  if (mx->owner != cur)
    bad_event("cond-wait-without-mutex", caller_desc(pc).c_str());
  Fiber &f = fibers[cur];
  sync_point(c); // what made this thread wait may change before it sleeps
  mx = &(*mutexes)[m];
  access(c, 8, false, true, pc);
  mx->owner = -1;
  mx->vc.join(f.vc);
  ++f.vc.c[cur];
  if (opt.dump_sync)
    logf("{\"k\":\"ul\",\"t\":%d,\"a\":\"%lx\"}", cur, (long)m);
  f.st = timed ? St::condtimed : St::cond;
  f.wait_on = c;
  f.wait_mutex = m;
  f.deadline = deadline;
  f.timed_out = false;
  (*conds)[c].waiters.push_back(cur);
  schedule(false);
  f.st = St::runnable;
  check_obj(m, sizeof *m, pc);
  mx = &(*mutexes)[m];
  mx->owner = cur;
  f.vc.join(mx->vc);
  if (opt.dump_sync)
    logf("{\"k\":\"lk\",\"t\":%d,\"a\":\"%lx\"}", cur, (long)m);
  return f.timed_out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, false, 0, PC); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  return cond_wait(c, m, true, ts->tv_sec * 1000000000l + ts->tv_nsec, PC);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) {
  return cond_wait(c, m, true, ts->tv_sec * 1000000000l + ts->tv_nsec, PC);
}
static void wake(pthread_cond_t *c, int idx) {
  auto &w = (*conds)[c].waiters;
  Fiber &f = fibers[w[idx]];
  f.st = St::mutex;
  f.wait_on = f.wait_mutex;
  w.erase(w.begin() + idx);
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!active())
    return 0;
  check_obj(c, sizeof *c, PC);
  sync_point(c);
  check_obj(c, sizeof *c, PC);
  access(c, 8, true, true, PC);
  auto it = conds->find(c);
  if (it != conds->end() && !it->second.waiters.empty())
    wake(c, pick((int)it->second.waiters.size(), true));
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!active())
    return 0;
  check_obj(c, sizeof *c, PC);
  sync_point(c);
  check_obj(c, sizeof *c, PC);
  access(c, 8, true, true, PC);
  auto it = conds->find(c);
  if (it != conds->end())
    while (!it->second.waiters.empty())
      wake(c, 0);
  return 0;
}
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  if (!active()) {
    fprintf(stderr, "pcrt: pthread_create outside of a run\n");
    _exit(9);
  }
  ++fibers[cur].vc.c[cur];
  int id = new_fiber(fn, arg);
  *t = (pthread_t)(0x1000 + id);
  if (opt.dump_sync)
    logf("{\"k\":\"fk\",\"t\":%d,\"c\":%d}", cur, id);
  schedule(true);
  return 0;
}
int pthread_join(pthread_t t, void **ret) {
  if (!active())
    return 0;
  int id = (int)(t - 0x1000);
  if (id < 0 || id >= nfibers || fibers[id].joined)
    return ESRCH;
  if (id == cur)
    return EDEADLK;
  Fiber &f = fibers[cur];
  if (fibers[id].st != St::done) {
    f.st = St::join;
    f.join_target = id;
    schedule(false);
    f.st = St::runnable;
  }
  fibers[id].joined = true;
  f.vc.join(fibers[id].vc);
  if (opt.dump_sync)
    logf("{\"k\":\"jn\",\"t\":%d,\"c\":%d}", cur, id);
  if (ret)
    *ret = fibers[id].ret;
  return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self(void) { return cur >= 0 ? (pthread_t)(0x1000 + cur) : (pthread_t)1; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
static void yield() {
  if (active()) {
    streak = 0;
    schedule(true, true);
  }
}
int sched_yield(void) {
  yield();
  return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *) {
  if (active()) {
    vtime += ts->tv_sec * 1000000000l + ts->tv_nsec;
    yield();
  }
  return 0;
}
// not used by the library today: an equivalent rewrite may use them
static int timedlock(pthread_mutex_t *m, const struct timespec *ts) {
  long deadline = ts->tv_sec * 1000000000l + ts->tv_nsec;
  for (int r; (r = pthread_mutex_trylock(m)) != 0; yield()) {
    bool other = false;
    for (int i = 0; i < nfibers; ++i)
      other = other || (i != cur && can_run(i));
    if (!other || vtime >= deadline) {
      if (vtime < deadline)
        vtime = deadline;
      return ETIMEDOUT;
    }
  }
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { return active() ? timedlock(m, ts) : 0; }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *ts) {
  return active() ? timedlock(m, ts) : 0;
}
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) {
  memset(l, 0, sizeof *l);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *l) {
  if (active())
    memcpy(l, POISON, 8);
  return 0;
}
static int rw_try(pthread_rwlock_t *l, bool write, void *pc) {
  check_obj(l, sizeof *l, pc);
  sync_point(l);
  check_obj(l, sizeof *l, pc);
  RwLock &x = (*rwlocks)[l];
  if (x.writer >= 0 || (write && x.readers))
    return EBUSY;
  Fiber &f = fibers[cur];
  f.vc.join(x.vc);
  if (write) {
    f.vc.join(x.rvc);
    x.writer = cur;
  } else
    ++x.readers;
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return active() ? rw_try(l, false, PC) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return active() ? rw_try(l, true, PC) : 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  while (active() && rw_try(l, false, PC))
    yield();
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  while (active() && rw_try(l, true, PC))
    yield();
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!active())
    return 0;
  check_obj(l, sizeof *l, PC);
  RwLock &x = (*rwlocks)[l];
  Fiber &f = fibers[cur];
  if (x.writer == cur) {
    x.writer = -1;
    x.vc.join(f.vc);
  } else if (x.readers > 0) {
    --x.readers;
    x.rvc.join(f.vc);
  } else
    bad_event("unlock-not-owner", caller_desc(PC).c_str());
  ++f.vc.c[cur];
  sync_point(l);
  return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!active()) {
    if (*o == 0) {
      *o = 2;
      fn();
    }
    return 0;
  }
  // no switch before fn is entered: libstdc++ passes its argument in a thread_local variable
  for (;;) {
    check_valid(o, sizeof *o, PC);
    if (*o == 2) {
      fibers[cur].vc.join((*onces)[o]);
      return 0;
    }
    if (*o == 0)
      break;
    yield();
  }
  *o = 1;
  try {
    fn();
  } catch (...) {
    *o = 0;
    throw;
  }
  *o = 2;
  (*onces)[o].join(fibers[cur].vc);
  ++fibers[cur].vc.c[cur];
  sync_point(o);
  return 0;
}
int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso) {
  if (active()) {
    auto *d = static_cast<TlsDtor *>(malloc(sizeof(TlsDtor)));
    *d = {fn, obj, fibers[cur].tls_dtors};
    fibers[cur].tls_dtors = d;
    return 0;
  }
  static auto real = reinterpret_cast<int (*)(void (*)(void *), void *, void *)>(dlsym(RTLD_NEXT, "__cxa_thread_atexit"));
  return real(fn, obj, dso);
}
int clock_nanosleep(clockid_t, int, const struct timespec *ts, struct timespec *r) { return nanosleep(ts, r); }
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (running && cur >= 0) {
    ts->tv_sec = vtime / 1000000000l;
    ts->tv_nsec = vtime % 1000000000l;
    return 0;
  }
  static int (*real)(clockid_t, struct timespec *) =
      reinterpret_cast<int (*)(clockid_t, struct timespec *)>(dlsym(RTLD_NEXT, "clock_gettime"));
  return real(id, ts);
}

// ==================================================================== tsan interface
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}

static inline void plain(void *p, size_t n, bool w, void *pc) {
  if (!active())
    return;
  if (++plain_steps > 20000000)
    bad_event("livelock", "plain step bound exceeded");
  // own stack, only one thread ever looked at it: still record (others may access by reference)
  access(p, n, w, false, pc);
}
#define RW(N)                                                                                      \
  void __tsan_read##N(void *p) { plain(p, N, false, PC); }                                         \
  void __tsan_write##N(void *p) { plain(p, N, true, PC); }                                         \
  void __tsan_unaligned_read##N(void *p) { plain(p, N, false, PC); }                               \
  void __tsan_unaligned_write##N(void *p) { plain(p, N, true, PC); }                               \
  void __tsan_volatile_read##N(void *p) { plain(p, N, false, PC); }                                \
  void __tsan_volatile_write##N(void *p) { plain(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *) { plain(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { plain(p, 8, false, PC); }
void __tsan_read_range(void *p, size_t n) { if (n) plain(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { if (n) plain(p, n, true, PC); }

#define AT(BITS, T)                                                                                \
  T __tsan_atomic##BITS##_load(const volatile T *a, int mo) {                                      \
    at_pre(a, false, PC);                                                                          \
    if (active()) atomic_sync((const void *)a, mo_norm(mo), true, false);                          \
    return *a;                                                                                     \
  }                                                                                                \
  void __tsan_atomic##BITS##_store(volatile T *a, T v, int mo) {                                   \
    at_pre(a, true, PC);                                                                           \
    if (active()) atomic_sync((const void *)a, mo_norm(mo), false, true);                          \
    *a = v;                                                                                        \
  }                                                                                                \
  T __tsan_atomic##BITS##_exchange(volatile T *a, T v, int mo) {                                   \
    at_pre(a, true, PC);                                                                           \
    if (active()) atomic_sync((const void *)a, mo_norm(mo), true, true);                           \
    T o = *a; *a = v; return o;                                                                    \
  }                                                                                                \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fmo) {   \
    at_pre(a, true, PC);                                                                           \
    T o = *a;                                                                                      \
    if (o == *e) {                                                                                 \
      if (active()) atomic_sync((const void *)a, mo_norm(mo), true, true);                         \
      *a = v; return 1;                                                                            \
    }                                                                                              \
    if (active()) atomic_sync((const void *)a, mo_norm(fmo), true, false);                         \
    *e = o; return 0;                                                                              \
  }                                                                                                \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fmo) {     \
    return __tsan_atomic##BITS##_compare_exchange_strong(a, e, v, mo, fmo);                        \
  }                                                                                                \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fmo) {         \
    __tsan_atomic##BITS##_compare_exchange_strong(a, &e, v, mo, fmo); return e;                    \
  }
#define ATOP(BITS, T, NAME, EXPR)                                                                  \
  T __tsan_atomic##BITS##_fetch_##NAME(volatile T *a, T v, int mo) {                               \
    at_pre(a, true, PC);                                                                           \
    if (active()) atomic_sync((const void *)a, mo_norm(mo), true, true);                           \
    T o = *a; *a = (EXPR); return o;                                                               \
  }
#define ATALL(BITS, T)                                                                             \
  AT(BITS, T)                                                                                      \
  ATOP(BITS, T, add, o + v) ATOP(BITS, T, sub, o - v) ATOP(BITS, T, and, o & v)                    \
  ATOP(BITS, T, or, o | v) ATOP(BITS, T, xor, o ^ v) ATOP(BITS, T, nand, ~(o & v))
ATALL(8, uint8_t) ATALL(16, uint16_t) ATALL(32, uint32_t) ATALL(64, uint64_t)
AT(128, __uint128_t)

void __tsan_atomic_thread_fence(int mo) {
  if (!active())
    return;
  Fiber &f = fibers[cur];
  mo = mo_norm(mo);
  sync_point(nullptr);
  if (is_acq(mo))
    f.vc.join(f.acq_fence);
  if (is_rel(mo)) {
    f.rel_fence = f.vc;
    f.has_rel_fence = true;
    ++f.vc.c[cur];
  }
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"
