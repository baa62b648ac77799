#include "fut.h"
#include "harness.h"
#include <cstring>

namespace fut {
Program prog;
struct Base;
Base *g_base;
static const char *names[] = {"mkp",   "getf",  "mkr",  "set",   "sete", "dropp", "movep", "awaiten", "get",
                              "wait",  "isr",   "valid", "drop", "shr",  "copy",  "mv",    "det",     "then",
                              "next",  "ithen", "note", "task",  "getfk", "call", "dropk", "mvk",     "swapk",
                              "validk", "async", "all", "any",   "geta", "thena", "tw",    "twait",   "cpw",
                              "dropw", "waitfor", "xrun", "xrunb", "xdrop", "xclr", "awb", "co",      "aw", "sig", "aws"};
static std::vector<int> ints(const J &j) {
  std::vector<int> r;
  for (auto &x : j.a)
    r.push_back((int)x.n);
  return r;
}
} // namespace fut

void load_program(const J &p) {
  using namespace fut;
  prog = Program{};
  prog.kind = p["kind"].s;
  prog.nn = (int)p["nn"].n;
  prog.ops.resize(p["ops"].a.size() + 1);
  if (prog.ops.size() > MAXOP) {
    fprintf(stderr, "too many ops\n");
    exit(9);
  }
  for (auto &j : p["ops"].a) {
    Op o;
    o.i = (int)j["i"].n;
    int k = 0;
    for (; k < o_COUNT; ++k)
      if (j["o"].s == names[k])
        break;
    if (k == o_COUNT) {
      fprintf(stderr, "bad op %s\n", j["o"].s.c_str());
      exit(9);
    }
    o.o = (O)k;
    o.a = (int)j["a"].n;
    o.b = (int)j["b"].n;
    o.ak = j["ak"].s.empty() ? 'F' : j["ak"].s[0];
    const std::string &x = j["x"].s;
    o.x = x == "q1" ? '1' : x == "q2" ? '2' : x == "nul" ? 'z' : x == "qa" ? 'a' : x == "inl" ? 'l' : 'n';
    o.xi = (int)j["xi"].n;
    const std::string &r = j["r"].s;
    o.r = r == "e" ? 'e' : r == "fut" ? 'f' : r == "sfut" ? 's' : r == "inv" ? 'i' : r == "sinv" ? 'j' : r == "fe" ? 'g' : 'v';
    o.ro = (int)j["ro"].n;
    o.ops = ints(j["ops"]);
    o.as = ints(j["as"]);
    o.bs = ints(j["bs"]);
    o.ks = "";
    for (auto &s : j["ks"].a)
      o.ks += s.s;
    o.vr = j["vr"].s;
    o.d = (int)j["d"].n;
    o.pk = ints(j["pk"]);
    for (auto &l : j["pka"].a)
      o.pka.push_back(ints(l));
    o.lv = (int)j["lv"].n;
    o.thr = (int)j["thr"].n;
    o.keep = (int)j["keep"].n;
    o.big = (int)j["big"].n;
    prog.ops[o.i] = o;
  }
  prog.pre = ints(p["pre"]);
  prog.post = ints(p["post"]);
  for (auto &t : p["threads"].a)
    prog.threads.push_back(ints(t));
}

void run_program(const J &) {
  const std::string &k = fut::prog.kind;
  if (k == "val")
    fut::run_val();
  else if (k == "mov")
    fut::run_mov();
  else if (k == "ref")
    fut::run_ref();
  else
    fut::run_void();
}
