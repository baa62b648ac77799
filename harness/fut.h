// Drives promises, futures, continuations, tasks, combinators, timed waiters and coroutines with
// small programs. One translation unit per result kind (fut_val.cpp ...), see fut_impl.h.
//
// A program is a table of operations (ids 1..N). Creating operations name the node (shared state)
// and the function object they create by their own id, and store the new handle in the slot with
// that number. Events carry only ids, the specification (PcFuture.tla) reads the same program.
#pragma once
#include "json.h"
#include "pcrt.h"
#include <string>
#include <vector>

namespace fut {
constexpr int MAXOP = 128;

enum O {
  o_mkp, o_getf, o_mkr, o_set, o_sete, o_dropp, o_movep, o_awaiten, o_get, o_wait, o_isr, o_valid, o_drop, o_shr,
  o_copy, o_mv, o_det, o_then, o_next, o_ithen, o_note, o_task, o_getfk, o_call, o_dropk, o_mvk, o_swapk, o_validk,
  o_async, o_all, o_any, o_geta, o_thena, o_tw, o_twait, o_cpw, o_dropw, o_waitfor, o_xrun, o_xrunb, o_xdrop, o_xclr,
  o_awb, o_co, o_aw, o_sig, o_aws, o_COUNT
};

struct Op {
  int i = 0;
  O o = o_mkp;
  int a = 0, b = 0;
  char ak = 'F';       // F S C
  char x = 'n';        // n in-place, 1 q1, 2 q2, z nul, l inl
  int xi = 0;          // in-place: 1 = pass inplace_executor explicitly
  char r = 'v';        // v e f s i(nvalid future)
  int ro = 0;
  std::vector<int> ops, as, bs;
  std::string ks;      // kinds of as
  std::string vr;      // variant
  std::vector<int> pk; // plain data which producers wrote before the source became ready
  std::vector<std::vector<int>> pka; // the same for each input of a when_any
  int d = 0;
  bool lv = false, thr = false, keep = false, big = false;
};

struct Program {
  std::string kind;
  int nn = 0; // nodes and slots
  std::vector<Op> ops; // [0] unused
  std::vector<int> pre, post;
  std::vector<std::vector<int>> threads;
};
extern Program prog;

inline const char *code(char *buf, char k, int id) {
  sprintf(buf, "%c%d", k, id);
  return buf;
}

void run_val();
void run_mov();
void run_ref();
void run_void();
} // namespace fut
