// Engine B ("tso"): explicit-state model checking of the compiled code under the x86-TSO memory model. The machine code of the
// library (as an application would inline it) is executed instruction by instruction; each thread owns a FIFO store buffer.
#pragma once
#define VF_NOINLINE inline __attribute__((always_inline))
#include "../common/ops.h"
#include <cstdio>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <new>
#ifndef CFG
#define CFG "default"
#endif
namespace tso {
using vf::Res; using vf::u128;
enum { MAXT = 4, MAXOPS = 3, NCELL = 4, CELLSZ = 64, MEMSZ = NCELL*CELLSZ };
extern unsigned char* const shared;                 // NCELL cells of CELLSZ bytes: objects 0..2, plain data in cell 3
inline void* cell(int i){ return shared + i*CELLSZ; }
typedef void (*body_fn)(Res* out);                  // one thread: performs its operations, out[i] = result of operation i
// reference program: op i of thread t is (op, obj, a, d); ops with op==FENCE_ have no effect, op==PLAIN_ etc. see rt.cpp
enum { FENCE_ = 200, WAIT_ = 201 };
struct ROp { int op; int obj; u128 a, d; };
struct Prog {
  const char* name; int nt; body_fn body[MAXT]; int n[MAXT]; ROp ops[MAXT][MAXOPS];
  void (*init)();                                   // constructs the objects (shared memory is zeroed before)
  u128 init_v[3]; int nobj;
  u128 (*final_v)(int obj);                         // current value of an object
  bool (*apply)(u128* s, ROp const& o, Res* r, bool weakfail);   // reference semantics; false when weakfail is impossible
  int oaddr[3]; int osize;                          // place of each object (offset into the shared memory) and its size
  bool (*accept)(Res (*out)[MAXOPS], const unsigned char* mem);  // instead of the sequential reference: decides each final state
};
void add(Prog const& p);
void reg();                                         // defined by the harness: adds programs
char* fmt(const char* f, ...) __attribute__((format(printf,1,2)));
}
