// Engine A ("mc"): source-level stateless model checker. API seen by scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
#include <time.h>
namespace mc {

#ifndef MC_MAXT
#define MC_MAXT 6
#endif
enum { MAXT = MC_MAXT, P_CLOCK = MAXT, P_SPUR = MAXT + 1, NPROC = MAXT + 2 };   // process masks are 32 bits wide
enum Mode { DPOR = 0, PB = 1, AUTO = 2 };

struct Opts {
  int mode;        // DPOR (complete up to happens-before equivalence) or PB (all schedules with <= pb preemptions), AUTO: DPOR, PB when the cap is hit
  int pb;          // preemption bound for PB
  int delay;       // PB: count every deviation from the default (non-preemptive, lowest thread first) schedule, not only preemptions
  int spurious;    // budget: spurious / EINTR wake-ups of blocked threads (>=1 enables)
  int weak;        // budget: spurious failures of weak compare-exchange
  int clock;       // budget: clock advances while threads are still runnable
  int alloc;       // budget: allocation failures
  long max_execs;  // cap on executions in DPOR mode (x30 in PB mode); reported if hit
  Opts(int m=AUTO,int p=2): mode(m),pb(p),delay(0),spurious(0),weak(0),clock(0),alloc(0),max_execs(20000) {}
};

struct Scn {
  const char* prop;          // property the scenario belongs to
  const char* name;
  int nthreads;
  void (*init)(const void* arg);
  void (*body)(int tid, const void* arg);
  void (*fini)(const void* arg);
  const void* arg;
  Opts o;
};
void add(const char* name, int nthreads, void (*init)(const void*), void (*body)(int,const void*), void (*fini)(const void*), const void* arg, Opts o);
char* fmt(const char* f, ...) __attribute__((format(printf,1,2)));   // persistent string for names
void* keep(const void* p, size_t n);                                  // persistent copy for args

// ---- usable inside init/body/fini
[[noreturn]] void fail(const char* f, ...) __attribute__((format(printf,1,2)));
#define MC_CHECK(c,...) do { if(!(c)) mc::fail(__VA_ARGS__); } while(0)
uint64_t epoch(); void wait_change(uint64_t e);
// harness polling: the predicate is evaluated again only after something was written since its last evaluation started
#define MC_AWAIT(c) do { for(;;) { uint64_t e_=mc::epoch(); if(c) break; mc::wait_change(e_); } } while(0)
int  choose(int n);                           // explores all values 0..n-1
void plain_sync(bool);                        // plain accesses inside atomic regions synchronize like the x86 instructions they compile to (assembly backends)
int  self();
void log(const char* f, ...) __attribute__((format(printf,1,2)));
void outcome(uint64_t h);                     // mixes a value into this execution's outcome hash
void atomic_region(const volatile void* p, size_t n);  // plain accesses in it are relaxed (lock-free atomic storage)
void* alias_map(int which, size_t* n);        // two mappings (which=0/1) of the same scratch memory
int64_t now(clockid_t c);                     // virtual time in ns
void set_now(int64_t mono, int64_t real_offset);
void add_instant(int64_t mono_ns);            // an instant the clock may jump to (budgeted by Opts::clock)
void set(int i,int64_t v); int64_t get(int i);   // 16 harness cells that are not part of the program (no scheduling points), zero at start; the last one starts as a number derived from the scenario's name
int  invalid_timeouts(); // malformed timeouts handed to the kernel
int  timeouts_fired();                        // number of kernel timeouts delivered so far
int  kernel_blocks(int tid);                  // number of times thread tid really blocked
int64_t max_kernel_deadline(int tid);         // latest absolute (monotonic) deadline thread tid requested (or -1)
int  kernel_calls();                          // number of system, pthread locking and sleeping calls made so far
int  lock_traffic();                          // number of accesses to the library's internal static state so far
int  futex_private_ops(); int futex_shared_ops();
void run_atexit();                            // run registered exit handlers (once)
int  live_allocs();
long alloc_calls();
bool blocked(int tid);                        // thread tid currently blocked in the kernel model
void count_state(uint64_t h);                 // report an abstract state for coverage

// ---- history / linearizability
struct HOp { int tid; int op; unsigned __int128 a, d; unsigned __int128 rv, re; int rb; int t0, t1; int obj; };
void h_begin(int slot,int op, unsigned __int128 a, unsigned __int128 d, int obj=0);
void h_end(int slot, unsigned __int128 rv, unsigned __int128 re, int rb);
void h_reset(int n);
HOp* h_ops(); int h_count();
// step(state[2 words], op) must apply the op to the state and return true iff recorded results match
typedef bool (*spec_fn)(unsigned __int128* state, HOp const& op, const void* ctx);
bool linearizable(const unsigned __int128* init, int nstate, const unsigned __int128* fin, spec_fn f, const void* ctx);
}
