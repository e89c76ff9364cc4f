// Engine A runtime: controlled scheduler, DPOR / preemption-bounded exploration, C++11 happens-before race detection,
// models of futex, pthread mutex/cond, clocks, sleeping and allocation. Implements the __tsan_* interface.
#include "mc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <string>
#include <vector>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <pthread.h>
#include <linux/futex.h>
#include <time.h>

extern "C" char __start_mcstate[] __attribute__((weak));
extern "C" char __stop_mcstate[] __attribute__((weak));
// state of the library's own translation units (lock pool etc.)
extern "C" char __start_mclib[] __attribute__((weak));
extern "C" char __stop_mclib[] __attribute__((weak));
void mc_register();   // provided by the scenario object

namespace mc {

typedef unsigned __int128 u128;
typedef uint32_t u32; typedef uint64_t u64;
enum { MAIN = MAXT, NVC = MAXT + 1 };

// ------------------------------------------------------------------ contexts
struct Ctx { void* sp; };
extern "C" void mc_switch(Ctx* from, Ctx* to);
asm(R"(
.text
.globl mc_switch
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq (%rsi), %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

// ------------------------------------------------------------------ state
struct Acc { u64 a; u32 n; bool w; };
enum Kind { K_NONE, K_LOAD, K_STORE, K_RMW, K_FENCE, K_FUTEX_WAIT, K_FUTEX_WAKE, K_FUTEX_REQUEUE, K_MLOCK, K_MTRY, K_MUNLOCK, K_CWAIT, K_CSIG, K_SLEEP, K_YIELD, K_ASM, K_AWAIT, K_OTHER };
static const char* kname[] = {"none","load","store","rmw","fence","futex_wait","futex_wake","futex_requeue","mutex_lock","mutex_trylock","mutex_unlock","cond_wait","cond_signal","sleep","yield","asm","await","op"};
struct Pend { Kind k; int n; bool all; Acc acc[4]; const void* cexp; };   // cexp: expected value of a compare-exchange
enum FState { F_NEW, F_RUN, F_BLOCKED, F_READY, F_DONE };

struct VC { u32 c[NVC]; };
struct Fiber {
  Ctx ctx; char* stk; size_t stksz; FState st; Pend p; int err;
  // blocking
  u64 fkey; u32 fbits; bool timed; int64_t deadline; int wres; bool incond; u64 cond; u64 cmutex; bool sleeping; u64 sleep_wseq;
  int blocks; int64_t maxdl; u32 sched_since, prio; u64 asm_a; u32 asm_n; char asm_old[16];   // fairness (after a thread's second consecutive yield, continuously starved threads go first)
  // spin detection
  u64 sp_addr; u128 sp_val; int sp_cnt; bool await; u64 await_addr; u32 await_n;
  // HB
  VC vc, rel, acq;
  bool hpend; int hslot;
};
static Fiber F[MAXT + 1];
static Ctx sched_ctx;
static int cur = MAIN;
static int NT;
static const Scn* S;
static bool aborted; static char vmsg[2048]; static bool violated;
static bool tracing; static std::string trace;
static u64 wseq;            // number of write-type steps executed
static u64 tclock;          // logical event time
static int quiet_adv;       // consecutive clock advances without progress
static u64 outc;
static int b_spur, b_weak, b_clock, b_alloc;
static int64_t mono, realoff;
static std::vector<int64_t> instants;
static int n_inval, n_timeouts, n_priv, n_shared;
struct ExitFn { void (*f)(void*); void* a; }; static std::vector<ExitFn> exits, exits_static; static bool exits_run, main_started;   // exits_static: registered by dynamic initialization, before any execution
static volatile u64 progress;
static std::unordered_set<u64>* states_set;

// ------------------------------------------------------------------ exploration stack
struct Node { bool sched; int chosen; u32 enabled, backtrack, done, sleep; Pend pend[NPROC]; int n, cur; int pre; int prev; int stepidx; };
static std::vector<Node> stk; static size_t pos;
struct Step { int proc; Pend p; u32 clk[NPROC]; u32 idx; int node; };
static std::vector<Step> steps;
static u32 dvc[NPROC][NPROC];      // dependency clocks
static u32 dcnt[NPROC];
static bool replaying; static std::vector<int> replay_choices; static std::vector<int> made;
static bool sleep_blocked;

static HOp hops[64]; static int nhops; static char *snap, *snaplib; static Ctx esc_ret; static char* esc_stk;
[[noreturn]] static void internal_error(const char* m) { fprintf(stderr,"MC-INTERNAL-ERROR: %s (scenario %s)\n", m, S?S->name:"-"); _exit(3); }

static void swtch(Fiber* from_f, Ctx* from, Ctx* to) { if(from_f) from_f->err=errno; mc_switch(from,to); if(from_f) errno=from_f->err; }

[[noreturn]] static void abort_exec() {
  aborted = true;
  if(cur == MAIN) { Ctx d; mc_switch(&d,&esc_ret); }
  else { int c=cur; swtch(&F[c], &F[c].ctx, &sched_ctx); }
  internal_error("resumed aborted fiber");
}
void log(const char* f, ...) { if(!tracing) return; char b[512]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap);
  char h[64]; if(cur==MAIN) snprintf(h,sizeof h,"[main] "); else snprintf(h,sizeof h,"[T%d] ",cur); trace+=h; trace+=b; trace+="\n"; }
void fail(const char* f, ...) { if(!violated){ va_list ap; va_start(ap,f); vsnprintf(vmsg,sizeof vmsg,f,ap); va_end(ap); violated=true; if(tracing){ trace+="VIOLATION: "; trace+=vmsg; trace+="\n"; } } abort_exec(); }

// ------------------------------------------------------------------ arena
enum { ARENA = 1<<20 };
static char* arena; static size_t arena_top, arena_hi;
struct Blk { u64 a; size_t n; bool live; int pad; };
static std::vector<Blk> blks; static long nallocs;
// canonical addresses: alias maps
static char* amap[2]; static size_t amap_n = 4096;
static inline bool in_scn(u64 a){ return a-(u64)__start_mcstate < (u64)(__stop_mcstate-__start_mcstate); }
static inline bool in_lib(u64 a){ return a-(u64)__start_mclib < (u64)(__stop_mclib-__start_mclib); }
static int n_libacc; int lock_traffic(){ return n_libacc; } static int n_kcalls; int kernel_calls(){ return n_kcalls; }
static inline u64 canon(u64 a) { if(a-(u64)amap[1] < amap_n) return a-(u64)amap[1]+(u64)amap[0]; return a; }
static inline bool tracked(u64 a) {
  return in_scn(a) || in_lib(a) || a-(u64)arena < ARENA || a-(u64)amap[0]<amap_n || a-(u64)amap[1]<amap_n; }
static std::vector<std::pair<u64,u64>> atomic_regs;
void atomic_region(const volatile void* p, size_t n) { u64 a=canon((u64)p); atomic_regs.push_back(std::make_pair(a,a+n)); }
static bool in_atomic_reg(u64 a) { for(auto& r: atomic_regs) if(a>=r.first && a<r.second) return true; return false; }
void* alias_map(int w, size_t* n) { if(n) *n=amap_n; return amap[w]; }

// ------------------------------------------------------------------ HB race detection
struct Cell { u32 gen; u32 wt, wc; u32 r[NVC], aw[NVC], ar[NVC]; };
struct CellTab { enum { N=1<<14 }; u64 key[N]; Cell* c; u32 gen; } ;
static CellTab ct; static u32 gen=1;
static Cell* cell(u64 a) {
  u64 h=(a*0x9E3779B97F4A7C15ull)>>50; for(;;) { h&=CellTab::N-1; Cell* c=&ct.c[h]; if(c->gen!=gen){ memset(c,0,sizeof *c); c->gen=gen; ct.key[h]=a; return c; } if(ct.key[h]==a) return c; h++; } }
static int ncells;
struct Sync { u32 gen; VC rel; };
static Sync* syncs; static u64* skey; enum { NS=1<<12 };
static Sync* sync(u64 a) { a=canon(a); u64 h=(a*0x9E3779B97F4A7C15ull)>>52; for(;;){ h&=NS-1; Sync* s=&syncs[h]; if(s->gen!=gen){ memset(s,0,sizeof *s); s->gen=gen; skey[h]=a; return s; } if(skey[h]==a) return s; h++; } }
static inline void vjoin(VC& a, VC const& b){ for(int i=0;i<NVC;i++) if(b.c[i]>a.c[i]) a.c[i]=b.c[i]; }
static std::string sym(u64 a);
[[noreturn]] static void race(const char* what, u64 a, int other) { std::string s=sym(a); fail("data race: %s by T%d at %s conflicts with T%d without happens-before", what, cur, s.c_str(), other); }
static void check_live(u64 a, size_t n, const char* what) {
  if(a-(u64)arena < ARENA) { for(auto& b: blks) if(a>=b.a && a<b.a+b.n) { if(!b.live) fail("use after free: %s at %s", what, sym(a).c_str()); if(a+n>b.a+b.n) fail("out of bounds %s at %s", what, sym(a).c_str()); return; }
    fail("access outside any allocation: %s at %s", what, sym(a).c_str()); } }
enum AK { A_PR, A_PW, A_AR, A_AW };
static void hb_access(u64 addr, size_t n, AK k) {
  if(!tracked(addr)) return;
  progress++; if(in_lib(addr)) n_libacc++;
  check_live(addr,n,k==A_PR?"read":k==A_PW?"write":k==A_AR?"atomic read":"atomic write");
  addr=canon(addr);
  int t=cur; VC& v=F[t].vc;
  if((k==A_PR||k==A_PW) && !atomic_regs.empty() && in_atomic_reg(addr)) k = k==A_PR?A_AR:A_AW;
  for(size_t i=0;i<n;i++) {
    Cell* c=cell(addr+i);
    if(c->wc && c->wt!=(u32)t && c->wc>v.c[c->wt]) race(k==A_PR?"read":k==A_PW?"write":k==A_AR?"atomic read":"atomic write",addr+i,c->wt);
    if(k==A_PR||k==A_PW) for(int j=0;j<NVC;j++) if(j!=t && c->aw[j]>v.c[j]) race(k==A_PR?"read (vs atomic write)":"write (vs atomic write)",addr+i,j);
    if(k==A_PW||k==A_AW) for(int j=0;j<NVC;j++) if(j!=t && c->r[j]>v.c[j]) race(k==A_PW?"write (vs read)":"atomic write (vs read)",addr+i,j);
    if(k==A_PW) for(int j=0;j<NVC;j++) if(j!=t && c->ar[j]>v.c[j]) race("write (vs atomic read)",addr+i,j);
    switch(k){ case A_PR: c->r[t]=v.c[t]; break; case A_PW: c->wt=t; c->wc=v.c[t]; break; case A_AR: c->ar[t]=v.c[t]; break; case A_AW: c->aw[t]=v.c[t]; break; }
  }
}

// ------------------------------------------------------------------ scheduling points
static void asm_flush();
static void point(Pend const& p) {
  progress++;
  if(cur==MAIN) return;
  asm_flush();
  Fiber& f=F[cur]; f.p=p; f.st=F_RUN;
  int c=cur;
  swtch(&f,&f.ctx,&sched_ctx);
  (void)c;
  if(f.hpend){ f.hpend=false; hops[f.hslot].t0=(int)++tclock; }
}
static Pend mk(Kind k, u64 a, u32 n, bool w) { Pend p; p.k=k; p.all=false; p.n=1; p.cexp=0; p.acc[0].a=canon(a); p.acc[0].n=n; p.acc[0].w=w; return p; }
static void addacc(Pend& p,u64 a,u32 n,bool w){ p.acc[p.n].a=a; p.acc[p.n].n=n; p.acc[p.n].w=w; p.n++; }
static inline u64 qobj(u64 key){ return canon(key)|(1ull<<63); }

static bool conflict(Pend const& x, Pend const& y) {
  if(x.all||y.all) return true;
  for(int i=0;i<x.n;i++) for(int j=0;j<y.n;j++) if((x.acc[i].w||y.acc[j].w) && x.acc[i].a < y.acc[j].a+y.acc[j].n && y.acc[j].a < x.acc[i].a+x.acc[i].n) return true;
  return false;
}

int self(){ return cur; }
void outcome(u64 h){ outc=(outc^h)*0x9E3779B97F4A7C15ull; outc^=outc>>29; }
void count_state(u64 h){ states_set->insert(h); }

static bool plain_sync_; void plain_sync(bool b){ plain_sync_=b; }
int choose_raw(int n);
int choose(int n){ return choose_raw(n); }
int choose_raw(int n) {
  if(n<=1) return 0;
  int c;
  if(replaying) { if(pos>=replay_choices.size()) c=0; else c=replay_choices[pos]; pos++; if(c>=n||c<0) internal_error("replay choice out of range"); made.push_back(c); return c; }
  if(pos<stk.size()) { Node& nd=stk[pos]; if(nd.sched||nd.n!=n) internal_error("nondeterminism: choice node mismatch"); c=nd.cur; }
  else { Node nd; memset(&nd,0,sizeof nd); nd.sched=false; nd.n=n; nd.cur=0; stk.push_back(nd); c=0; }
  pos++; made.push_back(c); return c;
}

// ------------------------------------------------------------------ spin handling
static const int SPIN_FREE=3, SPIN_LIMIT=200;
static void spin_reset(Fiber& f){ f.sp_cnt=0; f.sp_addr=0; }
// returns true if this load may run without a scheduling point (repeat of an identical load)
static bool spin_skip(u64 a){ Fiber& f=F[cur]; return f.sp_addr==a && f.sp_cnt>=(in_lib(a)?1:SPIN_FREE) && f.sp_cnt<SPIN_LIMIT; }
static void spin_note(u64 a,u128 v,size_t n){ Fiber& f=F[cur]; if(f.sp_addr==a && f.sp_val==v) f.sp_cnt++; else { f.sp_addr=a; f.sp_val=v; f.sp_cnt=1; }
  if(f.sp_cnt>=SPIN_LIMIT && cur!=MAIN){ f.await=true; f.await_addr=canon(a); f.await_n=n; Pend p=mk(K_AWAIT,a,n,false); point(p); f.await=false; f.sp_cnt=0; } }

// ------------------------------------------------------------------ atomics
static inline bool own_stack(u64 a){ if(cur==MAIN) return false; return a-(u64)F[cur].stk < F[cur].stksz; }
enum { MO_RLX=0, MO_CONS=1, MO_ACQ=2, MO_REL=3, MO_AR=4, MO_SC=5 };
static inline bool is_acq(int m){ m&=0xff; return m==MO_ACQ||m==MO_CONS||m==MO_AR||m==MO_SC; }
static inline bool is_rel(int m){ m&=0xff; return m==MO_REL||m==MO_AR||m==MO_SC; }
static void do_acq(u64 a,int mo){ Sync* s=sync(a); if(is_acq(mo)) vjoin(F[cur].vc,s->rel); else vjoin(F[cur].acq,s->rel); }
static void do_rel(u64 a,int mo,bool rmw){ Sync* s=sync(a); Fiber& f=F[cur]; if(is_rel(mo)) { if(rmw) vjoin(s->rel,f.vc); else s->rel=f.vc; f.vc.c[cur]++; } else { if(rmw) vjoin(s->rel,f.rel); else s->rel=f.rel; } }
static void wrote(){ wseq++; quiet_adv=0; spin_reset(F[cur]); }

// what the last inline assembly write of this thread did is known only after it was executed
static void asm_flush(){ Fiber& f=F[cur]; if(!f.asm_n) return; u64 a=f.asm_a; u32 n=f.asm_n; f.asm_n=0; if(memcmp(f.asm_old,(void*)a,n)) wrote(); else { u128 v=0; memcpy(&v,f.asm_old,n); spin_note(a,v,n); } }

template<class T> static T a_load(const volatile T* p,int mo){ u64 a=(u64)p; if(own_stack(a)) return *p;
  if(mo==MO_REL||mo==MO_AR) fail("atomic load with invalid order %d",mo);
  if(!(cur!=MAIN && spin_skip(a))) point(mk(K_LOAD,a,sizeof(T),false));
  hb_access(a,sizeof(T),A_AR); T v=*p; if(tracked(a)) do_acq(a,mo); if(tracing) log("load%zu %s -> %llx (mo%d)",sizeof(T)*8,sym(a).c_str(),(unsigned long long)v,mo); spin_note(a,(u128)v,sizeof(T)); return v; }
template<class T> static void a_store(volatile T* p,T v,int mo){ u64 a=(u64)p; if(own_stack(a)){ *p=v; return; }
  if(mo==MO_ACQ||mo==MO_AR||mo==MO_CONS) fail("atomic store with invalid order %d",mo);
  point(mk(K_STORE,a,sizeof(T),true)); hb_access(a,sizeof(T),A_AW); *p=v; if(tracked(a)) do_rel(a,mo,false); if(tracing) log("store%zu %s <- %llx (mo%d)",sizeof(T)*8,sym(a).c_str(),(unsigned long long)v,mo); wrote(); }
template<class T,class Fn> static T a_rmw(volatile T* p,int mo,Fn fn,const char* nm){ u64 a=(u64)p; if(own_stack(a)){ T o=*p; *p=fn(o); return o; }
  if(!(cur!=MAIN && spin_skip(a) && fn(*p)==*p)) point(mk(K_RMW,a,sizeof(T),true)); hb_access(a,sizeof(T),A_AR); hb_access(a,sizeof(T),A_AW); T o=*p; *p=fn(o); if(tracked(a)){ do_acq(a,mo); do_rel(a,mo,true); } if(tracing) log("%s%zu %s %llx -> %llx (mo%d)",nm,sizeof(T)*8,sym(a).c_str(),(unsigned long long)o,(unsigned long long)*p,mo); if(*p!=o) wrote(); else spin_note(a,(u128)o,sizeof(T)); return o; }
template<class T> static bool a_cas(volatile T* p,T* c,T v,int mo,int fmo,bool weak){ u64 a=(u64)p; if(own_stack(a)){ T o=*p; if(o==*c){*p=v;return true;} *c=o; return false; }
  if(fmo==MO_REL||fmo==MO_AR) fail("compare_exchange with invalid failure order %d",fmo);
  if(!(cur!=MAIN && spin_skip(a) && *p!=*c)) { Pend pd=mk(K_RMW,a,sizeof(T),true); if(!(weak&&b_weak>0)) pd.cexp=c; point(pd); } hb_access(a,sizeof(T),A_AR); T o=*p; T exp=*c;
  bool ok = o==exp;
  if(ok && weak && b_weak>0 && cur!=MAIN && choose_raw(2)) { b_weak--; ok=false; }
  bool differs=o!=exp;
  if(ok){ hb_access(a,sizeof(T),A_AW); *p=v; if(tracked(a)){ do_acq(a,mo); do_rel(a,mo,true); } if(v!=o) wrote(); }
  else { if(tracked(a)) do_acq(a,fmo); *c=o; }
  if(tracing) log("cas%s%zu %s exp %llx des %llx cur %llx -> %d (mo%d/%d)",weak?"w":"s",sizeof(T)*8,sym(a).c_str(),(unsigned long long)exp,(unsigned long long)v,(unsigned long long)o,(int)ok,mo,fmo);
  if(differs) spin_note(a,(u128)o,sizeof(T));
  return ok; }

// ------------------------------------------------------------------ kernel models
struct Waiter { int t; u64 key; bool priv; u32 bits; u64 seq; };
static std::vector<Waiter> waiters; static u64 wq_seq;
static void block_current() { Fiber& f=F[cur]; f.st=F_BLOCKED; f.blocks++; wseq++; swtch(&f,&f.ctx,&sched_ctx); }
static void wake_fiber(int t,int res){ F[t].wres=res; F[t].st=F_READY; F[t].timed=false; F[t].sleeping=false; }
static void unqueue(int t){ for(size_t i=0;i<waiters.size();i++) if(waiters[i].t==t){ waiters.erase(waiters.begin()+i); return; } }
static void dep_edge(int t);   // waker step -> woken thread

static long do_futex(u64 uaddr,int op,u32 val,u64 timeout,u64 uaddr2,u32 val3) {
  int cmd=op&127; bool priv=(op&128)!=0; bool rt=(op&256)!=0; if(priv) n_priv++; else n_shared++;
  if(uaddr&3){ errno=EINVAL; return -1; }
  u64 key=priv?uaddr:canon(uaddr);
  switch(cmd){
  case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
    if(cur==MAIN) fail("blocking futex wait in main context");
    const timespec* ts=(const timespec*)timeout; u32 bits=cmd==FUTEX_WAIT?~0u:val3; if(!bits){ errno=EINVAL; return -1; }
    Pend p=mk(K_FUTEX_WAIT,uaddr,4,false); addacc(p,qobj(key),1,true); 
    if(ts) { p.all = p.all || S->o.clock>0; }
    point(p);
    Fiber& f=F[cur]; int64_t dl=0;
    if(ts){ if(ts->tv_sec<0||ts->tv_nsec<0||ts->tv_nsec>=1000000000){ log("futex_wait -> EINVAL"); n_inval++; errno=EINVAL; return -1; }
      __int128 d=(__int128)ts->tv_sec*1000000000+ts->tv_nsec; if(cmd==FUTEX_WAIT) d+=mono; else if(rt) d-=realoff; if(d>INT64_MAX) d=INT64_MAX; dl=(int64_t)d; if(dl>f.maxdl) f.maxdl=dl; }
    hb_access(uaddr,4,A_AR);
    u32 v=*(volatile u32*)uaddr;
    if(v!=val){ if(tracing) log("futex_wait %s val %x != %x -> EAGAIN",sym(uaddr).c_str(),v,val); spin_reset(f); errno=EAGAIN; return -1; }
    if(ts && dl<=mono){ log("futex_wait -> ETIMEDOUT at once"); n_timeouts++; errno=ETIMEDOUT; return -1; }
    if(tracing) log("futex_wait%s %s val %x blocks%s",priv?"(private)":"(shared)",sym(uaddr).c_str(),v,ts?" (timed)":"");
    Waiter w; w.t=cur; w.key=key; w.priv=priv; w.bits=bits; w.seq=++wq_seq; waiters.push_back(w);
    f.fkey=key; f.timed=ts!=0; f.deadline=dl; f.incond=false; spin_reset(f);
    block_current();
    if(tracing) log("futex_wait returns %d",f.wres);
    if(f.wres){ errno=f.wres; return -1; } return 0; }
  case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
    u32 bits=cmd==FUTEX_WAKE?~0u:val3; Pend p=mk(K_FUTEX_WAKE,qobj(key),1,true); point(p);
    spin_reset(F[cur]);
    int n=0; u32 want=(int)val<1?1:val;   // as Linux: counts below one wake one waiter
    while((u32)n<want) {
      std::vector<int> c; for(auto& w: waiters) if(w.key==key && w.priv==priv && (w.bits&bits)) c.push_back(w.t);
      if(c.empty()) break; int i= (u32)(want-n)>=c.size()?0:choose_raw(c.size()); int t=c[i]; unqueue(t); dep_edge(t); wake_fiber(t,0); n++; quiet_adv=0; }
    if(tracing) log("futex_wake%s %s n=%u -> %d",priv?"(private)":"(shared)",sym(uaddr).c_str(),val,n);
    return n; }
  case FUTEX_REQUEUE: case FUTEX_CMP_REQUEUE: {
    u64 key2=priv?uaddr2:canon(uaddr2); u32 nreq=(u32)timeout;
    Pend p=mk(K_FUTEX_REQUEUE,qobj(key),1,true); addacc(p,qobj(key2),1,true); if(cmd==FUTEX_CMP_REQUEUE) addacc(p,canon(uaddr),4,false); point(p);
    if((int)val<0||(int)nreq<0){ errno=EINVAL; return -1; }
    if(cmd==FUTEX_CMP_REQUEUE && *(volatile u32*)uaddr!=val3){ errno=EAGAIN; return -1; }
    spin_reset(F[cur]);
    int n=0,woken=0; for(;;){ std::vector<int> c; for(auto& w: waiters) if(w.key==key && w.priv==priv) c.push_back(w.t); if(c.empty()) break;
      bool wk=(u32)woken<val; if(!wk && (u32)(n-woken)>=nreq) break; u32 rest=wk?val-woken:nreq-(n-woken);
      int i=rest>=c.size()?0:choose_raw(c.size()); int t=c[i];
      if(wk){ unqueue(t); dep_edge(t); wake_fiber(t,0); woken++; } else { for(auto& w: waiters) if(w.t==t){ w.key=key2; w.seq=++wq_seq; } F[t].fkey=key2; if(key2==key) { n++; break; } }
      n++; quiet_adv=0; }
    if(tracing) log("futex_requeue %s -> %s wake %u requeue %u -> %d",sym(uaddr).c_str(),sym(uaddr2).c_str(),val,nreq,n);
    return cmd==FUTEX_CMP_REQUEUE?n:n; }
  }
  errno=ENOSYS; return -1;
}

// pthread models
struct PM { int owner; int type; }; struct PC { int clk; };
static std::unordered_map<u64,PM> pms; static std::unordered_map<u64,PC> pcs; static std::unordered_map<u64,int> pattrs;
static PM& pm(u64 a){ auto it=pms.find(a); if(it==pms.end()){ PM m; m.owner=-1; m.type=0; it=pms.emplace(a,m).first; } return it->second; }
static void m_acquired(u64 m){ Sync* s=sync(m); vjoin(F[cur].vc,s->rel); pm(m).owner=cur; quiet_adv=0; }
static void m_release(u64 m){ Sync* s=sync(m); vjoin(s->rel,F[cur].vc); F[cur].vc.c[cur]++; pm(m).owner=-1; wseq++; quiet_adv=0; }
static void m_lock(u64 m){ check_live(m,sizeof(pthread_mutex_t),"mutex"); if(cur==MAIN){ if(pm(m).owner!=-1) fail("main would block on mutex"); m_acquired(m); return; }
  point(mk(K_MLOCK,m,8,true)); if(pm(m).owner!=-1) internal_error("mutex lock scheduled while held"); m_acquired(m); if(tracing) log("mutex_lock %s",sym(m).c_str()); }

static int cond_wait(u64 c,u64 m,bool timed,int64_t dl) {
  if(cur==MAIN) fail("cond wait in main");
  check_live(c,sizeof(pthread_cond_t),"cond");
  Pend p=mk(K_CWAIT,m,8,true); addacc(p,qobj(c),1,true); if(timed && S->o.clock>0) p.all=true; point(p);
  Fiber& f=F[cur]; if(pm(m).owner!=cur) fail("cond wait without owning the mutex");
  if(timed && dl>f.maxdl) f.maxdl=dl;
  m_release(m);
  if(timed && dl<=mono){ n_timeouts++; f.wres=ETIMEDOUT; }
  else { Waiter w; w.t=cur; w.key=c|1; w.priv=true; w.bits=~0u; w.seq=++wq_seq; waiters.push_back(w); f.fkey=c|1; f.timed=timed; f.deadline=dl; f.incond=true; if(tracing) log("cond_wait %s blocks%s",sym(c).c_str(),timed?" (timed)":""); block_current(); f.incond=false; }
  int r=f.wres; if(r==EINTR) r=0; 
  m_lock(m); return r; }
static int cond_signal(u64 c,bool all){ check_live(c,sizeof(pthread_cond_t),"cond"); point(mk(K_CSIG,qobj(c),1,true)); int n=0; for(;;){ std::vector<int> v; for(auto& w: waiters) if(w.key==(c|1)) v.push_back(w.t); if(v.empty()||(!all&&n==1)) break;
    int i=all?0:choose_raw(v.size()); int t=v[i]; unqueue(t); dep_edge(t); wake_fiber(t,0); n++; quiet_adv=0; } if(tracing) log("cond_%s %s woke %d",all?"broadcast":"signal",sym(c).c_str(),n); return 0; }
static int64_t ts2mono(const timespec* ts,int clk){ __int128 d=(__int128)ts->tv_sec*1000000000+ts->tv_nsec; if(clk==CLOCK_REALTIME) d-=realoff; if(d>INT64_MAX) d=INT64_MAX; if(d<INT64_MIN) d=INT64_MIN; return (int64_t)d; }

// sleeping
static bool thread_enabled(int t);
static void yield_prio(){ Fiber& f=F[cur]; u32 m=0; for(int t=0;t<NT;t++) if(t!=cur && (F[t].st==F_READY||thread_enabled(t))) m|=1u<<t; f.prio=m&~f.sched_since; f.sched_since=0; }
static int do_sleep(int64_t ns){ if(cur==MAIN) return 0; Fiber& f=F[cur];
  f.sleeping=true; f.sleep_wseq=wseq; f.timed=true; f.deadline=mono+(ns<1?1:ns); f.incond=false; spin_reset(f); yield_prio();
  Pend p; p.k=K_SLEEP; p.n=0; p.cexp=0; p.all=S->o.clock>0; if(tracing) log("sleep %lld ns",(long long)ns);
  point(p); // executed when scheduled
  f.sleeping=false; f.timed=false; if(f.deadline>mono) mono=f.deadline; return 0; }

// harness polling: the thread runs again only after somebody wrote something
uint64_t epoch(){ return wseq; }
void wait_change(uint64_t e){ if(cur==MAIN) fail("wait_change in main"); Fiber& f=F[cur]; f.sleep_wseq=e; spin_reset(f); yield_prio(); Pend p; p.k=K_YIELD; p.n=0; p.cexp=0; p.all=false; point(p); }

// ------------------------------------------------------------------ time
int64_t now(clockid_t c){ return (c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE)? mono+realoff : mono; }
void set_now(int64_t m,int64_t ro){ mono=m; realoff=ro; }
void add_instant(int64_t t){ instants.push_back(t); }
int timeouts_fired(){ return n_timeouts; } int invalid_timeouts(){ return n_inval; }
static int64_t cells[16]; void set(int i,int64_t v){ cells[i]=v; } int64_t get(int i){ return cells[i]; }
int kernel_blocks(int t){ return F[t].blocks; }
int64_t max_kernel_deadline(int t){ return F[t].maxdl; }
int futex_private_ops(){ return n_priv; } int futex_shared_ops(){ return n_shared; }
bool blocked(int t){ return F[t].st==F_BLOCKED; }
void run_atexit(){ exits_run=true; while(!exits.empty()){ ExitFn e=exits.back(); exits.pop_back(); e.f(e.a); } for(size_t i=exits_static.size();i-->0;) exits_static[i].f(exits_static[i].a); }
int live_allocs(){ int n=0; for(auto& b: blks) n+=b.live; return n; }
long alloc_calls(){ return nallocs; }

// ------------------------------------------------------------------ allocation
static void* do_alloc(size_t n,size_t al,bool canfail){ nallocs++; progress++;
  if(canfail && b_alloc>0 && choose_raw(2)){ b_alloc--; log("allocation of %zu bytes FAILS",n); return 0; }
  if(al<16) al=16; size_t o=(arena_top+al-1)&~(al-1); if(o+n+16>ARENA) internal_error("arena exhausted");
  memset(arena+o,0xA5,n); arena_top=o+n+16; if(arena_top>arena_hi) arena_hi=arena_top; Blk b; b.a=(u64)arena+o; b.n=n; b.live=true; b.pad=0; blks.push_back(b); if(tracing) log("alloc %zu -> %s",n,sym(b.a).c_str()); return arena+o; }
static void do_free(void* p){ if(!p) return; progress++; u64 a=(u64)p; if(a-(u64)arena>=ARENA) fail("free of a pointer that was not allocated");
  for(auto& b: blks) if(b.a==a){ if(!b.live) fail("double free of %s",sym(a).c_str()); if(tracing) log("free %s",sym(a).c_str()); hb_access(a,b.n,A_PW); b.live=false; memset(p,0xDF,b.n); return; } fail("free of an interior pointer"); }

static std::string sym(u64 a){ char b[64]; if(a-(u64)arena<ARENA){ int i=0; for(auto& x: blks){ if(a>=x.a&&a<x.a+x.n){ snprintf(b,sizeof b,"heap#%d+%llu",i,(unsigned long long)(a-x.a)); return b; } i++; } snprintf(b,sizeof b,"heap?+%llx",(unsigned long long)(a-(u64)arena)); return b; }
  if(in_scn(a)){ snprintf(b,sizeof b,"static+%llx",(unsigned long long)(a-(u64)__start_mcstate)); return b; }
  if(in_lib(a)){ snprintf(b,sizeof b,"lib+%llx",(unsigned long long)(a-(u64)__start_mclib)); return b; }
  for(int i=0;i<2;i++) if(a-(u64)amap[i]<amap_n){ snprintf(b,sizeof b,"map%d+%llx",i,(unsigned long long)(a-(u64)amap[i])); return b; }
  snprintf(b,sizeof b,"%llx",(unsigned long long)a); return b; }

// ------------------------------------------------------------------ scheduler
static int cur_step=-1;
static void dep_edge(int t){ if(cur==MAIN||t>=MAXT||cur_step<0) return; Step& s=steps[cur_step]; for(int i=0;i<NPROC;i++) dvc[t][i]=std::max(dvc[t][i],s.clk[i]); }
static void fiber_main(){ int t=cur; S->body(t,S->arg); asm_flush(); F[t].st=F_DONE; quiet_adv=0; wseq++; swtch(&F[t],&F[t].ctx,&sched_ctx); internal_error("finished fiber resumed"); }
static void run_fiber(int t){ cur=t; Ctx* c=&F[t].ctx; mc_switch(&sched_ctx,c); cur=MAIN; }
static void start_fiber(int t){ Fiber& f=F[t]; u64* sp=(u64*)(f.stk+f.stksz); *--sp=0; *--sp=(u64)&fiber_main; for(int i=0;i<6;i++) *--sp=0; f.ctx.sp=sp; f.err=0; }

static bool thread_enabled(int t){ Fiber& f=F[t]; if(f.st!=F_RUN) return false;
  if(f.p.k==K_MLOCK) return pm(f.p.acc[0].a).owner==-1;
  if(f.p.k==K_SLEEP||f.p.k==K_YIELD) return wseq!=f.sleep_wseq;
  if(f.p.k==K_AWAIT) return !f.await;
  return true; }
static bool clock_event(int64_t* when){ bool any=false; int64_t w=0; for(int t=0;t<NT;t++){ Fiber& f=F[t]; if((f.st==F_BLOCKED&&f.timed)||(f.st==F_RUN&&f.p.k==K_SLEEP&&f.sleeping)){ if(!any||f.deadline<w){ w=f.deadline; any=true; } } }
  for(int64_t i: instants) if(i>mono && (!any||i<w)){ w=i; any=true; } if(any && w<mono) w=mono; *when=w; return any; }
static u32 enabled_mask(bool& quiescent){ u32 m=0; for(int t=0;t<NT;t++) if(thread_enabled(t)) m|=1u<<t; quiescent=m==0; int64_t w;
  { u32 r=m; for(int t=0;t<NT;t++) if((m&(1u<<t))&&(F[t].p.k==K_SLEEP||F[t].p.k==K_YIELD)&&(F[t].prio&m)) r&=~(1u<<t); if(r) m=r; }
  bool timedwait=false; for(int t=0;t<NT;t++) if((F[t].st==F_BLOCKED&&F[t].timed)||(F[t].st==F_RUN&&F[t].p.k==K_SLEEP)) timedwait=true;
  if(quiescent){ if(timedwait && clock_event(&w)) m|=1u<<P_CLOCK; }
  else { if(b_clock>0 && clock_event(&w)) m|=1u<<P_CLOCK; if(b_spur>0) for(int t=0;t<NT;t++) if(F[t].st==F_BLOCKED){ m|=1u<<P_SPUR; break; } }
  if(quiescent && (m&(1u<<P_CLOCK)) && b_spur>0) for(int t=0;t<NT;t++) if(F[t].st==F_BLOCKED){ m|=1u<<P_SPUR; break; }
  return m; }
static void step_clock(bool quiescent){ int64_t w; if(!clock_event(&w)) internal_error("clock step without event"); if(!quiescent) b_clock--; else quiet_adv++; if(w>mono) mono=w; if(tracing) trace+="[clock] advances to "+std::to_string(mono)+"\n";
  for(int t=0;t<NT;t++){ Fiber& f=F[t]; if(f.st==F_BLOCKED&&f.timed&&f.deadline<=mono){ n_timeouts++; unqueue(t); dep_edge(t); wake_fiber(t,ETIMEDOUT); }
    else if(f.st==F_RUN&&f.p.k==K_SLEEP&&f.sleeping&&f.deadline<=mono){ f.sleep_wseq=~0ull; } } }
static void step_spur(){ std::vector<int> c; for(int t=0;t<NT;t++) if(F[t].st==F_BLOCKED) c.push_back(t); int i=choose_raw(c.size()*2); int t=c[i/2]; b_spur--; unqueue(t); dep_edge(t); if(tracing) trace+="[kernel] "+std::string(i%2?"EINTR":"spurious wake")+" for T"+std::to_string(t)+"\n"; wake_fiber(t,i%2?EINTR:0); }

static bool hb_le(Step const& a, u32 const* clk){ return a.idx<=clk[a.proc]; }
static bool releases(Pend const& p,u64 m){ return (p.k==K_MUNLOCK||p.k==K_CWAIT) && p.acc[0].a==m; }

// appends step (p,pd): finds the races with earlier steps (source sets) and updates the dependency clocks.
// barrier steps (clock advances that happen only at quiescence) are ordered after everything and are never reversed.
static void record_step(int p, Pend const& pd, int nodeidx, bool barrier) {
  Step s; s.proc=p; s.p=pd; s.node=nodeidx; s.idx=++dcnt[p]; u32 clk[NPROC]; memcpy(clk,dvc[p],sizeof clk);
  int n=steps.size();
  if(barrier){ for(int i=0;i<NPROC;i++) clk[i]=std::max(clk[i],dcnt[i]); clk[p]=s.idx; memcpy(s.clk,clk,sizeof clk); for(int i=0;i<NPROC;i++) memcpy(dvc[i],clk,sizeof clk); steps.push_back(s); cur_step=n; return; }
  bool dpor = S->o.mode!=PB && !replaying;
  u32 later[NPROC]; memset(later,0,sizeof later);
  for(int j=n-1;j>=0;j--){ Step& q=steps[j]; if(q.proc==p||hb_le(q,clk)) continue; if(!conflict(q.p,pd)) continue;
    // a blocked lock and the unlock enabling it are not co-enabled: the reversible race is with the matching lock
    if(pd.k==K_MLOCK && releases(q.p,pd.acc[0].a)) { for(int i=0;i<NPROC;i++) later[i]=std::max(later[i],q.clk[i]); continue; }
    if(dpor && q.node>=0){ Node& nd=stk[q.node];
      u32 I=0, seen=0; std::vector<int> v; v.reserve(16);
      for(int k=j+1;k<n;k++){ Step& r=steps[k]; if(q.idx<=r.clk[q.proc]) continue; // q happens before r
        if(seen&(1u<<r.proc)) { v.push_back(k); continue; } bool hp=false; for(int m: v) if(steps[m].idx<=r.clk[steps[m].proc]){ hp=true; break; } seen|=1u<<r.proc; if(!hp) I|=1u<<r.proc; v.push_back(k); }
      if(!(seen&(1u<<p))){ bool hp=false; for(int m: v) if(steps[m].idx<=dvc[p][steps[m].proc] || conflict(steps[m].p,pd)) { hp=true; break; } if(!hp) I|=1u<<p; }
      u32 cand=I&nd.enabled;
      if(!(I&(nd.backtrack|nd.sleep))){ if(cand){ if(cand&(1u<<p)) nd.backtrack|=1u<<p; else nd.backtrack|=cand&-cand; } else nd.backtrack|=nd.enabled; }
    }
    for(int i=0;i<NPROC;i++) clk[i]=std::max(clk[i],q.clk[i]);
  }
  for(int i=0;i<NPROC;i++) clk[i]=std::max(clk[i],later[i]);
  clk[p]=s.idx; memcpy(s.clk,clk,sizeof clk); memcpy(dvc[p],clk,sizeof clk); steps.push_back(s); cur_step=n;
}

struct Stats { u64 execs, sleepb, trans, maxlen, outcomes, nodes; bool capped; };
static const int HORIZON=6000;
static std::unordered_set<u64> outset;

static void reset_exec(){
  gen++; if(gen==0) gen=1;
  memcpy(__start_mcstate,snap,__stop_mcstate-__start_mcstate); memcpy(__start_mclib,snaplib,__stop_mclib-__start_mclib); n_libacc=0; n_kcalls=0;
  memset(amap[0],0,amap_n);
  if(arena_hi) memset(arena,0,arena_hi); arena_top=0; arena_hi=0; blks.clear(); nallocs=0;
  atomic_regs.clear(); plain_sync_=false; waiters.clear(); pms.clear(); pcs.clear(); pattrs.clear(); exits.clear(); exits_run=false; instants.clear();
  for(int t=0;t<=MAXT;t++){ Fiber& f=F[t]; f.st=F_NEW; f.timed=false; f.sleeping=false; f.blocks=0; f.maxdl=-1; f.sched_since=~0u; f.prio=0; f.asm_n=0; f.sp_cnt=0; f.sp_addr=0; f.await=false; f.incond=false; f.hpend=false; memset(&f.vc,0,sizeof f.vc); memset(&f.rel,0,sizeof f.rel); memset(&f.acq,0,sizeof f.acq); f.vc.c[t]=1; }
  b_spur=S->o.spurious; b_weak=S->o.weak; b_clock=S->o.clock; b_alloc=S->o.alloc; mono=1000000000ll; realoff=1700000000000000000ll; n_timeouts=n_priv=n_shared=0; memset(cells,0,sizeof cells); { u64 h=14695981039346656037ull; for(const char* q=S->name;*q;q++) h=(h^(unsigned char)*q)*1099511628211ull; cells[15]=(h>>24)&255; } n_inval=0; wseq=1; tclock=0; quiet_adv=0; outc=1469598103934665603ull; violated=false; aborted=false; vmsg[0]=0; sleep_blocked=false;
  steps.clear(); memset(dvc,0,sizeof dvc); memset(dcnt,0,sizeof dcnt); pos=0; made.clear(); cur=MAIN; cur_step=-1; if(tracing) trace.clear();
}

static void (*esc_fn)();
static void esc_main(){ esc_fn(); Ctx d; mc_switch(&d,&esc_ret); internal_error("esc"); }
// runs fn on a side stack so that fail() inside init/fini can escape
static void run_main(void(*fn)()){ esc_fn=fn; u64* sp=(u64*)(esc_stk+(1<<18)); *--sp=0; *--sp=(u64)&esc_main; for(int i=0;i<6;i++) *--sp=0; Ctx c; c.sp=sp; mc_switch(&esc_ret,&c); }

static bool step_changed;
static void one_exec(Stats& st){
  reset_exec(); step_changed=true;
  run_main([]{ S->init(S->arg); });
  if(violated) return;
  NT=S->nthreads;
  for(int t=0;t<NT;t++){ start_fiber(t); vjoin(F[t].vc,F[MAIN].vc); }
  F[MAIN].vc.c[MAIN]++;
  for(int t=0;t<NT;t++){ run_fiber(t); if(aborted) return; }
  int last=-1, pre=0; int len=0;
  u32 sleep=0;
  for(;;){
    bool again; do { again=false; for(int t=0;t<NT;t++) if(F[t].st==F_READY){ run_fiber(t); if(aborted) return; again=true; } } while(again);
    for(int t=0;t<NT;t++) if(step_changed && F[t].st==F_RUN && F[t].p.k==K_AWAIT && F[t].await && cur_step>=0 && steps[cur_step].proc!=t && conflict(steps[cur_step].p,F[t].p)) F[t].await=false;
    bool alldone=true; for(int t=0;t<NT;t++) if(F[t].st!=F_DONE) alldone=false;
    if(alldone) break;
    bool q; u32 en=enabled_mask(q);
    if(q && !(en&(1u<<P_CLOCK))){ char who[256]; int k=0; for(int t=0;t<NT;t++) if(F[t].st!=F_DONE) k+=snprintf(who+k,sizeof who-k," T%d(%s)",t,F[t].st==F_BLOCKED?(F[t].incond?"cond wait":"futex wait"):kname[F[t].p.k]); if(!violated){ snprintf(vmsg,sizeof vmsg,"deadlock: blocked forever:%s",who); violated=true; if(tracing) trace+=std::string("VIOLATION: ")+vmsg+"\n"; } return; }
    if(q && quiet_adv>400){ if(!violated){ snprintf(vmsg,sizeof vmsg,"livelock: only polling threads remain and nothing can change"); violated=true; } return; }
    if(++len>HORIZON){ snprintf(vmsg,sizeof vmsg,"no termination within %d visible steps",HORIZON); violated=true; return; }
    int ch=-1; int nodeidx=-1; u32 exploredsib=0; 
    int defc = (last>=0&&(en&(1u<<last)))?last:__builtin_ctz(en);
    if(defc>=P_CLOCK){ u32 th=en&((1u<<MAXT)-1); defc= th?__builtin_ctz(th):(en&(1u<<P_CLOCK))?P_CLOCK:__builtin_ctz(en); }
    if(replaying){ if(pos<replay_choices.size()) ch=replay_choices[pos]; else ch=defc; pos++; if(ch<0||ch>=NPROC||!(en&(1u<<ch))) internal_error("replay: chosen process not enabled"); made.push_back(ch); }
    else {
      if(pos<stk.size()){ Node& nd=stk[pos]; if(!nd.sched||nd.enabled!=en) internal_error("nondeterminism: scheduling node mismatch"); ch=nd.chosen; exploredsib=nd.done&~(1u<<ch); nd.stepidx=steps.size(); }
      else { Node nd; memset(&nd,0,sizeof nd); nd.sched=true; nd.enabled=en; nd.sleep=sleep&en; nd.pre=pre; nd.prev=S->o.delay?defc:last; nd.stepidx=steps.size();
        if(S->o.mode!=PB){ u32 av=en&~nd.sleep; if(!av){ sleep_blocked=true; return; } ch= (av&(1u<<defc))?defc:__builtin_ctz(av);
          // environment processes: both orders must be considered from the start
          nd.backtrack=1u<<ch; }
        else ch=defc;
        for(int t=0;t<NT;t++) nd.pend[t]=F[t].p; for(int t: {P_CLOCK,P_SPUR}){ nd.pend[t].all=true; nd.pend[t].n=0; }
        if(S->o.mode!=PB) nd.backtrack|=en&((1u<<P_CLOCK)|(1u<<P_SPUR));
        nd.chosen=ch; nd.done=1u<<ch; stk.push_back(nd); st.nodes++; }
      nodeidx=pos; pos++; made.push_back(ch);
    }
    Pend pd; if(ch>=P_CLOCK){ pd.k=K_OTHER; pd.n=0; pd.all=true; pd.cexp=0; } else { pd=F[ch].p;
      // a compare-exchange that is going to fail only reads
      if(pd.cexp && memcmp(pd.cexp,(const void*)pd.acc[0].a,pd.acc[0].n)!=0) pd.acc[0].w=false; }
    if(!replaying && S->o.mode!=PB){ Node& nd=stk[nodeidx]; u32 base=nd.sleep|exploredsib; u32 ns=0; for(int t=0;t<NPROC;t++) if((base&(1u<<t))&&t!=ch&&(en&(1u<<t))){ if(!conflict(nd.pend[t],pd)) ns|=1u<<t; } sleep=ns; }
    if(S->o.delay){ if(ch!=defc && ch<P_CLOCK) pre++; }
    else if(last>=0 && last<P_CLOCK && last!=ch && ch<P_CLOCK && (en&(1u<<last))) pre++;
    record_step(ch,pd,nodeidx,ch==P_CLOCK&&q);
    st.trans++;
    if(ch==P_CLOCK){ step_clock(q); }
    else if(ch==P_SPUR) step_spur();
    else { for(int t=0;t<NT;t++){ F[t].prio&=~(1u<<ch); F[t].sched_since|=1u<<ch; } u64 w0=wseq; run_fiber(ch); step_changed=wseq!=w0; if(aborted) return; last=ch; }
  }
  for(int t=0;t<NT;t++) vjoin(F[MAIN].vc,F[t].vc);
  if((u64)len>st.maxlen) st.maxlen=len;
  NT=0;
  run_main([]{ S->fini(S->arg); });
  if(violated) return;
  if(outset.size()<2000000) outset.insert(outc);
}

static bool backtrack(){
  while(!stk.empty()){ Node& nd=stk.back();
    if(!nd.sched){ if(nd.cur+1<nd.n){ nd.cur++; return true; } stk.pop_back(); continue; }
    if(S->o.mode!=PB){ u32 c=nd.backtrack&nd.enabled&~nd.done&~nd.sleep; if(c){ nd.chosen=__builtin_ctz(c); nd.done|=1u<<nd.chosen; return true; } }
    else { bool found=false; for(int t=0;t<NPROC;t++) if((nd.enabled&(1u<<t))&&!(nd.done&(1u<<t))){ int cost=nd.pre+((nd.prev>=0&&(nd.enabled&(1u<<nd.prev))&&t!=nd.prev&&t<P_CLOCK)?1:0); nd.done|=1u<<t; if(cost>S->o.pb) continue; nd.chosen=t; found=true; break; } if(found) return true; }
    stk.pop_back(); }
  return false;
}

// ------------------------------------------------------------------ history
void h_reset(int n){ nhops=n; memset(hops,0,sizeof(HOp)*n); }
void h_begin(int s,int op,u128 a,u128 d,int obj){ HOp& h=hops[s]; h.tid=cur; h.op=op; h.a=a; h.d=d; h.obj=obj; h.rv=h.re=0; h.rb=-1; h.t1=0x7fffffff; h.t0=(int)++tclock; if(cur!=MAIN){ F[cur].hpend=true; F[cur].hslot=s; } }
void h_end(int s,u128 rv,u128 re,int rb){ HOp& h=hops[s]; h.rv=rv; h.re=re; h.rb=rb; if(cur!=MAIN&&F[cur].hpend){ F[cur].hpend=false; } h.t1=(int)++tclock; outcome((u64)rv^(u64)(rv>>64)*31); outcome((u64)re^(u64)(re>>64)*37); outcome(rb+7); if(tracing) log("op#%d returns v=%llx e=%llx b=%d",s,(unsigned long long)rv,(unsigned long long)re,rb); }
HOp* h_ops(){ return hops; } int h_count(){ return nhops; }
static bool lin_rec(u32 mask,int n,const u128* st,int ns,const u128* fin,spec_fn f,const void* ctx){
  if(mask==(1u<<n)-1){ if(!fin) return true; for(int i=0;i<ns;i++) if(st[i]!=fin[i]) return false; return true; }
  int mint1=0x7fffffff; for(int i=0;i<n;i++) if(!(mask&(1u<<i))&&hops[i].t1<mint1) mint1=hops[i].t1;
  for(int i=0;i<n;i++) if(!(mask&(1u<<i))&&hops[i].t0<=mint1){ u128 s2[8]; memcpy(s2,st,sizeof(u128)*ns); if(!f(s2,hops[i],ctx)) continue; if(lin_rec(mask|(1u<<i),n,s2,ns,fin,f,ctx)) return true; }
  return false; }
bool linearizable(const u128* init,int ns,const u128* fin,spec_fn f,const void* ctx){ return lin_rec(0,nhops,init,ns,fin,f,ctx); }

// ------------------------------------------------------------------ registration
static std::vector<Scn> scns;
char* fmt(const char* f,...){ char b[512]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return strdup(b); }
void* keep(const void* p,size_t n){ void* r=malloc(n); memcpy(r,p,n); return r; }
void add(const char* name,int nt,void(*i)(const void*),void(*b)(int,const void*),void(*f)(const void*),const void* arg,Opts o){ Scn s; s.prop=""; s.name=name; s.nthreads=nt; s.init=i; s.body=b; s.fini=f; s.arg=arg; s.o=o; scns.push_back(s); }
} // namespace mc

using namespace mc;
// ------------------------------------------------------------------ tsan interface
extern "C" {
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){} void __tsan_ignore_thread_begin(){} void __tsan_ignore_thread_end(){}
static inline void plain(void* p,size_t n,bool w){ hb_access((u64)p,n,w?A_PW:A_PR); }
// plain accesses to lock-free atomic storage are scheduling points as well
static inline void plain_pt(void* p,size_t n,bool w){ u64 a=(u64)p; if(cur!=MAIN && !atomic_regs.empty() && tracked(a) && in_atomic_reg(canon(a))){ point(mk(w?K_STORE:K_LOAD,a,n,w)); if(plain_sync_){ if(w) do_rel(a,MO_SC,false); else do_acq(a,MO_SC); } if(w) wrote(); else if(n<=16){ u128 v=0; memcpy(&v,p,n); spin_note(a,v,n); } } plain(p,n,w); if(w && cur!=MAIN && tracked(a)) progress++; }
#define RW(n) void __tsan_read##n(void* p){ plain_pt(p,n,false);} void __tsan_write##n(void* p){ plain_pt(p,n,true);} void __tsan_unaligned_read##n(void* p){ plain_pt(p,n,false);} void __tsan_unaligned_write##n(void* p){ plain_pt(p,n,true);} \
 void __tsan_volatile_read##n(void* p){ plain_pt(p,n,false);} void __tsan_volatile_write##n(void* p){ plain_pt(p,n,true);} void __tsan_unaligned_volatile_read##n(void* p){ plain_pt(p,n,false);} void __tsan_unaligned_volatile_write##n(void* p){ plain_pt(p,n,true);} \
 void __tsan_read_write##n(void* p){ plain_pt(p,n,false); plain_pt(p,n,true);} void __tsan_unaligned_read_write##n(void* p){ plain_pt(p,n,false); plain_pt(p,n,true);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p,size_t n){ plain_pt(p,n,false);} void __tsan_write_range(void* p,size_t n){ plain_pt(p,n,true);}
void __tsan_vptr_update(void** p,void*){ plain(p,8,true);} void __tsan_vptr_read(void** p){ plain(p,8,false);}
void* __tsan_memcpy(void* d,const void* s,size_t n){ plain_pt((void*)s,n,false); plain_pt(d,n,true); return memcpy(d,s,n);} void* __tsan_memmove(void* d,const void* s,size_t n){ plain_pt((void*)s,n,false); plain_pt(d,n,true); return memmove(d,s,n);} void* __tsan_memset(void* d,int c,size_t n){ plain_pt(d,n,true); return memset(d,c,n);}
void* mc_memcpy(void* d,const void* s,size_t n){ return __tsan_memcpy(d,s,n);} void* mc_memmove(void* d,const void* s,size_t n){ return __tsan_memmove(d,s,n);} void* mc_memset(void* d,int c,size_t n){ return __tsan_memset(d,c,n);}
int mc_memcmp(const void* a,const void* b,size_t n){ plain_pt((void*)a,n,false); plain_pt((void*)b,n,false); return memcmp(a,b,n);}
void __tsan_acquire(void* a){ point(mk(K_FENCE,(u64)a,1,false)); do_acq((u64)a,MO_ACQ); }
void __tsan_release(void* a){ point(mk(K_FENCE,(u64)a,1,true)); do_rel((u64)a,MO_REL,true); }
#define AT(B,T) \
 T __tsan_atomic##B##_load(const volatile T* p,int mo){ return a_load<T>(p,mo);} void __tsan_atomic##B##_store(volatile T* p,T v,int mo){ a_store<T>(p,v,mo);} \
 T __tsan_atomic##B##_exchange(volatile T* p,T v,int mo){ return a_rmw<T>(p,mo,[=](T){return v;},"xchg");} T __tsan_atomic##B##_fetch_add(volatile T* p,T v,int mo){ return a_rmw<T>(p,mo,[=](T o){return (T)(o+v);},"add");} \
 T __tsan_atomic##B##_fetch_sub(volatile T* p,T v,int mo){ return a_rmw<T>(p,mo,[=](T o){return (T)(o-v);},"sub");} T __tsan_atomic##B##_fetch_and(volatile T* p,T v,int mo){ return a_rmw<T>(p,mo,[=](T o){return (T)(o&v);},"and");} \
 T __tsan_atomic##B##_fetch_or(volatile T* p,T v,int mo){ return a_rmw<T>(p,mo,[=](T o){return (T)(o|v);},"or");} T __tsan_atomic##B##_fetch_xor(volatile T* p,T v,int mo){ return a_rmw<T>(p,mo,[=](T o){return (T)(o^v);},"xor");} \
 T __tsan_atomic##B##_fetch_nand(volatile T* p,T v,int mo){ return a_rmw<T>(p,mo,[=](T o){return (T)~(o&v);},"nand");} \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T* p,T* c,T v,int mo,int fmo){ return a_cas<T>(p,c,v,mo,fmo,false);} int __tsan_atomic##B##_compare_exchange_weak(volatile T* p,T* c,T v,int mo,int fmo){ return a_cas<T>(p,c,v,mo,fmo,true);} \
 T __tsan_atomic##B##_compare_exchange_val(volatile T* p,T c,T v,int mo,int fmo){ a_cas<T>(p,&c,v,mo,fmo,false); return c;}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t) AT(128,u128)
void __tsan_atomic_thread_fence(int mo){ if(cur==MAIN) return; Fiber& f=F[cur]; if(is_acq(mo)) vjoin(f.vc,f.acq); if(is_rel(mo)){ f.rel=f.vc; f.vc.c[cur]++; } if(tracing) log("fence mo%d",mo); }
void __tsan_atomic_signal_fence(int){}
// inline assembly access (inserted by asmhook.py): scheduling point + race bookkeeping, then the instruction runs natively
void mc_asm_access(u64 a,u64 n,u64 kind){ if(own_stack(a)||!tracked(a)) return; bool w=kind!=0; if(cur!=MAIN) asm_flush();
  if(kind==3){ // read-modify-write without a bus lock: two steps; whatever was written in between is overwritten
    point(mk(K_ASM,a,n,false)); hb_access(a,n,A_AR); do_acq(a,MO_SC); char old[16]; memcpy(old,(void*)a,n); if(tracing) log("asm unlocked rmw%llu reads %s",(unsigned long long)n*8,sym(a).c_str());
    point(mk(K_ASM,a,n,true)); hb_access(a,n,A_AW); memcpy((void*)a,old,n); do_rel(a,MO_SC,false); wrote(); if(tracing) log("asm unlocked rmw%llu writes %s",(unsigned long long)n*8,sym(a).c_str()); return; }
  { u128 v=0; memcpy(&v,(void*)a,n); Fiber& f=F[cur]; if(!(cur!=MAIN && kind==2 && spin_skip(a) && f.sp_val==v)) point(mk(K_ASM,a,n,w)); } hb_access(a,n,A_AR); if(w) hb_access(a,n,A_AW); if(kind!=1) do_acq(a,MO_SC);
  if(w){ do_rel(a,MO_SC,kind==2); if(cur!=MAIN){ Fiber& f=F[cur]; f.asm_a=a; f.asm_n=n; memcpy(f.asm_old,(void*)a,n); } }
  if(tracing) log("asm %s%llu at %s (before: %llx)",kind==0?"load":kind==1?"store":"rmw",(unsigned long long)n*8,sym(a).c_str(),n==1?(unsigned long long)*(uint8_t*)a:n==2?*(uint16_t*)a:n==4?*(uint32_t*)a:(unsigned long long)*(uint64_t*)a); }
long mc_syscall(long n,...){ va_list ap; va_start(ap,n); u64 a[6]; for(int i=0;i<6;i++) a[i]=va_arg(ap,u64); va_end(ap); n_kcalls++;
  if(n==SYS_futex) return do_futex(a[0],(int)a[1],(u32)a[2],a[3],a[4],(u32)a[5]);
  if(n==SYS_sched_yield){ return do_sleep(1); }
  errno=ENOSYS; return -1; }
void* mc_malloc(size_t n){ return do_alloc(n,16,true);} void mc_free(void* p){ do_free(p);} void* mc_calloc(size_t a,size_t b){ void* p=do_alloc(a*b,16,true); if(p) memset(p,0,a*b); return p;}
void* mc_realloc(void* p,size_t n){ void* q=do_alloc(n,16,true); if(!q) return 0; if(p){ size_t m=0; for(auto& b: blks) if(b.a==(u64)p) m=b.n; memcpy(q,p,m<n?m:n); do_free(p);} return q; }
int mc_posix_memalign(void** r,size_t al,size_t n){ void* p=do_alloc(n,al,true); if(!p) return ENOMEM; *r=p; return 0; } void* mc_aligned_alloc(size_t al,size_t n){ return do_alloc(n,al,true);} 
void* mc_new_nt(size_t n,void*){ return do_alloc(n,16,true);} void* mc_new(size_t n){ return do_alloc(n,16,false);} void* mc_new_al(size_t n,size_t al){ return do_alloc(n,al,false);} void* mc_new_al_nt(size_t n,size_t al,void*){ return do_alloc(n,al,true);}
static void call0(void* a){ reinterpret_cast<void(*)()>(a)(); }
int mc_cxa_atexit(void(*f)(void*),void* a,void*){ (main_started?exits:exits_static).push_back(ExitFn{f,a}); return 0; }
// initialization guards of function-local statics in the library
int mc_guard_acquire(unsigned char* g){ if(!main_started||cur<0){ return g[0]?0:1; }
  for(;;){ uint64_t e=epoch(); if(a_load<uint8_t>(g,__ATOMIC_ACQUIRE)) return 0; uint8_t z=0; if(a_cas<uint8_t>(g+1,&z,1,__ATOMIC_ACQUIRE,__ATOMIC_RELAXED,false)){ if(!a_load<uint8_t>(g,__ATOMIC_ACQUIRE)) return 1; a_store<uint8_t>(g+1,0,__ATOMIC_RELEASE); return 0; } wait_change(e); } }
void mc_guard_release(unsigned char* g){ if(!main_started||cur<0){ g[0]=1; return; } a_store<uint8_t>(g,1,__ATOMIC_RELEASE); a_store<uint8_t>(g+1,0,__ATOMIC_RELEASE); }
int mc_atexit(void(*f)()){ return mc_cxa_atexit(call0,(void*)f,0); }
int mc_nanosleep(const timespec* a,timespec*){ n_kcalls++; return do_sleep(a->tv_sec*1000000000ll+a->tv_nsec);} int mc_clock_nanosleep(clockid_t,int,const timespec* a,timespec*){ n_kcalls++; return do_sleep(a->tv_sec*1000000000ll+a->tv_nsec);} int mc_usleep(unsigned u){ n_kcalls++; return do_sleep(u*1000ll);} int mc_sched_yield(){ n_kcalls++; return do_sleep(1);} 
int mc_clock_gettime(clockid_t c,timespec* ts){ progress++; int64_t t=now(c); ts->tv_sec=t/1000000000; ts->tv_nsec=t%1000000000; return 0; }
int64_t mc_steady_now(){ return now(CLOCK_MONOTONIC);} int64_t mc_system_now(){ return now(CLOCK_REALTIME);} 
void mc_assert_fail(const char* e,const char* f,unsigned l,const char*){ const char* b=strrchr(f,'/'); mc::fail("assertion failed: %s (%s:%u)",e,b?b+1:f,l); }
void mc_abort(){ mc::fail("abort() called"); }
int mc_pm_init(pthread_mutex_t* m,const void*){ pm((u64)m).owner=-1; return 0; } int mc_pm_destroy(pthread_mutex_t* m){ if(pm((u64)m).owner!=-1) return EBUSY; pms.erase((u64)m); return 0; }
int mc_pm_lock(pthread_mutex_t* m){ n_kcalls++; if(cur!=MAIN && pm((u64)m).owner==cur) mc::fail("relocking a mutex already owned by the thread"); m_lock((u64)m); return 0; }
int mc_pm_trylock(pthread_mutex_t* m){ n_kcalls++; u64 a=(u64)m; Fiber& f=F[cur]; bool skip=cur!=MAIN && f.sp_addr==a && f.sp_cnt>=SPIN_FREE; if(!skip) point(mk(K_MTRY,a,8,true)); if(pm(a).owner!=-1){ if(f.sp_addr==a) f.sp_cnt++; else { f.sp_addr=a; f.sp_val=0; f.sp_cnt=1; } log("mutex_trylock busy"); return EBUSY; } f.sp_cnt=0; f.sp_addr=0; m_acquired(a); log("mutex_trylock ok"); return 0; }
int mc_pm_unlock(pthread_mutex_t* m){ point(mk(K_MUNLOCK,(u64)m,8,true)); if(pm((u64)m).owner!=cur) mc::fail("unlock of a mutex not owned"); m_release((u64)m); log("mutex_unlock"); return 0; }
int mc_ca_init(void* a){ pattrs[(u64)a]=CLOCK_REALTIME; return 0; } int mc_ca_destroy(void* a){ pattrs.erase((u64)a); return 0; } int mc_ca_setclock(void* a,clockid_t c){ if(c!=CLOCK_REALTIME&&c!=CLOCK_MONOTONIC) return EINVAL; pattrs[(u64)a]=c; return 0; }
int mc_pc_init(pthread_cond_t* c,const void* a){ PC p; p.clk=a?pattrs[(u64)a]:CLOCK_REALTIME; pcs[(u64)c]=p; return 0; }
int mc_pc_destroy(pthread_cond_t* c){ for(auto& w: waiters) if(w.key==((u64)c|1)) mc::fail("condition variable destroyed while a thread waits on it"); pcs.erase((u64)c); return 0; }
int mc_pc_wait(pthread_cond_t* c,pthread_mutex_t* m){ int r=cond_wait((u64)c,(u64)m,false,0); return r==ETIMEDOUT?ETIMEDOUT:0; }
int mc_pc_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const timespec* ts){ if(ts->tv_nsec<0||ts->tv_nsec>=1000000000){ if(++n_inval>20) fail("the library keeps calling a timed condition wait with a malformed timeout"); return EINVAL; } int clk=CLOCK_REALTIME; auto it=pcs.find((u64)c); if(it!=pcs.end()) clk=it->second.clk; return cond_wait((u64)c,(u64)m,true,ts2mono(ts,clk)); }
int mc_pc_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t clk,const timespec* ts){ if(ts->tv_nsec<0||ts->tv_nsec>=1000000000){ if(++n_inval>20) fail("the library keeps calling a timed condition wait with a malformed timeout"); return EINVAL; } if(clk!=CLOCK_REALTIME&&clk!=CLOCK_MONOTONIC) return EINVAL; return cond_wait((u64)c,(u64)m,true,ts2mono(ts,clk)); }
int mc_pc_signal(pthread_cond_t* c){ n_kcalls++; return cond_signal((u64)c,false);} int mc_pc_broadcast(pthread_cond_t* c){ n_kcalls++; return cond_signal((u64)c,true);} 
}
asm(R"(
.text
.macro HOOK name kind n
.globl \name
\name:
  pushq %rax
  pushq %rcx
  pushq %rdx
  pushq %rsi
  pushq %rdi
  pushq %r8
  pushq %r9
  pushq %r10
  pushq %r11
  pushq %rbp
  movq %rsp, %rbp
  subq $1024, %rsp
  andq $-64, %rsp
  fxsave64 (%rsp)
  vmovdqu %ymm0, 512(%rsp)
  vmovdqu %ymm1, 544(%rsp)
  vmovdqu %ymm2, 576(%rsp)
  vmovdqu %ymm3, 608(%rsp)
  cld
  movq $\n, %rsi
  movq $\kind, %rdx
  call mc_asm_access
  vmovdqu 512(%rsp), %ymm0
  vmovdqu 544(%rsp), %ymm1
  vmovdqu 576(%rsp), %ymm2
  vmovdqu 608(%rsp), %ymm3
  fxrstor64 (%rsp)
  movq %rbp, %rsp
  popq %rbp
  popq %r11
  popq %r10
  popq %r9
  popq %r8
  popq %rdi
  popq %rsi
  popq %rdx
  popq %rcx
  popq %rax
  ret
.endm
HOOK mc_asm_ld_1 0 1
HOOK mc_asm_ld_2 0 2
HOOK mc_asm_ld_4 0 4
HOOK mc_asm_ld_8 0 8
HOOK mc_asm_ld_16 0 16
HOOK mc_asm_st_1 1 1
HOOK mc_asm_st_2 1 2
HOOK mc_asm_st_4 1 4
HOOK mc_asm_st_8 1 8
HOOK mc_asm_st_16 1 16
HOOK mc_asm_rmw_1 2 1
HOOK mc_asm_rmw_2 2 2
HOOK mc_asm_rmw_4 2 4
HOOK mc_asm_rmw_8 2 8
HOOK mc_asm_rmw_16 2 16
HOOK mc_asm_nrmw_1 3 1
HOOK mc_asm_nrmw_2 3 2
HOOK mc_asm_nrmw_4 3 4
HOOK mc_asm_nrmw_8 3 8
HOOK mc_asm_nrmw_16 3 16
)");

// ------------------------------------------------------------------ driver
namespace mc {
struct ResultRec { volatile int state; int idx; u64 execs,sleepb,trans,maxlen,outcomes,states,abs; int capped; char msg[1024]; int pb; int nch; int done; double secs; };
static ResultRec* results; static volatile int* next_idx;
static double nowd(){ timeval tv; gettimeofday(&tv,0); return tv.tv_sec+tv.tv_usec*1e-6; }
static double t_end=1e18;
static std::string outdir=".";
static const char* prop="X";
static u64 last_progress; static int stall;
static void on_crash(int sig){ if(violated==false){ snprintf(vmsg,sizeof vmsg,"crash: signal %d in the code under test",sig); violated=true; if(tracing){ trace+="VIOLATION: "; trace+=vmsg; trace+="\n"; } } aborted=true;
  sigset_t s; sigemptyset(&s); sigaddset(&s,sig); sigprocmask(SIG_UNBLOCK,&s,0);
  Ctx d; if(cur==MAIN) mc_switch(&d,&esc_ret); else mc_switch(&d,&sched_ctx); }
static void on_alarm(int){ if(progress==last_progress){ if(++stall>=4){ stall=0; if(NT>0||cur!=MAIN){ snprintf(vmsg,sizeof vmsg,"hang: code under test runs without any visible operation"); violated=true; aborted=true; sigset_t s; sigemptyset(&s); sigaddset(&s,SIGALRM); sigprocmask(SIG_UNBLOCK,&s,0); Ctx d; if(cur==MAIN) mc_switch(&d,&esc_ret); else mc_switch(&d,&sched_ctx); } } } else { stall=0; last_progress=progress; } }
// two mappings of one memory object; every worker process has its own
static void mapmem(){
  int fd=memfd_create("mc",0); if(ftruncate(fd,amap_n)){} amap[0]=(char*)mmap((void*)0x210000000000ull,amap_n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,fd,0); amap[1]=(char*)mmap((void*)0x218000000000ull,amap_n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,fd,0); close(fd); }
static void setup(){
  arena=(char*)mmap((void*)0x200000000000ull,ARENA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE,-1,0);
  mapmem();
  ct.c=(Cell*)calloc(CellTab::N,sizeof(Cell)); syncs=(Sync*)calloc(NS,sizeof(Sync)); skey=(u64*)calloc(NS,8);
  for(int t=0;t<MAXT;t++){ F[t].stksz=1<<17; F[t].stk=(char*)mmap(0,F[t].stksz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); }
  esc_stk=(char*)mmap(0,1<<18,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
  size_t n=__stop_mcstate-__start_mcstate, nl=__stop_mclib-__start_mclib; snap=(char*)malloc(n+1); snaplib=(char*)malloc(nl+1);
  mc_register();
  memcpy(snap,__start_mcstate,n); memcpy(snaplib,__start_mclib,nl);
  states_set=new std::unordered_set<u64>;
}
static void sigs(){ stack_t ss; ss.ss_sp=mmap(0,1<<16,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); ss.ss_size=1<<16; ss.ss_flags=0; sigaltstack(&ss,0); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=on_crash; sa.sa_flags=SA_ONSTACK|SA_NODEFER; sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0); sigaction(SIGILL,&sa,0); sigaction(SIGFPE,&sa,0); sigaction(SIGTRAP,&sa,0);
  struct sigaction sb; memset(&sb,0,sizeof sb); sb.sa_handler=on_alarm; sb.sa_flags=SA_ONSTACK; sigaction(SIGALRM,&sb,0); struct itimerval it; it.it_interval.tv_sec=1; it.it_interval.tv_usec=0; it.it_value=it.it_interval; setitimer(ITIMER_REAL,&it,0); }

static bool replay_run(std::vector<int> const& ch, bool tr, std::string& msg){ replaying=true; tracing=tr; replay_choices=ch; Stats st; memset(&st,0,sizeof st); one_exec(st); replaying=false; msg=vmsg; return violated; }

static double capscale=1; static int pbplus=0;
static void explore(int i){
  Scn cs=scns[i]; S=&cs; int passes=0; again: ResultRec& r=results[i]; Stats st; memset(&st,0,sizeof st); stk.clear(); outset.clear(); states_set->clear(); tracing=false; replaying=false; double t0=nowd();
  bool bad=false; bool capped=false; passes++;
  for(;;){ one_exec(st); 
    if(violated){ bad=true; break; }
    if(sleep_blocked) st.sleepb++; else st.execs++;
    if(pos!=stk.size()) internal_error("prefix not fully replayed");
    if(!backtrack()) break;
    if((double)(st.execs+st.sleepb)>=S->o.max_execs*capscale*(cs.o.mode==PB?30:1)){ capped=true; break; }
    if(((st.execs+st.sleepb)&255)==0 && nowd()>t_end){ capped=true; break; } }
  if(capped && !bad && cs.o.mode==AUTO && passes==1 && nowd()<t_end){ r.execs+=st.execs; r.trans+=st.trans; r.states+=st.nodes; cs.o.mode=PB; cs.o.pb+=pbplus; r.pb=cs.o.pb+1; goto again; }
  r.execs+=st.execs; r.sleepb=st.sleepb; r.trans+=st.trans; r.maxlen=st.maxlen; r.outcomes=outset.size(); r.states+=st.nodes; r.abs=states_set->size(); r.capped=capped; r.secs=nowd()-t0;
  if(bad){ std::vector<int> ch=made; std::string m0=vmsg, m1, m2; bool v1=replay_run(ch,true,m1); std::string tr=trace; bool v2=replay_run(ch,false,m2); tracing=false;
    if(!v1||!v2||m1!=m0||m2!=m0){ fprintf(stderr,"MC-INTERNAL-ERROR: violation does not replay: '%s' / '%s' / '%s' (%s)\n",m0.c_str(),m1.c_str(),m2.c_str(),S->name); r.state=4; snprintf(r.msg,sizeof r.msg,"unreplayable: %s",m0.c_str()); return; }
    snprintf(r.msg,sizeof r.msg,"%s",m0.c_str());
    std::string path=outdir+"/"+prop+"-"+std::to_string(i)+".replay"; FILE* f=fopen(path.c_str(),"w"); if(f){ fprintf(f,"scenario %s\nchoices",S->name); for(int c: ch) fprintf(f," %d",c); fprintf(f,"\n# %s\n# trace:\n",m0.c_str()); size_t b=0; while(b<tr.size()){ size_t e=tr.find('\n',b); if(e==std::string::npos) e=tr.size(); fprintf(f,"# %s\n",tr.substr(b,e-b).c_str()); b=e+1; } fclose(f); }
    r.state=2; return; }
  r.state=capped?3:1;
}
static void jstr(FILE* f,const char* s){ fputc('"',f); for(;*s;s++){ if(*s=='"'||*s=='\\') fputc('\\',f); if((unsigned char)*s<32) fputc(' ',f); else fputc(*s,f);} fputc('"',f); }
} // namespace mc

int main(int argc,char** argv){ mc::main_started=true;
  int jobs=8; const char* rep=0; const char* filter=0; const char* jout=0; double budget=1e9; bool list=false; bool stopfirst=true;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="--jobs") jobs=atoi(argv[++i]); else if(a=="--replay") rep=argv[++i]; else if(a=="--filter") filter=argv[++i]; else if(a=="--json") jout=argv[++i]; else if(a=="--budget") budget=atof(argv[++i]); else if(a=="--out") outdir=argv[++i]; else if(a=="--prop") prop=argv[++i]; else if(a=="--list") list=true; else if(a=="--cap-scale") capscale=atof(argv[++i]); else if(a=="--pb-plus") pbplus=atoi(argv[++i]); else if(a=="--all") stopfirst=false; }
  setup();
  if(filter){ std::vector<Scn> s2; for(auto& s: scns) if(strstr(s.name,filter)) s2.push_back(s); scns=s2; }
  if(list){ for(auto& s: scns) printf("%s\n",s.name); return 0; }
  if(rep){ FILE* f=fopen(rep,"r"); if(!f) return 2; char nm[512]; if(fscanf(f,"scenario %511[^\n]\nchoices",nm)!=1) return 2; std::vector<int> ch; int c; while(fscanf(f,"%d",&c)==1) ch.push_back(c); fclose(f); for(auto& s: scns) if(!strcmp(s.name,nm)) S=&s; if(!S){ fprintf(stderr,"no such scenario\n"); return 2; } sigs(); std::string m; bool v=replay_run(ch,true,m); printf("%s%s\n",trace.c_str(),v?("reproduced: "+m).c_str():"no violation"); return v?1:0; }
  results=(ResultRec*)mmap(0,sizeof(ResultRec)*(scns.size()+1),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); next_idx=(volatile int*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  volatile int* stopflag=next_idx+16; t_end=nowd()+budget;
  std::vector<pid_t> pids; double T0=nowd();
  for(int j=0;j<jobs;j++){ pid_t p=fork(); if(p==0){ mapmem(); sigs(); for(;;){ int i=__sync_fetch_and_add((int*)next_idx,1); if(i>=(int)scns.size()) break; if(*stopflag&&stopfirst) break; if(nowd()>t_end) continue; explore(i); results[i].done=1; if(results[i].state==2||results[i].state==4) *stopflag=1; } _exit(0); } pids.push_back(p); }
  int bad=0; for(pid_t p: pids){ int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)!=0) bad=1; }
  int npb=0,ndp=0; for(size_t i=0;i<scns.size();i++) if(results[i].state==1){ if(scns[i].o.mode==PB||results[i].pb) npb++; else ndp++; }
  u64 ex=0,sb=0,tr=0,oc=0,sts=0,ml=0; int viol=0,capped=0,skipped=0,unrep=0; int multi=0;
  for(size_t i=0;i<scns.size();i++){ auto& r=results[i]; ex+=r.execs; sb+=r.sleepb; tr+=r.trans; oc+=r.outcomes; sts+=r.states; if(r.maxlen>ml) ml=r.maxlen; if(r.state==2){ viol++; printf("MC-VIOLATION scenario=%s : %s\n  replay=%s/%s-%zu.replay\n",scns[i].name,r.msg,outdir.c_str(),prop,i); } if(r.state==4) unrep++; if(r.state==3) { capped++; } if(r.state==0&&!(*stopflag&&stopfirst)) skipped++; if(r.outcomes>1) multi++; }
  printf("MC scenarios=%zu executions=%llu sleepset_pruned=%llu transitions=%llu outcomes=%llu multi_outcome_scenarios=%d max_len=%llu dpor_complete=%d pb_complete=%d capped=%d skipped=%d violations=%d wall=%.1fs\n",scns.size(),(unsigned long long)ex,(unsigned long long)sb,(unsigned long long)tr,(unsigned long long)oc,multi,(unsigned long long)ml,ndp,npb,capped,skipped,viol,nowd()-T0);
  if(getenv("MC_VERBOSE")) for(size_t i=0;i<scns.size();i++){ auto& r=results[i]; printf("  %-60s st=%d pb=%d ex=%llu sb=%llu tr=%llu out=%llu len=%llu %.2fs\n",scns[i].name,r.state,r.pb-1,(unsigned long long)r.execs,(unsigned long long)r.sleepb,(unsigned long long)r.trans,(unsigned long long)r.outcomes,(unsigned long long)r.maxlen,r.secs); }
  if(jout){ FILE* f=fopen(jout,"w"); fprintf(f,"{\"scenarios\":%zu,\"executions\":%llu,\"pruned\":%llu,\"transitions\":%llu,\"outcomes\":%llu,\"multi\":%d,\"max_len\":%llu,\"states\":%llu,\"capped\":%d,\"skipped\":%d,\"complete_dpor\":%d,\"complete_pb\":%d,\"violations\":[",scns.size(),(unsigned long long)ex,(unsigned long long)sb,(unsigned long long)tr,(unsigned long long)oc,multi,(unsigned long long)ml,(unsigned long long)sts,capped,skipped,ndp,npb); bool first=true; for(size_t i=0;i<scns.size();i++) if(results[i].state==2){ if(!first) fputc(',',f); first=false; fprintf(f,"{\"scenario\":"); jstr(f,scns[i].name); fprintf(f,",\"msg\":"); jstr(f,results[i].msg); fprintf(f,",\"replay\":\"%s/%s-%zu.replay\"}",outdir.c_str(),prop,i); } fprintf(f,"],\"sample\":["); for(size_t i=0,k=0;i<scns.size()&&k<12;i+=std::max<size_t>(1,scns.size()/12),k++){ if(k) fputc(',',f); fprintf(f,"{\"scenario\":"); jstr(f,scns[i].name); fprintf(f,",\"executions\":%llu,\"transitions\":%llu,\"outcomes\":%llu,\"mode\":\"%s\"}",(unsigned long long)results[i].execs,(unsigned long long)results[i].trans,(unsigned long long)results[i].outcomes,results[i].capped?"capped":scns[i].o.mode==PB?"preemption-bounded":results[i].pb?"preemption-bounded (after the dpor cap)":"dpor-complete"); } fprintf(f,"]}\n"); fclose(f); }
  if(viol) return 1; if(bad||unrep) return 3; return 0;
}
