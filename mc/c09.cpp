// C09: no wake-up is ever lost.
#include "scn.h"
using namespace boost;
typedef std::chrono::steady_clock SC;
enum WK { WAIT, WAIT_FOR, WAIT_UNTIL, WAIT_UNTIL_SYS };
static const char* wkn[]={"wait","wait_for","wait_until","wait_until(system)"};
struct Arg { int wk; int shape; int mo; int place; };
static int g_done[4];

template<class F> static void do_wait(int tid, Arg const* a, unsigned old, int i=0) {
  typedef typename F::T_ T; auto&& x=obj<F>(i).ref(); T o=Val<T>::mk(old); T v; bool tmo=false;
  memory_order mo = a->mo==0?memory_order_relaxed:a->mo==1?memory_order_acquire:memory_order_seq_cst;
  switch(a->wk){
    case WAIT: v=x.wait(o,mo); break;
    case WAIT_FOR: { auto r=x.wait_for(o,std::chrono::hours(1),mo); v=r.value; tmo=r.timeout; } break;
    case WAIT_UNTIL: { auto r=x.wait_until(o,SC::now()+std::chrono::hours(1),mo); v=r.value; tmo=r.timeout; } break;
    default: { auto r=x.wait_until(o,std::chrono::system_clock::now()+std::chrono::hours(1),mo); v=r.value; tmo=r.timeout; } break;
  }
  unsigned got=Val<T>::get(v);
  MC_CHECK(!tmo, "%s reported a timeout although the object was changed and notified", wkn[a->wk]);
  MC_CHECK(mc::timeouts_fired()==0, "wake-up lost: %s ended only because its deadline passed", wkn[a->wk]);
  MC_CHECK(got!=old, "%s returned the old value %u", wkn[a->wk], got);
  mc::outcome(got*8+mc::kernel_blocks(tid));
}
template<class F> static void init(const void* p) { if(((Arg const*)p)->place>=0) place(((Arg const*)p)->place); for(int i=0;i<2;i++) init_obj<F>(i,0); for(int& d: g_done) d=0; }
template<class F> static void fini(const void*) { MC_CHECK(mc::timeouts_fired()==0,"a kernel timeout fired although every waiter was notified"); }
template<class F> static void change(int how, unsigned v, int i=0) { typedef typename F::T_ T; auto&& x=obj<F>(i).ref(); T t=Val<T>::mk(v);
  switch(how){ case 0: x.store(t,memory_order_release); break; case 1: x.exchange(t,memory_order_acq_rel); break; case 2: { T e=x.load(memory_order_relaxed); while(!x.compare_exchange_weak(e,t,memory_order_relaxed)); } break; case 3: x.store(t,memory_order_relaxed); break; } }

// shapes
enum { ONE_STORE_N1, ONE_STORE_NALL, ONE_XCHG_N1, ONE_CAS_N1, TWO_NALL, TWO_N1N1, TWO_NOTIFIERS, SPURIOUS_NOTIFY, N1_MINIMAL, WAITER_CHAIN, ONE_RELAXED, REWAIT, THREE_NALL, THREE_N1, TWO_W_TWO_N, MIXED_NALL, TWO_OBJ };
static const char* shn[]={"1w/store/notify_one","1w/store/notify_all","1w/exchange/notify_one","1w/cas/notify_one","2w/store/notify_all","2w/store/notify_one*2","2w/2notifiers","1w/notify-before-change","2w/notify_one wakes at least one","chain of waiters","1w/relaxed store/notify_one","1w re-waiting","3w/store/notify_all","3w/store/notify_one*3","2w/2 notifiers notify_one each","wait and wait_until/notify_all","2w on two objects/notify_one each"};
template<class F> static void body(int tid, const void* p) {
  Arg const* a=(Arg const*)p; auto&& x=obj<F>(0).ref();
  switch(a->shape){
  case ONE_STORE_N1: if(tid==0) do_wait<F>(tid,a,0); else { change<F>(0,1); x.notify_one(); } break;
  case ONE_STORE_NALL: if(tid==0) do_wait<F>(tid,a,0); else { change<F>(0,1); x.notify_all(); } break;
  case ONE_XCHG_N1: if(tid==0) do_wait<F>(tid,a,0); else { change<F>(1,1); x.notify_one(); } break;
  case ONE_CAS_N1: if(tid==0) do_wait<F>(tid,a,0); else { change<F>(2,1); x.notify_one(); } break;
  case ONE_RELAXED: if(tid==0) do_wait<F>(tid,a,0); else { change<F>(3,1); x.notify_one(); } break;
  case TWO_NALL: if(tid<2) do_wait<F>(tid,a,0); else { change<F>(0,1); x.notify_all(); } break;
  case TWO_N1N1: if(tid<2) do_wait<F>(tid,a,0); else { change<F>(0,1); x.notify_one(); x.notify_one(); } break;
  case TWO_NOTIFIERS: if(tid<1) do_wait<F>(tid,a,0); else { change<F>(0,tid); x.notify_one(); } break;
  case SPURIOUS_NOTIFY: if(tid==0) do_wait<F>(tid,a,0); else { x.notify_all(); change<F>(0,1); x.notify_one(); } break;
  case N1_MINIMAL: { // two waiters; the third notifies one, waits until somebody returned, then notifies the rest
    if(tid<2){ do_wait<F>(tid,a,0); __atomic_store_n(&g_done[tid],1,__ATOMIC_RELEASE); }
    else { change<F>(0,1); x.notify_one(); MC_AWAIT(__atomic_load_n(&g_done[0],__ATOMIC_ACQUIRE) || __atomic_load_n(&g_done[1],__ATOMIC_ACQUIRE)); x.notify_all(); } } break;
  case WAITER_CHAIN: // T0 waits on object 0, then changes object 1 on which T1 waits
    if(tid==0){ do_wait<F>(tid,a,0,0); change<F>(0,1,1); obj<F>(1).ref().notify_one(); } else if(tid==1) do_wait<F>(tid,a,0,1); else { change<F>(0,1,0); x.notify_one(); } break;
  case REWAIT: // the waiter waits for 0 -> 1 and then 1 -> 2
    if(tid==0){ do_wait<F>(tid,a,0); if(peek<F>()==1) do_wait<F>(tid,a,1); } else { change<F>(0,1); x.notify_one(); change<F>(0,2); x.notify_one(); } break;
  case THREE_NALL: if(tid<3) do_wait<F>(tid,a,0); else { change<F>(0,1); x.notify_all(); } break;
  case THREE_N1: if(tid<3) do_wait<F>(tid,a,0); else { change<F>(0,1); x.notify_one(); x.notify_one(); x.notify_one(); } break;
  case TWO_W_TWO_N: if(tid<2) do_wait<F>(tid,a,0); else { change<F>(tid-2,tid); x.notify_one(); } break;
  case MIXED_NALL: { Arg b=*a; b.wk=tid==0?WAIT:a->wk; if(tid<2) do_wait<F>(tid,&b,0); else { change<F>(1,1); x.notify_all(); } } break;
  case TWO_OBJ: if(tid<2) do_wait<F>(tid,a,0,tid); else for(int i=0;i<2;i++){ change<F>(0,1,i); obj<F>(i).ref().notify_one(); } break;
  }
}
static int nth(int s){ switch(s){ case TWO_NALL: case TWO_N1N1: case TWO_NOTIFIERS: case N1_MINIMAL: case WAITER_CHAIN: case MIXED_NALL: case TWO_OBJ: return 3; case THREE_NALL: case THREE_N1: case TWO_W_TWO_N: return 4; default: return 2; } }
template<class F> static void add1(const char* t, int shape, int wk, int mo, mc::Opts o, int pl=-1) { Arg a={wk,shape,mo,pl}; 
  mc::add(pl>=0?mc::fmt("%s %s<%s> %s %s mo%d at placement %d",CFG,F::nm(),t,shn[shape],wkn[wk],mo,pl):mc::fmt("%s %s<%s> %s %s mo%d %s",CFG,F::nm(),t,shn[shape],wkn[wk],mo,o.mode==mc::PB?"pb":""),nth(shape),init<F>,body<F>,fini<F>,mc::keep(&a,sizeof a),o); }
#ifdef BOOST_ATOMIC_FORCE_FALLBACK
enum { DEEP_SIZE=1 };
#else
enum { DEEP_SIZE=sizeof(Words<6>) };
#endif
template<class F> static void addF(const char* t, bool full) {
  for(int s: {ONE_STORE_N1,ONE_STORE_NALL,ONE_XCHG_N1,ONE_CAS_N1,SPURIOUS_NOTIFY,REWAIT,ONE_RELAXED}) for(int wk: {WAIT,WAIT_FOR,WAIT_UNTIL,WAIT_UNTIL_SYS}) {
    if(!full && wk==WAIT_UNTIL_SYS) continue;
    mc::Opts o; add1<F>(t,s,wk,s%3,o); }
  for(int s: {TWO_NALL,TWO_N1N1,TWO_NOTIFIERS,N1_MINIMAL,WAITER_CHAIN}) for(int wk: {WAIT,WAIT_UNTIL}) {
    mc::Opts o; add1<F>(t,s,wk,1,o); }
  if(full) { for(int wk: {WAIT_FOR,WAIT_UNTIL,WAIT_UNTIL_SYS}) { mc::Opts o; add1<F>(t,MIXED_NALL,wk,1,o); }
    for(int wk: {WAIT,WAIT_UNTIL}) { mc::Opts o; add1<F>(t,TWO_OBJ,wk,1,o); }
    for(int s: {THREE_NALL,THREE_N1,TWO_W_TWO_N}) for(int wk: {WAIT,WAIT_UNTIL}) { bool deep=(s==THREE_NALL&&wk==WAIT)||(s==TWO_W_TWO_N&&wk==WAIT_UNTIL); mc::Opts o(mc::PB,deep&&sizeof(typename F::T_)==DEEP_SIZE?2:1); add1<F>(t,s,wk,1,o); } }
}
// every placement of the object relative to the lock pool (waits and notifications take the lock in another way than other operations)
template<class F> static void everywhere(const char* t,int step){ for(int pl=0;pl<256;pl+=step) { mc::Opts o(mc::PB,1); add1<F>(t,pl/step%2?ONE_STORE_N1:ONE_XCHG_N1,pl/step%3==2?WAIT_UNTIL:WAIT,1,o,pl); } }
void mc_register() {
#if BOOST_ATOMIC_LOCK_POOL_SIZE_LOG2 > 0
  everywhere<FRef<Blob<3>>>("Blob3",1); everywhere<FAtomic<Words<6>>>("Words6",1); everywhere<FAtomic<unsigned char>>("unsigned char",2); everywhere<FRef<unsigned long>>("unsigned long",1);
#endif
#define BOTH(T) addF<FAtomic<T>>(#T,true); addF<FRef<T>>(#T,false);
  BOTH(unsigned char) BOTH(unsigned int) BOTH(unsigned long) addF<FAtomic<unsigned short>>("unsigned short",false);
  addF<FAtomic<Blob<3>>>("Blob3",true); addF<FRef<Words<6>>>("Words6",true);
#ifndef BOOST_ATOMIC_FORCE_FALLBACK
  addF<FIpc<unsigned int>>("unsigned int",true); addF<FIpc<unsigned char>>("unsigned char",false); addF<FIpcRef<unsigned long>>("unsigned long",false);
#endif
}
