// C13: every operation completes: no deadlock, no missed lock hand-off, mutual exclusion of the internal locks.
#include "lin.h"
using namespace boost; using namespace vf;
// contention programs: emulated operations by 2-4 threads (linearizability and the happens-before race detector show broken
// mutual exclusion; a lost hand-off shows up as a deadlock)
// losing a waiter of the internal mutex takes four threads and at least three preemptions
template<class F> static void contend(const char* t,bool deep){ typedef typename F::T_ T; const bool integral=std::is_integral<T>::value; int up=integral?FADD:XCHG;
  mc::Opts d; d.max_execs=20000; mc::Opts p1(mc::PB,2); p1.max_execs=4000; mc::Opts p3(mc::PB,deep?4:3), p2(mc::PB,deep?3:2); p3.max_execs=p2.max_execs=200000; mc::Opts sp; sp.spurious=1; sp.max_execs=8000;
  Lin<F>::add(t,prog(4,1,{{{up,1,0,0},{up,2,0,0}},{{up,4,0,0},{LOAD,0,0,0}}}),d);
  Lin<F>::add(t,prog(4,1,{{{up,1,0,0}},{{up,2,0,0}},{{up,4,0,0}}}),d); Lin<F>::add(t,prog(4,1,{{{up,1,0,0}},{{up,2,0,0}},{{up,4,0,0}}}),sp);
  Lin<F>::add(t,prog(4,1,{{{up,1,0,0}},{{up,2,0,1}},{{CAS_S,1,8,0},{LOAD,0,0,1}}},2),d); Lin<F>::add(t,prog(4,1,{{{up,1,0,0}},{{up,2,0,1}},{{CAS_S,1,8,0},{LOAD,0,0,1}}},2),sp);
  Lin<F>::add(t,prog(4,1,{{{up,1,0,0}},{{up,2,0,0}},{{up,4,0,0}},{{up,8,0,0}}}),p3); { mc::Opts p5(mc::PB,1); p5.max_execs=200000; Lin<F>::add(t,prog(4,1,{{{up,1,0,0}},{{up,2,0,0}},{{up,3,0,0}},{{up,4,0,0}},{{up,8,0,0}}}),p5); }
  if(deep) Lin<F>::add(t,prog(4,1,{{{up,1,0,0},{up,16,0,0}},{{up,2,0,0},{up,32,0,0}},{{up,4,0,0},{LOAD,0,0,0}}}),p2);
  Lin<F>::add(t,prog(4,1,{{{STORE,1,0,0},{XCHG,2,0,1},{LOAD,0,0,0}},{{STORE,3,0,1},{XCHG,4,0,0},{LOAD,0,0,1}}},2),d); }
// notifications, waits and operations mixed on one lock
enum { NOTIFY_STORM, NOTIFY_VS_OPS, WAITERS_AND_OPS, TIMED_AND_OPS, SATISFIED_WAITS, PINGPONG, NSH };
static const char* shn[]={"concurrent notifications without waiters","notifications and operations","two waiters and a read-modify-writer","timed waiter and operations","waits that are already satisfied","ping-pong of two waiters"}; static int shthr[]={3,3,3,2,3,2};
struct Arg { int sh; };
template<class F> static void init(const void*){ for(int i=0;i<2;i++) init_obj<F>(i,0); }
template<class F> static void body(int t,const void* p){ typedef typename F::T_ T; typedef Val<T> V; auto&& x=obj<F>(0).ref(); auto&& y=obj<F>(1).ref();
  switch(((Arg const*)p)->sh){
  case NOTIFY_STORM: if(t==0){ x.notify_one(); y.notify_all(); } else if(t==1){ y.notify_one(); x.notify_all(); } else { x.notify_all(); x.notify_one(); } break;
  case NOTIFY_VS_OPS: if(t==0){ x.notify_one(); y.notify_all(); } else if(t==1){ y.store(V::mk(1)); x.notify_all(); } else { x.exchange(V::mk(1)); MC_CHECK(V::get(x.load())==1,"lost store"); } break;
  case WAITERS_AND_OPS: if(t<2){ T v=x.wait(V::mk(0),memory_order_acquire); MC_CHECK(V::get(v)!=0,"old value"); } else { T e=V::mk(0); while(!x.compare_exchange_weak(e,V::mk(1))) {} x.notify_all(); } break;
  case TIMED_AND_OPS: if(t==0){ auto r=x.wait_for(V::mk(0),std::chrono::milliseconds(3)); MC_CHECK(r.timeout==(V::get(r.value)==0),"inconsistent result"); mc::outcome(r.timeout); y.store(V::mk(1)); } else { y.exchange(V::mk(2)); x.notify_one(); x.exchange(V::mk(0)); y.load(); } break;
  case SATISFIED_WAITS: if(t<2){ x.wait(V::mk(7)); y.wait(V::mk(7)); } else { x.store(V::mk(1)); y.store(V::mk(1)); x.notify_one(); } break;
  case PINGPONG: for(unsigned k=0;k<2;k++){ if(t==0){ x.store(V::mk(k+1)); x.notify_one(); if(k<1) y.wait(V::mk(k)); } else { x.wait(V::mk(k)); y.store(V::mk(k+1)); y.notify_one(); } } break;
  } }
static void nofini(const void*){}
template<class F> static void mix(const char* t){ for(int s=0;s<NSH;s++) for(int sp=0;sp<2;sp++){ Arg a={s}; mc::Opts o; o.spurious=sp; o.clock=s==TIMED_AND_OPS; o.max_execs=sp?6000:20000; if(shthr[s]>2&&sp){ o.mode=mc::PB; o.pb=1; } mc::add(mc::fmt("%s %s<%s> %s spurious<=%d",CFG,F::nm(),t,shn[s],sp),shthr[s],init<F>,body<F>,nofini,mc::keep(&a,sizeof a),o); } }
void mc_register(){
#ifdef BOOST_ATOMIC_FORCE_FALLBACK
  contend<FAtomic<unsigned>>("uint",false); contend<FRef<unsigned char>>("uchar",false);
#endif
  contend<FRef<Blob<3>>>("Blob3",false); contend<FRef<Words<6>>>("Words6",true);
  mix<FAtomic<unsigned char>>("uchar"); mix<FAtomic<Blob<3>>>("Blob3"); mix<FRef<Words<6>>>("Words6"); mix<FRef<unsigned>>("uint");
}
