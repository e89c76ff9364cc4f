// C21: internal resources are released at exit and stay usable afterwards.
#include "scn.h"
using namespace boost; typedef std::chrono::steady_clock SC;
enum { IDLE, BLOCKED_ACROSS, ARRIVE_AFTER, TWO_ACROSS, SEQ_BEFORE, SEQ_AFTER, OPS_AFTER, TIMED_ACROSS, EXIT_TWICE, FIRST_WAIT_RACE, CROSS, NSH };
static const char* shn[]={"exit after waits","waiter blocked across exit","waiter arrives around exit","two waiters on two objects across exit","several waits, then exit","waits only after exit","operations and notifications around exit","timed waiter across exit","waits after exit, then a second round of handlers","first waits race with each other","waiters before and after exit on different objects"}; static int shthr[]={2,2,2,3,2,2,2,2,2,3,3};
struct Arg { int sh; };
template<class F> static void W(int i,unsigned old){ typedef typename F::T_ T; T v=obj<F>(i).ref().wait(Val<T>::mk(old),memory_order_acquire); unsigned g=Val<T>::get(v); MC_CHECK(g!=~0u&&g!=old,"indefinite wait returned the old value"); mc::outcome(g); }
template<class F> static void SN(int i,unsigned v,bool all){ typedef typename F::T_ T; auto&& x=obj<F>(i).ref(); x.store(Val<T>::mk(v),memory_order_release); if(all) x.notify_all(); else x.notify_one(); }
template<class F> static void init(const void*){ for(int i=0;i<3;i++) init_obj<F>(i,0); }
template<class F> static void body(int t,const void* p){ Arg const* a=(Arg const*)p; typedef typename F::T_ T; typedef Val<T> V; auto&& x=obj<F>(0).ref();
  switch(a->sh){
  case IDLE: if(t==0) W<F>(0,0); else SN<F>(0,1,false); break;                                    // exit happens in fini
  case BLOCKED_ACROSS: if(t==0) W<F>(0,0); else { MC_AWAIT(mc::blocked(0)); mc::run_atexit(); SN<F>(0,1,false); } break;
  case ARRIVE_AFTER: if(t==0){ W<F>(0,0); W<F>(0,1); } else { mc::run_atexit(); SN<F>(0,1,false); SN<F>(0,2,true); } break;
  case TWO_ACROSS: if(t<2) W<F>(t,0); else { mc::run_atexit(); SN<F>(0,1,false); SN<F>(1,1,true); } break;
  case SEQ_BEFORE: if(t==0){ W<F>(0,0); W<F>(1,0); W<F>(2,0); } else { SN<F>(2,1,false); SN<F>(0,1,false); SN<F>(1,1,false); mc::run_atexit(); } break;
  case SEQ_AFTER: if(t==0){ mc::run_atexit(); W<F>(0,0); W<F>(1,0); } else { SN<F>(0,1,false); SN<F>(1,1,false); } break;
  case OPS_AFTER: if(t==0){ mc::run_atexit(); x.notify_all(); MC_CHECK(V::get(x.exchange(V::mk(3)))<=2,"lost value"); W<F>(0,0); x.notify_one(); } else { x.notify_one(); x.load(); T e=V::mk(0); x.compare_exchange_strong(e,V::mk(2)); x.notify_all(); } break;
  case TIMED_ACROSS: if(t==0){ auto r=x.wait_until(V::mk(0),SC::now()+std::chrono::milliseconds(5)); MC_CHECK(r.timeout==(V::get(r.value)==0),"inconsistent timed wait"); mc::outcome(r.timeout); } else { mc::run_atexit(); SN<F>(0,1,false); } break;
  case EXIT_TWICE: if(t==0){ W<F>(0,0); mc::run_atexit(); W<F>(1,0); mc::run_atexit(); W<F>(2,0); } else { SN<F>(0,1,false); SN<F>(1,1,false); SN<F>(2,1,true); } break;
  case FIRST_WAIT_RACE: if(t<2) W<F>(t,0); else { SN<F>(0,1,false); SN<F>(1,1,false); } break;
  case CROSS: if(t==0){ W<F>(0,0); SN<F>(1,1,true); W<F>(2,0); } else if(t==1){ W<F>(1,0); mc::run_atexit(); SN<F>(2,1,true); } else SN<F>(0,1,false); break;
  } }
// at the very end nobody waits: all memory must be gone once the handlers ran
static void fini(const void*){ mc::run_atexit(); MC_CHECK(mc::live_allocs()==0,"%d allocations were not released at exit",mc::live_allocs()); }
template<class F> static void addF(const char* t,bool full){ for(int s=0;s<NSH;s++) for(int sp=0;sp<2;sp++){ if(sp&&!full) continue; Arg a={s}; mc::Opts o; o.spurious=sp; o.clock=s==TIMED_ACROSS; o.max_execs=shthr[s]>2?4000:20000; o.pb=shthr[s]>2||sp?1:2; if(s==BLOCKED_ACROSS) o.mode=mc::PB; mc::add(mc::fmt("%s %s<%s> %s spurious<=%d",CFG,F::nm(),t,shn[s],sp),shthr[s],init<F>,body<F>,fini,mc::keep(&a,sizeof a),o); } }
// sequential histories: n distinct objects waited on (timed out) in a row or nested growth, then exit
void mc_register(){
  addF<FAtomic<unsigned char>>("uchar",true); addF<FRef<Words<6>>>("Words6",true); addF<FRef<unsigned long>>("ulong",false); addF<FAtomic<Blob<3>>>("Blob3",false); addF<FAtomic<unsigned>>("uint",false);
}
