// C20: allocation failures and adverse kernel answers (interruption, would-block, spurious success) at any point.
#include "clk.h"
using namespace boost;
enum { ONE, TWO_SAME, TWO_OBJ, TIMED_LONG, TIMED_SHORT, NOTIFY_NOTHING, SEQ_WAITS, THREE_OBJ, MIXED, NSH, CLOCKED };
static const char* shn[]={"one waiter","two waiters on one object","two objects","long timed wait","timed wait that may expire","notifications without change","three waits in a row","three objects (bookkeeping grows)","timed and indefinite waiter on one object"}; static int shthr[]={2,3,3,2,2,2,2,4,3};
struct Arg { int sh; bool al; int clk, store; int64_t frac, ns; };
template<class F> static void W(int i,unsigned old){ typedef typename F::T_ T; T v=obj<F>(i).ref().wait(Val<T>::mk(old),memory_order_acquire); unsigned g=Val<T>::get(v); MC_CHECK(g!=~0u&&g!=old,"indefinite wait returned the old value"); mc::outcome(g); }
template<class F> static void WT(int i,unsigned old,int64_t ns,bool must){ typedef typename F::T_ T; auto d=SC::now()+std::chrono::nanoseconds(ns); auto r=obj<F>(i).ref().wait_until(Val<T>::mk(old),d,memory_order_acquire); unsigned g=Val<T>::get(r.value); bool reached=SC::now()>=d;
  if(r.timeout){ MC_CHECK(g==old,"timeout with a changed value"); MC_CHECK(reached,"false timeout: the deadline was not reached"); MC_CHECK(!must,"slept until the deadline although notified"); } else MC_CHECK(g!=old,"success with the old value"); 
  mc::outcome(r.timeout); }
// a timed wait against each kind of clock; the deadline lies within the current second or just beyond it
template<class F,class R,class NOW> static void judge(R const& r,NOW reached){ unsigned g=Val<typename F::T_>::get(r.value); if(r.timeout){ MC_CHECK(g==0,"timeout with a changed value"); MC_CHECK(reached,"false timeout: the deadline was not reached"); } else MC_CHECK(g==1,"success with the old value"); mc::outcome(r.timeout); }
template<class F,class C> static void WC(int64_t ns){ typedef typename F::T_ T; auto d=C::now()+std::chrono::nanoseconds(ns); auto r=obj<F>(0).ref().wait_until(Val<T>::mk(0),d,memory_order_acquire); judge<F>(r,C::now()>=d); }
template<class F> static void clocked(Arg const* a){ typedef typename F::T_ T; switch(a->clk){ case 0: WC<F,SC>(a->ns); break; case 1: WC<F,RC>(a->ns); break; case 2: WC<F,PClk<CLOCK_MONOTONIC>>(a->ns); break; case 3: WC<F,PClk<CLOCK_REALTIME>>(a->ns); break; case 4: WC<F,JClk<std::nano>>(a->ns); break;
  case 5: { int64_t b=mc::now(CLOCK_MONOTONIC); auto r=obj<F>(0).ref().wait_for(Val<T>::mk(0),std::chrono::nanoseconds(a->ns),memory_order_acquire); judge<F>(r,mc::now(CLOCK_MONOTONIC)>=b+a->ns); break; } } }
template<class F> static void SN(int i,unsigned v,bool all){ typedef typename F::T_ T; auto&& x=obj<F>(i).ref(); x.store(Val<T>::mk(v),memory_order_release); if(all) x.notify_all(); else x.notify_one(); }
template<class F> static void init(const void* p){ Arg const* a=(Arg const*)p; if(a->sh==CLOCKED) mc::set_now(7000000000ll+a->frac,1000000000ll*1700000000); for(int i=0;i<3;i++) init_obj<F>(i,0); }
template<class F> static void body(int t,const void* p){ Arg const* a=(Arg const*)p; auto&& x=obj<F>(0).ref(); (void)x;
  switch(a->sh){
  case ONE: if(t==0) W<F>(0,0); else SN<F>(0,1,false); break;
  case TWO_SAME: if(t<2) W<F>(0,0); else SN<F>(0,1,true); break;
  case TWO_OBJ: if(t<2) W<F>(t,0); else { SN<F>(1,1,false); SN<F>(0,1,false); } break;
  case TIMED_LONG: if(t==0) WT<F>(0,0,3600000000000ll,true); else SN<F>(0,1,false); break;
  case TIMED_SHORT: if(t==0) WT<F>(0,0,a->al?3000:5000000,false); else SN<F>(0,1,false); break;
  case NOTIFY_NOTHING: if(t==0) W<F>(0,0); else { x.notify_all(); SN<F>(0,0,false); SN<F>(0,1,true); } break;
  case SEQ_WAITS: if(t==0){ W<F>(0,0); W<F>(1,0); W<F>(2,0); } else { SN<F>(0,1,false); SN<F>(1,1,true); SN<F>(2,1,false); } break;
  case THREE_OBJ: if(t<3) W<F>(t,0); else { SN<F>(0,1,false); SN<F>(1,1,false); SN<F>(2,1,false); } break;
  case CLOCKED: if(t==0) clocked<F>(a); else if(a->store) SN<F>(0,1,false); break;
  case MIXED: if(t==0) W<F>(0,0); else if(t==1) WT<F>(0,0,3600000000000ll,true); else SN<F>(0,1,true); break;
  } }
static void fini(const void*){ mc::run_atexit(); MC_CHECK(mc::live_allocs()==0,"%d allocations leaked",mc::live_allocs()); }
template<class F> static void addF(const char* t,bool full){ for(int s=0;s<NSH;s++) for(int al=0;al<=4;al+=s==THREE_OBJ||s==SEQ_WAITS?2:1) for(int sp=0;sp<3;sp++){ if(!al&&!sp) continue; if(al>2&&sp) continue; if(!full&&(sp==2||al==3)) continue; if(shthr[s]>2&&sp==2) continue; if(shthr[s]>3&&(sp&&al)) continue;
  Arg a={}; a.sh=s; a.al=al>0; mc::Opts o; o.alloc=al; o.spurious=sp; o.max_execs=shthr[s]>2?2500:5000; o.clock=s==TIMED_SHORT; o.pb=shthr[s]>2?1:2; if(shthr[s]>3){ o.mode=mc::PB; o.pb=1; o.max_execs=600; } if((s==SEQ_WAITS&&sp)||(sp==2&&(s==NOTIFY_NOTHING||s==TIMED_SHORT))){ o.mode=mc::PB; o.pb=1; }
  mc::add(mc::fmt("%s %s<%s> %s alloc failures<=%d kernel answers<=%d",CFG,F::nm(),t,shn[s],al,sp),shthr[s],init<F>,body<F>,fini,mc::keep(&a,sizeof a),o); }
  static const char* cn[]={"steady_clock","system_clock","monotonic posix clock","realtime posix clock","unmapped clock","wait_for"};
  for(int c=0;c<6;c++) for(int st=0;st<2;st++) for(int fr=0;fr<3;fr++) for(int al=0;al<=2;al++) for(int sp=0;sp<2;sp++){ if(!al&&!sp) continue; if(!full&&(sp||fr==1)) continue; if(st&&(fr||al==2)) continue; Arg a={}; a.sh=CLOCKED; a.al=al>0; a.clk=c; a.store=st; a.frac=fr==0?1000000:fr==1?999998500:999999999; a.ns=2500; mc::Opts o; o.alloc=al; o.spurious=sp; o.pb=st?1:2; o.max_execs=2000; if(st) o.mode=mc::PB;
   mc::add(mc::fmt("%s %s<%s> timed wait (%s) at .%09lld s%s alloc failures<=%d kernel answers<=%d",CFG,F::nm(),t,cn[c],(long long)a.frac,st?" and store+notify":"",al,sp),1+st,init<F>,body<F>,fini,mc::keep(&a,sizeof a),o); } }
void mc_register(){
  addF<FAtomic<unsigned char>>("uchar",true); addF<FRef<Words<6>>>("Words6",true); addF<FAtomic<unsigned>>("uint",false); addF<FRef<unsigned long>>("ulong",false);
#ifndef BOOST_ATOMIC_FORCE_FALLBACK
  addF<FIpc<unsigned>>("uint",false);
#endif
}
