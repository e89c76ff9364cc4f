// C11: timed waits report a timeout exactly when the deadline passed with the value unchanged.
#include "clk.h"
using namespace boost;
typedef PClk<CLOCK_MONOTONIC> PM; typedef PClk<CLOCK_REALTIME> PR; typedef PClk<CLOCK_BOOTTIME> PB; typedef JClk<std::nano> JN; typedef JClk<std::milli> JM;
enum CK { C_FOR, C_STEADY, C_SYS, C_PMONO, C_PREAL, C_PBOOT, C_JN, C_JM, NCK };
static const char* ckn[]={"wait_for","wait_until(steady)","wait_until(system)","wait_until(mapped to CLOCK_MONOTONIC)","wait_until(mapped to CLOCK_REALTIME)","wait_until(mapped to CLOCK_BOOTTIME)","wait_until(own clock, ns)","wait_until(own clock, ms)"};
enum SH { ALONE, STORE_NOTIFY, STORE_ONLY, NOTIFY_ONLY, SAME_NOTIFY, ABA, JUMP_FWD, JUMP_BACK, NSH };
static const char* shn[]={"alone","store+notify","store without notify","notify without store","same value+notify","change and change back+notify","clock jumps forward","clock jumps backward"};
struct Arg { int ck, sh, mo; int64_t rel; bool differs; int clk; };
static memory_order mo(int m){ return m==0?memory_order_relaxed:m==1?memory_order_acquire:memory_order_seq_cst; }
template<class T> struct Out { unsigned v; bool tmo; int64_t start, dl; bool reached; };
template<class Clock,class X,class T> static void until(X&& x,T o,Arg const* a,Out<T>& r,bool jump){
  typename Clock::time_point n=Clock::now(); r.start=mc::now(CLOCK_MONOTONIC);
  typename Clock::time_point d=n+std::chrono::duration_cast<typename Clock::duration>(std::chrono::nanoseconds(a->rel));
  // first instant (monotonic, ns) at which Clock::now() >= d, if the clock does not jump
  typedef std::ratio_divide<typename Clock::period,std::nano> R; int64_t tickns=R::num/R::den; int64_t ticks=(d-n).count(); r.dl=r.start+ticks*tickns; if(tickns>1) r.dl=fdiv(r.start,tickns)*tickns+ticks*tickns;
  auto w=x.wait_until(o,d,mo(a->mo)); typename Clock::time_point e=Clock::now(); r.v=Val<T>::get(w.value); r.tmo=w.timeout; r.reached=e>=d; if(jump) r.reached=r.reached||mc::get(CELL_MAXNOW)>=(int64_t)d.time_since_epoch().count(); }
template<class F> static void init(const void* p){ Arg const* a=(Arg const*)p; init_obj<F>(0,a->differs?3:0); mc::set(CELL_STORE,-1); if(a->clk){ int64_t d=1000000000ll+a->rel; mc::add_instant(d-1); mc::add_instant(d); mc::add_instant(d+1); } }
template<class F> static void body(int t,const void* p){ Arg const* a=(Arg const*)p; typedef typename F::T_ T; auto&& x=obj<F>(0).ref();
  if(t==1){ switch(a->sh){
    case STORE_NOTIFY: x.store(Val<T>::mk(1),memory_order_release); mc::set(CELL_STORE,mc::now(CLOCK_MONOTONIC)); x.notify_one(); break;
    case STORE_ONLY: x.store(Val<T>::mk(1),memory_order_release); mc::set(CELL_STORE,mc::now(CLOCK_MONOTONIC)); break;
    case NOTIFY_ONLY: x.notify_all(); x.notify_one(); break;
    case SAME_NOTIFY: x.store(Val<T>::mk(0),memory_order_release); x.notify_all(); break;
    case ABA: x.store(Val<T>::mk(1),memory_order_release); x.store(Val<T>::mk(0),memory_order_release); x.notify_all(); break;
    case JUMP_FWD: case JUMP_BACK: x.load(memory_order_relaxed); mc::set(CELL_OFF,a->sh==JUMP_FWD?a->rel*2:-a->rel); x.notify_all(); break; } return; }
  Out<T> r; T o=Val<T>::mk(0); bool jc=a->ck==C_JN||a->ck==C_JM;
  switch(a->ck){
    case C_FOR: { r.start=mc::now(CLOCK_MONOTONIC); r.dl=r.start+a->rel; auto w=x.wait_for(o,std::chrono::nanoseconds(a->rel),mo(a->mo)); r.v=Val<T>::get(w.value); r.tmo=w.timeout; r.reached=mc::now(CLOCK_MONOTONIC)>=r.dl; } break;
    case C_STEADY: until<SC>(x,o,a,r,false); break; case C_SYS: until<RC>(x,o,a,r,false); break; case C_PMONO: until<PM>(x,o,a,r,false); break; case C_PREAL: until<PR>(x,o,a,r,false); break;
    case C_PBOOT: until<PB>(x,o,a,r,false); break; case C_JN: until<JN>(x,o,a,r,true); break; default: until<JM>(x,o,a,r,true); break; }
  int64_t end=mc::now(CLOCK_MONOTONIC); const char* n=ckn[a->ck];
  MC_CHECK(r.v!=~0u,"%s returned a torn value",n);
  if(r.tmo){ MC_CHECK(r.v==0,"%s reported a timeout together with the changed value %u",n,r.v); MC_CHECK(r.reached,"%s reported a timeout before the deadline (%lld ns early)",n,(long long)(r.dl-end));
    if(a->sh==STORE_NOTIFY||a->sh==STORE_ONLY){ int64_t s=mc::get(CELL_STORE); if(!jc&&s>=0) MC_CHECK(s>=r.dl,"%s reported a timeout although the value had changed before the deadline",n); } }
  else MC_CHECK(r.v!=0,"%s reported success together with the old value",n);
  if(a->differs) MC_CHECK(!r.tmo&&r.v!=0,"%s reported a timeout although the value differs from the old one",n);
  bool jumped=a->sh==JUMP_FWD||a->sh==JUMP_BACK;
  if(!a->clk&&!F::ipc){ int64_t lim=r.dl>r.start?r.dl:r.start; if(a->sh==JUMP_BACK) lim+=2*a->rel;
    MC_CHECK(end<=lim,"%s returned %lld ns after the deadline",n,(long long)(end-lim)); MC_CHECK(mc::max_kernel_deadline(0)<=lim,"%s blocked with a kernel deadline %lld ns later than requested",n,(long long)(mc::max_kernel_deadline(0)-lim)); }
  if(!a->clk&&F::ipc) MC_CHECK(end<=(r.dl>r.start?r.dl:r.start)+2000000+(jumped?a->rel*2:0),"%s kept waiting for %lld ns after the deadline",n,(long long)(end-r.dl));
  if(a->sh==ALONE&&(a->rel<=0||a->differs)) MC_CHECK(mc::kernel_blocks(0)==0,"%s blocked although %s",n,a->differs?"the value already differs":"the deadline has already passed");
  mc::outcome(r.tmo*4+r.v); mc::outcome(mc::kernel_blocks(0)); }
static void nofini(const void*){}
template<class F> static void add(const char* t,Arg a,int sp){ mc::Opts o; o.spurious=sp; o.clock=a.clk; o.max_execs=6000; mc::add(mc::fmt("%s %s<%s> %s %s rel=%lldns%s mo%d clock<=%d spurious<=%d",CFG,F::nm(),t,ckn[a.ck],shn[a.sh],(long long)a.rel,a.differs?" already different":"",a.mo,a.clk,sp),a.sh==ALONE?1:2,init<F>,body<F>,nofini,mc::keep(&a,sizeof a),o); }
template<class F> static void addF(const char* t,bool full){ bool poll=false; { F f; poll=F::ipc&&!f.ref().has_native_wait_notify(); }
  int64_t base=poll?2000:10000000; 
  for(int ck=0;ck<NCK;ck++) { if(!full&&(ck==C_PMONO||ck==C_PREAL||ck==C_PBOOT||ck==C_JM)) continue; int64_t b=base; if(ck==C_JM) b=poll?2000000:10000000;
    if(poll&&ck==C_JM) continue;
    for(int sh=0;sh<NSH;sh++) { bool j=sh==JUMP_FWD||sh==JUMP_BACK; if(j&&ck!=C_JN&&ck!=C_JM) continue;
      if(sh==ALONE){ for(int64_t r: {b,(int64_t)0,-b,(int64_t)(ck==C_JM?1000000:1)}) for(bool d: {false,true}) add<F>(t,Arg{ck,sh,ck%3,r,d,0},d?0:1); continue; }
      for(int clk: {0,1}) { if(poll&&clk&&!full) continue; for(int sp: {0,1}) { if(sp&&(!full||clk)) continue; if(j&&(clk||sp)) continue; add<F>(t,Arg{ck,sh,(ck+sh)%3,b,false,clk},sp); } }
      if(sh==STORE_NOTIFY){ for(int64_t r: {(int64_t)0,-b}) add<F>(t,Arg{ck,sh,2,r,false,0},0); } } } }
void mc_register(){
  addF<FAtomic<unsigned>>("uint",true); addF<FAtomic<unsigned char>>("uchar",true); addF<FRef<unsigned long>>("ulong",false); addF<FAtomic<Blob<3>>>("Blob3",true); addF<FRef<Words<6>>>("Words6",false); addF<FAtomic<double>>("double",false);
#ifndef BOOST_ATOMIC_FORCE_FALLBACK
  addF<FIpc<unsigned>>("uint",true); addF<FIpcRef<unsigned short>>("ushort",false); addF<FIpc<unsigned long>>("ulong",false);
#endif
}
