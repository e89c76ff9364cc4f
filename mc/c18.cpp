// C18: deadlines convert exactly for every clock, duration and magnitude.
#include "clk.h"
#include <limits>
using namespace boost;
typedef PClk<CLOCK_MONOTONIC> PM; typedef PClk<CLOCK_REALTIME> PR; typedef PClk<CLOCK_BOOTTIME> PB;
typedef std::ratio<1,3> third; typedef std::ratio<7,3> seven_thirds; typedef std::ratio<1,1000000000000> pico; typedef std::ratio<1,60> frame;
struct DClk { typedef double rep; typedef std::ratio<1> period; typedef std::chrono::duration<double> duration; typedef std::chrono::time_point<DClk> time_point; static constexpr bool is_steady=true; static time_point now() noexcept { return time_point(duration((double)mc::now(CLOCK_MONOTONIC)/1e9)); } };
enum HELP { ALONE, HELPER };
struct Arg { int64_t v; int rel; int help; int64_t mono, off; const char* what; };
// W: performs one wait and checks it.  F flavour.
template<class F> static void init(const void* p){ Arg const* a=(Arg const*)p; init_obj<F>(0,0); mc::set_now(a->mono,1700000000000000000ll); mc::set(CELL_OFF,a->off); }
template<class F> static void helper(){ typedef typename F::T_ T; auto&& x=obj<F>(0).ref(); x.store(Val<T>::mk(1),memory_order_release); x.notify_all(); }
static void common(Arg const* a,bool tmo,unsigned v,bool reached,const char* n){
  MC_CHECK(mc::invalid_timeouts()==0,"%s %s: a malformed timeout was handed to the kernel",n,a->what);
  if(tmo){ MC_CHECK(v==0,"%s %s: timeout with a changed value",n,a->what); MC_CHECK(reached,"%s %s: timeout reported before the deadline",n,a->what); } else { MC_CHECK(v!=0,"%s %s: success with the old value",n,a->what); MC_CHECK(a->help==HELPER,"%s %s: value changed by nobody",n,a->what); }
  mc::outcome(tmo*2+v); }
// absolute deadline given as Clock::now() + v ticks (rel) or as an absolute tick count; Dur = duration type of the time point
template<class F,class Clock,class Dur> struct U { typedef typename F::T_ T;
  static void body(int t,const void* p){ Arg const* a=(Arg const*)p; if(t==1){ helper<F>(); return; } auto&& x=obj<F>(0).ref(); T o=Val<T>::mk(0);
    auto n=Clock::now(); typedef std::chrono::time_point<Clock,Dur> TP; TP d; if(a->rel) d=TP(std::chrono::duration_cast<Dur>(n.time_since_epoch())+Dur((typename Dur::rep)a->v)); else d=TP(Dur((typename Dur::rep)a->v));
    int64_t start=mc::now(CLOCK_MONOTONIC); bool past=n>=d; auto w=x.wait_until(o,d,memory_order_acquire); auto e=Clock::now(); common(a,w.timeout,Val<T>::get(w.value),e>=d,"wait_until");
    int64_t end=mc::now(CLOCK_MONOTONIC);
    if(past&&a->help==ALONE){ MC_CHECK(mc::kernel_blocks(0)==0&&w.timeout,"wait_until %s: blocked on a deadline in the past",a->what); MC_CHECK(end==start||F::ipc,"wait_until %s: time passed in a wait with an expired deadline",a->what); }
    if(w.timeout&&!past&&end>start&&!F::ipc){ // not overly late: one nanosecond (the kernel's resolution) before `end` the deadline must not have been reached
      typedef std::ratio_divide<typename Clock::period,std::nano> Q; int64_t tick=Q::num<=Q::den?0:(Q::num+Q::den-1)/Q::den; /* one tick of the clock may be lost in reading it */
      mc::set_now(end-2-tick,1700000000000000000ll); auto b=Clock::now(); mc::set_now(end,1700000000000000000ll); MC_CHECK((b<d||end-start<=2+tick||std::is_same<Clock,DClk>::value),"wait_until %s: returned later than the deadline rounded up to a nanosecond",a->what); } }
  static void add(const char* fn,const char* cn,Arg a){ mc::Opts o; if(a.help==HELPER){ o.mode=mc::PB; o.pb=1; } a.what=mc::fmt("%s %s%lld",cn,a.rel?"now+":"",(long long)a.v); mc::add(mc::fmt("%s %s wait_until %s %s mono=%lld",CFG,fn,a.what,a.help==HELPER?"with a concurrent store+notify":"alone",(long long)a.mono),a.help==HELPER?2:1,init<F>,body,[](const void*){},mc::keep(&a,sizeof a),o); } };
template<class F,class Dur> struct R { typedef typename F::T_ T;
  static void body(int t,const void* p){ Arg const* a=(Arg const*)p; if(t==1){ helper<F>(); return; } auto&& x=obj<F>(0).ref(); T o=Val<T>::mk(0); Dur d((typename Dur::rep)a->v); int64_t s=mc::now(CLOCK_MONOTONIC);
    auto w=x.wait_for(o,d,memory_order_acquire); int64_t e=mc::now(CLOCK_MONOTONIC); typedef typename Dur::period P; typedef std::ratio_divide<P,std::nano> Q; __int128 num=(__int128)a->v*Q::num, el=(__int128)(e-s)*Q::den; bool reached=el>=num;
    common(a,w.timeout,Val<T>::get(w.value),reached,"wait_for");
    if(a->help==ALONE&&a->v<=0){ MC_CHECK(mc::kernel_blocks(0)==0,"wait_for %s: blocked on an expired duration",a->what); }
    if(w.timeout&&a->v>0&&!F::ipc) MC_CHECK(((__int128)(e-s)-1)*Q::den<num,"wait_for %s: returned later than the duration rounded up to a nanosecond",a->what);
    if(a->v<=0&&!F::ipc) MC_CHECK(e==s,"wait_for %s: time passed",a->what); }
  static void add(const char* fn,const char* cn,Arg a){ mc::Opts o; if(a.help==HELPER){ o.mode=mc::PB; o.pb=1; } a.rel=1; a.what=mc::fmt("%s %lld",cn,(long long)a.v); mc::add(mc::fmt("%s %s wait_for %s %s mono=%lld",CFG,fn,a.what,a.help==HELPER?"with a concurrent store+notify":"alone",(long long)a.mono),a.help==HELPER?2:1,init<F>,body,[](const void*){},mc::keep(&a,sizeof a),o); } };

static const int64_t MX=std::numeric_limits<int64_t>::max(), MN=std::numeric_limits<int64_t>::min();
template<class F> static void addF(const char* fn){ bool poll; { F f; poll=F::ipc&&!f.ref().has_native_wait_notify(); }
  static const int64_t monos[]={1,999999999ll,1000000000ll,1234567890123456789ll}; static const int64_t relns[]={0,1,2,999,1000000,999999999ll,1000000000ll,1000000001ll,1999999999ll,3600000000000ll,86400000000000ll*365*50,-1,-999999999ll,-1000000000ll,-1000000001ll,-3600000000000ll};
  for(int64_t m: monos) {
    for(int64_t r: relns) { if(poll&&r>3000) continue; if(m>1000000000000000000ll&&r>1000000000000000ll) continue; Arg a={r,1,ALONE,m,0,0};
      U<F,SC,SC::duration>::add(fn,"steady ns",a); U<F,RC,RC::duration>::add(fn,"system ns",a); U<F,PM,PM::duration>::add(fn,"mapped(monotonic) ns",a); U<F,PR,PR::duration>::add(fn,"mapped(realtime) ns",a); U<F,PB,PB::duration>::add(fn,"mapped(boottime) ns",a);
      U<F,JClk<std::nano>,std::chrono::nanoseconds>::add(fn,"own ns",a); { Arg b=a; b.off=-m-5; U<F,JClk<std::nano>,std::chrono::nanoseconds>::add(fn,"own ns, before its epoch",b); }
      R<F,std::chrono::nanoseconds>::add(fn,"ns",a); }
    for(int64_t r: {(int64_t)1,(int64_t)2,(int64_t)3,(int64_t)7,(int64_t)59,(int64_t)1000,(int64_t)0,(int64_t)-1,(int64_t)-1000}) { Arg a={r,1,ALONE,m,0,0}; bool small=m<10000000;
      if(!poll){ U<F,SC,std::chrono::seconds>::add(fn,"steady s",a); U<F,SC,std::chrono::milliseconds>::add(fn,"steady ms",a); U<F,RC,std::chrono::microseconds>::add(fn,"system us",a); U<F,RC,std::chrono::minutes>::add(fn,"system min",a); U<F,RC,std::chrono::hours>::add(fn,"system h",a);
        R<F,std::chrono::microseconds>::add(fn,"us",a); R<F,std::chrono::milliseconds>::add(fn,"ms",a); R<F,std::chrono::seconds>::add(fn,"s",a); R<F,std::chrono::minutes>::add(fn,"min",a); R<F,std::chrono::hours>::add(fn,"h",a); R<F,std::chrono::duration<int>>::add(fn,"s(int)",a); R<F,std::chrono::duration<short,std::milli>>::add(fn,"ms(short)",a);
        U<F,JClk<std::milli>,std::chrono::milliseconds>::add(fn,"own ms",a); U<F,JClk<third>,std::chrono::duration<int64_t,third>>::add(fn,"own 1/3 s",a); U<F,JClk<frame>,std::chrono::duration<int64_t,frame>>::add(fn,"own 1/60 s",a); U<F,JClk<seven_thirds>,std::chrono::duration<int64_t,seven_thirds>>::add(fn,"own 7/3 s",a);
        { Arg b=a; b.off=-m-5; U<F,JClk<third>,std::chrono::duration<int64_t,third>>::add(fn,"own 1/3 s, before its epoch",b); } }
      if(small||m<2000000000ll) { Arg b=a; if(m<1000000) U<F,JClk<pico>,std::chrono::duration<int64_t,pico>>::add(fn,"own ps",b); else { b.off=-m; U<F,JClk<pico>,std::chrono::duration<int64_t,pico>>::add(fn,"own ps",b); b.off=-m-3; U<F,JClk<pico>,std::chrono::duration<int64_t,pico>>::add(fn,"own ps, before its epoch",b); } }
      if(!poll&&m<2000000000ll) U<F,DClk,std::chrono::duration<double>>::add(fn,"own double s",a); }
    // sub-resolution and floating point durations
    for(int64_t r: {(int64_t)1,(int64_t)2,(int64_t)499,(int64_t)999,(int64_t)1000,(int64_t)1001,(int64_t)1500,(int64_t)2500,(int64_t)0,(int64_t)-1,(int64_t)-500,(int64_t)-999,(int64_t)-1000,(int64_t)-1500,(int64_t)-2500}) { Arg a={r,1,ALONE,m,0,0}; R<F,std::chrono::duration<int64_t,pico>>::add(fn,"ps",a); R<F,std::chrono::duration<double,pico>>::add(fn,"ps(double)",a);
      if(poll) continue; R<F,std::chrono::duration<double,std::micro>>::add(fn,"us(double)",a); R<F,std::chrono::duration<float,std::milli>>::add(fn,"ms(float)",a); R<F,std::chrono::duration<int64_t,std::ratio<1,4000>>>::add(fn,"1/4000 s",a); }
    // coarse durations that do not fit in 64 bits of nanoseconds
    for(int64_t v: {(int64_t)MX,(int64_t)(MX-1),(int64_t)(MX/2),(int64_t)(MX/1000+1),(int64_t)(MX/1000+2),(int64_t)(MX/1000000+1)}) { Arg a={v,1,HELPER,m,0,0}; if(v>=MX/1000) R<F,std::chrono::microseconds>::add(fn,"us",a); R<F,std::chrono::milliseconds>::add(fn,"ms",a); R<F,std::chrono::seconds>::add(fn,"s",a); R<F,std::chrono::minutes>::add(fn,"min",a); R<F,std::chrono::hours>::add(fn,"h",a);
      R<F,std::chrono::duration<double>>::add(fn,"s(double)",a); R<F,std::chrono::duration<float,std::ratio<3600>>>::add(fn,"h(float)",a); R<F,std::chrono::duration<int64_t,std::ratio<31536000ll>>>::add(fn,"years",a); if(v>=MX/2) R<F,std::chrono::duration<int64_t,pico>>::add(fn,"ps",a); }
    for(int64_t v: {(int64_t)MN,(int64_t)(MN+1),(int64_t)(MN/2),(int64_t)(MN/1000-1),(int64_t)(MN/1000000-1)}) { Arg a={v,1,ALONE,m,0,0}; R<F,std::chrono::nanoseconds>::add(fn,"ns",a); R<F,std::chrono::microseconds>::add(fn,"us",a); R<F,std::chrono::milliseconds>::add(fn,"ms",a); R<F,std::chrono::seconds>::add(fn,"s",a); R<F,std::chrono::hours>::add(fn,"h",a); R<F,std::chrono::duration<double>>::add(fn,"s(double)",a); R<F,std::chrono::duration<float,std::ratio<3600>>>::add(fn,"h(float)",a); R<F,std::chrono::duration<int64_t,pico>>::add(fn,"ps",a); }
    // absolute extremes: long past
    for(int64_t v: {(int64_t)0,(int64_t)-1,(int64_t)1,(int64_t)-999999999ll,(int64_t)-1000000000ll,(int64_t)-1000000001ll,(int64_t)-1500000000ll,(int64_t)(MN/2),(int64_t)MN}) { Arg a={v,0,ALONE,m,0,0}; if(v==1&&m<=1) continue;
      U<F,RC,RC::duration>::add(fn,"system ns (absolute)",a); U<F,PR,PR::duration>::add(fn,"mapped(realtime) ns (absolute)",a); if(v>MN/2||m<10) { if(v!=MN){ U<F,SC,SC::duration>::add(fn,"steady ns (absolute)",a); Arg b=a; b.off=-m; if(v<0) U<F,JClk<std::nano>,std::chrono::nanoseconds>::add(fn,"own ns (absolute)",b); } } if(v<-8000000000ll) { U<F,PM,PM::duration>::add(fn,"mapped(monotonic) ns (absolute)",a); } }
    // far future
    for(int64_t v: {(int64_t)MX,(int64_t)(MX-1),(int64_t)(MX-999999999ll),(int64_t)(MX/2)}) { Arg a={v,0,HELPER,m,0,0}; U<F,RC,RC::duration>::add(fn,"system ns (absolute)",a); U<F,PR,PR::duration>::add(fn,"mapped(realtime) ns (absolute)",a); U<F,SC,SC::duration>::add(fn,"steady ns (absolute)",a); U<F,PM,PM::duration>::add(fn,"mapped(monotonic) ns (absolute)",a);
      { Arg b=a; b.off=-m; U<F,JClk<std::nano>,std::chrono::nanoseconds>::add(fn,"own ns (absolute)",b); }
      { Arg b=a; b.v=v; R<F,std::chrono::nanoseconds>::add(fn,"ns",b); } // relative: the longest representable duration means 'far in the future'
      // sums that stay representable
      { Arg b=a; b.v=v-m-5000000000ll; R<F,std::chrono::nanoseconds>::add(fn,"ns",b); b.v=(v-m-5000000000ll)/1000; R<F,std::chrono::microseconds>::add(fn,"us",b); b.v/=1000; R<F,std::chrono::milliseconds>::add(fn,"ms",b); b.v/=1000; R<F,std::chrono::seconds>::add(fn,"s",b); b.v/=60; R<F,std::chrono::minutes>::add(fn,"min",b); b.v/=60; R<F,std::chrono::hours>::add(fn,"h",b); }
      { Arg b=a; b.v=(v-m)/1000000; U<F,JClk<std::milli>,std::chrono::milliseconds>::add(fn,"own ms (absolute)",b); b.v=v/1000000000ll; U<F,RC,std::chrono::seconds>::add(fn,"system s (absolute)",b); b.v/=3600; U<F,RC,std::chrono::hours>::add(fn,"system h (absolute)",b); } }
  } }
void mc_register(){
  addF<FAtomic<unsigned>>("atomic<uint>"); addF<FAtomic<unsigned char>>("atomic<uchar>");
#ifndef BOOST_ATOMIC_FORCE_FALLBACK
  addF<FIpc<unsigned>>("ipc_atomic<uint>"); addF<FIpc<unsigned long>>("ipc_atomic<ulong>"); addF<FRef<Blob<5>>>("atomic_ref<Blob5>");
#endif
}
