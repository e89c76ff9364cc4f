// C17: lock-freedom and native-wait claims are truthful and consistent.
#include "clk.h"
#include "lin.h"
#include <boost/atomic/capabilities.hpp>
using namespace boost; typedef __int128 i128; typedef unsigned __int128 u128_;
static const char* b2s(bool b){ return b?"yes":"no"; }
// ---- 1. the constants, members and macros agree
struct Claim { const char* what; bool sa, ma, sn, mn; int lf, nat, exact; };   // static/member lock-free, static/member native wait, macros (-1: none)
static void c_init(const void*){} static void c_body(int,const void* p){ Claim const& c=*(Claim const*)p;
  MC_CHECK(!c.sa||c.ma,"is_always_lock_free is true but is_lock_free() is false"); MC_CHECK(!c.sn||c.mn,"always_has_native_wait_notify is true but has_native_wait_notify() is false");
  if(c.lf>=0){ MC_CHECK(c.lf<=2,"lock-free macro has value %d",c.lf); MC_CHECK((c.lf==2)==c.sa,"the lock-free macro is %d but is_always_lock_free is %s",c.lf,b2s(c.sa)); MC_CHECK(c.lf!=0||!c.ma,"the lock-free macro is 0 but is_lock_free() is true"); }
  if(c.nat>=0){ MC_CHECK(c.nat<=2,"native wait macro has value %d",c.nat); MC_CHECK((c.nat==2)==c.sn,"the native wait macro is %d but always_has_native_wait_notify is %s",c.nat,b2s(c.sn)); MC_CHECK(c.nat!=0||!c.mn,"the native wait macro is 0 but has_native_wait_notify() is true"); }
  mc::outcome(c.sa+2*c.sn); }
template<class A> static void claim_obj(const char* w,A const& a,int lf,int nat){ Claim c={mc::fmt("%s",w),A::is_always_lock_free,a.is_lock_free(),A::always_has_native_wait_notify,a.has_native_wait_notify(),lf,nat,0}; mc::add(mc::fmt("%s %s: claims agree",CFG,w),1,c_init,c_body,c_init,mc::keep(&c,sizeof c),mc::Opts()); }
// atomic_ref of a type with padding-free power-of-two size uses the same storage as the atomic
template<class T> static void claims(const char* t,int lf,int nat,int inat){
  static atomic<T> a{}; claim_obj(mc::fmt("atomic<%s>",t),a,lf,nat);
  { volatile atomic<T>& v=a; Claim c={"",atomic<T>::is_always_lock_free,v.is_lock_free(),atomic<T>::always_has_native_wait_notify,v.has_native_wait_notify(),lf,nat,0}; mc::add(mc::fmt("%s volatile atomic<%s>: claims agree",CFG,t),1,c_init,c_body,c_init,mc::keep(&c,sizeof c),mc::Opts()); }
  alignas(64) static T v{}; atomic_ref<T> r(v); claim_obj(mc::fmt("atomic_ref<%s>",t),r,lf,nat);
  if constexpr(atomic<T>::is_always_lock_free){ static ipc_atomic<T> i{}; claim_obj(mc::fmt("ipc_atomic<%s>",t),i,lf,inat); }
  if constexpr(atomic_ref<T>::is_always_lock_free){ ipc_atomic_ref<T> q(v); claim_obj(mc::fmt("ipc_atomic_ref<%s>",t),q,lf,inat); } }
#define MAC(T,X) claims<T>(#T,BOOST_ATOMIC_##X##_LOCK_FREE,BOOST_ATOMIC_HAS_NATIVE_##X##_WAIT_NOTIFY,BOOST_ATOMIC_HAS_NATIVE_##X##_IPC_WAIT_NOTIFY)
enum E8:uint8_t { }; enum class E32:int32_t { }; enum class E64:uint64_t { };
namespace vf { static unsigned OPT(int o){ return o>=CAS_S&&o<=CAS_W2?5u:(o==BTS||o==BTR||o==BTC)?1u:3u; } }
// ---- 2. operations on an object that is reported lock-free touch neither the internal locks nor a blocking call
#if defined(BACKEND_PLAIN)
static const bool plain_backend=true;      // the internal locks of these backends are ordered by plain instructions; only their use is of interest here
#else
static const bool plain_backend=false;
#endif
template<class F> struct LF { static bool claimed(){ typedef typename std::remove_reference<decltype(((F*)0)->ref())>::type X; return X::is_always_lock_free; } typedef typename F::T_ T; typedef Apply<T> Ap; struct Arg { int op, mo, other; };
  static void init(const void*){ init_obj<F>(0,5); }
  static void body(int t,const void* p){ Arg const& a=*(Arg const*)p; auto&& x=obj<F>(0).ref(); bool claim=std::remove_reference<decltype(x)>::type::is_always_lock_free||x.is_lock_free(); if(t==1){ Ap::run(x,a.other,6,9,boost::memory_order_seq_cst); }
    else { Ap::run(x,a.op,vf::OPT(a.op),9,mo_of(a.mo)); }
    if(claim){ MC_CHECK(mc::lock_traffic()==0,"an operation on an object reported lock-free used the internal locks"); MC_CHECK(mc::kernel_calls()==0,"an operation on an object reported lock-free called the system"); } }
  static void fini(const void*){ auto&& x=obj<F>(0).ref(); mc::outcome(mc::lock_traffic()>0); (void)x; }
  static void add(const char* t,std::initializer_list<int> ops){ for(int o: ops) for(int mo=0;mo<6;mo++) for(int th=1;th<3;th++){ if(th==2&&mo!=4) continue; if(th==2&&plain_backend&&!claimed()) continue; if(mo==5&&o!=vf::LOAD) continue; Arg a={o,mo,o==vf::STORE?(int)vf::XCHG:(int)vf::STORE}; mc::Opts q; q.weak=1; mc::add(mc::fmt("%s %s<%s> %s mo%d%s uses no locks",CFG,F::nm(),t,vf::opname(o),mo,th==2?" contended":""),th,init,body,fini,mc::keep(&a,sizeof a),q); } } };

// ---- 3. waits and notifications on an object that reports native support use no internal locks
template<class F> struct NW { typedef typename F::T_ T; typedef Val<T> V; struct Arg { int form, all, pre; };
  static void init(const void*){ init_obj<F>(0,0); }
  static void body(int t,const void* p){ Arg const& a=*(Arg const*)p; auto&& x=obj<F>(0).ref(); bool claim=std::remove_reference<decltype(x)>::type::always_has_native_wait_notify||x.has_native_wait_notify();
    if(t==0){ T o=V::mk(0); switch(a.form){ case 0: x.wait(o,boost::memory_order_acquire); break; case 1: x.wait_for(o,std::chrono::microseconds(20)); break; case 2: x.wait_until(o,SC::now()+std::chrono::microseconds(20)); break; case 3: x.wait_until(o,RC::now()+std::chrono::microseconds(20)); break; case 4: x.wait_until(o,JClk<std::nano>::now()+std::chrono::microseconds(20)); break; } }
    else { x.store(V::mk(1),boost::memory_order_release); if(a.all) x.notify_all(); else x.notify_one(); }
    if(claim) MC_CHECK(mc::lock_traffic()==0&&mc::live_allocs()==0,"waiting on an object that reports native support used the internal locks"); }
  static void fini(const void*){ mc::outcome(mc::lock_traffic()>0); }
  static void add(const char* t){ for(int f=0;f<5;f++) for(int al=0;al<2;al++) for(int sp=0;sp<2;sp++){ Arg a={f,al,0}; mc::Opts q; q.spurious=sp; q.max_execs=3000; mc::add(mc::fmt("%s %s<%s> native wait form %d %s spurious<=%d",CFG,F::nm(),t,f,al?"notify_all":"notify_one",sp),2,init,body,fini,mc::keep(&a,sizeof a),q); } } };
using namespace vf;
#define INTOPS {LOAD,STORE,XCHG,CAS_S,CAS_W,CAS_S2,CAS_W2,CONV,ASSIGN,FADD,FSUB,FAND,FOR,FXOR,FNEG,FCOMPL,ADD,SUB,NEG,AND,OR,XOR,COMPL,OADD,OSUB,ONEG,OAND,OOR,OXOR,OCOMPL,ADDT,SUBT,NEGT,ANDT,ORT,XORT,COMPLT,BTS,BTR,BTC,PREINC,POSTINC,PREDEC,POSTDEC,OPADD,OPSUB,OPAND,OPOR,OPXOR,FADD1,FSUB1,ADD1,SUB1,OADD1,OSUB1,ADDT1,SUBT1,BTSC,BTRC,BTCC,FADDK,ADDTK,OADDK,ANDK,ORK}
#define FPOPS {LOAD,STORE,XCHG,CAS_S,CAS_W,CAS_S2,CAS_W2,CONV,ASSIGN,FADD,FSUB,ADD,SUB,OADD,OSUB,OPADD,OPSUB}
#define PTROPS {LOAD,STORE,XCHG,CAS_S,CAS_W,CONV,ASSIGN,FADD,FSUB,ADD,SUB,OADD,OSUB,OPADD,OPSUB,ADDT,SUBT,PREINC,POSTINC,PREDEC,POSTDEC}
#define GENOPS {LOAD,STORE,XCHG,CAS_S,CAS_W,CAS_S2,CAS_W2,CONV,ASSIGN}
template<class T> static void all(const char* t,std::initializer_list<int> ops){
  LF<FAtomic<T>>::add(t,ops); if constexpr(atomic_ref<T>::is_always_lock_free||atomic<T>::is_always_lock_free) LF<FRefCopy<T>>::add(t,ops);
  if constexpr(atomic<T>::always_has_native_wait_notify||sizeof(T)==4) NW<FAtomic<T>>::add(t);
  if constexpr(atomic_ref<T>::always_has_native_wait_notify||sizeof(T)==4) NW<FRefCopy<T>>::add(t);
  if constexpr(atomic<T>::is_always_lock_free){ LF<FIpc<T>>::add(t,ops); if constexpr(ipc_atomic<T>::always_has_native_wait_notify) NW<FIpc<T>>::add(t); }
  if constexpr(atomic_ref<T>::is_always_lock_free){ LF<FIpcRef<T>>::add(t,GENOPS); if constexpr(ipc_atomic_ref<T>::always_has_native_wait_notify) NW<FIpcRef<T>>::add(t); } }
struct FlagArg { int op, ipc, w; };
template<class Fl> static void fl(int t,FlagArg const& a){ Fl& f=*(Fl*)slot(0); if(t==1){ f.test_and_set(boost::memory_order_release); if(a.op>2) f.notify_all(); } else switch(a.op){ case 0: f.test(boost::memory_order_acquire); break; case 1: f.test_and_set(); break; case 2: f.clear(); break; case 3: f.wait(false); break; case 4: f.wait_for(false,std::chrono::microseconds(20)); break; case 5: f.wait_until(false,RC::now()+std::chrono::microseconds(20)); break; case 6: f.notify_one(); break; }
  if(a.op<3? (Fl::is_always_lock_free||f.is_lock_free()) : (Fl::always_has_native_wait_notify||f.has_native_wait_notify())) MC_CHECK(mc::lock_traffic()==0,"a flag operation used the internal locks although reported %s",a.op<3?"lock-free":"natively waiting"); if(a.op<3&&t==0&&Fl::is_always_lock_free) MC_CHECK(mc::kernel_calls()==0,"a lock-free flag operation called the system"); }
static void fl_init(const void* p){ backend_init(); FlagArg const& a=*(FlagArg const*)p; 
#ifndef BOOST_ATOMIC_FORCE_FALLBACK
  if(a.ipc) new (slot(0)) ipc_atomic_flag(); else
#endif
  new (slot(0)) atomic_flag(); (void)a; if(atomic_flag::is_always_lock_free) mc::atomic_region(slot(0),sizeof(atomic_flag)); }
static void fl_body(int t,const void* p){ FlagArg const& a=*(FlagArg const*)p; 
#ifndef BOOST_ATOMIC_FORCE_FALLBACK
  if(a.ipc) fl<ipc_atomic_flag>(t,a); else
#endif
  fl<atomic_flag>(t,a); }
void mc_register(){
  MAC(char,CHAR); MAC(signed char,CHAR); MAC(unsigned char,CHAR); MAC(char16_t,CHAR16_T); MAC(char32_t,CHAR32_T); MAC(wchar_t,WCHAR_T); MAC(bool,BOOL); MAC(short,SHORT); MAC(unsigned short,SHORT); MAC(int,INT); MAC(unsigned,INT); MAC(long,LONG); MAC(unsigned long,LONG); MAC(long long,LLONG); MAC(unsigned long long,LLONG);
  MAC(int8_t,INT8); MAC(uint8_t,INT8); MAC(int16_t,INT16); MAC(uint16_t,INT16); MAC(int32_t,INT32); MAC(uint32_t,INT32); MAC(int64_t,INT64); MAC(uint64_t,INT64); MAC(i128,INT128); MAC(u128_,INT128);
  MAC(float,FLOAT); MAC(double,DOUBLE); MAC(long double,LONG_DOUBLE); MAC(void*,POINTER); MAC(int*,POINTER); MAC(char const*,ADDRESS); MAC(E8,INT8); MAC(E32,INT32); MAC(E64,INT64); MAC(Blob<1>,INT8);
  typedef int (*fn)(); MAC(fn,POINTER);
  claims<Blob<3>>("Blob3",-1,-1,-1); claims<Blob<5>>("Blob5",-1,-1,-1); claims<Words<3>>("Words3",-1,-1,-1); claims<Words<4>>("Words4",-1,-1,-1); claims<Words<5>>("Words5",-1,-1,-1); claims<Mixed>("Mixed",-1,-1,-1); claims<Big64>("Big64",-1,-1,-1);
  { static atomic_flag f; claim_obj("atomic_flag",f,BOOST_ATOMIC_FLAG_LOCK_FREE,BOOST_ATOMIC_HAS_NATIVE_FLAG_WAIT_NOTIFY); }
#ifndef BOOST_ATOMIC_FORCE_FALLBACK
  { static ipc_atomic_flag f; claim_obj("ipc_atomic_flag",f,BOOST_ATOMIC_FLAG_LOCK_FREE,BOOST_ATOMIC_HAS_NATIVE_FLAG_IPC_WAIT_NOTIFY); }
  { static atomic_unsigned_lock_free u; claim_obj("atomic_unsigned_lock_free",u,2,-1); static atomic_signed_lock_free s; claim_obj("atomic_signed_lock_free",s,2,-1); }
#endif
  all<uint8_t>("uint8_t",INTOPS); all<int16_t>("int16_t",INTOPS); all<uint32_t>("uint32_t",INTOPS); all<int64_t>("int64_t",INTOPS); 
  all<float>("float",FPOPS); all<double>("double",FPOPS); all<long double>("long double",FPOPS); all<int*>("int*",PTROPS); all<void*>("void*",GENOPS); all<bool>("bool",GENOPS);
  all<Blob<1>>("Blob1",GENOPS); all<Blob<2>>("Blob2",GENOPS); all<Blob<3>>("Blob3",GENOPS); all<Blob<4>>("Blob4",GENOPS); all<Blob<5>>("Blob5",GENOPS); all<Blob<8>>("Blob8",GENOPS); all<Blob<9>>("Blob9",GENOPS); all<Mixed>("Mixed",GENOPS); all<Words<3>>("Words3",GENOPS); all<Words<4>>("Words4",GENOPS); all<Words<5>>("Words5",GENOPS); all<Blob<16>>("Blob16",GENOPS); all<Big64>("Big64",GENOPS);
#ifdef CX16
  all<i128>("i128",INTOPS); all<u128_>("u128",GENOPS);
#endif
  for(int ipc=0;ipc<2;ipc++){
#ifdef BOOST_ATOMIC_FORCE_FALLBACK
    if(ipc) continue;
#endif
    for(int op=0;op<7;op++) for(int w=0;w<2;w++){ if(!w&&op==3) continue; FlagArg a={op,ipc,w}; mc::Opts q; q.spurious=1; q.max_execs=3000; mc::add(mc::fmt("%s %satomic_flag operation %d%s uses no locks",CFG,ipc?"ipc_":"",op,w?" with test_and_set+notify_all":""),1+w,fl_init,fl_body,c_init,mc::keep(&a,sizeof a),q); } }
}
