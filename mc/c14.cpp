// C14: inter-process objects accessed through two mappings of the same memory. Thread t uses mapping t%2 (or (t+1)%2).
#include "linmat.h"
#include <chrono>
using namespace boost; typedef std::chrono::steady_clock SC; typedef std::chrono::system_clock RC;
enum { CELL_SWAP = 8 };
static size_t mapping(){ return mc::self()>=mc::MAXT ? 0 : (size_t)((mc::self()+mc::get(CELL_SWAP))&1); }
static char* at(size_t i){ size_t n; return (char*)mc::alias_map((int)mapping(),&n)+i*256; }
template<class F> static size_t idx(F* f){ return (size_t)((unsigned char*)f-slot(0))/256; }
// the flavour object in slot() only stands for slot i of the shared memory
template<class T> struct MAtomic { typedef T T_; enum { is_ref=0, ipc=1 }; typedef ipc_atomic<T> A; MAtomic(){ new (at(idx(this))) A(T()); } A& ref(){ return *(A*)at(idx(this)); } void* addr(){ return at(idx(this)); } size_t size(){ return sizeof(A); } static const char* nm(){ return "ipc_atomic"; } };
template<class T> struct MRef { typedef T T_; enum { is_ref=1, ipc=1 }; MRef(){ memset(at(idx(this)),0,sizeof(T)); } ipc_atomic_ref<T> ref(){ return ipc_atomic_ref<T>(*(T*)at(idx(this))); } void* addr(){ return at(idx(this)); } size_t size(){ return sizeof(T); } static const char* nm(){ return "ipc_atomic_ref"; } };
static void clean(){ MC_CHECK(mc::lock_traffic()==0,"an inter-process object used process-private state of the library"); MC_CHECK(mc::futex_private_ops()==0,"an inter-process object used a process-private futex"); MC_CHECK(mc::alloc_calls()==0,"an inter-process operation allocated process-private memory"); }
// ---- linearizability across mappings
template<class F> struct LinM : Lin<F> { static void fini(const void* v){ Lin<F>::fini(v); clean(); }
  static void add(const char* t,Prog const& p){ char s[256]; int n=0; for(int i=0;i<p.nthr;i++){ n+=snprintf(s+n,sizeof s-n,i?" || ":" "); for(int k=0;k<p.n[i];k++) n+=snprintf(s+n,sizeof s-n,"%s%s(%u)",k?";":"",opname(p.ops[i][k].op),p.ops[i][k].a); }
    mc::add(mc::fmt("%s %s<%s> two mappings:%s mo%d",CFG,F::nm(),t,s,p.mo),p.nthr,Lin<F>::init,Lin<F>::body,fini,mc::keep(&p,sizeof p),tri()); } };
template<class F> static void lin(const char* t,const int* ops,int n){ int k=0; for(int i=0;i<n;i++) for(int j: {ops[i],(int)XCHG,(int)CAS_S,(int)LOAD}) { LinM<F>::add(t,prog(mos[k++%6],5,{{mkop(ops[i],1)},{mkop(j,2),mkop(LOAD,1)}})); }  for(int i=0;i<n;i++) if(writes(ops[i])) LinM<F>::add(t,prog(4,50,{{mkop(ops[i],1)},{mkop(ops[i],2)},{mkop(XCHG,2)}})); }
// ---- waits
enum { W_ONE, W_PAYLOAD, W_ALL2, W_ONE2, W_UNTIL, W_FOR, W_UNTIL_RT, W_PINGPONG, W_TWOOBJ, W_EXPIRE, W_CHAIN, W_CASNOTIFY, NSH };
static const char* shn[]={"wait / notify_one","wait publishes data","two waiters / notify_all","two waiters / two notify_one","wait_until / notify_one","wait_for / notify_all","wait_until (system clock) / notify_one","ping-pong","two objects","timed wait expires or is notified","chain through both mappings","compare_exchange + notify"}; static int shthr[]={2,2,3,3,2,2,2,2,3,2,3,2};
struct Arg { int sh; int swap; };
static int* payload(){ return (int*)at(3); }
static const Arg* cura(const void* p){ return (const Arg*)p; }
template<class F> static void init(const void* p){ mc::set(CELL_SWAP,cura(p)->swap); for(int i=0;i<2;i++) init_obj<F>(i,0); *payload()=0; }
template<class F> static void W(int i,unsigned old){ typedef typename F::T_ T; T v=obj<F>(i).ref().wait(Val<T>::mk(old),memory_order_acquire); unsigned g=Val<T>::get(v); MC_CHECK(g!=~0u&&g!=old,"indefinite wait returned the old value"); mc::outcome(g); }
template<class F> static void SN(int i,unsigned v,bool all){ typedef typename F::T_ T; auto&& x=obj<F>(i).ref(); x.store(Val<T>::mk(v),memory_order_release); if(all) x.notify_all(); else x.notify_one(); }
template<class R> static void noto(R const& r,unsigned g,unsigned old){ MC_CHECK(r.timeout==(g==old),"timeout=%d but value %u",(int)r.timeout,g); MC_CHECK(!r.timeout,"an hour long wait timed out although notified"); }
template<class F> static void body(int t,const void* p){ Arg const* a=cura(p); typedef typename F::T_ T; typedef Val<T> V; auto&& x=obj<F>(0).ref(); (void)x; const std::chrono::hours h(1);
  switch(a->sh){
  case W_ONE: if(t==0) W<F>(0,0); else SN<F>(0,1,false); break;
  case W_PAYLOAD: if(t==0){ W<F>(0,0); MC_CHECK(*payload()==42,"data not visible"); } else { *payload()=42; SN<F>(0,1,false); } break;
  case W_ALL2: if(t<2) W<F>(0,0); else SN<F>(0,1,true); break;
  case W_ONE2: if(t<2) W<F>(0,0); else { SN<F>(0,1,false); x.notify_one(); } break;
  case W_UNTIL: if(t==0){ auto r=x.wait_until(V::mk(0),SC::now()+h,memory_order_acquire); noto(r,V::get(r.value),0); } else SN<F>(0,1,false); break;
  case W_FOR: if(t==0){ auto r=x.wait_for(V::mk(0),h,memory_order_acquire); noto(r,V::get(r.value),0); } else SN<F>(0,1,true); break;
  case W_UNTIL_RT: if(t==0){ auto r=x.wait_until(V::mk(0),RC::now()+h,memory_order_acquire); noto(r,V::get(r.value),0); } else SN<F>(0,1,false); break;
  case W_PINGPONG: for(unsigned k=0;k<2;k++){ if(t==0){ SN<F>(0,k+1,false); if(k<1) W<F>(1,k); } else { W<F>(0,k); SN<F>(1,k+1,false); } } break;
  case W_TWOOBJ: if(t<2) W<F>(t,0); else { SN<F>(1,1,false); SN<F>(0,1,false); } break;
  case W_EXPIRE: if(t==0){ auto d=SC::now()+std::chrono::milliseconds(5); auto r=x.wait_until(V::mk(0),d); MC_CHECK(r.timeout==(V::get(r.value)==0),"inconsistent result"); if(r.timeout) MC_CHECK(SC::now()>=d,"early timeout"); mc::outcome(r.timeout); } else SN<F>(0,1,false); break;
  case W_CHAIN: if(t==0){ W<F>(0,0); SN<F>(1,1,true); } else if(t==1) W<F>(1,0); else SN<F>(0,1,true); break;
  case W_CASNOTIFY: if(t==0) W<F>(0,0); else { T e=V::mk(0); MC_CHECK(x.compare_exchange_strong(e,V::mk(2)),"compare_exchange failed"); x.notify_all(); MC_CHECK(V::get(x.exchange(V::mk(3)))==2,"lost value"); x.notify_one(); } break;
  } }
static void fini(const void*){ clean(); }
template<class F> static void waits(const char* t,bool full){ for(int s=0;s<NSH;s++) for(int sw=0;sw<2;sw++) for(int sp=0;sp<(full?2:1);sp++){ Arg a={s,sw}; mc::Opts o; o.spurious=sp; o.clock=s==W_EXPIRE; o.max_execs=4000; o.pb=shthr[s]>2?1:2; mc::add(mc::fmt("%s %s<%s> %s%s spurious<=%d",CFG,F::nm(),t,shn[s],sw?" (swapped)":"",sp),shthr[s],init<F>,body<F>,fini,mc::keep(&a,sizeof a),o); } }
// ---- flags
struct MFlag { static ipc_atomic_flag& get(size_t i){ return *(ipc_atomic_flag*)at(i); } };
enum { FL_LOCK, FL_WAIT, FL_TAS, FL_WAITFOR, FL_BOTHWAIT, NFL }; static const char* fln[]={"spin lock","wait / clear + notify_one","concurrent test_and_set","wait_for / test_and_set + notify_all","two waiters"}; static int flthr[]={2,2,3,2,3};
static void finit(const void* p){ backend_init(); mc::set(CELL_SWAP,cura(p)->swap); new (at(0)) ipc_atomic_flag(); new (at(1)) ipc_atomic_flag(); mc::atomic_region(at(0),sizeof(ipc_atomic_flag)); mc::atomic_region(at(1),sizeof(ipc_atomic_flag)); *payload()=0; if(cura(p)->sh==FL_WAIT||cura(p)->sh==FL_BOTHWAIT) MFlag::get(0).test_and_set(); }
static void fbody(int t,const void* p){ ipc_atomic_flag& f=MFlag::get(0); switch(cura(p)->sh){
  case FL_LOCK: MC_AWAIT(!f.test_and_set(memory_order_acquire)); *payload()=*payload()+1; f.clear(memory_order_release); break;
  case FL_WAIT: if(t==0){ MC_CHECK(!f.wait(true,memory_order_acquire),"wait returned the old state"); MC_CHECK(*payload()==1,"data not visible"); } else { *payload()=1; f.clear(memory_order_release); f.notify_one(); } break;
  case FL_TAS: if(!f.test_and_set()) *payload()=*payload()+1; break;
  case FL_WAITFOR: if(t==0){ auto r=f.wait_for(false,std::chrono::hours(1),memory_order_acquire); MC_CHECK(!r.timeout&&r.value,"timed out although notified"); } else { MC_CHECK(!f.test_and_set(memory_order_release),"flag was clear"); f.notify_all(); } break;
  case FL_BOTHWAIT: if(t<2) MC_CHECK(!f.wait(true),"old state"); else { f.clear(); f.notify_all(); } break; } }
static void ffini(const void* p){ clean(); int v=*payload(); switch(cura(p)->sh){ case FL_LOCK: MC_CHECK(v==2,"lost update under the spin lock"); break; case FL_TAS: MC_CHECK(v==1,"%d threads acquired the flag",v); break; default:; } }
void mc_register(){ int ints[NOPS]; for(int i=0;i<NOPS;i++) ints[i]=i; int fp[17]; for(int i=0;i<9;i++) fp[i]=GEN[i]; for(int i=0;i<8;i++) fp[9+i]=FP[i]; int pt[23]; for(int i=0;i<9;i++) pt[i]=GEN[i]; for(int i=0;i<14;i++) pt[9+i]=PT[i];
#ifdef ONLY16
#if defined(BOOST_HAS_INT128)
  lin<MAtomic<unsigned __int128>>("uint128",ints,NOPS);
#endif
  lin<MRef<Words<4>>>("Words4",GEN,9); waits<MAtomic<Words<4>>>("Words4",true); waits<MRef<Words<4>>>("Words4",false); waits<MAtomic<Words<3>>>("Words3",false);
#else
  lin<MAtomic<unsigned char>>("uchar",ints,NOPS); lin<MRef<short>>("short",ints,NOPS); lin<MAtomic<int>>("int",ints,NOPS); lin<MRef<unsigned>>("uint",ints,NOPS); lin<MAtomic<unsigned long>>("ulong",ints,NOPS); lin<MRef<double>>("double",fp,17); lin<MAtomic<float>>("float",fp,17); lin<MAtomic<int*>>("int*",pt,23); lin<MAtomic<Blob<3>>>("Blob3",GEN,9); lin<MRef<Words<2>>>("Words2",GEN,9);
  waits<MAtomic<unsigned char>>("uchar",true); waits<MRef<short>>("short",false); waits<MAtomic<int>>("int",true); waits<MRef<unsigned>>("uint",true); waits<MAtomic<unsigned long>>("ulong",true); waits<MRef<double>>("double",false); waits<MAtomic<int*>>("int*",false); waits<MAtomic<Blob<3>>>("Blob3",false); waits<MRef<Words<2>>>("Words2",false); waits<MAtomic<float>>("float",false); waits<MRef<unsigned char>>("uchar",false); waits<MAtomic<short>>("short",false);
#endif
  for(int s=0;s<NFL;s++) for(int sw=0;sw<2;sw++){ Arg a={s,sw}; mc::Opts o; mc::add(mc::fmt("%s ipc_atomic_flag %s%s",CFG,fln[s],sw?" (swapped)":""),flthr[s],finit,fbody,ffini,mc::keep(&a,sizeof a),o); }
}
