// C19: atomic flags.
#include "linmat.h"
#include <chrono>
using namespace boost; typedef std::chrono::steady_clock SC;
enum { NF=2, TAS=0, CLR=1, TST=2, WAITNE0=3, WAITNE1=4 };
struct Plain { typedef atomic_flag T; static const char* nm(){ return "atomic_flag"; } };
struct Ipc { typedef ipc_atomic_flag T; static const char* nm(){ return "ipc_atomic_flag"; } };
template<class K> static typename K::T& fl(int i=0){ return *(typename K::T*)slot(i); }
static int data_[4];
template<class K> static void mkflags(unsigned set){ backend_init(); for(int i=0;i<NF;i++){ auto* f=new (slot(i)) typename K::T(); if(f->is_lock_free()) mc::atomic_region(f,sizeof *f); MC_CHECK(!f->test(),"a new flag is set"); if(set>>i&1) MC_CHECK(!f->test_and_set(),"test_and_set on a new flag returned true"); } memset(data_,0,sizeof data_); }
// ---- linearizability of all programs
struct FProg { int nthr; int n[3]; unsigned char op[3][3]; unsigned char init; int mo; };
static const char* on[]={"test_and_set","clear","test"};
static bool fspec(u128* st,mc::HOp const& h,const void*){ bool s=*st!=0; switch(h.op){ case TAS: *st=1; return h.rb==(int)s; case CLR: *st=0; return true; case TST: return h.rb==(int)s; case WAITNE0: return s&&h.rb==1; case WAITNE1: return !s&&h.rb==0; } return false; }
template<class K> struct FL { static int base(FProg const& p,int t){ int b=0; for(int i=0;i<t;i++) b+=p.n[i]; return b; }
  static void init(const void* v){ FProg const& p=*(FProg const*)v; mkflags<K>(p.init); mc::h_reset(base(p,p.nthr)); }
  static void body(int t,const void* v){ FProg const& p=*(FProg const*)v; int b=base(p,t); memory_order m=mo_of(p.mo); auto& f=fl<K>(); for(int i=0;i<p.n[t];i++){ int o=p.op[t][i], r=0; mc::h_begin(b+i,o,0,0); switch(o){ case TAS: r=f.test_and_set(m); break; case CLR: f.clear(store_mo(m)); break; case TST: r=f.test(load_mo(m)); break; } mc::h_end(b+i,0,0,r); } }
  static void fini(const void* v){ FProg const& p=*(FProg const*)v; u128 i=p.init, e=fl<K>().test(); mc::outcome((uint64_t)e); if(fl<K>().is_lock_free()) MC_CHECK(mc::lock_traffic()==0,"a lock-free flag used the internal locks");
    if(!mc::linearizable(&i,1,&e,fspec,0)){ static char b[1024]; int n=0; for(int k=0;k<mc::h_count();k++){ mc::HOp& h=mc::h_ops()[k]; n+=snprintf(b+n,sizeof b-n," T%d:%s=%d",h.tid,on[h.op],h.rb); } mc::fail("not linearizable: init=%u final=%u:%s",p.init,(unsigned)e,b); } }
  static void add(FProg const& p){ char s[256]; int n=0; for(int t=0;t<p.nthr;t++){ n+=snprintf(s+n,sizeof s-n,t?" || ":" "); for(int i=0;i<p.n[t];i++) n+=snprintf(s+n,sizeof s-n,"%s%s",i?";":"",on[p.op[t][i]]); } mc::Opts o; o.max_execs=3000; mc::add(mc::fmt("%s %s init=%u mo%d%s",CFG,K::nm(),p.init,p.mo,s),p.nthr,init,body,fini,mc::keep(&p,sizeof p),o); }
  // all programs of nthr threads x len operations, up to exchanging threads
  static void all(int nthr,int len){ int per=1; for(int i=0;i<len;i++) per*=3; int k=0; int idx[3]={0,0,0}; for(;;){ bool canon=true; for(int t=1;t<nthr;t++) if(idx[t]<idx[t-1]) canon=false; if(canon) for(int in=0;in<2;in++){ FProg p; memset(&p,0,sizeof p); p.nthr=nthr; p.init=in; p.mo=(k++)%6; for(int t=0;t<nthr;t++){ p.n[t]=len; int x=idx[t]; for(int i=0;i<len;i++){ p.op[t][i]=x%3; x/=3; } } add(p); } int t=0; while(t<nthr&&++idx[t]==per) idx[t++]=0; if(t==nthr) break; } } };
// ---- sequential histories of single-thread operations, including waits that need not block
struct SArg { int depth; };
template<class K> struct Seq { static void init(const void*){ mkflags<K>(0); }
  static void one(int o,bool& s){ auto& f=fl<K>(); switch(o){
    case 0: { bool r=f.test_and_set(); MC_CHECK(r==s,"test_and_set returned %d, flag was %d",r,s); s=true; } break; case 1: f.clear(); s=false; break; case 2: MC_CHECK(f.test()==s,"test"); break;
    case 3: { bool r=f.wait(!s); MC_CHECK(r==s,"wait returned %d, flag is %d",r,s); } break; case 4: { auto r=f.wait_for(s,std::chrono::nanoseconds(0)); MC_CHECK(r.timeout&&r.value==s,"wait_for: value=%d timeout=%d, flag is %d",(int)r.value,(int)r.timeout,(int)s); } break;
    case 5: { auto r=f.wait_until(!s,SC::now()+std::chrono::hours(1)); MC_CHECK(!r.timeout&&r.value==s,"wait_until: value=%d timeout=%d, flag is %d",(int)r.value,(int)r.timeout,(int)s); } break; case 6: f.notify_one(); f.notify_all(); break; } }
  static void body(int,const void* v){ SArg const& a=*(SArg const*)v; bool s=false; for(int i=0;i<a.depth;i++) one(mc::choose(7),s); MC_CHECK(fl<K>().test()==s,"final state"); mc::outcome(s); }
  static void fini(const void*){} static void all(int depth){ SArg a={depth}; mc::Opts o(mc::PB,0); o.max_execs=1000000; mc::add(mc::fmt("%s %s all single-thread histories of %d operations",CFG,K::nm(),depth),1,init,body,fini,mc::keep(&a,sizeof a),o); } };
// ---- programs
enum { SPIN2, SPIN3, SPINTEST, WAITLOCK2, WAITLOCK3, HANDOVER, PUB_TAS_TEST, PUB_TAS_TAS, PUB_CLR_TEST, PUB_CLR_TAS, PUB_WAIT_SET, PUB_WAIT_CLR, PUB_WFOR, PUB_WUNTIL, ALLWAIT, TWOFLAGS, EXPIRE, NOCHANGE, PUB_FENCE, PUB_RELSEQ, NSH };
static const char* shn[]={"spin lock, 2 threads","spin lock, 3 threads","test-and-test-and-set lock","waiting lock, 2 threads","waiting lock, 3 threads","turn taking on two flags","test_and_set(release) seen by test(acquire)","test_and_set(release) seen by test_and_set(acquire)","clear(release) seen by test(acquire)","clear(release) seen by test_and_set(acquire)","set published through wait","clear published through wait","wait_for publishes","wait_until publishes","two waiters, notify_all","waiters on two flags","timed wait may expire","notifications without change, then a change","relaxed flag with fences","release sequence through test_and_set"}; static int shthr[]={2,3,2,2,3,2,2,2,2,2,2,2,2,2,3,3,2,2,2,3};
struct Arg { int sh; int mo; };
template<class K> static void init(const void* p){ int s=((Arg const*)p)->sh; unsigned set=(s==PUB_CLR_TEST||s==PUB_CLR_TAS||s==PUB_WAIT_CLR||s==ALLWAIT)?1:(s==TWOFLAGS)?2:s==HANDOVER?2:0; mkflags<K>(set); }
static const memory_order ACQ[]={memory_order_acquire,memory_order_seq_cst,memory_order_acq_rel,memory_order_consume};
static const memory_order REL[]={memory_order_release,memory_order_seq_cst,memory_order_acq_rel,memory_order_release};
template<class K> static void body(int t,const void* v){ Arg const& a=*(Arg const*)v; auto& f=fl<K>(0); auto& g=fl<K>(1); memory_order ra=ACQ[a.mo], wr=REL[a.mo]; memory_order la=load_mo(ra), sr=store_mo(wr);
  switch(a.sh){
  case SPIN2: case SPIN3: MC_AWAIT(!f.test_and_set(ra)); data_[0]=data_[0]+1; MC_CHECK(!data_[1],"two threads in the critical section"); data_[1]=1; data_[1]=0; f.clear(sr); break;
  case SPINTEST: MC_AWAIT(!f.test(memory_order_relaxed)&&!f.test_and_set(ra)); data_[0]=data_[0]+1; f.clear(sr); break;
  case WAITLOCK2: case WAITLOCK3: while(f.test_and_set(ra)) f.wait(true,memory_order_relaxed); data_[0]=data_[0]+1; f.clear(sr); f.notify_one(); break;
  case HANDOVER: for(int k=0;k<2;k++){ auto& mine=t?g:f; auto& other=t?f:g; (void)other; /* t's turn when its flag is clear */ mine.wait(true,la); data_[0]=data_[0]*2+t; mine.test_and_set(memory_order_relaxed); other.clear(sr); other.notify_one(); } break;
  case PUB_TAS_TEST: if(t==0){ data_[0]=7; MC_CHECK(!f.test_and_set(wr),"was clear"); } else if(f.test(la)) MC_CHECK(data_[0]==7,"stale"); break;
  case PUB_TAS_TAS: if(t==0){ data_[0]=7; f.test_and_set(wr); } else if(f.test_and_set(ra)) MC_CHECK(data_[0]==7,"stale"); break;
  case PUB_CLR_TEST: if(t==0){ data_[0]=7; f.clear(sr); } else if(!f.test(la)) MC_CHECK(data_[0]==7,"stale"); break;
  case PUB_CLR_TAS: if(t==0){ data_[0]=7; f.clear(sr); } else if(!f.test_and_set(ra)) MC_CHECK(data_[0]==7,"stale"); break;
  case PUB_WAIT_SET: if(t==0){ data_[0]=7; f.test_and_set(wr); f.notify_one(); } else { MC_CHECK(f.wait(false,la),"wait returned the old state"); MC_CHECK(data_[0]==7,"stale"); } break;
  case PUB_WAIT_CLR: if(t==0){ data_[0]=7; f.clear(sr); f.notify_all(); } else { MC_CHECK(!f.wait(true,la),"wait returned the old state"); MC_CHECK(data_[0]==7,"stale"); } break;
  case PUB_WFOR: if(t==0){ data_[0]=7; f.test_and_set(wr); f.notify_one(); } else { auto r=f.wait_for(false,std::chrono::hours(1),la); MC_CHECK(!r.timeout&&r.value,"timed out although notified"); MC_CHECK(data_[0]==7,"stale"); } break;
  case PUB_WUNTIL: if(t==0){ data_[0]=7; f.test_and_set(wr); f.notify_all(); } else { auto r=f.wait_until(false,SC::now()+std::chrono::hours(1),la); MC_CHECK(!r.timeout&&r.value,"timed out although notified"); MC_CHECK(data_[0]==7,"stale"); } break;
  case ALLWAIT: if(t<2) MC_CHECK(!f.wait(true,la),"old state"); else { f.clear(sr); f.notify_all(); } break;
  case TWOFLAGS: if(t==0) MC_CHECK(f.wait(false,la),"old state"); else if(t==1) MC_CHECK(!g.wait(true,la),"old state"); else { g.clear(sr); g.notify_one(); f.test_and_set(wr); f.notify_one(); } break;
  case EXPIRE: if(t==0){ auto d=SC::now()+std::chrono::milliseconds(4); auto r=f.wait_until(false,d,la); MC_CHECK(r.timeout==!r.value,"value=%d timeout=%d",(int)r.value,(int)r.timeout); if(r.timeout) MC_CHECK(SC::now()>=d,"timed out early"); mc::outcome(r.timeout); } else { f.test_and_set(wr); f.notify_one(); } break;
  case NOCHANGE: if(t==0) MC_CHECK(f.wait(false,la),"returned without a change"); else { f.notify_all(); f.clear(); f.notify_one(); f.test_and_set(wr); f.notify_one(); } break;
  case PUB_FENCE: if(t==0){ data_[0]=7; atomic_thread_fence(a.mo==3?memory_order_release:wr); f.test_and_set(memory_order_relaxed); } else if(f.test(memory_order_relaxed)){ atomic_thread_fence(ra); MC_CHECK(data_[0]==7,"stale"); } break;
  case PUB_RELSEQ: if(t==0){ data_[0]=7; f.test_and_set(wr); } else if(t==1){ g.test_and_set(memory_order_relaxed); f.test_and_set(memory_order_relaxed); } else { bool second=g.test(memory_order_relaxed); if(!second&&f.test(la)&&!g.test(memory_order_relaxed)) MC_CHECK(data_[0]==7,"stale"); } break;
  } }
template<class K> static void fini(const void* v){ int s=((Arg const*)v)->sh; int want=s==SPIN2||s==SPINTEST||s==WAITLOCK2?2:s==SPIN3||s==WAITLOCK3?3:s==HANDOVER?5:-1; if(want>=0) MC_CHECK(data_[0]==want,"protected counter is %d, expected %d",data_[0],want); if(want>=0&&s!=HANDOVER) MC_CHECK(!fl<K>().test(),"flag left set"); }
template<class K> static void programs(){ for(int s=0;s<NSH;s++) for(int m=0;m<4;m++) for(int sp=0;sp<2;sp++){ if(sp&&(m||s<PUB_WAIT_SET)&&!(s==WAITLOCK2&&!m)) continue; if(s==PUB_RELSEQ&&m) continue; Arg a={s,m}; mc::Opts o; o.spurious=sp; o.clock=s==EXPIRE; o.max_execs=6000; o.pb=shthr[s]>2?1:2; mc::add(mc::fmt("%s %s %s mo%d spurious<=%d",CFG,K::nm(),shn[s],m,sp),shthr[s],init<K>,body<K>,fini<K>,mc::keep(&a,sizeof a),o); } }
template<class K> static void reg(bool fb){ FL<K>::all(2,1); FL<K>::all(2,2); FL<K>::all(3,1); if(!fb){ FL<K>::all(2,3); FL<K>::all(3,2); } Seq<K>::all(fb?4:6); programs<K>(); }
void mc_register(){
#ifdef BOOST_ATOMIC_FORCE_FALLBACK
  reg<Plain>(true);
#else
  reg<Plain>(false); reg<Ipc>(false);
#endif
}
