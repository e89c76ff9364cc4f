// C08: release/acquire publication through every operation, order, fence, wait and object kind.
#include "linmat.h"
#include <chrono>
using namespace boost; typedef std::chrono::steady_clock SC;
static int data_[2];
enum { RLX=0, ACQ=1, REL=2, AR=3, SQ=4, CON=5, NONE=9 };
static const char* mn[]={"relaxed","acquire","release","acq_rel","seq_cst","consume"};
enum { WAIT_=200, WAIT_FOR_, WAIT_UNTIL_ };
struct Arg { int wop, wmo, wf, rop, rmo, rf; unsigned wa, wd, ra, rd; int shape; unsigned I; unsigned va, vb; };
// spec of one operation on a small value
template<class T,bool I=(std::is_integral<T>::value && !std::is_same<T,bool>::value)> struct Sp { typedef vf::uint_of<T> U; };
template<class T> struct Sp<T,false> { typedef unsigned U; };
template<class T> static Res ref(int op,u128& s,unsigned a,unsigned d){ typedef typename Sp<T>::U U; U x=(U)s; Res r=ref_int<U>(op,x,(U)a,(U)d); s=x; return r; }
template<class T> static bool small(u128 v){ return std::is_integral<T>::value || v<64; }   // non-integer types carry small codes only
template<class F> struct MP { typedef typename F::T_ T; typedef Apply<T> Ap;
  static void init(const void* v){ Arg const& a=*(Arg const*)v; init_obj<F>(0,a.I); init_obj<F>(1,a.I); data_[0]=data_[1]=0; }
  static bool observed(Arg const& a,Res r){ u128 i=Ap::enc(a.I), w=i; ref<T>(a.wop,w,a.wa,a.wd); u128 s=w; Res rw=ref<T>(a.rop,s,a.ra,a.rd); s=i; Res ri=ref<T>(a.rop,s,a.ra,a.rd); if(r==rw) return true; MC_CHECK(r==ri,"%s: unexpected result v=%llx e=%llx b=%d",opname(a.rop),(unsigned long long)r.v,(unsigned long long)r.e,r.b); return false; }
  static void use(){ MC_CHECK(data_[0]==42,"the published data is not visible (%d)",data_[0]); mc::outcome(42); }
  static void body(int t,const void* v){ Arg const& a=*(Arg const*)v; auto&& x=obj<F>(0).ref(); auto&& y=obj<F>(1).ref();
    if(t==0){ data_[0]=42; if(a.wf!=NONE) atomic_thread_fence(mo_of(a.wf)); Ap::run(x,a.wop,a.wa,a.wd,mo_of(a.wmo)); if(a.rop>=WAIT_) { if(a.rop==WAIT_FOR_) x.notify_all(); else x.notify_one(); } return; }
    if(a.shape==1){ // release sequence: thread 1 performs a relaxed read-modify-write, thread 2 loads
      if(t==1){ Ap::run(x,a.rop,a.ra,a.rd,memory_order_relaxed); return; }
      u128 l=Ap::run(x,LOAD,0,0,memory_order_acquire).v, i=Ap::enc(a.I), w=i; ref<T>(a.wop,w,a.wa,a.wd); u128 fw=w; ref<T>(a.rop,fw,a.ra,a.rd); if(l==w||l==fw) use(); return; }
    if(a.shape==2){ // transitivity through a second object
      if(t==1){ Res r=Ap::run(x,a.rop,a.ra,a.rd,mo_of(a.rmo)); if(observed(a,r)) Ap::run(y,a.wop,a.wa,a.wd,mo_of(a.wmo)); return; }
      if(observed(a,Ap::run(y,a.rop,a.ra,a.rd,mo_of(a.rmo)))) use(); return; }
    if(a.rop>=WAIT_){ T old=Val<T>::mk(a.I), g; memory_order m=mo_of(a.rmo); if(a.rop==WAIT_) g=x.wait(old,m); else if(a.rop==WAIT_FOR_){ auto r=x.wait_for(old,std::chrono::hours(1),m); MC_CHECK(!r.timeout,"timed out although notified"); g=r.value; } else { auto r=x.wait_until(old,SC::now()+std::chrono::hours(1),m); MC_CHECK(!r.timeout,"timed out although notified"); g=r.value; } MC_CHECK(std::is_integral<T>::value ? memcmp(&g,&old,sizeof g)!=0 : Val<T>::get(g)!=a.I,"wait returned the old value"); if(a.rf!=NONE) atomic_thread_fence(mo_of(a.rf)); use(); return; }
    Res r=Ap::run(x,a.rop,a.ra,a.rd,mo_of(a.rmo)); bool ob=observed(a,r); if(a.rf!=NONE) atomic_thread_fence(mo_of(a.rf)); if(ob) use(); }
  static void fini(const void*){}
  static void reg(const char* t,Arg const& a){ char f1[32]="",f2[32]=""; if(a.wf!=NONE) snprintf(f1,sizeof f1,"fence(%s);",mn[a.wf]); if(a.rf!=NONE) snprintf(f2,sizeof f2,";fence(%s)",mn[a.rf]); static const char* wn[]={"wait","wait_for","wait_until"}; static const char* sn[]={""," || load(acquire)"," || second object"};
    mc::Opts o; o.max_execs=3000; mc::add(mc::fmt("%s %s<%s> %s%s(%u;%s) || %s(%u,%u;%s)%s%s",CFG,F::nm(),t,f1,opname(a.wop),a.wa,mn[a.wmo],a.rop>=WAIT_?wn[a.rop-WAIT_]:opname(a.rop),a.ra,a.rd,mn[a.rmo],f2,sn[a.shape]),a.shape?3:2,init,body,fini,mc::keep(&a,sizeof a),o); }
  // chooses operands so that the writer changes the value
  static bool writer(Arg& a,int op){ a.wop=op; if(!writes(op)||is_weak(op)) return false; static const unsigned c[]={1,2,4,6,9,0}; for(unsigned k=0;k<6;k++){ a.wa=c[k]; a.wd=0; if(is_cas(op)){ a.wa=a.I; a.wd=9; } u128 s=Ap::enc(a.I); ref<T>(op,s,a.wa,a.wd); if(s!=Ap::enc(a.I)&&small<T>(s)) return true; } return false; }
  // chooses operands so that the reader's result tells the new value from the old one; fails: compare-exchange observes by failing
  static bool reader(Arg& a,int op,bool fails){ a.rop=op; u128 w=Ap::enc(a.I); ref<T>(a.wop,w,a.wa,a.wd); static const unsigned c[]={1,2,4,6,3,7,0}; for(unsigned k=0;k<7;k++){ a.ra=c[k]; a.rd=0; if(is_cas(op)){ if(!std::is_integral<T>::value||w<256) a.ra=fails?a.I:(unsigned)w; else if(fails) a.ra=a.I; else return false; if(!fails&&!small<T>(w)) return false; a.rd=11; }
      u128 s1=w,s2=Ap::enc(a.I); Res r1=ref<T>(op,s1,a.ra,a.rd), r2=ref<T>(op,s2,a.ra,a.rd); if(r1!=r2&&small<T>(s1)&&small<T>(s2)) return true; } return false; }
  static bool fixed_order(int op){ return op==CONV||op==ASSIGN||(op>=PREINC&&op<=OPXOR); }
  // every pair of operations; thorough: with every order combination
  static void all(const char* t,const int* ops,int n,unsigned I,bool cross,int step){ static const int W[]={REL,AR,SQ}, R[]={ACQ,AR,SQ,CON}; int k=0; Arg a; memset(&a,0,sizeof a); a.I=I; a.wf=a.rf=NONE;
    auto readers=[&](int rop,int rsel,int wsel){ for(int fl=0;fl<(is_cas(rop)?2:1);fl++){ if(fl&&rop==CAS_W2) continue; if(!reader(a,rop,fl)) continue; a.wmo=W[wsel%3]; a.rmo=R[rsel%4]; if(!is_rmw(a.wop)&&a.wmo==AR) a.wmo=REL; if(!is_rmw(rop)&&a.rmo==AR) a.rmo=ACQ; if(fl&&a.rmo==CON) a.rmo=ACQ; reg(t,a); } };
    // every writer in every order against an acquire load; every reader in every order against a release store
    for(int i=0;i<n;i++) if(writer(a,ops[i])) for(int w=0;w<(fixed_order(ops[i])?1:3);w++) readers(LOAD,0,w);
    for(int i=0;i<n;i++){ writer(a,STORE); for(int r=0;r<(fixed_order(ops[i])?1:4);r++) readers(ops[i],r,0); }
    if(cross) for(int i=0;i<n;i++) for(int j=0;j<n;j++) if((k++)%step==0 && writer(a,ops[i])) readers(ops[j],k,k/4);
    // fences around relaxed operations
    for(int i=0;i<n;i++){ if(writer(a,ops[i])){ static const int WF[]={REL,AR,SQ}, RF[]={ACQ,AR,SQ,CON}; for(int f=0;f<3;f++){ a.wf=WF[f]; a.wmo=RLX; a.rmo=ACQ; if(reader(a,LOAD,false)) reg(t,a); } 
        if(!writer(a,STORE)) continue; for(int f=0;f<4;f++){ a.wf=NONE; a.wmo=REL; a.rmo=RLX; a.rf=RF[f]; if(reader(a,ops[i],false)) reg(t,a); if(is_cas(ops[i])&&reader(a,ops[i],true)) reg(t,a); if(f<3){ a.wf=WF[f]; a.wmo=RLX; if(reader(a,ops[i],false)) reg(t,a); } } a.wf=a.rf=NONE; } a.wf=a.rf=NONE; }
    // release sequences continued by every read-modify-write
    a.shape=1; for(int i=0;i<n;i++) if(is_rmw(ops[i])&&writer(a,STORE)){ a.rop=ops[i]; bool ok=false; u128 i0=Ap::enc(I),w=i0; ref<T>(STORE,w,a.wa,0); static const unsigned c[]={1,2,3,4,7,8}; for(unsigned q=0;q<6&&!ok;q++){ a.ra=c[q]; a.rd=11; if(is_cas(ops[i])) a.ra=(unsigned)w; u128 fw=w,fi=i0; ref<T>(a.rop,fw,a.ra,a.rd); ref<T>(a.rop,fi,a.ra,a.rd); ok= fw!=i0&&fw!=fi&&w!=fi&&small<T>(fw)&&small<T>(fi); } if(!ok) continue; a.va=(unsigned)w; a.wmo=REL; a.rmo=RLX; reg(t,a); } a.shape=0;
    // transitivity
    a.shape=2; { static const int tr[]={LOAD,XCHG,FADD,CAS_S,BTS,OXOR,NEGT,ANDT,FCOMPL}; for(int i=0;i<n;i++) for(int r: tr){ bool known=false; for(int q=0;q<n;q++) if(ops[q]==r) known=true; if(!known||(k++)%3) continue; if(writer(a,ops[i])) readers(r,k,k/2); } } a.shape=0;
    // waits
    for(int i=0;i<n;i++) if(writer(a,ops[i])){ static const int RW[]={ACQ,SQ,CON}; for(int w=0;w<3;w++) for(int r=0;r<3;r++){ if(r!=w&&!cross) continue; if(!is_rmw(ops[i])&&W[w]==AR) continue; if(i>=9&&w) continue; a.rop=WAIT_+(w+r+i)%3; a.wmo=W[w]; a.rmo=RW[r]; a.ra=a.rd=0; reg(t,a); } a.rop=WAIT_+i%3; a.wmo=RLX; a.wf=REL; a.rmo=RLX; a.rf=ACQ; reg(t,a); a.wf=a.rf=NONE; } }
};
template<class F> static void integer(const char* t,bool cross,int step=1){ int all[NOPS]; for(int i=0;i<NOPS;i++) all[i]=i; MP<F>::all(t,all,NOPS,5,cross,step); }
template<class F> static void generic(const char* t,bool cross){ MP<F>::all(t,GEN,9,5,cross,1); }
template<class F> static void fp(const char* t,bool cross){ int all[17]; for(int i=0;i<9;i++) all[i]=GEN[i]; for(int i=0;i<8;i++) all[9+i]=FP[i]; MP<F>::all(t,all,17,20,cross,1); }
template<class F> static void ptr(const char* t,bool cross){ int all[23]; for(int i=0;i<9;i++) all[i]=GEN[i]; for(int i=0;i<14;i++) all[9+i]=PT[i]; MP<F>::all(t,all,23,20,cross,1); }
void mc_register(){
#if defined(BOOST_ATOMIC_FORCE_FALLBACK)
  integer<FAtomic<unsigned>>("uint",false); generic<FRef<Words<6>>>("Words6",false); fp<FAtomic<double>>("double",false); ptr<FRef<int*>>("int*",false);
#elif defined(ONLY16)
#if defined(BOOST_HAS_INT128)
  integer<FAtomic<unsigned __int128>>("uint128",true,3);
#endif
  generic<FRef<Words<4>>>("Words4",true); generic<FIpc<Words<3>>>("Words3",true);
#else
  integer<FAtomic<unsigned char>>("uchar",true,2); integer<FRef<short>>("short",true,3); integer<FAtomic<unsigned>>("uint",true); integer<FRef<unsigned>>("uint",false); integer<FIpc<int>>("int",true,3); integer<FAtomic<unsigned long>>("ulong",true,2); integer<FIpcRef<unsigned long>>("ulong",false); integer<FRef<signed char>>("schar",false); integer<FAtomic<unsigned short>>("ushort",false); integer<FRef<long>>("long",false);
  fp<FAtomic<float>>("float",true); fp<FRef<double>>("double",true); fp<FIpc<double>>("double",false); ptr<FAtomic<int*>>("int*",true); ptr<FRef<Words<3>*>>("Words3*",false);
  generic<FAtomic<Blob<3>>>("Blob3",true); generic<FRef<Words<2>>>("Words2",true); generic<FAtomic<Mixed>>("Mixed",true); generic<FRef<Words<6>>>("Words6",true); generic<FRef<Blob<3>>>("Blob3",true);
#endif
}
