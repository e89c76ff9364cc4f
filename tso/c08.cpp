// C08 on compiled code under x86-TSO: what precedes a releasing operation is visible after the acquiring operation that observes it.
// Detects operations that let the compiler or the processor move ordinary accesses across them.
#include "opsx.h"
typedef typename std::conditional<true,TY,int>::type Ty;
using tso::cell;
static constexpr boost::memory_order MO(int i){ return i==0?boost::memory_order_relaxed:i==1?boost::memory_order_acquire:i==2?boost::memory_order_release:i==3?boost::memory_order_acq_rel:boost::memory_order_seq_cst; }
static LIN_INLINE int* data(){ return static_cast<int*>(cell(3)); }
int loop_n=2; u128 lp_final;
// did a reading operation observe the other thread's write?
template<int O> static LIN_INLINE bool seen(Res const& r){ if(casop(O)) return r.e!=Apply<Ty>::enc(IN0); typedef typename std::conditional<std::is_integral<Ty>::value,uint_of<typename std::conditional<std::is_integral<Ty>::value,Ty,int>::type>,unsigned>::type U;
  if(O==BTS||O==BTC) return r.b==1; if(O==BTR) return r.b==0; if(O==NEG) return (U)r.v!=(U)(0-IN0); if(O==COMPL) return (U)r.v!=(U)~(U)IN0; return r.v!=Apply<Ty>::enc(IN0); }
static constexpr bool rdop(int o){ return o==LOAD||casop(o)||o==XCHG||o==FADD||o==FOR||o==FXOR||o==FAND||o==FSUB||o==ADD||o==SUB||o==OR||o==XOR||o==WT||o==BTS||o==BTC||o==BTR||o==NEG||o==COMPL||o==FNEG||o==FCOMPL||o==AND; }
template<class F> struct B {
  template<int O,int X,int M> static LIN_INLINE Res W(){ return one<F,O>(X,opa(O),opd(O),MO(M)); }
  template<int O,int X,int M> static LIN_INLINE Res R(){ return one<F,O>(X,rdv(O),O==XCHG?IN0:9,MO(M)); }
  static constexpr unsigned rdv(int o){ return casop(o)?77:o==XCHG?IN0:o==WT?77:(o==FAND||o==AND)?~0u:(o==BTS||o==BTC)?1:0; }
  template<int O,int M> static void mp0(Res* out){ *data()=41; out[0]=W<O,0,M>(); }
  template<int O,int M> static void mp1(Res* out){ Res r=R<O,0,M>(); unsigned v=777; if(seen<O>(r)) v=*data(); out[0]=r; out[1].v=v; }
  template<int O,int M> static void fp0(Res* out){ *data()=41; boost::atomic_thread_fence(MO(M)); out[0]=W<O,0,0>(); }
  template<int O,int M> static void fp1(Res* out){ Res r=R<O,0,0>(); boost::atomic_thread_fence(MO(M)); unsigned v=777; if(seen<O>(r)) v=*data(); out[0]=r; out[1].v=v; }
  // the second thread hands the data back: values must not be carried over in registers or sunk below the release
  template<int OW,int OR,int M> static void bk0(Res* out){ Res r=R<OR,0,M==2?1:M>(),w={0,0,-1}; unsigned v=777; if(seen<OR>(r)){ v=*data(); *data()=2; w=W<OW,1,M>(); } out[0]=r; out[1].v=v; out[2]=w; }
  template<int OW,int OR,int M> static void bk1(Res* out){ *data()=1; Res w=W<OW,0,M>(); Res r=R<OR,1,M==2?1:M>(); unsigned v=777; if(seen<OR>(r)) v=*data(); out[0]=w; out[1]=r; out[2].v=v; }
  // the same with fences and relaxed operations
  template<int OW,int OR> static void bf0(Res* out){ Res r=R<OR,0,0>(),w={0,0,-1}; boost::atomic_thread_fence(MO(1)); unsigned v=777; if(seen<OR>(r)){ v=*data(); *data()=2; boost::atomic_thread_fence(MO(2)); w=W<OW,1,0>(); } out[0]=r; out[1].v=v; out[2]=w; }
  template<int OW,int OR> static void bf1(Res* out){ *data()=1; boost::atomic_thread_fence(MO(2)); Res w=W<OW,0,0>(); Res r=R<OR,1,0>(); boost::atomic_thread_fence(MO(1)); unsigned v=777; if(seen<OR>(r)) v=*data(); out[0]=w; out[1]=r; out[2].v=v; }
  template<int OW,int M> static void rb0(Res* out){ unsigned v=*data(); Res w=W<OW,0,M>(); out[0]=w; out[1].v=v; }
  template<int OR,int M> static void rb1(Res* out){ Res r=R<OR,0,M>(); if(seen<OR>(r)) *data()=99; out[0]=r; out[1].v=777; }
  // an ordinary variable updated in a loop must be up to date at each releasing operation
  template<int O,int M> static void lp0(Res* out){ int* d=data(); int n=loop_n; for(int i=0;i<n;i++){ *d+=1; one<F,O>(0,opa(O)+((O==STORE||O==XCHG||O==ASSIGN)?i:0)+(casop(O)?i*4:0),opd(O)+(casop(O)?i:0),MO(M)); } }
  template<int O,int M> static void lp1(Res* out){ Res r=R<LOAD,0,1>(); unsigned v=777; if(r.v==lp_final) v=*data(); out[0]=r; out[1].v=v; }
};
static bool acc_mp(Res (*o)[tso::MAXOPS],const unsigned char*){ return o[1][1].v==41||o[1][1].v==777; }
static bool acc_bk(Res (*o)[tso::MAXOPS],const unsigned char*){ return (o[0][1].v==1||o[0][1].v==777) && (o[1][2].v==2||o[1][2].v==777); }
static bool acc_lp(Res (*o)[tso::MAXOPS],const unsigned char*){ return o[1][1].v==2||o[1][1].v==777; }
static bool acc_rb(Res (*o)[tso::MAXOPS],const unsigned char*){ return o[0][1].v==0; }
template<class F> struct D { typedef typename F::V V; typedef B<F> X;
  static V mkv(unsigned v){ if constexpr(std::is_integral<V>::value) return (V)v; else return Val<V>::mk(v); }
  static void init(){ for(int i=0;i<2;i++) F::make(cell(i),mkv(IN0)); *data()=0; }
  static u128 fin(int o){ auto&& x=F::at(cell(o)); return Apply<V>::run(x,LOAD,0,0,boost::memory_order_seq_cst).v; }
  static const char* on(int o){ return o==WT?"wait":opname(o); }
  static void add(const char* n,tso::body_fn a,tso::body_fn b,bool (*acc)(Res (*)[tso::MAXOPS],const unsigned char*),void (*in)()=init){ tso::Prog p; memset(&p,0,sizeof p); p.name=tso::fmt("%s %s<" STR(TY) "> %s",CFG,F::nm(),n); p.nt=2; p.body[0]=a; p.body[1]=b; p.n[0]=p.n[1]=3; p.init=in; p.nobj=2; p.final_v=fin; p.accept=acc; tso::add(p); }
  // final value of the loop program; 0 when it is not distinguishable from the earlier ones
  template<int O> static u128 lpfin(){ typedef typename std::conditional<std::is_integral<V>::value,uint_of<typename std::conditional<std::is_integral<V>::value,V,int>::type>,unsigned>::type U; U s=(U)(V_int)IN0, s0=s, s1; for(int i=0;i<2;i++){ s1=s; ref_int<U>(O,s,(U)(opa(O)+((O==STORE||O==XCHG||O==ASSIGN)?i:0)+(casop(O)?i*4:0)),(U)(opd(O)+(casop(O)?i:0))); } return s!=s0&&s!=s1?(u128)s:(u128)0; }
  typedef int V_int;
  template<int O> static void initlp(){ init(); lp_final=lpfin<O>(); }
  template<int O> static void wr(){ if constexpr(O!=LOAD&&O!=CONV){ constexpr bool st=O==STORE;
      add(tso::fmt("MP %s(release) || load(acquire)",on(O)),X::template mp0<O,2>,X::template mp1<LOAD,1>,acc_mp); add(tso::fmt("MP %s(%s) || load(seq_cst)",on(O),st?"seq_cst":"acq_rel"),X::template mp0<O,st?4:3>,X::template mp1<LOAD,4>,acc_mp);
      add(tso::fmt("RB %s(release) || load(acquire)",on(O)),X::template rb0<O,2>,X::template rb1<LOAD,1>,acc_rb); add(tso::fmt("BK %s(release)",on(O)),X::template bk0<O,LOAD,2>,X::template bk1<O,LOAD,2>,acc_bk); add(tso::fmt("BK %s(seq_cst)",on(O)),X::template bk0<O,LOAD,4>,X::template bk1<O,LOAD,4>,acc_bk);
      add(tso::fmt("BK fences %s(relaxed)",on(O)),X::template bf0<O,LOAD>,X::template bf1<O,LOAD>,acc_bk); if(lpfin<O>()!=0) add(tso::fmt("LP %s(release)",on(O)),X::template lp0<O,2>,X::template lp1<O,2>,acc_lp,initlp<O>);
#if KIND==0
      add(tso::fmt("BK %s/fetch_negate",on(O)),X::template bk0<O,FNEG,3>,X::template bk1<O,FNEG,3>,acc_bk);
#endif
      add(tso::fmt("MP fence(release);%s(relaxed) || load(relaxed);fence(acquire)",on(O)),X::template fp0<O,2>,X::template fp1<LOAD,1>,acc_mp); } }
  template<int O> static void rd(){ if constexpr(rdop(O)){ constexpr bool ld=O==LOAD||O==WT;
      add(tso::fmt("MP store(release) || %s(acquire)",on(O)),X::template mp0<STORE,2>,X::template mp1<O,1>,acc_mp); add(tso::fmt("MP exchange(acq_rel) || %s(%s)",on(O),ld?"seq_cst":"acq_rel"),X::template mp0<XCHG,3>,X::template mp1<O,ld?4:3>,acc_mp);
      add(tso::fmt("BK store/%s",on(O)),X::template bk0<STORE,O,2>,X::template bk1<STORE,O,2>,acc_bk); if constexpr(O!=LOAD&&O!=CONV&&O!=WT) add(tso::fmt("BK %s/%s",on(O),on(O)),X::template bk0<O,O,3>,X::template bk1<O,O,3>,acc_bk); add(tso::fmt("RB store || %s",on(O)),X::template rb0<STORE,2>,X::template rb1<O,1>,acc_rb);
      add(tso::fmt("MP fence(acq_rel);store(relaxed) || %s(relaxed);fence(acq_rel)",on(O)),X::template fp0<STORE,3>,X::template fp1<O,3>,acc_mp); add(tso::fmt("MP fence(seq_cst);store(relaxed) || %s(relaxed);fence(seq_cst)",on(O)),X::template fp0<STORE,4>,X::template fp1<O,4>,acc_mp); } }
#if KIND==0
  enum { NOP = NOPS }; static constexpr int OPS(int i){ return i; }
#elif KIND==1
  enum { NOP = 17 }; static constexpr int OPS(int i){ constexpr int t[]={LOAD,STORE,XCHG,CAS_S,CAS_W,CAS_S2,CAS_W2,CONV,ASSIGN,FADD,FSUB,ADD,SUB,OADD,OSUB,OPADD,OPSUB}; return t[i]; }
#elif KIND==2
  enum { NOP = 23 }; static constexpr int OPS(int i){ constexpr int t[]={LOAD,STORE,XCHG,CAS_S,CAS_W,CAS_S2,CAS_W2,CONV,ASSIGN,FADD,FSUB,ADD,SUB,OADD,OSUB,OPADD,OPSUB,ADDT,SUBT,PREINC,POSTINC,PREDEC,POSTDEC}; return t[i]; }
#else
  enum { NOP = 9 }; static constexpr int OPS(int i){ return i; }
#endif
  template<int... I> static void list(std::integer_sequence<int,I...>){ (wr<OPS(I)>(),...); (rd<OPS(I)>(),...); rd<WT>(); }
  static void all(){ list(std::make_integer_sequence<int,(int)NOP>()); }
};
template<class T> static void regs(){ if constexpr(boost::atomic<T>::is_always_lock_free) D<ZA<T>>::all(); if constexpr(boost::atomic_ref<T>::is_always_lock_free) D<ZR<T>>::all(); }
void tso::reg(){ regs<Ty>(); }
