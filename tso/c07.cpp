// C07: sequentially consistent operations and fences form one total order, judged on compiled code under x86-TSO.
// C01 (-DPAR): single operations of concurrent threads are indivisible in compiled code.
#define WIDE
#include "opsx.h"
template<class F> struct Body {
  template<int O1,int X1,int O2,int X2> static void rw(Res* out){ out[0]=one<F,O1>(X1,opa(O1),opd(O1),SC); out[1]=one<F,O2>(X2,rda(O2),9,SC); }
  template<int O1,int X1,int O2,int X2> static void ww(Res* out){ out[0]=one<F,O1>(X1,opa(O1),opd(O1),SC); out[1]=one<F,O2>(X2,opa(O2)+ (O2==STORE?1:0),opd(O2),SC); }
  template<int O1,int X1,int O2,int X2> static void rr(Res* out){ out[0]=one<F,O1>(X1,rda(O1),9,SC); out[1]=one<F,O2>(X2,rda(O2),9,SC); }
  template<int O1,int X1> static void w(Res* out){ out[0]=one<F,O1>(X1,opa(O1),opd(O1),SC); }
  template<int O1> static void w2(Res* out){ out[0]=one<F,O1>(0,side2(O1),casop(O1)?10:0,SC); }
  template<int O1,int X1,int O2,int X2,int K> static void fen(Res* out){ out[0]=one<F,O1>(X1,opa(O1),opd(O1),O1==STORE?(K&2?boost::memory_order_release:RX):RX); if(K&1) boost::atomics::atomic_thread_fence(SC); else boost::atomic_thread_fence(boost::memory_order_seq_cst); out[2]=one<F,O2>(X2,rda(O2),9,O2==LOAD&&(K&2)?boost::memory_order_acquire:RX); out[1].b=-1; }
  template<int O1,int X1,int O2,int X2,int K> static void fenr(Res* out){ out[0]=one<F,O1>(X1,rda(O1),9,RX); boost::atomic_thread_fence(SC); out[1].b=-1; out[2]=one<F,O2>(X2,rda(O2),9,RX); }
  static constexpr unsigned side2(int o){ return casop(o)?6 : (o==STORE||o==XCHG||o==ASSIGN)?IN0 : (o==BTS||o==BTC||o==BTR)?2 : (o==AND||o==FAND||o==OAND||o==ANDT||o==OPAND)?4 : 2; }
};
typedef typename std::conditional<true,TY,int>::type Ty;
template<class F> struct Drv { typedef typename F::V V; typedef Apply<V> Ap;
  static void init(){ for(int i=0;i<3;i++) F::make(objp<F>(i),mkv(IN0)); }
  static V mkv(unsigned v){ if constexpr(std::is_integral<V>::value) return widen<V>(0,v); else return Val<V>::mk(v); }
  static u128 encv(unsigned v){ if constexpr(std::is_integral<V>::value) return vf::bits<V>(mkv(v)); else return Ap::enc(v); }
  static u128 fin(int o){ auto&& x=F::at(objp<F>(o)); return Ap::run(x,LOAD,0,0,SC).v; }
  static bool apply(u128* s,tso::ROp const& o,Res* r,bool wf){ int op=o.op==WT?(int)LOAD:o.op; if(wf&&!is_weak(op)) return false; if constexpr(std::is_integral<V>::value){ typedef uint_of<V> U; U u=(U)*s; *r=ref_int<U>(op,u,(U)widen<V>(op,(unsigned)o.a),(U)widen<V>(op,(unsigned)o.d),wf); *s=u; } else { unsigned u=(unsigned)*s; *r=ref_int<unsigned>(op,u,(unsigned)o.a,(unsigned)o.d,wf); *s=u; } return true; }
  static tso::Prog base(const char* shape,const char* n,int nt){ tso::Prog p; memset(&p,0,sizeof p); p.name=tso::fmt("%s %s<" STR(TY) "> %s: %s",CFG,F::nm(),shape,n); p.nt=nt; p.init=init; p.nobj=2; p.osize=F::size; for(int i=0;i<3;i++){ p.init_v[i]=encv(IN0); p.oaddr[i]=place<F>(i); } p.final_v=fin; p.apply=apply; return p; }
  static void th(tso::Prog& p,int t,tso::body_fn f,std::initializer_list<tso::ROp> l){ p.body[t]=f; p.n[t]=0; for(auto& o: l) p.ops[t][p.n[t]++]=o; }
  static tso::ROp W(int o,int x){ return tso::ROp{o,x,opa(o),opd(o)}; } static tso::ROp Wb(int o,int x){ return tso::ROp{o,x,opa(o)+(o==STORE?1:0),opd(o)}; } static tso::ROp R(int o,int x){ return tso::ROp{o,x,rda(o),9}; } static tso::ROp FE(){ return tso::ROp{tso::FENCE_,0,0,0}; }
  static const char* on(int o){ return o==WT?"wait":opname(o); }
  typedef Body<F> B;
  template<int O1,int O2> static void sb(){ tso::Prog p=base("SB",tso::fmt("%s;%s",on(O1),on(O2)),2); th(p,0,&B::template rw<O1,0,O2,1>,{W(O1,0),R(O2,1)}); th(p,1,&B::template rw<O1,1,O2,0>,{W(O1,1),R(O2,0)}); tso::add(p); }
  template<int O1,int O2> static void r(){ tso::Prog p=base("R",tso::fmt("%s;%s",on(O1),on(O2)),2); th(p,0,&B::template ww<O1,0,O1,1>,{W(O1,0),Wb(O1,1)}); th(p,1,&B::template rw<STORE,1,O2,0>,{W(STORE,1),R(O2,0)}); tso::add(p); }
  template<int O1> static void w22(){ tso::Prog p=base("2+2W",on(O1),2); th(p,0,&B::template ww<O1,0,STORE,1>,{W(O1,0),Wb(STORE,1)}); th(p,1,&B::template ww<O1,1,STORE,0>,{W(O1,1),Wb(STORE,0)}); tso::add(p); }
  template<int O1,int O2> static void iriw(){ tso::Prog p=base("IRIW",tso::fmt("%s || %s;%s",on(O1),on(O2),on(O2)),4); th(p,0,&B::template w<O1,0>,{W(O1,0)}); th(p,1,&B::template w<O1,1>,{W(O1,1)}); th(p,2,&B::template rr<O2,0,O2,1>,{R(O2,0),R(O2,1)}); th(p,3,&B::template rr<O2,1,O2,0>,{R(O2,1),R(O2,0)}); tso::add(p); }
  template<int O1,int O2> static void sb3(){ tso::Prog p=base("SB3",tso::fmt("%s;%s",on(O1),on(O2)),3); p.nobj=3; th(p,0,&B::template rw<O1,0,O2,1>,{W(O1,0),R(O2,1)}); th(p,1,&B::template rw<O1,1,O2,2>,{W(O1,1),R(O2,2)}); th(p,2,&B::template rw<O1,2,O2,0>,{W(O1,2),R(O2,0)}); tso::add(p); }
  template<int O1,int O2> static void rwc(){ tso::Prog p=base("RWC",tso::fmt("%s;%s",on(O1),on(O2)),3); th(p,0,&B::template w<O1,0>,{W(O1,0)}); th(p,1,&B::template rr<O2,0,O2,1>,{R(O2,0),R(O2,1)}); th(p,2,&B::template rw<O1,1,O2,0>,{W(O1,1),R(O2,0)}); tso::add(p); }
  template<int O1,int O2,int K> static void fsb(){ tso::Prog p=base("SB+fences",tso::fmt("%s;fence%d;%s",on(O1),K,on(O2)),2); th(p,0,&B::template fen<O1,0,O2,1,K>,{W(O1,0),FE(),R(O2,1)}); th(p,1,&B::template fen<O1,1,O2,0,K>,{W(O1,1),FE(),R(O2,0)}); tso::add(p);
    tso::Prog q=base("SB+fence+seq_cst",tso::fmt("%s;fence%d;%s",on(O1),K,on(O2)),2); th(q,0,&B::template fen<O1,0,O2,1,K>,{W(O1,0),FE(),R(O2,1)}); th(q,1,&B::template rw<STORE,1,LOAD,0>,{W(STORE,1),R(LOAD,0)}); tso::add(q); }
  template<int O1,int O2> static void firiw(){ tso::Prog p=base("IRIW+fences",tso::fmt("%s || %s;%s",on(O1),on(O2),on(O2)),4); th(p,0,&B::template w<O1,0>,{W(O1,0)}); th(p,1,&B::template w<O1,1>,{W(O1,1)}); th(p,2,&B::template fenr<O2,0,O2,1,0>,{R(O2,0),FE(),R(O2,1)}); th(p,3,&B::template fenr<O2,1,O2,0,0>,{R(O2,1),FE(),R(O2,0)}); tso::add(p); }
  template<int O1,int O2> static void par(){ tso::Prog p=base("PAR",tso::fmt("%s || %s",on(O1),on(O2)),2); p.nobj=1; th(p,0,&B::template w<O1,0>,{W(O1,0)}); th(p,1,&B::template w2<O2>,{tso::ROp{O2,0,B::side2(O2),casop(O2)?10u:0u}}); tso::add(p); }
  template<int O> static constexpr bool isw(){ return O!=LOAD && O!=CONV; }
  static constexpr int RD(int i){ return i==0?(int)LOAD:i==1?(int)CONV:i==2?(int)CAS_S:i==3?(int)CAS_W:i==4?(int)CAS_S2:i==5?(int)CAS_W2:i==6?(int)XCHG:(int)WT; }
  template<int... I> static void list(std::integer_sequence<int,I...>){
#ifdef PAR
    (par2<I>(),...);
#else
    ((void)(isw<OPS(I)>() ? (sb<OPS(I),LOAD>(),0) : 0),...);
    ((void)(isw<OPS(I)>() ? (sb<OPS(I),RD(1+I%7)>(),0) : 0),...);
    (sb<STORE,RD(I%8)>(),...);
    sb3<STORE,LOAD>(); sb3<XCHG,LOAD>(); r<STORE,LOAD>(); r<XCHG,CAS_S>(); r<STORE,CAS_W>(); w22<STORE>(); w22<XCHG>(); w22<CAS_S>(); iriw<STORE,LOAD>(); iriw<CAS_S,CONV>(); iriw<STORE,CAS_S>(); rwc<STORE,LOAD>(); rwc<XCHG,CAS_S>();
    fsb<STORE,LOAD,0>(); fsb<STORE,LOAD,1>(); fsb<STORE,LOAD,2>(); fsb<STORE,CAS_S,3>(); fsb<XCHG,LOAD,0>(); fsb<CAS_W,LOAD,1>(); firiw<STORE,LOAD>();
#endif
  }
  template<int I> static void par2(){ if constexpr(isw<OPS(I)>()||1){ par<OPS(I),LOAD>(); if(isw<OPS(I)>()){ par<OPS(I),STORE>(); par<OPS(I),XCHG>(); par<OPS(I),CAS_S>(); par<OPS(I),OPS(I)>(); par<OPS(I),OPS((I*7+3)%NOP)>(); } } }
#if KIND==0
  enum { NOP = NOPS }; static constexpr int OPS(int i){ return i; }
#elif KIND==1
  enum { NOP = 17 }; static constexpr int OPS(int i){ constexpr int t[]={LOAD,STORE,XCHG,CAS_S,CAS_W,CAS_S2,CAS_W2,CONV,ASSIGN,FADD,FSUB,ADD,SUB,OADD,OSUB,OPADD,OPSUB}; return t[i]; }
#elif KIND==2
  enum { NOP = 23 }; static constexpr int OPS(int i){ constexpr int t[]={LOAD,STORE,XCHG,CAS_S,CAS_W,CAS_S2,CAS_W2,CONV,ASSIGN,FADD,FSUB,ADD,SUB,OADD,OSUB,OPADD,OPSUB,ADDT,SUBT,PREINC,POSTINC,PREDEC,POSTDEC}; return t[i]; }
#else
  enum { NOP = 9 }; static constexpr int OPS(int i){ return i; }
#endif
  static void all(){ list(std::make_integer_sequence<int,(int)NOP>()); }
};
// only lock-free objects run here: code that blocks on a lock cannot be single-stepped to completion (C02, C12, C13 cover it)
template<class T> struct Lf { static constexpr bool a=boost::atomic<T>::is_always_lock_free, r=boost::atomic_ref<T>::is_always_lock_free; };
template<class T> static void regs(){
  if constexpr(Lf<T>::a) Drv<ZA<T>>::all();
#if !defined(PAR) || defined(PLACE)
  if constexpr(Lf<T>::a) Drv<ZI<T>>::all();
  if constexpr(Lf<T>::r){ Drv<ZR<T>>::all(); Drv<ZJ<T>>::all(); }
#endif
}
void tso::reg(){ regs<Ty>(); }
