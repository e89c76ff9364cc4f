// C03: every integer operation against two's complement modular arithmetic. -DTY=<type>
#include "seq.h"
template<unsigned... B> struct Seq {}; template<unsigned N,unsigned... B> struct MkSeq : MkSeq<N-1,N-1,B...> {}; template<unsigned... B> struct MkSeq<0,B...> { typedef Seq<B...> type; };
using namespace sq; using namespace vf;
#if defined(BOOL)
#define TN "bool"
#elif defined(ENUM)
#define TN "enum : " S1(TY)
#else
#define TN S1(TY)
#endif
#define S2(x) #x
#define S1(x) S2(x)
#ifdef ENUM
#if ENUM==2
enum En : TY { En0 = 0 };
#else
enum class En : TY { En0 = 0 };
#endif
typedef En T;
#elif defined(BOOL)
typedef bool T;
#else
typedef TY T;
#endif
typedef std::conditional<std::is_same<T,bool>::value,uint8_t,T>::type TU_; typedef uint_of<TU_> U; enum { W=sizeof(T)*8 };
#if defined(ENUM) || defined(BOOL)
// enums: generic and bitwise operations; bool: generic ones
template<class A, class E, int M=-1> struct part_ops { typedef Res (*fn)(A&,E,E,mo_t);
  VF_OP(gload, VF_V(x.load(load_mo(m)))) VF_OP(gconv, VF_V(static_cast<E>(x))) VF_OP(gstore, x.store(a,store_mo(m))) VF_OP(gassign, VF_V(x=a)) VF_OP(gxchg, VF_V(x.exchange(a,m)))
  VF_OP(gcas_s, E e=a; VF_B(x.compare_exchange_strong(e,d,m)); r.e=bits<E>(e)) VF_OP(gcas_w, E e=a; VF_B(x.compare_exchange_weak(e,d,m)); r.e=bits<E>(e))
  VF_OP(gcas_s2, E e=a; VF_B(x.compare_exchange_strong(e,d,m,fail_mo(m))); r.e=bits<E>(e)) VF_OP(gcas_w2, E e=a; VF_B(x.compare_exchange_weak(e,d,m,boost::memory_order_relaxed)); r.e=bits<E>(e))
#ifdef ENUM
  VF_OP(fand, VF_V(x.fetch_and(a,m))) VF_OP(for_, VF_V(x.fetch_or(a,m))) VF_OP(fxor, VF_V(x.fetch_xor(a,m))) VF_OP(fcompl, VF_V(x.fetch_complement(m)))
  VF_OP(and_, VF_V(x.bitwise_and(a,m))) VF_OP(or_, VF_V(x.bitwise_or(a,m))) VF_OP(xor_, VF_V(x.bitwise_xor(a,m))) VF_OP(compl_, VF_V(x.bitwise_complement(m)))
  VF_OP(oand, x.opaque_and(a,m)) VF_OP(oor, x.opaque_or(a,m)) VF_OP(oxor, x.opaque_xor(a,m)) VF_OP(ocompl, x.opaque_complement(m))
  VF_OP(andt, VF_B(x.and_and_test(a,m))) VF_OP(ort, VF_B(x.or_and_test(a,m))) VF_OP(xort, VF_B(x.xor_and_test(a,m))) VF_OP(complt, VF_B(x.complement_and_test(m)))
  VF_OP(bts, VF_B(x.bit_test_and_set((unsigned)bits(a)%(sizeof(E)*8),m))) VF_OP(btr, VF_B(x.bit_test_and_reset((unsigned)bits(a)%(sizeof(E)*8),m))) VF_OP(btc, VF_B(x.bit_test_and_complement((unsigned)bits(a)%(sizeof(E)*8),m)))
  VF_OP(opand, VF_V(x&=a)) VF_OP(opor, VF_V(x|=a)) VF_OP(opxor, VF_V(x^=a))
#endif
  static fn const* table(){ static fn t[NOPS]; if(!t[0]){ t[LOAD]=gload; t[STORE]=gstore; t[XCHG]=gxchg; t[CAS_S]=gcas_s; t[CAS_W]=gcas_w; t[CAS_S2]=gcas_s2; t[CAS_W2]=gcas_w2; t[CONV]=gconv; t[ASSIGN]=gassign;
#ifdef ENUM
    t[FAND]=fand; t[FOR]=for_; t[FXOR]=fxor; t[FCOMPL]=fcompl; t[AND]=and_; t[OR]=or_; t[XOR]=xor_; t[COMPL]=compl_; t[OAND]=oand; t[OOR]=oor; t[OXOR]=oxor; t[OCOMPL]=ocompl; t[ANDT]=andt; t[ORT]=ort; t[XORT]=xort; t[COMPLT]=complt; t[BTS]=bts; t[BTR]=btr; t[BTC]=btc; t[OPAND]=opand; t[OPOR]=opor; t[OPXOR]=opxor;
#endif
    } return t; } };
#define OPS part_ops
#else
#define OPS int_ops
#endif
static std::vector<U> alpha(bool small){ if(std::is_same<T,bool>::value) return std::vector<U>{0,1}; std::set<U> s; for(int i=0;i<(small?4:20);i++){ s.insert((U)i); s.insert((U)(0-(U)i)); }
  for(int b=0;b<W;b++){ if(small && !(b==7||b==8||b==15||b==31||b==W-1||b==W-2||b==63)) continue; U p=(U)((U)1<<b); s.insert(p); s.insert((U)(p-1)); s.insert((U)(p+1)); s.insert((U)(0-p)); s.insert((U)(~p)); if(!small){ s.insert((U)(0-p-1)); s.insert((U)(0-p+1)); s.insert((U)(p|(p>>1))); } }
  U x5=0,xc=0; for(int i=0;i<W/8;i++){ x5=(U)((x5<<(W>8?8:0))|0x55); xc=(U)((xc<<(W>8?8:0))|(0x11*(i+1)&0xff)); } s.insert(x5); s.insert((U)~x5); s.insert(xc); s.insert((U)~xc);
  return std::vector<U>(s.begin(),s.end()); }
static std::vector<U> all_(){ if(std::is_same<T,bool>::value) return std::vector<U>{0,1}; std::vector<U> r; for(uint64_t i=0;i<((uint64_t)1<<(W<=16?W:0));i++) r.push_back((U)i); return r; }
static inline T toT(U u){ T t; memcpy(&t,&u,sizeof t); return t; }
static inline U toU(T t){ U u; memcpy(&u,&t,sizeof u); return u; }
template<class F,int M> struct D { typedef typename F::X X; typedef OPS<X,T,M> Ops; static Guard g;
  // one transition
  static void one(int op,int mo,U s,U a,U d){
    cases=cases+1; if(only_case && cases!=only_case) return;
    cur.s=s; cur.a=a; cur.d=d;
    F::set(g.p,toT(s)); auto&& x=F::at(g.p); U rs=s; Res e=ref_int<U>(op,rs,a,d); Res r=Ops::table()[op](x,toT(a),toT(d),mov(mo)); U ns=toU(F::get(g.p));
    if(__builtin_expect(r!=e||ns!=rs||!g.ok(),0)){
      if(is_weak(op)&&r.b==0&&(U)r.e==s&&ns==s&&g.ok()) return;    // a weak compare-exchange may fail
      if(!g.ok()){ viol("modifies bytes outside the object"); g.init(MIDDLE,F::size(),F::align()); F::make(g.p,toT(0)); return; }
      viol("returned v=%s e=%s b=%d and left %s; expected v=%s e=%s b=%d and %s",hex(r.v),hex(r.e),r.b,hex(ns),hex(e.v),hex(e.e),e.b,hex(rs)); }
    if((cases&0x3ff)==0) note(mix(mix(op,(uint64_t)ns),(uint64_t)r.v*31+r.b)); }
  static void sweep(int op,int mo,std::vector<U> const& S,std::vector<U> const& A){ if(!Ops::table()[op]) return; cur.op=opname(op); cur.mo=mo;
    if(is_cas(op)){ for(U s: S){ for(U a: A){ if(std::is_same<T,bool>::value){ one(op,mo,s,a,0); one(op,mo,s,a,1); continue; } one(op,mo,s,a,(U)(s+1)); one(op,mo,s,a,(U)~a); } if(std::is_same<T,bool>::value) continue; one(op,mo,s,s,0); one(op,mo,s,s,(U)~(U)0); one(op,mo,s,s,s); for(int b=0;b<W;b++) one(op,mo,s,(U)(s^((U)1<<b)),(U)(s+3)); } }
    else if(!uses_operand(op)) for(U s: S) one(op,mo,s,0,0);
    else if(op>=BTS&&op<=BTC) { for(U s: S) for(int b=0;b<W;b++) one(op,mo,s,(U)b,0); }
    else for(U s: S) for(U a: A) one(op,mo,s,a,0); }
  static void go(bool primary){ static std::vector<U> A=alpha(false), As=alpha(true), B; g.init(MIDDLE,F::size(),F::align()); F::make(g.p,toT(0)); cur.type=TN; cur.flav=F::nm(); cur.what= M>=0?"[constant order]":0;
    if(W<=16&&B.empty()) B=all_();
    const bool unary_full = primary && W<=16;
    for(int op=0;op<NOPS;op++) for(int mo=0;mo<6;mo++){ if(M>=0&&(int)mov(mo)!=M) continue; 
      if(W==8){ if(primary||mo==5) sweep(op,mo,B,B); else sweep(op,mo,A,A); }
      else if(unary_full && mo==5 && (DEEP||!uses_operand(op)||is_cas(op))){ if(DEEP && uses_operand(op) && !is_cas(op) && !(op>=BTS&&op<=BTC)) sweep(op,mo,B,B); else sweep(op,mo,B,As); }
      else if(unary_full && mo==5) sweep(op,mo,B,As);
      else if(primary&&(mo==5||mo==0)) sweep(op,mo,A,A); else sweep(op,mo,As,As); }
    states+= W<=16?B.size():A.size(); 
    sample("%s<%s>%s: %d operations x orders over %zu object states x %zu operand values",F::nm(),TN,M>=0?" constant order":"",(int)NOPS,W<=16?B.size():A.size(),W==8?B.size():A.size()); }
  // at the borders of the writable page: any write outside the object faults, even if it writes back what was there
  static void edges(){ std::vector<U> As=alpha(true); cur.type=TN; cur.flav=F::nm(); for(int e=0;e<2;e++){ g.init(e?START:END,F::size(),F::align()); if((uintptr_t)g.p%F::align()) continue; cur.what=pln[e?START:END]; F::make(g.p,toT(0)); for(int op=0;op<NOPS;op++) sweep(op,5,As,As); } cur.what=0; }
};
template<class F,int M> Guard D<F,M>::g;
// ---- compile-time operands
#if !defined(ENUM) && !defined(BOOL)
template<class F> struct K { typedef typename F::X X; enum { FORMS=26 };
  template<T C> static VF_NOINLINE Res f(X& x,int form,mo_t m){ Res r={0,0,-1}; switch(form){
    case 0: r.v=bits<T>(x.fetch_add(C,m)); break; case 1: r.v=bits<T>(x.fetch_sub(C,m)); break; case 2: r.v=bits<T>(x.fetch_and(C,m)); break; case 3: r.v=bits<T>(x.fetch_or(C,m)); break; case 4: r.v=bits<T>(x.fetch_xor(C,m)); break;
    case 5: r.v=bits<T>(x.add(C,m)); break; case 6: r.v=bits<T>(x.sub(C,m)); break; case 7: r.v=bits<T>(x.bitwise_and(C,m)); break; case 8: r.v=bits<T>(x.bitwise_or(C,m)); break; case 9: r.v=bits<T>(x.bitwise_xor(C,m)); break;
    case 10: x.opaque_add(C,m); break; case 11: x.opaque_sub(C,m); break; case 12: x.opaque_and(C,m); break; case 13: x.opaque_or(C,m); break; case 14: x.opaque_xor(C,m); break;
    case 15: r.b=x.add_and_test(C,m); break; case 16: r.b=x.sub_and_test(C,m); break; case 17: r.b=x.and_and_test(C,m); break; case 18: r.b=x.or_and_test(C,m); break; case 19: r.b=x.xor_and_test(C,m); break;
    case 20: x.store(C,store_mo(m)); break; case 21: r.v=bits<T>(x.exchange(C,m)); break; case 22: { T e=C; r.b=x.compare_exchange_strong(e,(T)(C+1),m); r.e=bits<T>(e); } break;
    case 23: r.v=bits<T>(x+=C); break; case 24: r.v=bits<T>(x-=C); break; case 25: r.v=bits<T>(x^=C); break; } return r; }
  template<unsigned B> static VF_NOINLINE Res b(X& x,int form,mo_t m){ Res r={0,0,-1}; switch(form){ case 0: r.b=x.bit_test_and_set(B,m); break; case 1: r.b=x.bit_test_and_reset(B,m); break; case 2: r.b=x.bit_test_and_complement(B,m); break; } return r; }
  static void chk(Res r,int op,U s,U a,U d,Guard& g){ U rs=s; Res e=ref_int<U>(op,rs,a,d); U ns=toU(F::get(g.p)); if(r!=e||ns!=rs||!g.ok()) viol("returned v=%s e=%s b=%d and left %s; expected v=%s e=%s b=%d and %s%s",hex(r.v),hex(r.e),r.b,hex(ns),hex(e.v),hex(e.e),e.b,hex(rs),g.ok()?"":"; guard bytes modified"); }
  template<T C> static void c(Guard& g,std::vector<U> const& S){ static const int ops[FORMS]={FADD,FSUB,FAND,FOR,FXOR,ADD,SUB,AND,OR,XOR,OADD,OSUB,OAND,OOR,OXOR,ADDT,SUBT,ANDT,ORT,XORT,STORE,XCHG,CAS_S,OPADD,OPSUB,OPXOR};
    for(int f_=0;f_<FORMS;f_++) for(int mo=0;mo<6;mo+=5) for(U s: S){ cases=cases+1; if(only_case&&cases!=only_case) continue; cur.op=opname(ops[f_]); cur.s=s; cur.a=toU(C); cur.d=toU((T)(C+1)); cur.mo=mo; F::set(g.p,toT(s)); auto&& x=F::at(g.p); Res r=f<C>(x,f_,mov(mo)); chk(r,ops[f_],s,toU(C),toU((T)(C+1)),g); } }
  template<unsigned B> static void cb(Guard& g,std::vector<U> const& S){ static const int ops[3]={BTS,BTR,BTC}; for(int f_=0;f_<3;f_++) for(U s: S){ cases=cases+1; if(only_case&&cases!=only_case) continue; cur.op=opname(ops[f_]); cur.s=s; cur.a=B; cur.mo=5; F::set(g.p,toT(s)); auto&& x=F::at(g.p); Res r=b<B>(x,f_,mov(5)); chk(r,ops[f_],s,(U)B,0,g); } }
  template<unsigned... B> static void cbs(Guard& g,std::vector<U> const& S,Seq<B...>){ int dummy[]={(cb<B>(g,S),0)...}; (void)dummy; }
  static void go(){ Guard g; std::vector<U> S=alpha(W>32); g.init(MIDDLE,F::size(),F::align()); F::make(g.p,toT(0)); cur.type=TN; cur.flav=F::nm(); cur.what="[constant operand]";
    c<(T)0>(g,S); c<(T)1>(g,S); c<(T)-1>(g,S); c<(T)2>(g,S); c<(T)0x7f>(g,S); c<(T)0x80>(g,S); c<(T)-128>(g,S); c<(T)-129>(g,S); c<(T)0x55>(g,S);
    if(W>8){ c<(T)0xff>(g,S); c<(T)0x100>(g,S); c<(T)0x7fff>(g,S); c<(T)0x8000>(g,S); c<(T)0x1234>(g,S); }
    if(W>16){ c<(T)0xffff>(g,S); c<(T)0x10000>(g,S); c<(T)0x7fffffff>(g,S); c<(T)0x80000000u>(g,S); c<(T)0xffffff80u>(g,S); }
    if(W>32){ c<(T)0xffffffffull>(g,S); c<(T)0x100000000ull>(g,S); c<(T)0xffffffff80000000ull>(g,S); c<(T)0xffffffff7fffffffull>(g,S); c<(T)0x8000000000000000ull>(g,S); c<(T)0x7fffffffffffffffull>(g,S); c<(T)0x123456789abcdef0ull>(g,S); }
    cbs(g,S,typename MkSeq<(W<=64?W:64)>::type()); if(W>64){ cb<W-1>(g,S); cb<W-2>(g,S); cb<(W>64?65:0)>(g,S); } cur.what=0; }
};
#endif
template<class F> static void flav(bool primary){ if(stop()) return; D<F,-1>::go(primary); D<F,-1>::edges(); }
template<class Q> static void ipcs(){ if constexpr(boost::atomic<Q>::is_always_lock_free){ flav<FlIpc<Q>>(false); flav<FlIpcRef<Q>>(false); } }
void sq::run(){
#if defined(PART) && PART==2
  K<FlAtomic<T>>::go(); K<FlRef<T>>::go();
#elif defined(PART) && PART==3
  D<FlAtomic<T>,(int)boost::memory_order_relaxed>::go(false); D<FlAtomic<T>,(int)boost::memory_order_acquire>::go(false); D<FlAtomic<T>,(int)boost::memory_order_release>::go(false); D<FlAtomic<T>,(int)boost::memory_order_acq_rel>::go(false); D<FlAtomic<T>,(int)boost::memory_order_seq_cst>::go(false);
  D<FlRef<T>,(int)boost::memory_order_acquire>::go(false); D<FlRef<T>,(int)boost::memory_order_seq_cst>::go(false);
#else
  flav<FlAtomic<T>>(true); flav<FlRef<T>>(true); flav<FlVol<T>>(false);
#ifndef BOOST_ATOMIC_FORCE_FALLBACK
  ipcs<T>();
#endif
#endif
}
