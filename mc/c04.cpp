// C04: floating point operations under concurrency: results equal those of plain floating point expressions evaluated in some
// sequential order; operands include signed zeros, infinities, NaN, denormals and values whose sum depends on the order.
#include <chrono>
#include "linmat.h"
#include <limits>
#include <cmath>
// operand codes
enum { Z, NZ, ONE, TENTH, BIG, NBIG, INF, NINF, NAN_, DEN, TINY, FIVE, NCODE };
template<class T> static VF_NOINLINE T val(unsigned c){ typedef std::numeric_limits<T> L; switch(c){ case Z: return T(0); case NZ: return -T(0); case ONE: return T(1); case TENTH: return T(0.1L); case BIG: return L::max(); case NBIG: return -L::max(); case INF: return L::infinity(); case NINF: return -L::infinity(); case NAN_: return L::quiet_NaN(); case DEN: return L::denorm_min(); case TINY: return L::epsilon()/2; default: return T(5); } }
// every copy of a value carries different bytes beyond the value (10 of 16 bytes for long double)
template<class T> struct Cell { union { unsigned char b[sizeof(T)]; T t; }; VF_NOINLINE Cell(unsigned c){ memset(b,0x5a+37*mc::self()+11*(int)c,sizeof b); T v=val<T>(c); memcpy(b,&v,vf::vbytes<T>::n); } };
template<class T> static VF_NOINLINE u128 bits_(T t){ return std::isnan(t) ? vf::bits<T>(std::numeric_limits<T>::quiet_NaN()) : vf::bits<T>(t); }
enum { FNEG_=vf::FNEG };
template<class T> struct FpAp {
  static u128 enc(unsigned v){ return bits_<T>((T)v); }
  template<class A> static LIN_INLINE Res run(A& x,int op,unsigned a,unsigned d,boost::memory_order m){ Res r={0,0,-1}; Cell<T> c(a); 
    switch(op){ case LOAD: r.v=bits_<T>(x.load(vf::load_mo(m))); break; case CONV: r.v=bits_<T>(static_cast<T>(x)); break; case STORE: x.store(c.t,vf::store_mo(m)); break; case ASSIGN: r.v=bits_<T>(x=c.t); break; case XCHG: r.v=bits_<T>(x.exchange(c.t,m)); break;
      case CAS_S: { Cell<T> e(d); r.b=x.compare_exchange_strong(c.t,e.t,m); r.e=bits_<T>(c.t); } break; case CAS_W: { Cell<T> e(d); r.b=x.compare_exchange_weak(c.t,e.t,m); r.e=bits_<T>(c.t); } break;
      case FADD: r.v=bits_<T>(x.fetch_add(c.t,m)); break; case FSUB: r.v=bits_<T>(x.fetch_sub(c.t,m)); break; case ADD: r.v=bits_<T>(x.add(c.t,m)); break; case SUB: r.v=bits_<T>(x.sub(c.t,m)); break; case OADD: x.opaque_add(c.t,m); break; case OSUB: x.opaque_sub(c.t,m); break;
      case FNEG: r.v=bits_<T>(x.fetch_negate(m)); break; case NEG: r.v=bits_<T>(x.negate(m)); break; case ONEG: x.opaque_negate(m); break; case OPADD: r.v=bits_<T>(x+=c.t); break; case OPSUB: r.v=bits_<T>(x-=c.t); break; default: mc::fail("bad op %d",op); } return r; }
  static VF_NOINLINE T un(u128 b){ return vf::unbits<T>(b); }
  static VF_NOINLINE u128 plus(u128 a,u128 b){ volatile T x=un(a),y=un(b); volatile T r=x+y; return bits_<T>(r); } static VF_NOINLINE u128 minus(u128 a,u128 b){ volatile T x=un(a),y=un(b); volatile T r=x-y; return bits_<T>(r); } static VF_NOINLINE u128 neg(u128 a){ volatile T x=un(a); volatile T r=-x; return bits_<T>(r); }
  static bool spec(u128* st,mc::HOp const& h,const void*){ u128 s=*st, a=bits_<T>(val<T>((unsigned)h.a)), n=s; Res r={0,0,-1}; switch(h.op){ case LOAD: case CONV: r.v=s; break; case STORE: n=a; break; case ASSIGN: n=a; r.v=a; break; case XCHG: r.v=s; n=a; break;
      case CAS_S: case CAS_W: if(s==a && !(h.op==CAS_W && h.rb==0)){ n=bits_<T>(val<T>((unsigned)h.d)); r.b=1; r.e=a; } else { r.b=0; r.e=s; } break;
      case FADD: case ADD: case OADD: case OPADD: n=plus(s,a); if(h.op!=OADD) r.v= h.op==FADD?s:n; break; case FSUB: case SUB: case OSUB: case OPSUB: n=minus(s,a); if(h.op!=OSUB) r.v= h.op==FSUB?s:n; break; case FNEG: case NEG: case ONEG: n=neg(s); if(h.op!=ONEG) r.v= h.op==FNEG?s:n; break; }
    *st=n; return r.v==h.rv&&r.e==h.re&&r.b==h.rb; }
};
static mc::Opts wk(int w,long m=12000){ mc::Opts o; o.weak=w; o.max_execs=m; return o; }
static POp P(int op,unsigned a,unsigned d=0){ POp o={op,a,d,0}; return o; }
static const int AR[]={FADD,FSUB,ADD,SUB,OADD,OSUB,OPADD,OPSUB,FNEG,NEG,ONEG};
template<class F> static void progs(const char* t){ typedef Lin<F,FpAp<typename F::T_>> L; int k=0;
  for(int a: AR) for(int b: AR) { L::add(t,prog(mos[k%6],5,{{P(a,k%NCODE)},{P(b,(k/2+3)%NCODE)}}),wk(k&1)); k++; }
  for(int a: AR) for(unsigned c=0;c<NCODE;c++){ int b=AR[(k*5)%11]; L::add(t,prog(mos[k++%6],5,{{P(a,c),P(a,BIG)},{P(b,c)}}),wk(0)); L::add(t,prog(mos[k++%6],0,{{P(STORE,c),P(a,c)},{P(AR[(k*7)%11],NZ)}}),wk(0)); }
  for(int a: AR) for(int g: {(int)LOAD,(int)CONV,(int)STORE,(int)ASSIGN,(int)XCHG,(int)CAS_S,(int)CAS_W}) { L::add(t,prog(mos[k++%6],5,{{P(a,TENTH)},{P(g,FIVE,BIG)}}),wk(1)); L::add(t,prog(mos[k++%6],0,{{P(a,NZ),P(NEG,0)},{P(g,Z,NZ),P(g,NZ,Z)}}),wk(0,6000)); }
  for(unsigned c: {(unsigned)Z,(unsigned)NZ,(unsigned)NAN_,(unsigned)INF,(unsigned)DEN}) for(unsigned d: {(unsigned)Z,(unsigned)NZ,(unsigned)NAN_}) { L::add(t,prog(4,0,{{P(STORE,c),P(CAS_S,c,d)},{P(XCHG,d),P(LOAD,0)}}),wk(0)); L::add(t,prog(4,5,{{P(XCHG,c),P(CAS_W,c,d)},{P(CAS_S,d,c)}}),wk(1)); }
  for(int a: AR) L::add(t,prog(4,5,{{P(a,BIG)},{P(a,TENTH)},{P(AR[k++%11],ONE)}}),wk(0,3000)); }
// waits: padding never wakes or blocks a waiter; a zero of the other sign is a different value
template<class F> struct W { typedef typename F::T_ T; struct Arg { unsigned from, to; int how; };
  static void init(const void* p){ Arg const& a=*(Arg const*)p; init_obj<F>(0,5); obj<F>(0).ref().store(Cell<T>(a.from).t); }
  static void body(int t,const void* p){ Arg const& a=*(Arg const*)p; auto&& x=obj<F>(0).ref(); if(t==0){ if(a.how&2){ auto r=x.wait_for(Cell<T>(a.from).t,std::chrono::microseconds(5)); MC_CHECK(bits_<T>(r.value)==bits_<T>(val<T>(r.timeout?a.from:a.to)),"wait_for: wrong value, timeout %d",(int)r.timeout); if(r.timeout) MC_CHECK(mc::now(CLOCK_MONOTONIC)>=5000,"early timeout"); } else { T g=x.wait(Cell<T>(a.from).t); MC_CHECK(bits_<T>(g)==bits_<T>(val<T>(a.to)),"wait returned a wrong value"); } }
    else { if(a.how&1){ x.store(Cell<T>(a.from).t); x.notify_all(); } x.exchange(Cell<T>(a.to).t); x.notify_one(); } }
  static void fini(const void*){}
  static void add(const char* t){ static const unsigned pr[][2]={{Z,NZ},{NZ,Z},{NAN_,INF},{FIVE,ONE},{BIG,INF},{DEN,Z}}; for(auto& q: pr) for(int h=0;h<4;h++){ Arg a={q[0],q[1],h}; mc::Opts o=wk(0,4000); o.clock=0; o.spurious=1; mc::add(mc::fmt("%s %s<%s> %s(value %u) vs %sexchange(value %u)",CFG,F::nm(),t,h&2?"wait_for":"wait",q[0],h&1?"store(same);notify;":"",q[1]),2,init,body,fini,mc::keep(&a,sizeof a),o); } } };
template<class F> static void all(const char* t){ typedef typename F::T_ T;
#ifdef BACKEND_PLAIN
  if constexpr(!(F::is_ref?boost::atomic_ref<T>::is_always_lock_free:boost::atomic<T>::is_always_lock_free)) return;   // the backends' internal locks are plain code here
#endif
  progs<F>(t); 
#ifndef BACKEND_PLAIN
  W<F>::add(t);
#endif
}
template<class T> static void both(const char* t){ all<FAtomic<T>>(t); all<FRefCopy<T>>(t); if constexpr(boost::ipc_atomic<T>::is_always_lock_free){ all<FIpc<T>>(t); all<FIpcRef<T>>(t); } }
void mc_register(){
#ifdef BOOST_ATOMIC_FORCE_FALLBACK
  all<FAtomic<float>>("float"); all<FRefCopy<double>>("double"); all<FAtomic<long double>>("long double"); all<FRefCopy<long double>>("long double");
#else
#ifndef CX16
  both<float>("float"); both<double>("double");
#endif
  both<long double>("long double");
#endif
}
