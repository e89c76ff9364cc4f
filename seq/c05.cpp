// C05: pointer operations against plain pointer arithmetic, every element size and distance.
#include "seq.h"
using namespace sq; using namespace vf; using namespace boost;
template<int N> struct E { unsigned char b[N]; };
template<int N> struct En { static const char* nm(){ static char b[16]; snprintf(b,16,"E%d*",N); return b; } };
template<class X,class P> static VF_NOINLINE Res run_op(X& x,int op,P a,P d,std::ptrdiff_t n,mo_t m){ Res r={0,0,-1}; switch(op){
  case LOAD: r.v=bits(x.load(load_mo(m))); break; case CONV: r.v=bits(static_cast<P>(x)); break; case STORE: x.store(a,store_mo(m)); break; case ASSIGN: r.v=bits(x=a); break; case XCHG: r.v=bits(x.exchange(a,m)); break;
  case CAS_S: r.b=x.compare_exchange_strong(a,d,m); r.e=bits(a); break; case CAS_W: r.b=x.compare_exchange_weak(a,d,m); r.e=bits(a); break; case CAS_S2: r.b=x.compare_exchange_strong(a,d,m,fail_mo(m)); r.e=bits(a); break; case CAS_W2: r.b=x.compare_exchange_weak(a,d,m,memory_order_relaxed); r.e=bits(a); break;
  default: if constexpr(!std::is_void<typename std::remove_pointer<P>::type>::value && !std::is_function<typename std::remove_pointer<P>::type>::value) switch(op){
  case FADD: r.v=bits(x.fetch_add(n,m)); break; case FSUB: r.v=bits(x.fetch_sub(n,m)); break; case ADD: r.v=bits(x.add(n,m)); break; case SUB: r.v=bits(x.sub(n,m)); break; case OADD: x.opaque_add(n,m); break; case OSUB: x.opaque_sub(n,m); break;
  case ADDT: r.b=x.add_and_test(n,m); break; case SUBT: r.b=x.sub_and_test(n,m); break; case PREINC: r.v=bits(++x); break; case POSTINC: r.v=bits(x++); break; case PREDEC: r.v=bits(--x); break; case POSTDEC: r.v=bits(x--); break; case OPADD: r.v=bits(x+=n); break; case OPSUB: r.v=bits(x-=n); break;
  case FADD1: r.v=bits(x.fetch_add(1,m)); break; case FSUB1: r.v=bits(x.fetch_sub(1,m)); break; case ADD1: r.v=bits(x.add(1,m)); break; case SUB1: r.v=bits(x.sub(1,m)); break; case OADD1: x.opaque_add(1,m); break; case OSUB1: x.opaque_sub(1,m); break; case ADDT1: r.b=x.add_and_test(1,m); break; case SUBT1: r.b=x.sub_and_test(1,m); break;
  case FADDK: r.v=bits(x.fetch_add(-3,m)); break; case ADDTK: r.b=x.add_and_test(-3,m); break; case OADDK: x.opaque_add(-3,m); break; } } return r; }
static const int aops[]={FADD,FSUB,ADD,SUB,OADD,OSUB,ADDT,SUBT,PREINC,POSTINC,PREDEC,POSTDEC,OPADD,OPSUB,FADD1,FSUB1,ADD1,SUB1,OADD1,OSUB1,ADDT1,SUBT1,FADDK,ADDTK,OADDK}, gops[]={LOAD,CONV,STORE,ASSIGN,XCHG,CAS_S,CAS_W,CAS_S2,CAS_W2};
template<class F,int SZ> struct D { typedef typename F::V P; static Guard g;
  static P mk(uintptr_t u){ P p; memcpy(&p,&u,sizeof p); return p; }
  static void one(int op,int mo,uintptr_t s,uintptr_t a,uintptr_t d,std::ptrdiff_t n){ cases=cases+1; if(only_case&&cases!=only_case) return; cur.op=opname(op); cur.mo=mo; cur.s=s; cur.a=op>=FADD?(u128)n:(u128)a; cur.d=d;
    F::set(g.p,mk(s)); uintptr_t ns=s, st=(uintptr_t)n*SZ; Res e={0,0,-1};
    switch(op){ case LOAD: case CONV: e.v=s; break; case STORE: ns=a; break; case ASSIGN: ns=a; e.v=a; break; case XCHG: ns=a; e.v=s; break; case CAS_S: case CAS_W: case CAS_S2: case CAS_W2: e.b=s==a; e.e=s; if(e.b) ns=d; break;
      case FADD: ns=s+st; e.v=s; break; case FSUB: ns=s-st; e.v=s; break; case ADD: case OPADD: ns=s+st; e.v=ns; break; case SUB: case OPSUB: ns=s-st; e.v=ns; break; case OADD: ns=s+st; break; case OSUB: ns=s-st; break; case ADDT: ns=s+st; e.b=ns!=0; break; case SUBT: ns=s-st; e.b=ns!=0; break;
      case PREINC: ns=s+SZ; e.v=ns; break; case POSTINC: ns=s+SZ; e.v=s; break; case PREDEC: ns=s-SZ; e.v=ns; break; case POSTDEC: ns=s-SZ; e.v=s; break;
      case FADD1: ns=s+SZ; e.v=s; break; case FSUB1: ns=s-SZ; e.v=s; break; case ADD1: ns=s+SZ; e.v=ns; break; case SUB1: ns=s-SZ; e.v=ns; break; case OADD1: ns=s+SZ; break; case OSUB1: ns=s-SZ; break; case ADDT1: ns=s+SZ; e.b=ns!=0; break; case SUBT1: ns=s-SZ; e.b=ns!=0; break;
      case FADDK: ns=s-(uintptr_t)3*SZ; e.v=s; break; case ADDTK: ns=s-(uintptr_t)3*SZ; e.b=ns!=0; break; case OADDK: ns=s-(uintptr_t)3*SZ; break; }
    auto&& x=F::at(g.p); Res r=run_op(x,op,mk(a),mk(d),n,mov(mo)); uintptr_t got=(uintptr_t)bits(F::get(g.p));
    if(is_weak(op)&&e.b==1&&r.b==0&&r.e==s&&got==s&&g.ok()) return;
    if(r!=e||got!=ns||!g.ok()) { viol("returned v=%s e=%s b=%d and left %s; expected v=%s e=%s b=%d and %s%s",hex(r.v),hex(r.e),r.b,hex(got),hex(e.v),hex(e.e),e.b,hex(ns),g.ok()?"":"; guard bytes modified"); g.init(MIDDLE,F::size(),F::align()); F::make(g.p,mk(0)); }
    note(mix(mix(op,got),(uint64_t)r.v)); }
  static void go(const char* tn,bool arith,bool primary){ if(stop()) return; cur.type=tn; cur.flav=F::nm();
    std::vector<std::ptrdiff_t> N; { std::set<std::ptrdiff_t> s; for(std::ptrdiff_t v: {0,1,2,3,4,5,7,8,15,16,31,63,64,100,127,128,129,255,256,257,1000,4095,4096,32767,32768,32769,65535,65536,65537}) { s.insert(v); s.insert(-v); } for(int b=20;b<46;b++){ std::ptrdiff_t v=(std::ptrdiff_t)1<<b; if(v*SZ>((std::ptrdiff_t)1<<56)) break; for(int q=-1;q<=1;q++){ s.insert(v+q); s.insert(-v+q); } } N.assign(s.begin(),s.end()); }
    std::vector<uintptr_t> B={0,(uintptr_t)SZ,(uintptr_t)SZ*2,(uintptr_t)SZ*3,(uintptr_t)SZ*7,0x1000,0x7fffffff,0x80000000,0xffffffff,0x100000000ull,(uintptr_t)1<<40,(uintptr_t)0x7ffe12345678ull,(uintptr_t)1<<62,(uintptr_t)0-SZ,(uintptr_t)0-(uintptr_t)SZ*3,(uintptr_t)0xff};
    for(int pl=0;pl<3;pl++){ g.init((Place)pl,F::size(),F::align()); cur.what=pl?pln[pl]:0; F::make(g.p,mk(0)); 
      for(int mo=0;mo<6;mo++){ if(!primary&&mo!=5&&mo!=0) continue; if(pl&&mo!=5) continue;
        for(int op: gops) for(uintptr_t s: B) for(uintptr_t a: B){ one(op,mo,s,a,a+0x10,0); if(is_cas(op)){ one(op,mo,s,s,a,0); one(op,mo,s,s^((uintptr_t)1<<(cases&63)),a,0); } }
        if(arith) for(int op: aops) for(uintptr_t s: B){ if(op>=PREINC&&op<=POSTDEC || op>=FADD1) { one(op,mo,s,0,0,0); continue; } for(std::ptrdiff_t n: N){ one(op,mo,s,0,0,n); } for(std::ptrdiff_t n: N) if(n<=4096&&n>=-4096) one(op,mo,(uintptr_t)n*SZ,0,0,(op==SUBT||op==SUB||op==FSUB)?n:-n); } } }
    states+=B.size()+N.size(); cur.what=0; sample("%s<%s>: %zu base addresses x %zu distances x 34 operations x orders",F::nm(),tn,B.size(),N.size()); } };
template<class F,int SZ> Guard D<F,SZ>::g;
template<class P,int SZ> static void all(const char* tn,bool arith){ D<FlAtomic<P>,SZ>::go(tn,arith,true); D<FlRef<P>,SZ>::go(tn,arith,true);
#if !defined(PART) || PART==1
  D<FlVol<P>,SZ>::go(tn,arith,false);
#ifndef BOOST_ATOMIC_FORCE_FALLBACK
  D<FlIpc<P>,SZ>::go(tn,arith,false); D<FlIpcRef<P>,SZ>::go(tn,arith,false);
#endif
#endif
}
template<int N> static void es(){ all<E<N>*,N>(En<N>::nm(),true); }
typedef void (*Fn)(int);
void sq::run(){
#if !defined(PART) || PART==1
  es<1>(); es<3>(); es<8>(); all<int*,4>("int*",true); all<const volatile short*,2>("const volatile short*",true); all<void*,1>("void*",false);
#elif PART==2
  es<2>(); es<4>(); es<5>(); es<6>(); es<7>(); es<9>(); es<12>(); es<16>(); all<char**,8>("char**",true); all<Fn,1>("void(*)(int)",false); all<const void*,1>("const void*",false);
#elif PART==3
  es<17>(); es<24>(); es<32>(); es<33>(); es<64>(); es<100>(); es<127>(); es<128>(); es<255>(); es<256>(); es<1000>(); es<4096>(); all<volatile void*,1>("volatile void*",false);
#endif
}
