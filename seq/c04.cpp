// C04: floating point operations against the plain expression. -DTY=float|double|"long double"|__float128
#include "seq.h"
#include <chrono>
#include <fenv.h>
#include <cmath>
using namespace sq; using namespace vf; using namespace boost;
#define S2(x) #x
#define S1(x) S2(x)
typedef TY T; enum { VB=vbytes<T>::n, PAD=sizeof(T)-VB };
static VF_NOINLINE T plus_(T a,T b){ volatile T x=a,y=b; volatile T r=x+y; return r; }
static VF_NOINLINE T minus_(T a,T b){ volatile T x=a,y=b; volatile T r=x-y; return r; }
static VF_NOINLINE T neg_(T a){ volatile T x=a; volatile T r=-x; return r; }
static u128 msk(){ return VB==16?~(u128)0:(((u128)1<<(VB*8))-1); }
// all interesting bit patterns of the format
static std::vector<u128> alphabet(){ int mant= sizeof(T)==4?23:sizeof(T)==8?52:VB==10?64:112, ebits=sizeof(T)==4?8:sizeof(T)==8?11:15; bool x87=VB==10; u128 one=1; std::set<u128> s;
  u128 emax=(one<<ebits)-1, bias=(one<<(ebits-1))-1; 
  auto put=[&](u128 e,u128 m){ if(x87 && e!=0) m|=one<<63; if(x87&&e==0) m&=~(one<<63); for(u128 sg=0;sg<2;sg++) s.insert((sg<<(VB*8-1))|(e<<mant)|m); };
  u128 mm=(one<<(x87?63:mant))-1; u128 top=one<<((x87?63:mant)-1);
  for(u128 m: {(u128)0,(u128)1,(u128)2,mm,mm-1,top,top|1,mm^top,(u128)0x5}) for(u128 e: {(u128)0,(u128)1,(u128)2,bias-1,bias,bias+1,bias+2,bias+(x87?63:mant)-1,bias+(x87?63:mant),bias+(x87?63:mant)+1,bias+(x87?63:mant)+2,bias-(x87?63:mant)-1,emax-1,emax-2,emax}) put(e,m);
  return std::vector<u128>(s.begin(),s.end()); }
static bool isnan_(u128 b){ T t=unbits<T>(b); return t!=t; }
static bool same(u128 a,u128 b,bool exact){ return a==b || (!exact && isnan_(a) && isnan_(b)); }
static VF_NOINLINE void dirty(unsigned char c){ volatile unsigned char g[768]; for(unsigned i=0;i<sizeof g;i++) g[i]=c; __asm__ __volatile__(""::"r"(g):"memory"); }
union UU { unsigned char by[sizeof(T)]; T t; UU(){} };
// a value with garbage in its padding bytes
static VF_NOINLINE void mk(UU& u,u128 b,unsigned char c){ memset(u.by,c,sizeof(T)); memcpy(u.by,&b,VB); }
enum { WAITZ=100 };
template<class X> static VF_NOINLINE Res run_op(X& x,int op,UU& a,UU& d,mo_t m){ Res r={0,0,-1}; switch(op){
  case LOAD: r.v=bits<T>(x.load(load_mo(m))); break; case CONV: r.v=bits<T>(static_cast<T>(x)); break; case STORE: x.store(a.t,store_mo(m)); break; case ASSIGN: r.v=bits<T>(x=a.t); break; case XCHG: r.v=bits<T>(x.exchange(a.t,m)); break;
  case CAS_S: r.b=x.compare_exchange_strong(a.t,d.t,m); r.e=bits<T>(a.t); break; case CAS_W: r.b=x.compare_exchange_weak(a.t,d.t,m); r.e=bits<T>(a.t); break;
  case CAS_S2: r.b=x.compare_exchange_strong(a.t,d.t,m,fail_mo(m)); r.e=bits<T>(a.t); break; case CAS_W2: r.b=x.compare_exchange_weak(a.t,d.t,m,memory_order_relaxed); r.e=bits<T>(a.t); break;
  case FADD: r.v=bits<T>(x.fetch_add(a.t,m)); break; case FSUB: r.v=bits<T>(x.fetch_sub(a.t,m)); break; case FNEG: r.v=bits<T>(x.fetch_negate(m)); break;
  case ADD: r.v=bits<T>(x.add(a.t,m)); break; case SUB: r.v=bits<T>(x.sub(a.t,m)); break; case NEG: r.v=bits<T>(x.negate(m)); break;
  case OADD: x.opaque_add(a.t,m); break; case OSUB: x.opaque_sub(a.t,m); break; case ONEG: x.opaque_negate(m); break; case OPADD: r.v=bits<T>(x+=a.t); break; case OPSUB: r.v=bits<T>(x-=a.t); break;
  case WAITZ: { auto w=x.wait_for(a.t,std::chrono::seconds(0),load_mo(m)); r.b=w.timeout; r.v=bits<T>(w.value); } break; } return r; }
template<class F> struct D { typedef typename F::X X; static Guard g;
  static void setbits(u128 s,unsigned char pad){ if(F::ref){ memset(g.p,pad,sizeof(T)); memcpy(g.p,&s,VB); } else { UU u; mk(u,s,pad); F::set(g.p,u.t); } }
  static u128 getbits(){ if(F::ref){ u128 r=0; memcpy(&r,g.p,VB); return r; } return bits<T>(F::get(g.p)); }
  static void one(int op,int mo,u128 s,u128 a,u128 d,unsigned char pad){ cases=cases+1; if(only_case&&cases!=only_case) return; cur.op=op==WAITZ?"wait_for(0s)":opname(op); cur.mo=mo; cur.s=s; cur.a=a; cur.d=d;
    setbits(s,pad); UU ua,ud; mk(ua,a,(unsigned char)~pad); mk(ud,d,(unsigned char)(pad^0x3c)); if(PAD) dirty((unsigned char)(pad+17));
    Res e={0,0,-1}; u128 ns=s; bool exact=true, exs=true; T S=unbits<T>(s), A=unbits<T>(a);
    switch(op){ case LOAD: case CONV: e.v=s; break; case STORE: ns=a; break; case ASSIGN: ns=a; e.v=a; break; case XCHG: ns=a; e.v=s; break;
      case CAS_S: case CAS_W: case CAS_S2: case CAS_W2: e.b=s==a; e.e=s; if(e.b) ns=d; break;
      case FADD: ns=bits<T>(plus_(S,A)); e.v=s; exs=false; break; case FSUB: ns=bits<T>(minus_(S,A)); e.v=s; exs=false; break; case FNEG: ns=bits<T>(neg_(S)); e.v=s; exs=false; break;
      case ADD: case OPADD: ns=bits<T>(plus_(S,A)); e.v=ns; exact=exs=false; break; case SUB: case OPSUB: ns=bits<T>(minus_(S,A)); e.v=ns; exact=exs=false; break; case NEG: ns=bits<T>(neg_(S)); e.v=ns; exact=exs=false; break;
      case OADD: ns=bits<T>(plus_(S,A)); exs=false; break; case OSUB: ns=bits<T>(minus_(S,A)); exs=false; break; case ONEG: ns=bits<T>(neg_(S)); exs=false; break;
      case WAITZ: e.b=s==a; e.v=s; break; }
    auto&& x=F::at(g.p); Res r=run_op(x,op,ua,ud,mov(mo)); u128 n=getbits();
    bool isc=is_cas(op); if(isc&&is_weak(op)&&e.b==1&&r.b==0&&r.e==s&&n==s) return;
    bool ok=r.b==e.b && (isc ? r.e==e.e : same(r.v,e.v,exact)) && same(n,ns,exs) && g.ok();
    if(!ok){ viol("[padding %02x] returned v=%s e=%s b=%d and left %s; expected v=%s e=%s b=%d and %s%s",pad,hex(r.v),hex(r.e),r.b,hex(n),hex(e.v),hex(e.e),e.b,hex(ns),g.ok()?"":"; guard bytes modified"); g.init(MIDDLE,F::size(),F::align()); F::make(g.p,T(0)); return; }
    // the stored representation must compare equal to its value, whatever the padding of the expected argument
    if(PAD||(cases&7)==0){ UU e2; mk(e2,n,(unsigned char)(pad^0xff)); auto&& y=F::at(g.p); UU d2; mk(d2,n,pad); if(PAD) dirty((unsigned char)(pad^0x55)); if(!y.compare_exchange_strong(e2.t,d2.t)) viol("[padding %02x] afterwards compare_exchange_strong fails on the object's own value",pad); }
    note(mix(mix(mix(op,(uint64_t)n),(uint64_t)(n>>64)),(uint64_t)r.v)); }
  static void go(bool primary){ if(stop()) return; cur.type=S1(TY); cur.flav=F::nm(); static std::vector<u128> A=alphabet(), As; if(As.empty()) for(size_t i=0;i<A.size();i+=5) As.push_back(A[i]);
    static const int ops[]={LOAD,CONV,STORE,ASSIGN,XCHG,CAS_S,CAS_W,CAS_S2,CAS_W2,FADD,FSUB,FNEG,ADD,SUB,NEG,OADD,OSUB,ONEG,OPADD,OPSUB,WAITZ}; static const int rm[]={FE_TONEAREST,FE_UPWARD,FE_DOWNWARD,FE_TOWARDZERO}; static const unsigned char pads[]={0,0xff,0x01,0x80};
    g.init(MIDDLE,F::size(),F::align()); F::make(g.p,T(0)); states+=A.size()*(PAD?4:1);
    for(int op: ops) for(int mo=0;mo<6;mo++) for(int r=0;r<4;r++){ bool arith=op>=FADD&&op<=OPSUB; if(r&&!(arith&&mo==5&&sizeof(T)<=8)) continue; bool full=primary&&(mo==5); std::vector<u128> const& B=full?A:As; cur.what= r==1?"[upward]":r==2?"[downward]":r==3?"[toward zero]":0;
      bool un=op==LOAD||op==CONV||op==FNEG||op==NEG||op==ONEG; if(r) fesetround(rm[r]);
      for(u128 s: B) for(int p=0;p<(PAD?4:1);p++){ if(un) { one(op,mo,s,0,0,pads[p]); continue; } for(u128 a: B){ if(is_cas(op)) one(op,mo,s,a,a^1,pads[p]); else one(op,mo,s,a,0,pads[p]); } if(is_cas(op)||op==WAITZ) one(op,mo,s,s,B[cases%B.size()],pads[p]); }
      if(r) fesetround(FE_TONEAREST); }
    cur.what=0; sample("%s<%s>: 21 operations x 6 orders over %zu x %zu bit patterns (all classes), 4 rounding modes, %d padding patterns",F::nm(),S1(TY),A.size(),A.size(),PAD?4:1);
    for(int e=0;e<2;e++){ g.init(e?START:END,F::size(),F::align()); if((uintptr_t)g.p%F::align()) continue; cur.what=pln[e?START:END]; F::make(g.p,T(0)); for(int op: ops) for(size_t i=0;i<As.size();i+=3) for(size_t j=0;j<As.size();j+=5) one(op,5,As[i],As[j],As[i],0x80); } cur.what=0; }
};
template<class F> Guard D<F>::g;
#ifndef BOOST_ATOMIC_FORCE_FALLBACK
template<bool B> static void ipc_part(){ if constexpr(B){ D<FlIpc<typename std::conditional<B,T,float>::type>>::go(false); D<FlIpcRef<typename std::conditional<B,T,float>::type>>::go(false); } }
#endif
void sq::run(){ D<FlAtomic<T>>::go(true); D<FlRef<T>>::go(true); D<FlVol<T>>::go(false);
#ifndef BOOST_ATOMIC_FORCE_FALLBACK
  ipc_part<boost::atomic<T>::is_always_lock_free>();
#endif
}
