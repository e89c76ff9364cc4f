// Linearizability programs: every thread performs a short list of operations on (one of) the objects; after every complete
// execution the recorded history must have a sequential witness that respects real-time order and ends in the final values.
#pragma once
#include "scn.h"
#ifndef LIN_INLINE
#define LIN_INLINE
#endif
#include <cstdio>
using vf::u128; using vf::Res;
struct POp { int op; unsigned a, d; int obj; int w; };   // w: a load made by waiting for a value that is never there (1: wait, 2: wait_for, 3: wait_until) or 4: notify_one, 5: notify_all before the operation
struct Prog { int nthr; int n[6]; POp ops[6][3]; int mo; unsigned init; int nobj; int lockfree_claim; };
inline boost::memory_order mo_of(int m){ static const boost::memory_order t[]={boost::memory_order_relaxed,boost::memory_order_acquire,boost::memory_order_release,boost::memory_order_acq_rel,boost::memory_order_seq_cst,boost::memory_order_consume}; return t[m]; }

// ---- operation application; values travel as small indices for non-integer types and as bits for integers
template<class T, bool I = (std::is_integral<T>::value && !std::is_same<T,bool>::value)> struct Apply;
template<class T> struct Apply<T,true> {
  typedef vf::uint_of<T> U;
  static u128 enc(unsigned v){ return vf::bits<T>((T)v); }
  static u128 out(T v){ return vf::bits<T>(v); } static T in(unsigned v){ return (T)v; }
  template<class A> static LIN_INLINE Res run(A& x,int op,unsigned a,unsigned d,boost::memory_order m){ return vf::int_ops<A,T>::table()[op](x,(T)a,(T)d,m); }
  static bool spec(u128* st,mc::HOp const& h,const void*) { U s=(U)*st; bool weakfail = vf::is_weak(h.op) && h.rb==0 && (U)h.re==(U)(T)(unsigned)h.a;
    if(weakfail){ return (U)s==(U)h.re; }
    Res r=vf::ref_int<U>(h.op,s,(U)(T)(unsigned)h.a,(U)(T)(unsigned)h.d); *st=s;
    return r.v==h.rv && r.e==h.re && r.b==h.rb; }
};
template<class T> struct fp_kind { enum { v = std::is_floating_point<T>::value ? 1 : std::is_pointer<T>::value ? 2 : 0 }; };
template<> struct fp_kind<void*> { enum { v = 0 }; };
template<class T, int K = fp_kind<T>::v> struct Extra { template<class A> static LIN_INLINE Res run(A&,int op,unsigned,boost::memory_order){ mc::fail("bad op %d",op); } };
template<class T> struct Extra<T,1> { template<class A> static LIN_INLINE Res run(A& x,int op,unsigned a,boost::memory_order m){ Res r={0,0,-1}; T t=(T)a; switch(op){
  case vf::FADD: r.v=Val<T>::get(x.fetch_add(t,m)); break; case vf::FSUB: r.v=Val<T>::get(x.fetch_sub(t,m)); break; case vf::ADD: r.v=Val<T>::get(x.add(t,m)); break; case vf::SUB: r.v=Val<T>::get(x.sub(t,m)); break;
  case vf::OADD: x.opaque_add(t,m); break; case vf::OSUB: x.opaque_sub(t,m); break; case vf::OPADD: r.v=Val<T>::get(x+=t); break; case vf::OPSUB: r.v=Val<T>::get(x-=t); break; default: mc::fail("bad fp op"); } return r; } };
template<class T> struct Extra<T,2> { template<class A> static LIN_INLINE Res run(A& x,int op,unsigned a,boost::memory_order m){ Res r={0,0,-1}; std::ptrdiff_t t=(std::ptrdiff_t)(int)a; switch(op){
  case vf::FADD: r.v=Val<T>::get(x.fetch_add(t,m)); break; case vf::FSUB: r.v=Val<T>::get(x.fetch_sub(t,m)); break; case vf::ADD: r.v=Val<T>::get(x.add(t,m)); break; case vf::SUB: r.v=Val<T>::get(x.sub(t,m)); break;
  case vf::OADD: x.opaque_add(t,m); break; case vf::OSUB: x.opaque_sub(t,m); break; case vf::OPADD: r.v=Val<T>::get(x+=t); break; case vf::OPSUB: r.v=Val<T>::get(x-=t); break;
  case vf::ADDT: r.b=x.add_and_test(t,m); break; case vf::SUBT: r.b=x.sub_and_test(t,m); break; case vf::PREINC: r.v=Val<T>::get(++x); break; case vf::POSTINC: r.v=Val<T>::get(x++); break; case vf::PREDEC: r.v=Val<T>::get(--x); break; case vf::POSTDEC: r.v=Val<T>::get(x--); break; default: mc::fail("bad ptr op"); } return r; } };
template<class T> struct Apply<T,false> {
  static u128 enc(unsigned v){ return v; }
  static u128 out(T const& v){ return Val<T>::get(v); } static T in(unsigned v){ return Val<T>::mk(v); }
  template<class A> static LIN_INLINE Res run(A& x,int op,unsigned a,unsigned d,boost::memory_order m){ Res r={0,0,-1}; typedef Val<T> V; 
    switch(op){ case vf::LOAD: r.v=V::get(x.load(vf::load_mo(m))); break; case vf::CONV: r.v=V::get(static_cast<T>(x)); break; case vf::STORE: x.store(V::mk(a),vf::store_mo(m)); break; case vf::ASSIGN: x=V::mk(a); r.v=a; break;
      case vf::XCHG: r.v=V::get(x.exchange(V::mk(a),m)); break;
      case vf::CAS_S: { T e=V::mk(a); r.b=x.compare_exchange_strong(e,V::mk(d),m); r.e=V::get(e); } break; case vf::CAS_W: { T e=V::mk(a); r.b=x.compare_exchange_weak(e,V::mk(d),m); r.e=V::get(e); } break;
      case vf::CAS_S2: { T e=V::mk(a); r.b=x.compare_exchange_strong(e,V::mk(d),m,vf::fail_mo(m)); r.e=V::get(e); } break; case vf::CAS_W2: { T e=V::mk(a); r.b=x.compare_exchange_weak(e,V::mk(d),m,boost::memory_order_relaxed); r.e=V::get(e); } break;
      default: return Extra<T>::run(x,op,a,m); } return r; }
  static bool spec(u128* st,mc::HOp const& h,const void*) { bool weakfail = vf::is_weak(h.op) && h.rb==0 && h.re==h.a; if(weakfail) return *st==h.re;
    typedef unsigned U; U s=(U)*st; Res r=vf::ref_int<U>(h.op,s,(U)h.a,(U)h.d); *st=s; return r.v==h.rv && r.e==h.re && r.b==h.rb; }
};

template<class F, class Ap = Apply<typename F::T_>> struct Lin {
  typedef typename F::T_ T;
  static int base(Prog const& p,int t){ int b=0; for(int i=0;i<t;i++) b+=p.n[i]; return b; }
  static void init(const void* v){ Prog const& p=*(Prog const*)v; for(int i=0;i<p.nobj;i++) init_obj<F>(i,p.init); mc::h_reset(base(p,p.nthr)); }
  static void body(int t,const void* v){ Prog const& p=*(Prog const*)v; int b=base(p,t);
    for(int i=0;i<p.n[t];i++){ POp const& o=p.ops[t][i]; auto&& x=obj<F>(o.obj).ref(); 
      int before=mc::lock_traffic();
      
#ifdef LIN_WAITS
      if(o.w){ if(o.w==4) x.notify_one(); else if(o.w==5) x.notify_all(); else { boost::memory_order m=vf::load_mo(mo_of(p.mo)); T none=Ap::in(15); mc::h_begin(b+i,vf::LOAD,0,0,o.obj); Res r={0,0,-1};
        if(o.w==1) r.v=Ap::out(x.wait(none,m)); else if(o.w==2){ auto q=x.wait_for(none,std::chrono::microseconds(5),m); MC_CHECK(!q.timeout,"timed out although the value differed"); r.v=Ap::out(q.value); }
        else { auto q=x.wait_until(none,std::chrono::steady_clock::now()+std::chrono::microseconds(5),m); MC_CHECK(!q.timeout,"timed out although the value differed"); r.v=Ap::out(q.value); }
        mc::h_end(b+i,r.v,r.e,r.b); continue; } }
#endif
      mc::h_begin(b+i,o.op,o.a,o.d,o.obj); Res r=Ap::run(x,o.op,o.a,o.d,mo_of(p.mo)); mc::h_end(b+i,r.v,r.e,r.b); (void)before; } }
  struct Ctx { int nobj; };
  static bool spec(u128* st,mc::HOp const& h,const void*){ return Ap::spec(st+h.obj,h,0); }
  static void fini(const void* v){ Prog const& p=*(Prog const*)v; u128 i[NOBJ],f[NOBJ]; for(int k=0;k<p.nobj;k++){ i[k]=Ap::enc(p.init); auto&& x=obj<F>(k).ref(); Res r=Ap::run(x,vf::LOAD,0,0,boost::memory_order_seq_cst); f[k]=r.v; mc::outcome((uint64_t)r.v); }
    if(p.lockfree_claim && obj<F>(0).ref().is_lock_free()) MC_CHECK(mc::lock_traffic()==0,"an operation on a lock-free object used the internal lock pool");
    if(!mc::linearizable(i,p.nobj,f,spec,0)){ static char b[2048]; int n=0; for(int k=0;k<mc::h_count();k++){ mc::HOp& h=mc::h_ops()[k]; n+=snprintf(b+n,sizeof b-n," T%d:%s(%u,%u)@%d=[v=%llx e=%llx b=%d]",h.tid,vf::opname(h.op),(unsigned)h.a,(unsigned)h.d,h.obj,(unsigned long long)h.rv,(unsigned long long)h.re,h.rb); }
      mc::fail("not linearizable: init=%u final=%llx:%s",p.init,(unsigned long long)f[0],b); } }
  static void add(const char* t,Prog const& p,mc::Opts o=mc::Opts()){ static char s[1024]; int n=0; for(int i=0;i<p.nthr;i++){ n+=snprintf(s+n,sizeof s-n,i?" || ":" "); for(int k=0;k<p.n[i];k++){ POp const& q=p.ops[i][k]; n+=snprintf(s+n,sizeof s-n,"%s%s%s(%u",k?";":"",q.w==1?"wait as ":q.w==2?"wait_for as ":q.w==3?"wait_until as ":q.w?"notify, ":"",vf::opname(q.op),q.a); if(vf::is_cas(q.op)) n+=snprintf(s+n,sizeof s-n,",%u",q.d); n+=snprintf(s+n,sizeof s-n,")%s",q.obj?"@1":""); } }
    mc::add(mc::fmt("%s %s<%s> init=%u mo%d%s",CFG,F::nm(),t,p.init,p.mo,s),p.nthr,init,body,fini,mc::keep(&p,sizeof p),o); }
};
inline Prog prog(int mo,unsigned init,std::initializer_list<std::initializer_list<POp>> th,int nobj=1){ Prog p; memset(&p,0,sizeof p); p.mo=mo; p.init=init; p.nobj=nobj; p.nthr=0; for(auto& l: th){ p.n[p.nthr]=0; for(auto& o: l) p.ops[p.nthr][p.n[p.nthr]++]=o; p.nthr++; } return p; }
