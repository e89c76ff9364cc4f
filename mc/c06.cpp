// C06 (and the padding part of C04): compare-exchange under concurrency, with values whose padding bits differ in every copy.
#include "linmat.h"
#include <chrono>
#include <cstdlib>
struct PTail { int i; char c; }; struct PMid { char c; int i; }; struct PS { short s; char c; }; struct PC2 { char c; short s; }; struct P16 { long long l; char c; }; struct Q16 { char c; long long l; }; struct P24 { long long l; int i; char c; short s; };
#define PADV(T,SET,GET) template<> struct Val<T> { static VF_NOINLINE T mk(unsigned v){ T t; memset((void*)&t,0x5a+37*mc::self()+11*(int)v,sizeof t); SET; return t; } static VF_NOINLINE unsigned get(T const& t){ return GET; } };
PADV(PTail,t.i=(int)v;t.c=(char)v,(char)t.i==t.c?(unsigned)t.i:~0u)
PADV(PMid,t.i=(int)v;t.c=(char)v,(char)t.i==t.c?(unsigned)t.i:~0u)
PADV(PS,t.s=(short)v;t.c=(char)v,(char)t.s==t.c?(unsigned)t.s:~0u)
PADV(PC2,t.s=(short)v;t.c=(char)v,(char)t.s==t.c?(unsigned)t.s:~0u)
PADV(P16,t.l=(int)v;t.c=(char)v,(char)t.l==t.c?(unsigned)t.l:~0u)
PADV(Q16,t.l=(int)v;t.c=(char)v,(char)t.l==t.c?(unsigned)t.l:~0u)
PADV(P24,t.l=t.i=(int)v;t.c=(char)v;t.s=(short)v,(char)t.l==t.c&&t.i==(int)t.l&&t.s==(short)t.l?(unsigned)t.l:~0u)
// long double: the six bytes beyond the 80-bit value hold garbage
struct LD { long double d; }; 
template<> struct Val<LD> { static VF_NOINLINE LD mk(unsigned v){ LD t; memset((void*)&t,0x5a+37*mc::self()+11*(int)v,sizeof t); long double x=v; memcpy((void*)&t,&x,10); return t; } static VF_NOINLINE unsigned get(LD const& t){ return (unsigned)t.d; } };
// ---- programs
static mc::Opts wk(int w,long m=20000){ mc::Opts o; o.weak=w; o.max_execs=m; return o; }
static POp C(int op,unsigned a,unsigned d){ POp o={op,a,d,0}; return o; }
template<class F> static void progs(const char* t){ typedef Lin<F> L; int k=0; static const int cs[]={CAS_S,CAS_W,CAS_S2,CAS_W2};
  for(int c: cs){ for(int c2: cs) L::add(t,prog(mos[k++%6],5,{{C(c,5,6)},{C(c2,5,7)}}),wk(1)); 
    for(int o: {(int)LOAD,(int)STORE,(int)XCHG,(int)ASSIGN,(int)CONV}) { L::add(t,prog(mos[k++%6],5,{{C(c,5,6),C(c,6,7)},{C(o,5,0)}}),wk(1)); L::add(t,prog(mos[k++%6],5,{{C(c,6,8)},{C(o,6,0),C(LOAD,0,0)}}),wk(1)); }
    // the value goes away and comes back: equal representation is equal, whatever happened in between
    L::add(t,prog(4,5,{{C(c,5,6)},{C(XCHG,7,0),C(STORE,5,0)}}),wk(1)); L::add(t,prog(4,5,{{C(STORE,5,0),C(c,5,6),C(LOAD,0,0)},{C(XCHG,5,0),C(c,5,9)}}),wk(0));
    // same desired value as the present one
    L::add(t,prog(4,5,{{C(c,5,5),C(c,5,5)},{C(c,5,5),C(c,5,7)}}),wk(0)); 
    L::add(t,prog(3,5,{{C(c,5,6)},{C(c,5,7)},{C(c,5,8)}}),wk(0,4000)); L::add(t,prog(4,5,{{C(c,5,6)},{C(c,6,7)},{C(c,7,5)}}),wk(0,4000)); L::add(t,prog(4,5,{{C(c,5,6)},{C(XCHG,5,0)},{C(STORE,5,0),C(LOAD,0,0)}}),wk(0,4000)); } }
// compare-exchange loops: every increment counts, expected is a usable hint after a failure; loops end
template<class F> struct Loop { typedef typename F::T_ T; struct Arg { int n, per, how; };
  static void init(const void*){ init_obj<F>(0,5); mc::set(0,0); }
  static void body(int,const void* p){ Arg const& a=*(Arg const*)p; auto&& x=obj<F>(0).ref(); typedef Val<T> V;
    for(int i=0;i<a.per;i++){ T e=V::mk(5+(a.how&1)); for(;;){ unsigned was=V::get(e); bool ok=(a.how&2)?x.compare_exchange_weak(e,V::mk(was+1)):x.compare_exchange_strong(e,V::mk(was+1),boost::memory_order_acq_rel,boost::memory_order_acquire); if(ok){ MC_CHECK(V::get(e)==was,"successful compare_exchange changed the expected argument: %u, was %u",V::get(e),was); break; } unsigned now=V::get(e); MC_CHECK(now>=5&&now<=5u+a.n*a.per,"failed compare_exchange delivered %u, never a value of the object",now); MC_CHECK((a.how&2)||now!=was,"strong compare_exchange failed and delivered the expected value"); } } }
  static void fini(const void* p){ Arg const& a=*(Arg const*)p; unsigned f=peek<F>(); MC_CHECK(f==5u+a.n*a.per,"%d successful increments left %u",a.n*a.per,f); }
  static void add(const char* t){ for(int n=2;n<4;n++) for(int per=1;per<=(n==2?2:1);per++) for(int how=0;how<4;how++){ Arg a={n,per,how}; mc::add(mc::fmt("%s %s<%s> %d threads x %d increments by compare_exchange_%s loop, %s first guess",CFG,F::nm(),t,n,per,how&2?"weak":"strong",how&1?"wrong":"right"),n,init,body,fini,mc::keep(&a,sizeof a),wk(how&2?1:0,n==2?20000:3000)); } } };
// expected and desired in the same object; a failed exchange must not write the object (checked through a second element that is read-only memory-like: the unsynchronized reader sees no race on a value it may read)
template<class F> struct SameArg { typedef typename F::T_ T; 
  static void init(const void*){ init_obj<F>(0,5); }
  static void body(int t,const void* p){ auto&& x=obj<F>(0).ref(); typedef Val<T> V; T e=V::mk(t?5:6); bool ok=(*(int const*)p)?x.compare_exchange_weak(e,e):x.compare_exchange_strong(e,e); unsigned g=V::get(e); MC_CHECK(g==5,"expected argument holds %u",g); if(t==0) MC_CHECK(!ok,"succeeded on a different value"); else if(!*(int const*)p) MC_CHECK(ok,"failed on an equal value"); }
  static void fini(const void*){ MC_CHECK(peek<F>()==5,"value changed"); }
  static void add(const char* t){ for(int w=0;w<2;w++) mc::add(mc::fmt("%s %s<%s> %s(e,e)",CFG,F::nm(),t,w?"cas_weak":"cas_strong"),2,init,body,fini,mc::keep(&w,sizeof w),wk(w)); } };
// waits compare value bits only: a waiter with other padding bits blocks on an equal value and is released by a real change
template<class F> struct WaitPad { typedef typename F::T_ T; 
  static void init(const void*){ init_obj<F>(0,5); }
  static void body(int t,const void* p){ auto&& x=obj<F>(0).ref(); typedef Val<T> V; int h=*(int const*)p; if(t==0){ unsigned g= V::get(x.wait(V::mk(5))); MC_CHECK(g==6,"wait returned %u",g); } else { if(h&1){ x.store(V::mk(5)); x.notify_all(); } if(h&2){ T e=V::mk(5); while(!x.compare_exchange_weak(e,V::mk(6))); } else x.store(V::mk(6)); x.notify_one(); } }
  static void fini(const void*){ MC_CHECK(peek<F>()==6,"value"); }
  static void add(const char* t){ for(int h=0;h<4;h++) mc::add(mc::fmt("%s %s<%s> wait with other padding bits, releaser %d",CFG,F::nm(),t,h),2,init,body,fini,mc::keep(&h,sizeof h),wk(0,6000)); } };
template<class F> static void all(const char* t){ typedef typename F::T_ T;
#ifdef BACKEND_PLAIN
  if constexpr(!(F::is_ref?boost::atomic_ref<T>::is_always_lock_free:boost::atomic<T>::is_always_lock_free)) return;   // the backends' internal locks are plain code here
#endif
  progs<F>(t); Loop<F>::add(t); SameArg<F>::add(t); 
#ifndef BACKEND_PLAIN
  WaitPad<F>::add(t);
#endif
}
template<class T> static void both(const char* t){ all<FAtomic<T>>(t); all<FRefCopy<T>>(t); if constexpr(boost::ipc_atomic<T>::is_always_lock_free) all<FIpc<T>>(t); }
void mc_register(){
#ifndef BOOST_ATOMIC_NO_CLEAR_PADDING
  both<PTail>("{int,char}"); both<PMid>("{char,int}"); both<PS>("{short,char}"); both<PC2>("{char,short}"); both<P16>("{long,char}"); both<Q16>("{char,long}"); both<P24>("{long,int,char,short}"); both<LD>("{long double}");
#endif
  both<long double>("long double"); all<FAtomic<Blob<3>>>("Blob3"); all<FAtomic<Blob<5>>>("Blob5"); all<FRef<Blob<3>>>("Blob3"); all<FAtomic<Words<3>>>("Words3"); all<FAtomic<short>>("short"); all<FAtomic<float>>("float"); all<FRef<Words<2>>>("Words2");
}
