// C06 / C22: all operation histories up to a depth over a small value alphabet with adversarial padding bits, every flavour,
// compared step by step with a plain value. PART selects the types.
#include "seq.h"
#include <chrono>
using namespace sq; using namespace vf; using namespace boost;
#if defined(BOOST_ATOMIC_NO_CLEAR_PADDING)
enum { CLEARS=0 };
#else
enum { CLEARS=1 };
#endif
// ---- types: value bit mask, value codes
template<size_t N> struct Bytes { unsigned char b[N]; };
template<class T> struct Ty { static void mask(unsigned char* m){ memset(m,0xff,sizeof(T)); } enum { codes=0 }; };   // no padding
#define FIELDS(T,...) template<> struct Ty<T> { static void mask(unsigned char* m){ T t; memset((void*)&t,0,sizeof t); unsigned char z[sizeof t]; (void)z; memset(m,0,sizeof(T)); __VA_ARGS__; } enum { codes=0 }; };
#define FD(T,f) memset(m+offsetof(T,f),0xff,sizeof(((T*)0)->f))
struct P1 { char c; int i; }; FIELDS(P1,FD(P1,c),FD(P1,i))
struct P2 { char c; short s; }; FIELDS(P2,FD(P2,c),FD(P2,s))
struct P3 { short s; char c; }; FIELDS(P3,FD(P3,c),FD(P3,s))
struct P4 { int i; char c; }; FIELDS(P4,FD(P4,c),FD(P4,i))
struct P5 { char c; short s; int i; }; FIELDS(P5,FD(P5,c),FD(P5,s),FD(P5,i))
struct P6 { char c; long long l; }; FIELDS(P6,FD(P6,c),FD(P6,l))
struct P7 { long long l; char c; }; FIELDS(P7,FD(P7,c),FD(P7,l))
struct P8 { char c[3]; int i; char d[5]; }; FIELDS(P8,FD(P8,c),FD(P8,i),FD(P8,d))
struct P9 { char a; long long l; char c; }; FIELDS(P9,FD(P9,a),FD(P9,l),FD(P9,c))
struct PA { P2 a[2]; }; template<> struct Ty<PA> { static void mask(unsigned char* m){ Ty<P2>::mask(m); Ty<P2>::mask(m+sizeof(P2)); } enum { codes=0 }; };
struct PB { P1 a; char z; }; template<> struct Ty<PB> { static void mask(unsigned char* m){ memset(m,0,sizeof(PB)); Ty<P1>::mask(m); FD(PB,z); } enum { codes=0 }; };
struct PC { char c; alignas(16) char d; char e; }; FIELDS(PC,FD(PC,c),FD(PC,d),FD(PC,e))
struct PD { int i[9]; char c; }; FIELDS(PD,FD(PD,i),FD(PD,c))
struct BF { unsigned a:3; unsigned b:20; }; template<> struct Ty<BF> { static void mask(unsigned char* m){ BF t; memset((void*)&t,0,sizeof t); t.a=7; t.b=0xfffff; memcpy(m,&t,sizeof t); } enum { codes=0 }; };
struct BG { unsigned char a:1; int i; short s:5; }; template<> struct Ty<BG> { static void mask(unsigned char* m){ BG t; memset((void*)&t,0,sizeof t); t.a=1; t.i=-1; t.s=-1; memcpy(m,&t,sizeof t); } enum { codes=0 }; };
struct alignas(8) A3 { char b[3]; }; FIELDS(A3,FD(A3,b))
struct alignas(16) A9 { char b[9]; }; FIELDS(A9,FD(A9,b))
struct alignas(32) A5 { char b[5]; }; FIELDS(A5,FD(A5,b))
struct Ld2 { ldbl d; }; template<> struct Ty<Ld2> { static void mask(unsigned char* m){ memset(m,0,16); memset(m,0xff,10); } enum { codes=1 }; };
template<> struct Ty<ldbl> { static void mask(unsigned char* m){ memset(m,0,16); memset(m,0xff,10); } enum { codes=1 }; };
struct Emp {}; template<> struct Ty<Emp> { static void mask(unsigned char* m){ m[0]=0; } enum { codes=0 }; };
struct Amp { int a; short b; Amp const* operator&() const { return 0; } Amp* operator&() { return 0; } }; template<> struct Ty<Amp> { static void mask(unsigned char* m){ memset(m,0,8); memset(m,0xff,6); } enum { codes=0 }; };
struct Cls { Cls():x(0),y(0){} explicit Cls(int v):x(v),y((char)v){} int x; char y; }; template<> struct Ty<Cls> { static void mask(unsigned char* m){ memset(m,0,8); memset(m,0xff,5); } enum { codes=0 }; };
struct Dfl { int a=5; char c=7; short s=9; };   FIELDS(Dfl,FD(Dfl,a),FD(Dfl,c),FD(Dfl,s))
struct NPb { bool b; unsigned char pad_[3]; int i; }; template<class T> struct Lim { static void lim(unsigned char*){} }; template<> struct Lim<bool> { static void lim(unsigned char* m){ m[0]=1; } }; template<> struct Lim<NPb> { static void lim(unsigned char* m){ m[0]=1; } };   // bits that are value bits but must stay zero
struct Fn { void (*f)(); signed char k; }; FIELDS(Fn,FD(Fn,f),FD(Fn,k))
template<size_t N,size_t A> struct alignas(A) Al { unsigned char b[N]; };   // A divides N: no padding

template<class T> struct Mask { unsigned char m[sizeof(T)], l[sizeof(T)]; bool padded; Mask(){ Ty<T>::mask(m); padded=false; for(unsigned char c: m) if(c!=0xff) padded=true; memcpy(l,m,sizeof l); Lim<T>::lim(l); } };   // m: value bits, l: those free to vary
template<class T> static Mask<T> const& mask(){ static Mask<T> k; return k; }
enum { NB=64 };
struct Val { unsigned char b[NB+64]; };   // masked value bytes
template<class T> union UU { unsigned char by[sizeof(T)]; T t; UU(){} };
template<class T> static VF_NOINLINE void mk(UU<T>& u,Val const& v,unsigned char pad){ auto const& k=mask<T>(); for(size_t i=0;i<sizeof(T);i++) u.by[i]=(unsigned char)((v.b[i]&k.m[i])|(pad&~k.m[i])); }
template<class T> static VF_NOINLINE Val val(void const* p){ Val v; memset(&v,0,sizeof v); auto const& k=mask<T>(); unsigned char const* q=(unsigned char const*)p; for(size_t i=0;i<sizeof(T);i++) v.b[i]=q[i]&k.m[i]; return v; }
template<class T> static bool eq(Val const& a,Val const& b){ return memcmp(a.b,b.b,sizeof(T))==0; }
static VF_NOINLINE void dirty(unsigned char c){ unsigned char g[448]; memset(g,c,sizeof g); __asm__ __volatile__(""::"r"(g):"memory"); }
template<class T> static char* vhex(Val const& v){ static char b[4][160]; static int k; char* r=b[k++&3]; int n=0; for(size_t i=0;i<sizeof(T)&&i<40;i++) n+=snprintf(r+n,8,"%02x",v.b[i]); return r; }
// value patterns
template<class T> static Val pat(int c){ Val v; memset(&v,0,sizeof v); for(size_t i=0;i<sizeof(T);i++) v.b[i]= c==0?0:c==1?(unsigned char)(0x11*(i%13+1)):c==2?0xff:(unsigned char)(0x80>>(i%8)); 
  if(Ty<T>::codes){ T t; memset((void*)&t,0,sizeof t); long double d= c==0?0:c==1?1.25L:c==2?-3.0L:1e300L; memcpy((void*)&t,&d,10); memcpy(v.b,(void*)&t,sizeof t<16?sizeof t:16); }
  auto const& k=mask<T>(); for(size_t i=0;i<sizeof(T);i++) v.b[i]&=k.l[i]; return v; }

enum { H_STORE, H_ASSIGN, H_XCHG, H_CAS, H_CASW, H_CASF, H_CASF1, H_CASWF, H_LOAD, H_WAITEQ, H_WAITNE, H_NOTIFY, H_CONSTRUCT, H_DEFAULT, NH };
static const char* hn[]={"store","assign","exchange","cas_strong(equal)","cas_weak(equal)","cas_strong(different)","cas_strong(one bit different)","cas_weak(different)","load","wait_for(equal,0s)","wait_until(different)","notify","construct","default construct"};
struct Step { int op; int v; unsigned char pad, pad2; };
template<class F> struct H { typedef typename F::V T; typedef typename F::X X; static Guard g;
  alignas(64) static unsigned char rb[128]; 
  static X& ref(){ if constexpr(F::ref) return *reinterpret_cast<X*>(rb); else return F::at(g.p); }
  static bool wr(int op){ return op<=H_CASW; }
  static const char* txt(Step const* st,int n){ static char b[300]; int k=0; for(int i=0;i<n;i++) k+=snprintf(b+k,sizeof b-k,"%s%s v%d pad %02x",i?"; ":"",hn[st[i].op],st[i].v,st[i].pad); return b; }
  static void bad(Step const* st,int n,const char* what,Val const& got,Val const& want){ cur.op="history"; viol("[%s] %s: got %s expected %s",txt(st,n),what,vhex<T>(got),vhex<T>(want)); }
  static VF_NOINLINE void make(Val const& v,unsigned char pad){ UU<T> u; mk(u,v,pad); if constexpr(F::ref){ memcpy(g.p,u.by,sizeof(T)); new (rb) X(*reinterpret_cast<T*>(g.p)); } else { memset(g.p,pad^0x33,F::size()); dirty(pad); F::make(g.p,u.t); } }
  static VF_NOINLINE void make_default(unsigned char pad){ if constexpr(!F::ref && std::is_default_constructible<T>::value){ memset(g.p,pad,F::size()); dirty(pad); typedef typename std::remove_volatile<X>::type XX; if(pad&1) new (g.p) XX; else new (g.p) XX(); } }
  static VF_NOINLINE T load_(X& x){ return x.load(); }
  // executes one step; m is the model value; returns false after a violation
  static bool step(Step const* h,int n,Val& m){ Step const& s=h[n-1]; Val v=pat<T>(s.v); UU<T> a,d; X& x=ref(); bool padded=mask<T>().padded; if(padded) dirty((unsigned char)(s.pad^0x5a));
    switch(s.op){
    case H_STORE: mk(a,v,s.pad); x.store(a.t,memory_order_release); m=v; break;
    case H_ASSIGN: mk(a,v,s.pad); x=a.t; m=v; break;
    case H_XCHG: { mk(a,v,s.pad); UU<T> o; new (o.by) T(x.exchange(a.t)); Val g_=val<T>(o.by); if(!eq<T>(g_,m)){ bad(h,n,"exchange returned",g_,m); return false; } m=v; } break;
    case H_CAS: case H_CASW: { mk(d,v,s.pad); bool ok; int tries=0; for(;;){ mk(a,m,s.pad2); ok= s.op==H_CAS ? x.compare_exchange_strong(a.t,d.t,memory_order_acq_rel) : x.compare_exchange_weak(a.t,d.t); Val e=val<T>(a.by); if(!eq<T>(e,m)){ bad(h,n,"expected argument after compare_exchange",e,m); return false; } if(ok||s.op==H_CAS||++tries>64) break; }
        if(!ok){ bad(h,n,"compare_exchange failed although the value representations are equal; object value",m,m); return false; } m=v; } break;
    case H_CASF: case H_CASWF: case H_CASF1: { Val o; bool found=false; if(s.op==H_CASF1){ o=m; auto const& k=mask<T>(); size_t nb=0; for(size_t i=0;i<sizeof(T);i++) if(k.l[i]) nb++; if(nb){ size_t w=(size_t)(s.v*7+s.pad)%nb; if(Ty<T>::codes) w=(size_t)s.v%7; for(size_t i=0;i<sizeof(T);i++) if(k.l[i]&&w--==0){ unsigned char bit=(unsigned char)(k.l[i]&-k.l[i]); o.b[i]^=bit; found=true; break; } } } else for(int c=0;c<4&&!found;c++){ o=pat<T>((s.v+c)&3); found=!eq<T>(o,m); }
        if(!found) break; mk(a,o,s.pad2); mk(d,v,s.pad); bool ok= s.op==H_CASWF ? x.compare_exchange_weak(a.t,d.t,memory_order_release) : x.compare_exchange_strong(a.t,d.t); if(ok){ bad(h,n,"compare_exchange succeeded although the values differ; expected value, object value",o,m); return false; }
        Val e=val<T>(a.by); if(!eq<T>(e,m)){ bad(h,n,"expected argument after failed compare_exchange",e,m); return false; } } break;
    case H_LOAD: break;
    case H_WAITEQ: { mk(a,m,s.pad); auto w=x.wait_for(a.t,std::chrono::seconds(0)); Val g_=val<T>(reinterpret_cast<unsigned char const*>(std::addressof(w.value))); if(!w.timeout||!eq<T>(g_,m)){ bad(h,n,w.timeout?"wait_for returned":"wait_for(equal value) did not report a timeout; value",g_,m); return false; } } break;
    case H_WAITNE: { Val o; bool found=false; for(int c=1;c<4&&!found;c++){ o=pat<T>((s.v+c)&3); found=!eq<T>(o,m); } if(!found) break; mk(a,o,s.pad); auto w=x.wait_until(a.t,std::chrono::steady_clock::time_point()); Val g_=val<T>(reinterpret_cast<unsigned char const*>(std::addressof(w.value))); if(w.timeout||!eq<T>(g_,m)){ bad(h,n,w.timeout?"wait_until(different value) reported a timeout; value":"wait_until returned",g_,m); return false; } 
        mk(a,o,s.pad2); UU<T> r; new (r.by) T(x.wait(a.t)); g_=val<T>(r.by); if(!eq<T>(g_,m)){ bad(h,n,"wait returned",g_,m); return false; } } break;
    case H_NOTIFY: if(s.v&1) x.notify_one(); else x.notify_all(); break;
    case H_CONSTRUCT: make(v,s.pad); m=v; break;
    case H_DEFAULT: if constexpr(!F::ref && std::is_default_constructible<T>::value){ make_default(s.pad); UU<T> z; memset(z.by,0,sizeof(T)); new (z.by) T(); m=val<T>(z.by); } break; }
    return true; }
  static bool audit(Step const* h,int n,Val const& m){ X& x=ref(); UU<T> o; memset(o.by,0xcc,sizeof(T)); if(mask<T>().padded) dirty(0x99); new (o.by) T(load_(x)); Val g_=val<T>(o.by); if(!eq<T>(g_,m)){ bad(h,n,"load returned",g_,m); return false; }
    UU<T> c; if constexpr(F::ref){ g_=val<T>(g.p); if(!eq<T>(g_,m)){ bad(h,n,"referenced object holds",g_,m); return false; } } if(!g.ok()){ bad(h,n,"guard bytes around the object modified",m,m); return false; } return true; }
  static void go(const char* tn,int depth,bool rich){ if(stop()) return; if(mask<T>().padded && !CLEARS && !std::is_same<T,ldbl>::value) return;   // documented: the compiler cannot clear padding
    cur.type=tn; cur.flav=F::nm(); cur.what=0; cur.s=cur.a=cur.d=0; cur.mo=5; bool padded=mask<T>().padded;
    static const unsigned char P[]={0x00,0xff,0xa5}; std::vector<Step> al; for(int op=0;op<NH;op++) for(int v=0;v<3;v++) for(int p=0;p<(padded?3:1);p++){ if(!rich && v==2) continue; if((op==H_LOAD)&&(v||p)) continue; if((op==H_NOTIFY)&&(v>1||p)) continue; if((op==H_WAITEQ)&&v) continue; if(op==H_DEFAULT&&(F::ref||v||p>1)) continue; if((op==H_WAITNE||op==H_CASF||op==H_CASWF)&&v>1) continue; Step s={op,v,P[p],(unsigned char)~P[p]}; al.push_back(s); }
    int A=(int)al.size(); for(int pl=0;pl<3;pl++){ int dep= pl?1:depth; if((uintptr_t)0!=0) break; g.init((Place)pl,F::size(),F::align()); if((uintptr_t)g.p%F::align()) continue; cur.what=pl?pln[pl]:0;
      for(int v0=0;v0<3;v0++) for(int p0=0;p0<(padded?3:1);p0++){ std::vector<int> w(dep,0); Step h[8];
        for(;;){ Val m=pat<T>(v0); make(m,P[p0]); cur.s=v0; cur.a=p0; bool ok=true; for(int i=0;i<dep&&ok;i++){ h[i]=al[w[i]]; cases=cases+1; if(only_case&&cases>only_case) return; cur.op=hn[h[i].op]; ok=step(h,i+1,m); if(ok&&(i==dep-1)) ok=audit(h,i+1,m); 
            if(ok&&i==dep-1){ for(int q=0;q<(padded?2:1)&&ok;q++){ Step f={H_CAS,(v0+1)&3,P[q+1],P[2-q]}; h[dep]=f; if(q==1){ Step f2={H_STORE,v0,P[2],0}; h[dep]=f2; } Val m2=m; ok=step(h,dep+1,m2)&&audit(h,dep+1,m2); m=m2; } } }
          if(!ok){ if(stop()) return; g.init((Place)pl,F::size(),F::align()); }
          note(mix(mix(w[0],w[dep-1]),m.b[0]));
          int i=dep-1; while(i>=0&&++w[i]==A) w[i--]=0; if(i<0) break; } 
        states++; } }
    cur.what=0; sample("%s<%s> (%zu bytes%s): all %d-step histories over %d steps from %d initial values",F::nm(),tn,sizeof(T),padded?", padded":"",depth,A,padded?9:3); }
  // every single value bit survives every transfer
  static void bitsweep(const char* tn){ if(stop()||Ty<T>::codes) return; if(mask<T>().padded && !CLEARS) return; cur.type=tn; cur.flav=F::nm(); cur.what="[single bits]"; g.init(MIDDLE,F::size(),F::align()); auto const& k=mask<T>();
    for(size_t i=0;i<sizeof(T);i++) for(int b=0;b<8;b++) if(k.l[i]>>b&1) for(int inv=0;inv<2;inv++){ Val v; memset(&v,0,sizeof v); for(size_t q=0;q<sizeof(T);q++) v.b[q]=inv?k.l[q]:0; v.b[i]^=(unsigned char)(1<<b); Val z=pat<T>(1); UU<T> a,d; Step h[1]={{H_STORE,0,0,0}};
      cur.a=i*8+b; cases=cases+6;
      make(v,0x5a); if(!audit(h,1,v)) return; mk(a,z,0); ref().store(a.t); mk(a,v,0xff); ref().store(a.t,memory_order_relaxed); if(!audit(h,1,v)) return; mk(a,z,0); ref()=a.t; mk(a,v,0xff); ref()=a.t; if(!audit(h,1,v)) return;
      mk(a,z,0x11); UU<T> o; new (o.by) T(ref().exchange(a.t)); Val g_=val<T>(o.by); if(!eq<T>(g_,v)){ bad(h,1,"exchange returned",g_,v); return; } mk(d,v,0x77); mk(a,z,0x88); if(!ref().compare_exchange_strong(a.t,d.t)){ bad(h,1,"compare_exchange failed",z,z); return; } if(!audit(h,1,v)) return;
      mk(a,z,0x66); if(!eq<T>(z,v)){ if(ref().compare_exchange_strong(a.t,a.t)){ bad(h,1,"compare_exchange succeeded on a different value",z,v); return; } g_=val<T>(a.by); if(!eq<T>(g_,v)){ bad(h,1,"expected argument",g_,v); return; } }
      // values that differ in exactly this bit are different
      Val w=v; w.b[i]^=(unsigned char)(1<<b); mk(a,w,0x12); mk(d,z,0); if(ref().compare_exchange_strong(a.t,d.t)){ bad(h,1,"compare_exchange ignores a bit",w,v); return; } mk(a,w,0x21); auto wr=ref().wait_for(a.t,std::chrono::seconds(0)); if(wr.timeout){ bad(h,1,"wait_for ignores a bit",w,v); return; } 
      mk(a,w,0x20); UU<T> cv; new (cv.by) T(static_cast<T>(ref())); g_=val<T>(cv.by); if(!eq<T>(g_,v)){ bad(h,1,"conversion returned",g_,v); return; } }
    states+=sizeof(T)*16; cur.what=0; }
};
template<class F> Guard H<F>::g; template<class F> alignas(64) unsigned char H<F>::rb[128];
template<class T> static void ipc_(const char* tn,int depth,bool rich){
#ifndef BOOST_ATOMIC_FORCE_FALLBACK
  if constexpr(boost::atomic<T>::is_always_lock_free){ H<FlIpc<T>>::go(tn,depth,rich); H<FlIpc<T>>::bitsweep(tn); }
  if constexpr(boost::atomic_ref<T>::is_always_lock_free){ H<FlIpcRef<T>>::go(tn,depth,rich); H<FlIpcRef<T>>::bitsweep(tn); }
#endif
}
template<class T> static void ty(const char* tn,int depth=0,bool rich=true){ if(!depth) depth=(mask<T>().padded?2:3)+(DEEP?1:0); H<FlAtomic<T>>::go(tn,depth,rich); H<FlAtomic<T>>::bitsweep(tn); H<FlRef<T>>::go(tn,depth,rich); H<FlRef<T>>::bitsweep(tn); ipc_<T>(tn,depth,rich); }
template<size_t N,size_t A> static void al(){ if constexpr(N%A==0 && N>=A){ static char nm[32]; snprintf(nm,32,"struct[%zu] align %zu",N,A); typedef Al<N,A> T; H<FlAtomic<T>>::go(nm,1,false); H<FlAtomic<T>>::bitsweep(nm); H<FlRef<T>>::go(nm,1,false); H<FlRef<T>>::bitsweep(nm); } }
template<size_t N> static void als(){ al<N,1>(); al<N,2>(); al<N,4>(); al<N,8>(); al<N,16>(); al<N,32>(); al<N,64>(); }
#define TYD(T) ty<T>(#T)
void sq::run(){
#if PART==1
  TYD(P1); TYD(P2); TYD(P3); TYD(P4); TYD(P5);
#elif PART==2
  TYD(P6); TYD(P7); TYD(P8); TYD(P9); TYD(PA); TYD(PB);
#elif PART==3
  TYD(PC); TYD(PD); TYD(BF); TYD(BG); TYD(A3); TYD(A9);
#elif PART==4
  TYD(A5); TYD(Ld2); TYD(ldbl); TYD(Emp); TYD(Cls); TYD(Dfl); TYD(NPb); TYD(Fn);
#elif PART==5
  TYD(bool); TYD(char); TYD(int); ty<Bytes<1>>("Bytes1"); ty<Bytes<2>>("Bytes2"); ty<Bytes<3>>("Bytes3"); ty<Bytes<4>>("Bytes4"); ty<Bytes<5>>("Bytes5");
#elif PART==6
  ty<Bytes<6>>("Bytes6"); ty<Bytes<7>>("Bytes7"); ty<Bytes<8>>("Bytes8"); ty<Bytes<9>>("Bytes9"); ty<Bytes<10>>("Bytes10"); ty<Bytes<11>>("Bytes11"); ty<Bytes<12>>("Bytes12"); ty<Bytes<13>>("Bytes13");
#elif PART==7
  ty<Bytes<14>>("Bytes14"); ty<Bytes<15>>("Bytes15"); ty<Bytes<16>>("Bytes16"); ty<Bytes<17>>("Bytes17"); ty<Bytes<24>>("Bytes24"); ty<Bytes<32>>("Bytes32"); ty<Bytes<64>>("Bytes64"); ty<long>("long");
#elif PART==8
  ty<Amp>("class with operator&"); ty<void*>("void*"); ty<short>("short"); ty<unsigned char>("uchar"); typedef Al<16,16> A16; ty<A16>("struct[16] align 16"); typedef Al<64,64> A64; ty<A64>("struct[64] align 64");
#elif PART>=10
  #define Q(n) als<n>()
  #if PART==10
  Q(1);Q(2);Q(3);Q(4);Q(5);Q(6);Q(7);Q(8);Q(9);Q(10);Q(11);Q(12);
  #elif PART==11
  Q(13);Q(14);Q(15);Q(16);Q(17);Q(18);Q(19);Q(20);Q(21);Q(22);Q(23);Q(24);
  #elif PART==12
  Q(25);Q(26);Q(27);Q(28);Q(29);Q(30);Q(31);Q(32);Q(33);Q(34);
  #elif PART==13
  Q(35);Q(36);Q(37);Q(38);Q(39);Q(40);Q(41);Q(42);Q(43);Q(44);
  #elif PART==14
  Q(45);Q(46);Q(47);Q(48);Q(49);Q(50);Q(51);Q(52);Q(53);Q(54);
  #elif PART==15
  Q(55);Q(56);Q(57);Q(58);Q(59);Q(60);Q(61);Q(62);Q(63);Q(64);
  #endif
#endif
}
