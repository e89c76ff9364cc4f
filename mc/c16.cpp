// C16: operations touch only the bytes of the object; references agree with each other and act on exactly the referenced object.
#include "lin.h"
using namespace vf; typedef __int128 i128; typedef unsigned __int128 u128_;
enum { CELL_OFF = 0 };
// elements of an array that starts at a chosen offset inside slot(0); element i is object i
static inline unsigned char* arr(){ return slot(0)+64+mc::get(CELL_OFF); }
template<class T,class X,bool IsRef> struct Elem { typedef T T_; enum { is_ref=IsRef, ipc=0 }; int i() const { return (int)(((unsigned char const*)this-slot(0))/256); }
  static size_t stride(){ return IsRef?sizeof(T):sizeof(X); } static size_t align(){ if constexpr(IsRef) return X::required_alignment; else return alignof(X); } void* addr(){ return arr()+i()*stride(); } size_t size(){ return stride(); }
  Elem(){ if constexpr(IsRef) new (addr()) T(); else new (addr()) X(T()); }
  decltype(auto) ref(){ if constexpr(IsRef) return X(*static_cast<T*>(addr())); else return (*static_cast<X*>(addr())); } };
template<class T> struct EA : Elem<T,boost::atomic<T>,false> { static const char* nm(){ return "atomic[]"; } };
template<class T> struct ER : Elem<T,boost::atomic_ref<T>,true> { static const char* nm(){ return "atomic_ref[]"; } };
template<class T> struct EI : Elem<T,boost::ipc_atomic<T>,false> { static const char* nm(){ return "ipc_atomic[]"; } };
template<class T> struct EJ : Elem<T,boost::ipc_atomic_ref<T>,true> { static const char* nm(){ return "ipc_atomic_ref[]"; } };
static unsigned OPV(int o){ return o>=CAS_S&&o<=CAS_W2?5u:(o==BTS||o==BTR||o==BTC)?1u:3u; }
// ---- 1. neighbours are never written: they are ordinary memory that another thread reads without synchronization
template<class F> struct Nb { typedef typename F::T_ T; typedef Apply<T> Ap; struct Arg { int op, mo, off, wait; };
  enum { G = 16 };
  static unsigned char* lo(F& f){ return (unsigned char*)f.addr()-G; } static unsigned char* hi(F& f){ return (unsigned char*)f.addr()+f.size(); }
  static void init(const void* p){ Arg const& a=*(Arg const*)p; mc::set(CELL_OFF,a.off); init_obj<F>(0,5); F& f=obj<F>(0); for(int i=0;i<G;i++){ lo(f)[i]=0xA0+i; hi(f)[i]=0xC0+i; } }
  static bool ok(F& f){ for(int i=0;i<G;i++) if(lo(f)[i]!=0xA0+i||hi(f)[i]!=0xC0+i) return false; return true; }
  static void body(int t,const void* p){ Arg const& a=*(Arg const*)p; F& f=obj<F>(0); if(t==1){ MC_CHECK(ok(f),"a byte next to the object was changed"); return; }
    auto&& x=f.ref(); if(a.wait==0) Ap::run(x,a.op,OPV(a.op),9,mo_of(a.mo)); else if(a.wait==1) x.wait(Val<T>::mk(7)); else if(a.wait==2) x.wait_for(Val<T>::mk(5),std::chrono::microseconds(3)); else { x.notify_one(); x.notify_all(); } }
  static void fini(const void*){ MC_CHECK(ok(obj<F>(0)),"a byte next to the object was changed"); }
  static void add(const char* t,std::initializer_list<int> ops,bool all){ size_t al=F::align(), sz=F::stride(); int offs[20], n=0; for(size_t o=0;o<64&&n<20;o+=al) if(o==0||(o%64)+sz>64||(all&&(o==al||o==3*al||o+al==64))||o==64-sz) offs[n++]=(int)o; 
    for(int k=0;k<n;k++) for(int o: ops){ if(k>0&&k<n-1&&o!=STORE&&o!=CAS_S&&o!=XCHG) continue; Arg a={o,4,offs[k],0}; mc::Opts q; q.weak=0; mc::add(mc::fmt("%s %s<%s> at offset %d: %s leaves neighbours alone",CFG,F::nm(),t,offs[k],opname(o)),2,init,body,fini,mc::keep(&a,sizeof a),q); }
    for(int k=0;k<n;k+=n>1?n-1:1) for(int w=1;w<4;w++){ Arg a={0,4,offs[k],w}; mc::Opts q; q.clock=0; q.max_execs=2000; mc::add(mc::fmt("%s %s<%s> at offset %d: %s leaves neighbours alone",CFG,F::nm(),t,offs[k],w==1?"wait":w==2?"wait_for":"notify"),2,init,body,fini,mc::keep(&a,sizeof a),q); } } };
// ---- 2. neighbouring elements accessed concurrently through the library are independent objects
template<class F> static void adj(const char* t,std::initializer_list<int> ops,int off){ (void)off;
  for(int o: ops) for(int o2: {STORE,XCHG,CAS_S}){ mc::Opts q; q.max_execs=3000; Lin<F>::add(t,prog(4,5,{{{o,OPV(o),9,1}},{{o2,o2==CAS_S?5u:6u,8,0},{o2,o2==CAS_S?5u:6u,8,2}}},3),q); } }
// ---- 3. several references of different kinds to one object
template<class T> struct Mix { typedef T T_; enum { is_ref=1, ipc=0 }; alignas(64) T v; unsigned char rb[64]; Mix(){ v=T(); new (rb) boost::atomic_ref<T>(v); } void* addr(){ return &v; } size_t size(){ return sizeof v; } static const char* nm(){ return "several references"; } boost::atomic_ref<T> ref(){ return boost::atomic_ref<T>(v); } };
template<class T> struct MixP { typedef Mix<T> F; typedef Apply<T> Ap; struct Arg { int k[2], op[2], mo; };
  static Res go(int kind,int op){ F& f=obj<F>(0); unsigned a=OPV(op); if(op==STORE||op==XCHG) a=6; switch(kind){ case 0: { boost::atomic_ref<T> x(f.v); return Ap::run(x,op,a,9,MO()); } case 1: { boost::atomic_ref<T> x(*reinterpret_cast<boost::atomic_ref<T>*>(f.rb)); return Ap::run(x,op,a,9,MO()); }
    case 2: { boost::atomic_ref<T> y(f.v); boost::atomic_ref<T> x(y); return Ap::run(x,op,a,9,MO()); } case 3: { auto x=boost::make_atomic_ref(f.v); return Ap::run(x,op,a,9,MO()); }
    case 4: if constexpr(boost::atomic_ref<T>::is_always_lock_free){ boost::ipc_atomic_ref<T> x(f.v); return Ap::run(x,op,a,9,MO()); } } return Res(); }
  static boost::memory_order MO(){ return boost::memory_order_seq_cst; }
  static void init(const void*){ init_obj<F>(0,5); mc::h_reset(2); }
  static void body(int t,const void* p){ Arg const& a=*(Arg const*)p; int op=a.op[t]; unsigned v=(op==STORE||op==XCHG)?6:OPV(op); mc::h_begin(t,op,v,9); Res r=go(a.k[t],op); mc::h_end(t,r.v,r.e,r.b); }
  static void fini(const void*){ u128 i[1]={Ap::enc(5)}, f[1]; auto x=obj<F>(0).ref(); f[0]=Ap::run(x,LOAD,0,0,boost::memory_order_seq_cst).v; mc::outcome((uint64_t)f[0]); if(!mc::linearizable(i,1,f,Ap::spec,0)){ mc::HOp* h=mc::h_ops(); mc::fail("not linearizable: %s -> v=%llx e=%llx b=%d, %s -> v=%llx e=%llx b=%d, final %llx",opname(h[0].op),(unsigned long long)h[0].rv,(unsigned long long)h[0].re,h[0].rb,opname(h[1].op),(unsigned long long)h[1].rv,(unsigned long long)h[1].re,h[1].rb,(unsigned long long)f[0]); } }
  static void add(const char* t,std::initializer_list<int> ops){ static const char* kn[]={"atomic_ref","long-lived atomic_ref","copied atomic_ref","make_atomic_ref","ipc_atomic_ref"}; int nk=boost::atomic_ref<T>::is_always_lock_free?5:4;
    for(int k1=0;k1<nk;k1++) for(int k2=0;k2<nk;k2++) for(int o1: ops) for(int o2: {LOAD,STORE,XCHG,CAS_S}){ if(k1==k2&&o2!=CAS_S) continue; Arg a={{k1,k2},{o1,o2},4}; mc::Opts q; q.max_execs=3000; mc::add(mc::fmt("%s %s<%s> %s: %s || %s: %s",CFG,"mixed",t,kn[k1],opname(o1),kn[k2],opname(o2)),2,init,body,fini,mc::keep(&a,sizeof a),q); } } };
#define INTOPS {LOAD,STORE,XCHG,CAS_S,CAS_W,CAS_S2,CAS_W2,CONV,ASSIGN,FADD,FSUB,FAND,FOR,FXOR,FNEG,FCOMPL,ADD,SUB,NEG,AND,OR,XOR,COMPL,OADD,OSUB,ONEG,OAND,OOR,OXOR,OCOMPL,ADDT,SUBT,NEGT,ANDT,ORT,XORT,COMPLT,BTS,BTR,BTC,PREINC,POSTINC,PREDEC,POSTDEC,OPADD,OPSUB,OPAND,OPOR,OPXOR,FADD1,FSUB1,ADD1,SUB1,OADD1,OSUB1,ADDT1,SUBT1,BTSC,BTRC,BTCC,FADDK,ADDTK,OADDK,ANDK,ORK}
#define FPOPS {LOAD,STORE,XCHG,CAS_S,CAS_W,CAS_S2,CAS_W2,CONV,ASSIGN,FADD,FSUB,ADD,SUB,OADD,OSUB,OPADD,OPSUB}
#define PTROPS {LOAD,STORE,XCHG,CAS_S,CAS_W,CONV,ASSIGN,FADD,FSUB,ADD,SUB,OADD,OSUB,OPADD,OPSUB,ADDT,SUBT,PREINC,POSTINC,PREDEC,POSTDEC}
#define GENOPS {LOAD,STORE,XCHG,CAS_S,CAS_W,CAS_S2,CAS_W2,CONV,ASSIGN}
template<class T> static void all(const char* t,std::initializer_list<int> ops){
  Nb<EA<T>>::add(t,ops,false); Nb<ER<T>>::add(t,ops,true); if constexpr(boost::atomic<T>::is_always_lock_free) Nb<EI<T>>::add(t,ops,false); if constexpr(boost::atomic_ref<T>::is_always_lock_free) Nb<EJ<T>>::add(t,ops,false);
  adj<ER<T>>(t,ops,0); adj<EA<T>>(t,GENOPS,0); if constexpr(sizeof(T)<=48) MixP<T>::add(t,{LOAD,STORE,CAS_S,ops.size()>9?(int)FADD:(int)XCHG}); }
void mc_register(){
#ifdef ONLY16
  all<i128>("i128",INTOPS); all<Words<4>>("Words4",GENOPS); all<Blob<16>>("Blob16",GENOPS); all<Words<3>>("Words3",GENOPS); all<Blob<9>>("Blob9",GENOPS); all<Blob<15>>("Blob15",GENOPS);
#else
  all<uint8_t>("uint8_t",INTOPS); all<int16_t>("int16_t",INTOPS); all<uint32_t>("uint32_t",INTOPS); all<int64_t>("int64_t",INTOPS); all<float>("float",FPOPS); all<double>("double",FPOPS); all<int*>("int*",PTROPS);
  all<Blob<1>>("Blob1",GENOPS); all<Blob<2>>("Blob2",GENOPS); all<Blob<3>>("Blob3",GENOPS); all<Blob<4>>("Blob4",GENOPS); all<Blob<5>>("Blob5",GENOPS); all<Blob<6>>("Blob6",GENOPS); all<Blob<7>>("Blob7",GENOPS); all<Blob<8>>("Blob8",GENOPS); all<Blob<9>>("Blob9",GENOPS); all<Words<2>>("Words2",GENOPS); all<Words<3>>("Words3",GENOPS); all<Words<4>>("Words4",GENOPS); all<Words<5>>("Words5",GENOPS); all<Words<12>>("Words12",GENOPS);
#endif
}
