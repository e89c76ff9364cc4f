// Operations as an application would inline them: constant operation, operands and memory orders.
#pragma once
#define LIN_INLINE inline __attribute__((always_inline))
#include "tso.h"
#include "../mc/lin.h"
#include <utility>
using namespace vf;
typedef long double ldbl; typedef __int128 i128; typedef unsigned __int128 u128_; typedef int* iptr;
static const boost::memory_order SC=boost::memory_order_seq_cst, RX=boost::memory_order_relaxed;
template<class T> struct ZA { typedef T V; typedef boost::atomic<T> X; static constexpr unsigned size=sizeof(X), req=alignof(X); static const char* nm(){ return "atomic"; } static void make(void* p,T v){ new (p) X(v); } static LIN_INLINE X& at(void* p){ return *static_cast<X*>(p); } };
template<class T> struct ZI { typedef T V; typedef boost::ipc_atomic<T> X; static constexpr unsigned size=sizeof(X), req=alignof(X); static const char* nm(){ return "ipc_atomic"; } static void make(void* p,T v){ new (p) X(v); } static LIN_INLINE X& at(void* p){ return *static_cast<X*>(p); } };
template<class T> struct ZR { typedef T V; typedef boost::atomic_ref<T> X; static constexpr unsigned size=sizeof(T), req=X::required_alignment; static const char* nm(){ return "atomic_ref"; } static void make(void* p,T v){ new (p) T(v); } static LIN_INLINE X at(void* p){ return X(*static_cast<T*>(p)); } };
template<class T> struct ZJ { typedef T V; typedef boost::ipc_atomic_ref<T> X; static constexpr unsigned size=sizeof(T), req=X::required_alignment; static const char* nm(){ return "ipc_atomic_ref"; } static void make(void* p,T v){ new (p) T(v); } static LIN_INLINE X at(void* p){ return X(*static_cast<T*>(p)); } };
// where object i lives: at the start of a cache line, or (PLACE) as far towards the end of one as its alignment permits
template<class F> static constexpr unsigned place(int i){
#ifdef PLACE
  return i*tso::CELLSZ + (F::req<F::size ? 64-F::req : 64-F::size);
#else
  return i*tso::CELLSZ;
#endif
}
template<class F> static LIN_INLINE void* objp(int i){ return tso::shared+place<F>(i); }
enum { WT = 201, IN0 = 5 };
// values of integers occupy all their bytes, so that mixtures of two values are recognised
template<class V> static constexpr V widen(int op,unsigned v){
#ifdef WIDE
  if(op!=37&&op!=38&&op!=39&&op!=57&&op!=58&&op!=59){ vf::u128 w=v; w|=w<<8; w|=w<<16; w|=w<<32; w|=w<<64; return (V)w; }
#endif
  return (V)v; }
static constexpr bool casop(int o){ return o>=CAS_S&&o<=CAS_W2; }
static constexpr unsigned opa(int o){ return casop(o)?IN0 : (o==STORE||o==XCHG||o==ASSIGN)?6 : (o==BTS||o==BTC)?1 : o==BTR?0 : (o==AND||o==FAND||o==OAND||o==ANDT||o==OPAND)?2 : (o==OR||o==FOR||o==OOR||o==ORT||o==OPOR)?2 : (o==XOR||o==FXOR||o==OXOR||o==XORT||o==OPXOR)?3 : 1; }
static constexpr unsigned opd(int o){ return casop(o)?9:0; }
static constexpr unsigned rda(int o){ return casop(o)?77 : o==XCHG?12 : o==WT?77 : 0; }   // operands when the operation is used to read
// direct calls, so that every operation is inlined with constant memory orders
template<class A,class T,int OP> static LIN_INLINE Res direct(A& x,T a,T d,boost::memory_order m){ typedef vf::int_ops<A,T> I; if constexpr(OP==0) return I::gload(x,a,d,m); if constexpr(OP==1) return I::gstore(x,a,d,m); if constexpr(OP==2) return I::gxchg(x,a,d,m); if constexpr(OP==3) return I::gcas_s(x,a,d,m); if constexpr(OP==4) return I::gcas_w(x,a,d,m); if constexpr(OP==5) return I::gcas_s2(x,a,d,m); if constexpr(OP==6) return I::gcas_w2(x,a,d,m); if constexpr(OP==7) return I::gconv(x,a,d,m); if constexpr(OP==8) return I::gassign(x,a,d,m); if constexpr(OP==9) return I::fadd(x,a,d,m); if constexpr(OP==10) return I::fsub(x,a,d,m); if constexpr(OP==11) return I::fand(x,a,d,m); if constexpr(OP==12) return I::for_(x,a,d,m); if constexpr(OP==13) return I::fxor(x,a,d,m); if constexpr(OP==14) return I::fneg(x,a,d,m); if constexpr(OP==15) return I::fcompl(x,a,d,m); if constexpr(OP==16) return I::add(x,a,d,m); if constexpr(OP==17) return I::sub(x,a,d,m); if constexpr(OP==18) return I::neg(x,a,d,m); if constexpr(OP==19) return I::and_(x,a,d,m); if constexpr(OP==20) return I::or_(x,a,d,m); if constexpr(OP==21) return I::xor_(x,a,d,m); if constexpr(OP==22) return I::compl_(x,a,d,m); if constexpr(OP==23) return I::oadd(x,a,d,m); if constexpr(OP==24) return I::osub(x,a,d,m); if constexpr(OP==25) return I::oneg(x,a,d,m); if constexpr(OP==26) return I::oand(x,a,d,m); if constexpr(OP==27) return I::oor(x,a,d,m); if constexpr(OP==28) return I::oxor(x,a,d,m); if constexpr(OP==29) return I::ocompl(x,a,d,m); if constexpr(OP==30) return I::addt(x,a,d,m); if constexpr(OP==31) return I::subt(x,a,d,m); if constexpr(OP==32) return I::negt(x,a,d,m); if constexpr(OP==33) return I::andt(x,a,d,m); if constexpr(OP==34) return I::ort(x,a,d,m); if constexpr(OP==35) return I::xort(x,a,d,m); if constexpr(OP==36) return I::complt(x,a,d,m); if constexpr(OP==37) return I::bts(x,a,d,m); if constexpr(OP==38) return I::btr(x,a,d,m); if constexpr(OP==39) return I::btc(x,a,d,m); if constexpr(OP==40) return I::preinc(x,a,d,m); if constexpr(OP==41) return I::postinc(x,a,d,m); if constexpr(OP==42) return I::predec(x,a,d,m); if constexpr(OP==43) return I::postdec(x,a,d,m); if constexpr(OP==44) return I::opadd(x,a,d,m); if constexpr(OP==45) return I::opsub(x,a,d,m); if constexpr(OP==46) return I::opand(x,a,d,m); if constexpr(OP==47) return I::opor(x,a,d,m); if constexpr(OP==48) return I::opxor(x,a,d,m); if constexpr(OP==49) return I::fadd1(x,a,d,m); if constexpr(OP==50) return I::fsub1(x,a,d,m); if constexpr(OP==51) return I::add1(x,a,d,m); if constexpr(OP==52) return I::sub1(x,a,d,m); if constexpr(OP==53) return I::oadd1(x,a,d,m); if constexpr(OP==54) return I::osub1(x,a,d,m); if constexpr(OP==55) return I::addt1(x,a,d,m); if constexpr(OP==56) return I::subt1(x,a,d,m); if constexpr(OP==57) return I::btsc(x,a,d,m); if constexpr(OP==58) return I::btrc(x,a,d,m); if constexpr(OP==59) return I::btcc(x,a,d,m); if constexpr(OP==60) return I::faddk(x,a,d,m); if constexpr(OP==61) return I::addtk(x,a,d,m); if constexpr(OP==62) return I::oaddk(x,a,d,m); if constexpr(OP==63) return I::andk(x,a,d,m); if constexpr(OP==64) return I::ork(x,a,d,m); }
template<class F,int OP> static LIN_INLINE Res one(int obj,unsigned a,unsigned d,boost::memory_order m){ auto&& x=F::at(objp<F>(obj)); if constexpr(OP==WT){ typedef typename F::V V; Res r={0,0,-1}; if constexpr(std::is_integral<V>::value) r.v=vf::bits<V>(x.wait(widen<V>(WT,77),m)); else r.v=Val<V>::get(x.wait(Val<V>::mk(77),m)); return r; } else if constexpr(std::is_integral<typename F::V>::value) return direct<typename std::remove_reference<decltype(x)>::type,typename F::V,OP>(x,widen<typename F::V>(OP,a),widen<typename F::V>(OP,d),m); else return Apply<typename F::V>::run(x,OP,a,d,m); }

