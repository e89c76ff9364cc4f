// Operation tables and reference semantics shared by all engines.
// An "operation" is (opcode, operand a, operand b); it is applied either to a real Boost.Atomic object (apply<>) or to a
// plain reference value (ref<>). Results are compared as raw bits.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <type_traits>
#include <limits>
#include <boost/memory_order.hpp>
#include <boost/atomic/atomic.hpp>
#include <boost/atomic/atomic_ref.hpp>
#include <boost/atomic/ipc_atomic.hpp>
#include <boost/atomic/ipc_atomic_ref.hpp>
#include <boost/atomic/atomic_flag.hpp>
#include <boost/atomic/ipc_atomic_flag.hpp>
#include <boost/atomic/fences.hpp>

namespace vf {

typedef unsigned __int128 u128;
typedef boost::memory_order mo_t;

enum Op : unsigned char {
  // generic
  LOAD, STORE, XCHG, CAS_S, CAS_W, CAS_S2, CAS_W2, CONV, ASSIGN,
  // integral, fetch
  FADD, FSUB, FAND, FOR, FXOR, FNEG, FCOMPL,
  // integral, new value
  ADD, SUB, NEG, AND, OR, XOR, COMPL,
  // opaque
  OADD, OSUB, ONEG, OAND, OOR, OXOR, OCOMPL,
  // and test
  ADDT, SUBT, NEGT, ANDT, ORT, XORT, COMPLT,
  // bits
  BTS, BTR, BTC,
  // operators
  PREINC, POSTINC, PREDEC, POSTDEC, OPADD, OPSUB, OPAND, OPOR, OPXOR,
  // compile-time constant operands
  FADD1, FSUB1, ADD1, SUB1, OADD1, OSUB1, ADDT1, SUBT1, BTSC, BTRC, BTCC, FADDK, ADDTK, OADDK, ANDK, ORK,
  NOPS
};

inline const char* opname(int o) {
  static const char* n[] = {"load","store","exchange","cas_strong","cas_weak","cas_strong4","cas_weak4","conv","assign",
  "fetch_add","fetch_sub","fetch_and","fetch_or","fetch_xor","fetch_negate","fetch_complement",
  "add","sub","negate","bitwise_and","bitwise_or","bitwise_xor","bitwise_complement",
  "opaque_add","opaque_sub","opaque_negate","opaque_and","opaque_or","opaque_xor","opaque_complement",
  "add_and_test","sub_and_test","negate_and_test","and_and_test","or_and_test","xor_and_test","complement_and_test",
  "bit_test_and_set","bit_test_and_reset","bit_test_and_complement",
  "++x","x++","--x","x--","+=","-=","&=","|=","^=",
  "fetch_add(1)","fetch_sub(1)","add(1)","sub(1)","opaque_add(1)","opaque_sub(1)","add_and_test(1)","sub_and_test(1)",
  "bts(const)","btr(const)","btc(const)","fetch_add(K)","add_and_test(K)","opaque_add(K)","bitwise_and(K)","bitwise_or(K)"};
  return n[o];
}

struct Res { u128 v; u128 e; int b;
  bool operator==(Res const& o) const { return v==o.v && e==o.e && b==o.b; } bool operator!=(Res const& o) const { return !(*this==o); } };

// raw bits of a value (value bytes only)
template<class T> struct vbytes { static constexpr std::size_t n = sizeof(T); };
template<> struct vbytes<long double> { static constexpr std::size_t n = 10; };
template<class T> inline u128 bits(T const& t) { u128 r=0; std::memcpy(&r,&t,vbytes<T>::n); return r; }
template<class T> inline T unbits(u128 b) { T t; std::memset(&t,0,sizeof t); std::memcpy(&t,&b,vbytes<T>::n); return t; }

// ---- integers / enums -------------------------------------------------------------------------------------------------
template<class T, bool E = std::is_enum<T>::value> struct uint_of_impl { typedef typename std::make_unsigned<T>::type type; };
template<class T> struct uint_of_impl<T,true> { typedef typename std::make_unsigned<typename std::underlying_type<T>::type>::type type; };
template<> struct uint_of_impl<__int128,false> { typedef u128 type; };
template<> struct uint_of_impl<u128,false> { typedef u128 type; };
template<class T> using uint_of = typename uint_of_impl<T>::type;

template<class T> constexpr T kconst() { return (T)(((uint_of<T>)1 << (sizeof(T)*8-1)) | 3u); }
template<class T> constexpr unsigned kbit() { return sizeof(T)*8-1; }

// Reference semantics on unsigned modular arithmetic. "a" operand / expected for CAS, "d" desired for CAS; bit = a for bit ops.
template<class U> inline Res ref_int(int op, U& s, U a, U d, bool weak_failed=false) {
  Res r={0,0,-1}; U old=s; const U one=1; const unsigned W=sizeof(U)*8; const U K=(U)((one<<(W-1))|3u);
  switch(op){
  case LOAD: case CONV: r.v=s; break;
  case STORE: s=a; break;
  case ASSIGN: s=a; r.v=a; break;
  case XCHG: s=a; r.v=old; break;
  case CAS_S: case CAS_S2: case CAS_W: case CAS_W2:
    if(s==a && !weak_failed){ s=d; r.b=1; r.e=a; } else { r.b=0; r.e=s; } break;
  case FADD: s=(U)(s+a); r.v=old; break;
  case FSUB: s=(U)(s-a); r.v=old; break;
  case FAND: s=(U)(s&a); r.v=old; break;
  case FOR: s=(U)(s|a); r.v=old; break;
  case FXOR: s=(U)(s^a); r.v=old; break;
  case FNEG: s=(U)(0-s); r.v=old; break;
  case FCOMPL: s=(U)~s; r.v=old; break;
  case ADD: case OPADD: s=(U)(s+a); r.v=s; break;
  case SUB: case OPSUB: s=(U)(s-a); r.v=s; break;
  case NEG: s=(U)(0-s); r.v=s; break;
  case AND: case OPAND: s=(U)(s&a); r.v=s; break;
  case OR: case OPOR: s=(U)(s|a); r.v=s; break;
  case XOR: case OPXOR: s=(U)(s^a); r.v=s; break;
  case COMPL: s=(U)~s; r.v=s; break;
  case OADD: s=(U)(s+a); break;
  case OSUB: s=(U)(s-a); break;
  case ONEG: s=(U)(0-s); break;
  case OAND: s=(U)(s&a); break;
  case OOR: s=(U)(s|a); break;
  case OXOR: s=(U)(s^a); break;
  case OCOMPL: s=(U)~s; break;
  case ADDT: s=(U)(s+a); r.b=s!=0; break;
  case SUBT: s=(U)(s-a); r.b=s!=0; break;
  case NEGT: s=(U)(0-s); r.b=s!=0; break;
  case ANDT: s=(U)(s&a); r.b=s!=0; break;
  case ORT: s=(U)(s|a); r.b=s!=0; break;
  case XORT: s=(U)(s^a); r.b=s!=0; break;
  case COMPLT: s=(U)~s; r.b=s!=0; break;
  case BTS: { U m=(U)(one<<((unsigned)a%W)); r.b=(s&m)!=0; s=(U)(s|m); } break;
  case BTR: { U m=(U)(one<<((unsigned)a%W)); r.b=(s&m)!=0; s=(U)(s&(U)~m); } break;
  case BTC: { U m=(U)(one<<((unsigned)a%W)); r.b=(s&m)!=0; s=(U)(s^m); } break;
  case PREINC: s=(U)(s+1); r.v=s; break;
  case POSTINC: s=(U)(s+1); r.v=old; break;
  case PREDEC: s=(U)(s-1); r.v=s; break;
  case POSTDEC: s=(U)(s-1); r.v=old; break;
  case FADD1: s=(U)(s+1); r.v=old; break;
  case FSUB1: s=(U)(s-1); r.v=old; break;
  case ADD1: s=(U)(s+1); r.v=s; break;
  case SUB1: s=(U)(s-1); r.v=s; break;
  case OADD1: s=(U)(s+1); break;
  case OSUB1: s=(U)(s-1); break;
  case ADDT1: s=(U)(s+1); r.b=s!=0; break;
  case SUBT1: s=(U)(s-1); r.b=s!=0; break;
  case BTSC: { U m=(U)(one<<(W-1)); r.b=(s&m)!=0; s=(U)(s|m); } break;
  case BTRC: { U m=(U)(one<<(W-1)); r.b=(s&m)!=0; s=(U)(s&(U)~m); } break;
  case BTCC: { U m=(U)(one<<(W-1)); r.b=(s&m)!=0; s=(U)(s^m); } break;
  case FADDK: s=(U)(s+K); r.v=old; break;
  case ADDTK: s=(U)(s+K); r.b=s!=0; break;
  case OADDK: s=(U)(s+K); break;
  case ANDK: s=(U)(s&K); r.v=s; break;
  case ORK: s=(U)(s|K); r.v=s; break;
  }
  return r;
}

#ifndef VF_NOINLINE
#define VF_NOINLINE __attribute__((noinline))
#endif

inline mo_t load_mo(mo_t m){ return m==boost::memory_order_release ? boost::memory_order_relaxed : m==boost::memory_order_acq_rel ? boost::memory_order_acquire : m; }
inline mo_t store_mo(mo_t m){ return m==boost::memory_order_acquire||m==boost::memory_order_consume ? boost::memory_order_relaxed : m==boost::memory_order_acq_rel ? boost::memory_order_release : m; }
inline mo_t fail_mo(mo_t m){ return m==boost::memory_order_release ? boost::memory_order_relaxed : m==boost::memory_order_acq_rel ? boost::memory_order_acquire : m; }

// Generic part: load/store/exchange/CAS for any T with raw-bit codec
template<class A, class T> inline Res apply_generic(A& x, int op, T a, T d, mo_t m) {
  Res r={0,0,-1};
  switch(op){
  case LOAD: r.v=bits<T>(x.load(load_mo(m))); break;
  case CONV: r.v=bits<T>(static_cast<T>(x)); break;
  case STORE: x.store(a,store_mo(m)); break;
  case ASSIGN: r.v=bits<T>(x=a); break;
  case XCHG: r.v=bits<T>(x.exchange(a,m)); break;
  case CAS_S: { T e=a; r.b=x.compare_exchange_strong(e,d,m); r.e=bits<T>(e); } break;
  case CAS_W: { T e=a; r.b=x.compare_exchange_weak(e,d,m); r.e=bits<T>(e); } break;
  case CAS_S2: { T e=a; r.b=x.compare_exchange_strong(e,d,m,fail_mo(m)); r.e=bits<T>(e); } break;
  case CAS_W2: { T e=a; r.b=x.compare_exchange_weak(e,d,m,boost::memory_order_relaxed); r.e=bits<T>(e); } break;
  }
  return r;
}

// Each integral operation is its own function so that the compiler sees the call shape a user would write.
// M>=0: the memory order is a compile-time constant.
template<class A, class T, int M=-1> struct int_ops {
#define VF_OP(NAME,EXPR) static VF_NOINLINE Res NAME(A& x, T a, T d, mo_t mm) { const mo_t m = M<0 ? mm : static_cast<mo_t>(M); (void)a;(void)d;(void)m; Res r={0,0,-1}; EXPR; return r; }
#define VF_V(E) r.v=bits<T>(E)
#define VF_B(E) r.b=(E)?1:0
  VF_OP(gload, VF_V(x.load(load_mo(m))))
  VF_OP(gconv, VF_V(static_cast<T>(x)))
  VF_OP(gstore, x.store(a,store_mo(m)))
  VF_OP(gassign, VF_V(x=a))
  VF_OP(gxchg, VF_V(x.exchange(a,m)))
  VF_OP(gcas_s, T e=a; VF_B(x.compare_exchange_strong(e,d,m)); r.e=bits<T>(e))
  VF_OP(gcas_w, T e=a; VF_B(x.compare_exchange_weak(e,d,m)); r.e=bits<T>(e))
  VF_OP(gcas_s2, T e=a; VF_B(x.compare_exchange_strong(e,d,m,fail_mo(m))); r.e=bits<T>(e))
  VF_OP(gcas_w2, T e=a; VF_B(x.compare_exchange_weak(e,d,m,boost::memory_order_relaxed)); r.e=bits<T>(e))
  VF_OP(fadd, VF_V(x.fetch_add(a,m))) VF_OP(fsub, VF_V(x.fetch_sub(a,m))) VF_OP(fand, VF_V(x.fetch_and(a,m)))
  VF_OP(for_, VF_V(x.fetch_or(a,m))) VF_OP(fxor, VF_V(x.fetch_xor(a,m))) VF_OP(fneg, VF_V(x.fetch_negate(m))) VF_OP(fcompl, VF_V(x.fetch_complement(m)))
  VF_OP(add, VF_V(x.add(a,m))) VF_OP(sub, VF_V(x.sub(a,m))) VF_OP(neg, VF_V(x.negate(m))) VF_OP(and_, VF_V(x.bitwise_and(a,m)))
  VF_OP(or_, VF_V(x.bitwise_or(a,m))) VF_OP(xor_, VF_V(x.bitwise_xor(a,m))) VF_OP(compl_, VF_V(x.bitwise_complement(m)))
  VF_OP(oadd, x.opaque_add(a,m)) VF_OP(osub, x.opaque_sub(a,m)) VF_OP(oneg, x.opaque_negate(m)) VF_OP(oand, x.opaque_and(a,m))
  VF_OP(oor, x.opaque_or(a,m)) VF_OP(oxor, x.opaque_xor(a,m)) VF_OP(ocompl, x.opaque_complement(m))
  VF_OP(addt, VF_B(x.add_and_test(a,m))) VF_OP(subt, VF_B(x.sub_and_test(a,m))) VF_OP(negt, VF_B(x.negate_and_test(m))) VF_OP(andt, VF_B(x.and_and_test(a,m)))
  VF_OP(ort, VF_B(x.or_and_test(a,m))) VF_OP(xort, VF_B(x.xor_and_test(a,m))) VF_OP(complt, VF_B(x.complement_and_test(m)))
  VF_OP(bts, VF_B(x.bit_test_and_set((unsigned)bits(a)%(sizeof(T)*8),m))) VF_OP(btr, VF_B(x.bit_test_and_reset((unsigned)bits(a)%(sizeof(T)*8),m)))
  VF_OP(btc, VF_B(x.bit_test_and_complement((unsigned)bits(a)%(sizeof(T)*8),m)))
  VF_OP(preinc, VF_V(++x)) VF_OP(postinc, VF_V(x++)) VF_OP(predec, VF_V(--x)) VF_OP(postdec, VF_V(x--))
  VF_OP(opadd, VF_V(x+=a)) VF_OP(opsub, VF_V(x-=a)) VF_OP(opand, VF_V(x&=a)) VF_OP(opor, VF_V(x|=a)) VF_OP(opxor, VF_V(x^=a))
  VF_OP(fadd1, VF_V(x.fetch_add(1,m))) VF_OP(fsub1, VF_V(x.fetch_sub(1,m))) VF_OP(add1, VF_V(x.add(1,m))) VF_OP(sub1, VF_V(x.sub(1,m)))
  VF_OP(oadd1, x.opaque_add(1,m)) VF_OP(osub1, x.opaque_sub(1,m)) VF_OP(addt1, VF_B(x.add_and_test(1,m))) VF_OP(subt1, VF_B(x.sub_and_test(1,m)))
  VF_OP(btsc, VF_B(x.bit_test_and_set(kbit<T>(),m))) VF_OP(btrc, VF_B(x.bit_test_and_reset(kbit<T>(),m))) VF_OP(btcc, VF_B(x.bit_test_and_complement(kbit<T>(),m)))
  VF_OP(faddk, VF_V(x.fetch_add(kconst<T>(),m))) VF_OP(addtk, VF_B(x.add_and_test(kconst<T>(),m))) VF_OP(oaddk, x.opaque_add(kconst<T>(),m))
  VF_OP(andk, VF_V(x.bitwise_and(kconst<T>(),m))) VF_OP(ork, VF_V(x.bitwise_or(kconst<T>(),m)))
  typedef Res (*fn)(A&,T,T,mo_t);
  static fn const* table() {
    static const fn t[NOPS]={gload,gstore,gxchg,gcas_s,gcas_w,gcas_s2,gcas_w2,gconv,gassign,
      fadd,fsub,fand,for_,fxor,fneg,fcompl,add,sub,neg,and_,or_,xor_,compl_,oadd,osub,oneg,oand,oor,oxor,ocompl,
      addt,subt,negt,andt,ort,xort,complt,bts,btr,btc,preinc,postinc,predec,postdec,opadd,opsub,opand,opor,opxor,
      fadd1,fsub1,add1,sub1,oadd1,osub1,addt1,subt1,btsc,btrc,btcc,faddk,addtk,oaddk,andk,ork};
    return t;
  }
};

inline bool is_rmw(int op){ return op!=LOAD && op!=CONV && op!=STORE && op!=ASSIGN; }
inline bool writes(int op){ return op!=LOAD && op!=CONV; }
inline bool uses_operand(int op){ switch(op){ case LOAD: case CONV: case FNEG: case FCOMPL: case NEG: case COMPL: case ONEG: case OCOMPL: case NEGT: case COMPLT:
  case PREINC: case POSTINC: case PREDEC: case POSTDEC: case FADD1: case FSUB1: case ADD1: case SUB1: case OADD1: case OSUB1: case ADDT1: case SUBT1:
  case BTSC: case BTRC: case BTCC: case FADDK: case ADDTK: case OADDK: case ANDK: case ORK: return false; default: return true; } }
inline bool is_cas(int op){ return op>=CAS_S && op<=CAS_W2; }
inline bool is_weak(int op){ return op==CAS_W || op==CAS_W2; }

} // namespace vf
