// Engine C ("seq"): exhaustive enumeration of (object state, operation, operands, order) and of operation histories on the real,
// separately compiled library code; every transition is compared with a plain reference computation.
#pragma once
#include "../common/ops.h"
#include <cstdio>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <new>
#include <vector>
#include <set>
#include <type_traits>
#ifndef CFG
#define CFG "default"
#endif
#ifdef VERIF_THOROUGH
enum { DEEP = 1 };
#else
enum { DEEP = 0 };
#endif
typedef long double ldbl; typedef __float128 f128; typedef __int128 i128; typedef unsigned __int128 u128_;
namespace sq {
struct Cur { const char* type; const char* flav; const char* op; const char* what; vf::u128 s, a, d; int mo; };
extern volatile Cur cur;
extern volatile uint64_t cases;      // transitions executed
extern uint64_t states, distinct;
extern uint64_t only_case;           // replay of a single transition
extern int nviol;
void viol(const char* f, ...) __attribute__((format(printf,1,2)));   // records a violation of the current case; ends the run after a few
void sample(const char* f, ...) __attribute__((format(printf,1,2)));
bool stop();
void run();                          // defined by the harness
// memory: [read-only page][2 pages][read-only page]
extern unsigned char* page; enum { PAGES = 8192 };
// hash-based count of distinct observed results
void note(uint64_t h);
inline uint64_t mix(uint64_t h, uint64_t v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); return h*0xff51afd7ed558ccdull; }
char* hex(vf::u128 v);               // rotating buffers
static const char* const mon[]={"relaxed","consume","acquire","release","acq_rel","seq_cst"};
inline vf::mo_t mov(int i){ using namespace boost; static const vf::mo_t t[]={memory_order_relaxed,memory_order_consume,memory_order_acquire,memory_order_release,memory_order_acq_rel,memory_order_seq_cst}; return t[i]; }
#define SQ_CHECK(c,...) do { if(__builtin_expect(!(c),0)) sq::viol(__VA_ARGS__); } while(0)

// ---- flavours: an object of the flavour at p
template<class T> struct FlAtomic { typedef T V; typedef boost::atomic<T> X; enum { ref=0 }; static const char* nm(){ return "atomic"; } static size_t size(){ return sizeof(X); } static size_t align(){ return alignof(X); }
  static void make(void* p,T v){ new (p) X(v); } static X& at(void* p){ return *static_cast<X*>(p); } static void set(void* p,T v){ at(p).store(v,boost::memory_order_relaxed); } static T get(void* p){ return at(p).load(boost::memory_order_relaxed); } };
template<class T> struct FlVol { typedef T V; typedef volatile boost::atomic<T> X; enum { ref=0 }; static const char* nm(){ return "volatile atomic"; } static size_t size(){ return sizeof(X); } static size_t align(){ return alignof(X); }
  static void make(void* p,T v){ new (p) boost::atomic<T>(v); } static X& at(void* p){ return *static_cast<X*>(p); } static void set(void* p,T v){ at(p).store(v,boost::memory_order_relaxed); } static T get(void* p){ return at(p).load(boost::memory_order_relaxed); } };
template<class T> struct FlIpc { typedef T V; typedef boost::ipc_atomic<T> X; enum { ref=0 }; static const char* nm(){ return "ipc_atomic"; } static size_t size(){ return sizeof(X); } static size_t align(){ return alignof(X); }
  static void make(void* p,T v){ new (p) X(v); } static X& at(void* p){ return *static_cast<X*>(p); } static void set(void* p,T v){ at(p).store(v,boost::memory_order_relaxed); } static T get(void* p){ return at(p).load(boost::memory_order_relaxed); } };
template<class T> struct FlRef { typedef T V; typedef boost::atomic_ref<T> X; enum { ref=1 }; static const char* nm(){ return "atomic_ref"; } static size_t size(){ return sizeof(T); } static size_t align(){ return X::required_alignment; }
  static void make(void* p,T v){ new (p) T(v); } static X at(void* p){ return X(*static_cast<T*>(p)); } static void set(void* p,T v){ *static_cast<T*>(p)=v; } static T get(void* p){ __asm__ __volatile__("":::"memory"); return *static_cast<T*>(p); } };
template<class T> struct FlIpcRef { typedef T V; typedef boost::ipc_atomic_ref<T> X; enum { ref=1 }; static const char* nm(){ return "ipc_atomic_ref"; } static size_t size(){ return sizeof(T); } static size_t align(){ return X::required_alignment; }
  static void make(void* p,T v){ new (p) T(v); } static X at(void* p){ return X(*static_cast<T*>(p)); } static void set(void* p,T v){ *static_cast<T*>(p)=v; } static T get(void* p){ __asm__ __volatile__("":::"memory"); return *static_cast<T*>(p); } };

// ---- placement of an object among guard bytes
enum Place { MIDDLE, END, START };
struct Guard { unsigned char* p; size_t n; unsigned char* lo; unsigned char* hi;
  void init(Place pl,size_t n_,size_t al){ n=n_; if(pl==END) p=page+PAGES-n; else if(pl==START) p=page; else { p=page+1024+((n%al)?0:0); if((uintptr_t)p%(al*2)==0) p+=al; } lo=p-32<page?page:p-32; hi=p+n+32>page+PAGES?page+PAGES:p+n+32; for(unsigned char* q=lo;q<hi;q++) if(q<p||q>=p+n) *q=(unsigned char)(0x5a^(q-page)); }
  bool ok() const { for(unsigned char* q=lo;q<p;q++) if(*q!=(unsigned char)(0x5a^(q-page))) return false; for(unsigned char* q=p+n;q<hi;q++) if(*q!=(unsigned char)(0x5a^(q-page))) return false; return true; } };
static const char* const pln[]={"in the middle of guard bytes","at the end of the writable page","at the start of the writable page"};
}
