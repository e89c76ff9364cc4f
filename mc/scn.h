// Shared helpers for Engine A scenarios.
#pragma once
#include "mc.h"
#include "../common/ops.h"
#include <chrono>
#include <cstdio>
#include <cstring>
#include <new>
#include <type_traits>

// ---- value types -------------------------------------------------------------------------------------------------------
template<int N> struct Blob { unsigned char b[N]; };                         // size N, alignment 1
template<int N> struct Words { unsigned int w[N]; };                         // size 4N, alignment 4
struct Mixed { unsigned char c; unsigned int i; };                           // padding
struct alignas(64) Big64 { unsigned long long w[8]; };
template<class T> struct Val {
  static T mk(unsigned v) { return (T)v; }
  static bool is(T const& t, unsigned v) { return t == (T)v; }
  static unsigned get(T const& t) { return (unsigned)t; }     // decodes; ~0u when torn
};
template<> struct Val<float> { static float mk(unsigned v){ return (float)v; } static unsigned get(float t){ return (unsigned)t; } };
template<> struct Val<double> { static double mk(unsigned v){ return (double)v; } static unsigned get(double t){ return (unsigned)t; } };
template<> struct Val<long double> { static long double mk(unsigned v){ return (long double)v; } static unsigned get(long double t){ return (unsigned)t; } };
template<int N> struct Val<Blob<N>> { static Blob<N> mk(unsigned v){ Blob<N> b; for(int i=0;i<N;i++) b.b[i]=(unsigned char)v; return b; }
  static unsigned get(Blob<N> const& t){ for(int i=1;i<N;i++) if(t.b[i]!=t.b[0]) return ~0u; return t.b[0]; } };
template<int N> struct Val<Words<N>> { static Words<N> mk(unsigned v){ Words<N> b; for(int i=0;i<N;i++) b.w[i]=v; return b; }
  static unsigned get(Words<N> const& t){ for(int i=1;i<N;i++) if(t.w[i]!=t.w[0]) return ~0u; return t.w[0]; } };
template<> struct Val<Mixed> { static Mixed mk(unsigned v){ Mixed b; b.c=(unsigned char)v; b.i=v; return b; } static unsigned get(Mixed const& t){ return (unsigned char)t.i==t.c ? t.i : ~0u; } };
template<> struct Val<Big64> { static Big64 mk(unsigned v){ Big64 b; for(auto& x: b.w) x=v; return b; } static unsigned get(Big64 const& t){ for(auto& x: t.w) if(x!=t.w[0]) return ~0u; return (unsigned)t.w[0]; } };
template<> struct Val<void*> { static void* mk(unsigned v){ return reinterpret_cast<void*>((uintptr_t)v); } static unsigned get(void* p){ return (unsigned)(uintptr_t)p; } };
template<class E> struct Val<E*> { static E* mk(unsigned v){ return reinterpret_cast<E*>((uintptr_t)v*sizeof(E)); } static unsigned get(E* p){ return (unsigned)((uintptr_t)p/sizeof(E)); } };
template<> struct Val<bool> { static bool mk(unsigned v){ return v!=0; } static unsigned get(bool p){ return p; } };

// ---- flavours ----------------------------------------------------------------------------------------------------------
// A flavour is an object with static storage; ref() yields something with the atomic interface.
template<class T> struct FAtomic { typedef T T_; enum { is_ref=0, ipc=0 }; boost::atomic<T> a; FAtomic():a(){} boost::atomic<T>& ref(){ return a; } void* addr(){ return &a; } size_t size(){ return sizeof a; } static const char* nm(){ return "atomic"; } };
template<class T> struct FIpc { typedef T T_; enum { is_ref=0, ipc=1 }; boost::ipc_atomic<T> a; FIpc():a(){} boost::ipc_atomic<T>& ref(){ return a; } void* addr(){ return &a; } size_t size(){ return sizeof a; } static const char* nm(){ return "ipc_atomic"; } };
template<class T> struct FRef { typedef T T_; enum { is_ref=1, ipc=0 }; alignas(boost::atomic_ref<T>::required_alignment) T v; FRef(){ v=T(); } boost::atomic_ref<T> ref(){ return boost::atomic_ref<T>(v); } void* addr(){ return &v; } size_t size(){ return sizeof v; } static const char* nm(){ return "atomic_ref"; } };
template<class T> struct FIpcRef { typedef T T_; enum { is_ref=1, ipc=1 }; alignas(boost::ipc_atomic_ref<T>::required_alignment) T v; FIpcRef(){ v=T(); } boost::ipc_atomic_ref<T> ref(){ return boost::ipc_atomic_ref<T>(v); } void* addr(){ return &v; } size_t size(){ return sizeof v; } static const char* nm(){ return "ipc_atomic_ref"; } };

// reference constructed once (for types with padding, construction clears the padding and must not run concurrently); the
// accessing threads use copies of it
template<class T> struct FRefCopy { typedef T T_; enum { is_ref=1, ipc=0 }; alignas(boost::atomic_ref<T>::required_alignment) T v; alignas(boost::atomic_ref<T>) unsigned char r[sizeof(boost::atomic_ref<T>)]; FRefCopy(){ v=T(); new (r) boost::atomic_ref<T>(v); } boost::atomic_ref<T> ref(){ return *reinterpret_cast<boost::atomic_ref<T>*>(r); } void* addr(){ return &v; } size_t size(){ return sizeof v; } static const char* nm(){ return "atomic_ref(copies)"; } };

// storage for NOBJ objects of the flavour currently under test; lives in static memory so that addresses are reproducible
// The address decides which of the internal locks an object uses: the engine picks one of 256 placements per scenario (by its
// name), and scenarios may choose one themselves.
enum { NOBJ = 3, CELL_PLACE = 15 };
alignas(4096) static unsigned char g_area[NOBJ * 256 + 256 * 64];
static inline void place(unsigned k) { mc::set(CELL_PLACE, k & 255); }
static inline unsigned char* slot(int i) { return g_area + i * 256 + mc::get(CELL_PLACE) * 64; }
// the assembly and __sync backends use plain accesses with fences or compiler barriers; their order is judged on compiled code (Engine B)
static inline void backend_init(){
#if defined(BACKEND_PLAIN)
  mc::plain_sync(true);
#endif
}
template<class F> inline F& obj(int i=0) { return *reinterpret_cast<F*>(slot(i)); }
template<class F> inline void init_obj(int i, unsigned v) {
  backend_init(); F* f = new (slot(i)) F();
  auto&& r = f->ref();
  if (r.is_lock_free()) mc::atomic_region(f->addr(), f->size());
  r.store(Val<typename F::T_>::mk(v), boost::memory_order_relaxed);
}
template<class F> inline unsigned peek(int i=0){ return Val<typename F::T_>::get(obj<F>(i).ref().load()); }

#define STR2(x) #x
#define STR(x) STR2(x)
#ifndef CFG
#define CFG "default"
#endif
