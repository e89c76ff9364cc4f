// C10: an indefinite wait returns only with a value different from the old one (and exactly a value the object held).
#include "scn.h"
using namespace boost;
struct Arg { int shape; int mo; };
enum { NOTIFY_NO_CHANGE, SAME_STORE, ABA, OTHER_OBJECT, IMMEDIATE, TWO_OLD, RMW_BACK };
static const char* shn[]={"notifications without change","store of the same value","0-1-0-2","notifying another object","value differs at once","two waiters with different old values","changed and changed back by rmw"};
static memory_order mo(int m){ return m==0?memory_order_relaxed:m==1?memory_order_acquire:memory_order_seq_cst; }
template<class F> static unsigned W(unsigned old,int m,int i=0){ typedef typename F::T_ T; auto&& x=obj<F>(i).ref(); T o=Val<T>::mk(old); T v=x.wait(o,mo(m)); unsigned g=Val<T>::get(v); MC_CHECK(g!=~0u,"wait returned a torn value"); MC_CHECK(g!=old,"wait(%u) returned the old value",old); mc::outcome(g); return g; }
template<class F> static void S(unsigned v,int i=0){ typedef typename F::T_ T; obj<F>(i).ref().store(Val<T>::mk(v),memory_order_release); }
template<class F> static void init(const void*){ for(int i=0;i<2;i++) init_obj<F>(i,0); }
template<class F> static void body(int t,const void* p){ Arg const* a=(Arg const*)p; auto&& x=obj<F>(0).ref(); auto&& y=obj<F>(1).ref(); typedef typename F::T_ T;
  switch(a->shape){
  case NOTIFY_NO_CHANGE: if(t==0){ unsigned g=W<F>(0,a->mo); MC_CHECK(g==7,"wait returned %u which the object never held",g); } else { x.notify_one(); x.notify_all(); S<F>(7); x.notify_one(); } break;
  case SAME_STORE: if(t==0){ unsigned g=W<F>(0,a->mo); MC_CHECK(g==7,"wait returned %u",g); } else { S<F>(0); x.notify_all(); S<F>(7); x.notify_one(); } break;
  case ABA: if(t==0){ unsigned g=W<F>(0,a->mo); MC_CHECK(g==1||g==2,"wait returned %u",g); } else { S<F>(1); x.notify_all(); S<F>(0); x.notify_all(); S<F>(2); x.notify_all(); } break;
  case OTHER_OBJECT: if(t==0){ unsigned g=W<F>(0,a->mo); MC_CHECK(g==7,"wait returned %u",g); } else { S<F>(3,1); y.notify_all(); y.notify_one(); S<F>(7); x.notify_one(); } break;
  case IMMEDIATE: /* nobody notifies: a wait that goes to sleep deadlocks */ if(t==0){ unsigned g=W<F>(5,a->mo); MC_CHECK(g==0||g==1,"wait returned %u",g); } else { S<F>(1); } break;
  case TWO_OLD: if(t==0) W<F>(0,a->mo); else if(t==1) W<F>(1,a->mo); else { S<F>(1); x.notify_all(); S<F>(2); x.notify_all(); } break;
  case RMW_BACK: if(t==0){ unsigned g=W<F>(0,a->mo); MC_CHECK(g==1||g==2,"wait returned %u",g); } else { x.exchange(Val<T>::mk(1),memory_order_acq_rel); x.notify_one(); T e=Val<T>::mk(1); x.compare_exchange_strong(e,Val<T>::mk(0),memory_order_acq_rel,memory_order_relaxed); S<F>(2); x.notify_one(); } break;
  } }
static void nofini(const void*){}
template<class F> static void addF(const char* t,bool full){ for(int s: {NOTIFY_NO_CHANGE,SAME_STORE,ABA,OTHER_OBJECT,IMMEDIATE,TWO_OLD,RMW_BACK}) for(int sp: {0,1}) { if(!full&&(s==TWO_OLD||(s==RMW_BACK&&!sp))) continue; Arg a={s,s%3}; mc::Opts o; o.spurious=sp; if(s==TWO_OLD) o.max_execs=8000; mc::add(mc::fmt("%s %s<%s> %s spurious<=%d",CFG,F::nm(),t,shn[s],sp),s==TWO_OLD?3:2,init<F>,body<F>,nofini,mc::keep(&a,sizeof a),o); } }

// ---- raw representations: values that differ from old only in some bytes, and padding that must not count
template<class F> struct Raw { typedef typename F::T_ T; 
  struct A { unsigned char old[64], init[64], nw[64], mask[64]; bool eq; char name[96]; };
  static bool same(void const* x,void const* y,unsigned char const* m){ for(size_t i=0;i<sizeof(T);i++) if(m[i]&&((unsigned char const*)x)[i]!=((unsigned char const*)y)[i]) return false; return true; }
  static void init(const void* p){ A const* a=(A const*)p; init_obj<F>(0,0); T v; __builtin_memcpy((void*)&v,a->init,sizeof v); obj<F>(0).ref().store(v,memory_order_relaxed); }
  static void body(int t,const void* p){ A const* a=(A const*)p; auto&& x=obj<F>(0).ref(); if(t==0){ T o; __builtin_memcpy((void*)&o,a->old,sizeof o); T r=x.wait(o,memory_order_acquire); bool sm=same(&r,a->nw,a->mask); if(a->eq) MC_CHECK(sm,"wait returned although the value representation was unchanged (%s)",a->name); else MC_CHECK(same(&r,a->init,a->mask)||sm,"wait returned a value that was never stored (%s)",a->name);
      mc::outcome(mc::kernel_blocks(0)); }
    else { T n; __builtin_memcpy((void*)&n,a->nw,sizeof n); if(a->eq){ x.store(n,memory_order_release); x.notify_one(); } else x.load(memory_order_relaxed); /* already different: a wait that goes to sleep deadlocks */ } }
  static size_t cmpn(){ return vf::vbytes<T>::n; }
  static void add(const char* t,const void* old,const void* in,const void* nw,size_t n,bool eq,const char* what,const unsigned char* mask=0){ A a; memset(&a,0,sizeof a); for(size_t i=0;i<n;i++) a.mask[i]=mask?mask[i]:i<cmpn(); memcpy(a.old,old,n); memcpy(a.init,in,n); memcpy(a.nw,nw,n); a.eq=eq; snprintf(a.name,sizeof a.name,"%s",what); mc::Opts o; o.spurious=1; mc::add(mc::fmt("%s %s<%s> raw %s",CFG,F::nm(),t,what),2,init,body,nofini,mc::keep(&a,sizeof a),o); }
  // every single byte position
  static void bytes(const char* t){ for(size_t i=0;i<sizeof(T)&&i<64;i++){ if(i>=cmpn()) break; for(int hi=0;hi<2;hi++){ unsigned char o[64]={0},in[64]={0}; in[i]=hi?0x80:0x01; add(t,o,in,in,sizeof(T),false,mc::fmt("init differs from old in byte %zu",i)); unsigned char n2[64]={0}; n2[i]=hi?0x80:1; add(t,o,o,n2,sizeof(T),true,mc::fmt("changed in byte %zu",i)); } }
    unsigned char f[64]; memset(f,0xff,64); unsigned char z[64]={0}; if(std::is_integral<T>::value){ add(t,f,f,z,sizeof(T),true,"old = -1"); add(t,z,f,f,sizeof(T),false,"value -1, old 0"); } }
};
template<class F> static void padding(const char* t,size_t vbytes_mask_n,const unsigned char* mask){ // mask: 1 = value byte, 0 = padding
  size_t n=vbytes_mask_n; unsigned char o[64]={0},in[64]={0},nw[64]={0}; for(size_t i=0;i<n;i++){ if(!mask[i]){ o[i]=0xEE; in[i]=0x11; nw[i]=0x77; } } nw[0]=1; Raw<F>::add(t,o,in,nw,n,true,"padding differs",mask); }
void mc_register(){
  addF<FAtomic<unsigned char>>("uchar",true); addF<FRef<unsigned short>>("ushort",false); addF<FAtomic<unsigned>>("uint",true); addF<FRef<unsigned>>("uint",false); addF<FAtomic<unsigned long>>("ulong",true); addF<FAtomic<Blob<3>>>("Blob3",true); addF<FRef<Words<6>>>("Words6",true); addF<FAtomic<double>>("double",false); addF<FAtomic<int*>>("int*",false);
#ifndef BOOST_ATOMIC_FORCE_FALLBACK
  addF<FIpc<unsigned>>("uint",true); addF<FIpc<unsigned short>>("ushort",false); addF<FIpcRef<unsigned long>>("ulong",false);
#endif
  Raw<FAtomic<signed char>>::bytes("schar"); Raw<FAtomic<short>>::bytes("short"); Raw<FRef<int>>::bytes("int"); Raw<FAtomic<int>>::bytes("int"); Raw<FAtomic<long>>::bytes("long"); Raw<FRef<unsigned long>>::bytes("ulong"); Raw<FAtomic<Blob<3>>>::bytes("Blob3"); Raw<FRef<Blob<5>>>::bytes("Blob5"); Raw<FAtomic<Words<6>>>::bytes("Words6"); Raw<FAtomic<double>>::bytes("double");
#ifndef BOOST_ATOMIC_FORCE_FALLBACK
  Raw<FIpc<long>>::bytes("long"); Raw<FIpc<int>>::bytes("int"); Raw<FIpcRef<short>>::bytes("short");
#endif
  { unsigned char m[16]={1,1,1,1,1,1,1,1,1,1,0,0,0,0,0,0}; padding<FAtomic<long double>>("long double",16,m); padding<FRefCopy<long double>>("long double",16,m); }
#if !defined(BOOST_ATOMIC_NO_CLEAR_PADDING)
  { unsigned char m[8]={1,0,0,0,1,1,1,1}; padding<FAtomic<Mixed>>("struct{char;int}",8,m); }
#endif
}
