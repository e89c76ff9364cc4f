// C15: a notification finds exactly the waiters of its own object among any number of waited-on objects in one slot.
// N objects, one waiter thread each; a director lets them arrive one after another (the next starts when the previous one is
// blocked) and releases them in a given order; after every release exactly the released waiter must have left.
#include "scn.h"
#include <sys/mman.h>
using namespace boost;
enum { MAXN = 24 };
struct Arg { unsigned char n, one, rearm, far, order[MAXN], arrive[MAXN]; };
alignas(256) static unsigned char g_obj[MAXN*64]; static bool g_far;
// "far" placement: 4 objects in each of several pages 4 GiB apart, so that different addresses share their low or high 32 bits
static unsigned char* const far0=(unsigned char*)0x110000010000ull; static unsigned char* place(int i){ return g_far ? far0+((size_t)(i/4)<<32)+(i%4)*64 : g_obj+i*64; }
static bool map_far(){ for(int i=0;i<MAXN;i+=4) if(mmap(far0+((size_t)(i/4)<<32),4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE,-1,0)!=far0+((size_t)(i/4)<<32)) return false; return true; }
 static int g_go[MAXN], g_done[MAXN];
static int ld(int& x){ return __atomic_load_n(&x,__ATOMIC_ACQUIRE); } static void st(int& x,int v){ __atomic_store_n(&x,v,__ATOMIC_RELEASE); }
template<class F> struct C15 { typedef typename F::T_ T;
  static F& o(int i){ return *reinterpret_cast<F*>(place(i)); }
  static void init(const void* p){ Arg const* a=(Arg const*)p; backend_init(); g_far=a->far; for(int i=0;i<a->n;i++){ F* f=new (place(i)) F(); auto&& r=f->ref(); if(r.is_lock_free()) mc::atomic_region(f->addr(),f->size()); r.store(Val<T>::mk(0),memory_order_relaxed); } for(int i=0;i<MAXN;i++) g_go[i]=g_done[i]=0; }
  static void wait1(int i,unsigned old){ auto&& x=o(i).ref(); T v=x.wait(Val<T>::mk(old),memory_order_acquire); unsigned w=Val<T>::get(v); MC_CHECK(w!=old&&w!=~0u,"waiter of object %d returned the old value",i); }
  static void body(int t,const void* p){ Arg const* a=(Arg const*)p; int n=a->n;
    if(t<n){ MC_AWAIT(ld(g_go[t])>=1); wait1(t,0); st(g_done[t],1); if(a->rearm&&t==a->order[0]){ MC_AWAIT(ld(g_go[t])>=2); wait1(t,1); st(g_done[t],2); } return; }
    for(int k=0;k<n;k++){ int i=a->arrive[k]; st(g_go[i],1); MC_AWAIT(mc::blocked(i)); }
    auto rel=[&](int i,unsigned v){ auto&& x=o(i).ref(); x.store(Val<T>::mk(v),memory_order_release); if(a->one) x.notify_one(); else x.notify_all(); MC_AWAIT(ld(g_done[i])==(int)v); };
    bool left[MAXN]; for(int i=0;i<n;i++) left[i]=false;
    for(int k=0;k<n;k++){ int i=a->order[k]; rel(i,1); left[i]=true; if(k==0&&a->rearm){ st(g_go[i],2); MC_AWAIT(mc::blocked(i)); left[i]=false; }
      for(int j=0;j<n;j++) MC_CHECK(left[j]||!ld(g_done[j])||(a->rearm&&j==a->order[0]),"waiter of object %d returned although only object %d changed",j,i); }
    if(a->rearm) rel(a->order[0],2); }
  static void fini(const void*){}
  static void add(const char* t,Arg a,const char* what){ mc::Opts o; o.mode=mc::PB; o.pb=0; o.delay=1; o.max_execs=100; mc::add(mc::fmt("%s %s<%s> %d waited-on objects%s, %s, notify_%s%s",CFG,F::nm(),t,a.n,a.far?" whose addresses share halves":"",what,a.one?"one":"all",a.rearm?", first one waits again":""),a.n+1,init,body,fini,mc::keep(&a,sizeof a),o); }
  static void all(const char* t,int lo,int hi,int one,int far=0){ for(int n=lo;n<=hi;n++) for(int rearm=0;rearm<2;rearm++){ Arg a; memset(&a,0,sizeof a); a.n=n; a.one=one; a.far=far; a.rearm=rearm;
      for(int i=0;i<n;i++) a.arrive[i]=i;
      // the k-th one leaves first, the others in increasing / decreasing order
      for(int k=0;k<n;k++) for(int dir=0;dir<2;dir++){ int m=0; a.order[m++]=k; for(int i=0;i<n;i++){ int j=dir?n-1-i:i; if(j!=k) a.order[m++]=j; } add(t,a,mc::fmt("number %d leaves first, then the others %s",k,dir?"in reverse order":"in order of arrival")); }
      for(int s: {3,5,7}) if(n>s&&n%s){ for(int i=0;i<n;i++) a.order[i]=(i*s)%n; for(int r=0;r<2;r++){ for(int i=0;i<n;i++) a.arrive[i]=r?n-1-i:i; add(t,a,mc::fmt("leaving with stride %d, arrived %s",s,r?"in decreasing address order":"in increasing address order")); } for(int i=0;i<n;i++) a.arrive[i]=i; } } }
};
void mc_register(){
  bool far=map_far();
  C15<FAtomic<unsigned char>>::all("uchar",1,24,0); C15<FRef<Words<6>>>::all("Words6",9,18,1); C15<FRef<unsigned long>>::all("ulong",9,14,0);
  if(far){ C15<FRef<unsigned long>>::all("ulong",9,24,1,1); C15<FAtomic<unsigned char>>::all("uchar",9,12,0,1); }
#ifdef DEEP
  C15<FAtomic<unsigned char>>::all("uchar",1,24,1); C15<FRef<unsigned long>>::all("ulong",1,24,1); C15<FRef<Words<6>>>::all("Words6",1,24,0); if(far) C15<FRef<Words<6>>>::all("Words6",1,24,0,1);
#endif
}
