// C12: objects that share an internal slot never disturb each other.
#include "scn.h"
using namespace boost;
typedef std::chrono::steady_clock SC;
// ---------------------------------------------------------------- free-running programs, all interleavings
enum { TWO_OBJ, TWO_OBJ_ALL, NOTIFY_OTHER_ONLY, THREE_OBJ, OPS_WHILE_WAITING, SWAP, LEAVE_BY_TIMEOUT, SAME_AND_OTHER, NSH };
static const char* shn[]={"A and B waited on, both notified (one)","A and B waited on, both notified (all)","B notified while A waits","three objects","operations on other objects while A and B are waited on","waiter moves from A to B","waiter on A leaves by timeout while B waits","two waiters on A, one on B"};
static int shthr[]={3,3,2,4,3,3,3,4};
struct Arg { int sh; int n; int word[16]; int one; };
template<class F> static unsigned W(int i,unsigned old){ typedef typename F::T_ T; auto&& x=obj<F>(i).ref(); T v=x.wait(Val<T>::mk(old),memory_order_acquire); unsigned g=Val<T>::get(v); MC_CHECK(g!=~0u&&g!=old,"wait on object %d returned the old value",i); mc::outcome(g); return g; }
template<class F> static void S(int i,unsigned v){ typedef typename F::T_ T; obj<F>(i).ref().store(Val<T>::mk(v),memory_order_release); }
template<class F> static void SN(int i,unsigned v,bool all){ S<F>(i,v); auto&& x=obj<F>(i).ref(); if(all) x.notify_all(); else x.notify_one(); }
template<class F> static void init(const void*){ for(int i=0;i<3;i++) init_obj<F>(i,0); }
template<class F> static void body(int t,const void* p){ Arg const* a=(Arg const*)p; typedef typename F::T_ T;
  switch(a->sh){
  case TWO_OBJ: case TWO_OBJ_ALL: if(t<2) W<F>(t,0); else { SN<F>(1,1,a->sh==TWO_OBJ_ALL); SN<F>(0,1,a->sh==TWO_OBJ_ALL); } break;
  case NOTIFY_OTHER_ONLY: if(t==0) W<F>(0,0); else { auto&& y=obj<F>(1).ref(); y.notify_one(); y.notify_all(); SN<F>(0,1,false); y.notify_one(); } break;
  case THREE_OBJ: if(t<3) W<F>(t,0); else { SN<F>(2,1,false); SN<F>(0,1,true); SN<F>(1,1,false); } break;
  case OPS_WHILE_WAITING: if(t<2) W<F>(t,0); else { typename F::T_ e=Val<T>::mk(0); auto&& z=obj<F>(2).ref(); z.compare_exchange_strong(e,Val<T>::mk(5)); MC_CHECK(Val<T>::get(z.exchange(Val<T>::mk(6)))==5,"an operation on an unrelated object was lost"); SN<F>(0,1,false); MC_CHECK(Val<T>::get(z.load())==6,"unrelated object changed"); SN<F>(1,1,false); } break;
  case SWAP: if(t==0){ W<F>(0,0); W<F>(1,0); } else if(t==1){ W<F>(1,0); W<F>(0,0); } else { SN<F>(0,1,true); SN<F>(1,1,true); } break;
  case LEAVE_BY_TIMEOUT: if(t==0){ auto&& x=obj<F>(0).ref(); auto r=x.wait_until(Val<T>::mk(0),SC::now()+std::chrono::milliseconds(5),memory_order_acquire); unsigned g=Val<T>::get(r.value); MC_CHECK(r.timeout==(g==0),"inconsistent timed wait result"); mc::outcome(g); } else if(t==1) W<F>(1,0); else { obj<F>(0).ref().notify_all(); SN<F>(1,1,false); } break;
  case SAME_AND_OTHER: if(t<2) W<F>(0,0); else if(t==2) W<F>(1,0); else { SN<F>(1,1,false); SN<F>(0,1,true); } break;
  } }
static void nofini(const void*){}
template<class F> static void addF(const char* t,long cap){ for(int s=0;s<NSH;s++) for(int sp=0;sp<2;sp++){ if(sp&&(shthr[s]>3||s==LEAVE_BY_TIMEOUT)) continue; Arg a; memset(&a,0,sizeof a); a.sh=s; mc::Opts o; o.spurious=sp; o.clock=s==LEAVE_BY_TIMEOUT; o.max_execs=cap; if(shthr[s]>3||(sp&&shthr[s]>2)||s==LEAVE_BY_TIMEOUT){ o.mode=mc::PB; o.pb=1; } mc::add(mc::fmt("%s %s<%s> %s spurious<=%d",CFG,F::nm(),t,shn[s],sp),shthr[s],init<F>,body<F>,nofini,mc::keep(&a,sizeof a),o); } }

// ---------------------------------------------------------------- arrival/departure histories
// A director thread executes a word over {arrive(t,o), release(o)}: every waiter thread t waits on object o when told to; the
// director lets it get blocked before the next letter, and after a release waits until exactly the waiters of that object left.
// All words up to a length are enumerated (objects and threads up to renaming of threads).
enum { ARR=0, REL=1, CHG=2 };
template<class F> struct Hist { typedef typename F::T_ T;
  static void init(const void*){ for(int i=0;i<5;i++){ F* f=new (g5+i*512) F(); auto&& r=f->ref(); if(r.is_lock_free()) mc::atomic_region(f->addr(),f->size()); r.store(Val<T>::mk(0),memory_order_relaxed); } for(int i=0;i<16;i++) g_go[i]=g_done[i]=0; }
  static F& o5(int i){ return *reinterpret_cast<F*>(g5+i*512); }
  alignas(256) static unsigned char g5[5*512]; static int g_go[16], g_done[16];
  static int ld(int& x){ return __atomic_load_n(&x,__ATOMIC_ACQUIRE); } static void st(int& x,int v){ __atomic_store_n(&x,v,__ATOMIC_RELEASE); }
  static void body(int t,const void* p){ Arg const* a=(Arg const*)p; int nw=a->sh; 
    if(t<nw){ // waiter: one wait; g_go = object+1, with the old value in the upper bits
      MC_AWAIT(ld(g_go[t])!=0); int g=ld(g_go[t]); int o=(g&15)-1; unsigned old=g>>4; auto&& x=o5(o).ref(); T v=x.wait(Val<T>::mk(old),memory_order_acquire); unsigned w=Val<T>::get(v); MC_CHECK(w!=old&&w!=~0u,"waiter on object %d returned the old value",o); st(g_done[t],1); return; }
    unsigned val[5]={0}; int on[8], nt=0; bool in[8]={0};
    for(int k=0;k<a->n;k++){ int w=a->word[k], kind=w>>4, o=w&15;
      if(kind==ARR){ int w2=nt++; on[w2]=o; in[w2]=true; st(g_go[w2],(o+1)|(val[o]<<4)); MC_AWAIT(mc::blocked(w2)); }
      else if(kind==REL){ val[o]++; auto&& x=o5(o).ref(); x.store(Val<T>::mk(val[o]),memory_order_release); int cnt=0; for(int i=0;i<nt;i++) cnt+=in[i]&&on[i]==o; if(a->one) for(int i=0;i<cnt;i++) x.notify_one(); else x.notify_all();
        for(int i=0;i<nt;i++) if(in[i]&&on[i]==o){ MC_AWAIT(ld(g_done[i])); in[i]=false; } }
      else { /* notification without waiters / without change */ auto&& x=o5(o).ref(); if(a->one) x.notify_one(); else x.notify_all(); }
      for(int i=0;i<nt;i++) MC_CHECK(!(in[i]&&ld(g_done[i])),"waiter on object %d returned although the object never changed",on[i]); }
    for(int o=0;o<5;o++) { bool any=false; for(int i=0;i<nt;i++) any|=in[i]&&on[i]==o; if(any){ o5(o).ref().store(Val<T>::mk(val[o]+1),memory_order_release); o5(o).ref().notify_all(); for(int i=0;i<nt;i++) if(in[i]&&on[i]==o){ MC_AWAIT(ld(g_done[i])); in[i]=false; } } } 
    for(int i=nt;i<nw;i++) st(g_go[i],1|((val[0]+7)<<4)); /* unused waiter threads: their object already differs */ }
  static void add(const char* t,Arg a,int nw,int pb){ a.sh=nw; mc::Opts o; o.mode=mc::PB; o.pb=pb; o.delay=1; o.max_execs=1000; static char s[200]; int n=0; s[0]=0; for(int k=0;k<a.n;k++) n+=snprintf(s+n,sizeof s-n," %s%c",(a.word[k]>>4)==ARR?"wait ":(a.word[k]>>4)==REL?"release ":"notify ",'A'+(a.word[k]&15)); mc::add(mc::fmt("%s history %s<%s> notify_%s:%s",CFG,F::nm(),t,a.one?"one":"all",s),nw+1,init,body,nofini,mc::keep(&a,sizeof a),o); }
  // all words of arrivals (<= nw) and releases of waited-on objects, length <= len, objects numbered in order of first use unless allperm
  static void gen(const char* t,int nobj,int nw,int len,int one,Arg& a,int arr,int used,int cnt[5],bool perm){
    bool idle=true; for(int i=0;i<nobj;i++) idle&=cnt[i]==0; if(a.n>0&&(a.n==len||(idle&&arr==nw))) { a.one=one; add(t,a,nw,1); if(a.n==len||arr==nw) return; }
    if(a.n>=len) return;
    for(int o=0;o<nobj;o++){ if(!perm&&o>used) break; if(arr<nw){ int c=cnt[o]; cnt[o]=c+1; a.word[a.n++]=(ARR<<4)|o; gen(t,nobj,nw,len,one,a,arr+1,o==used?used+1:used,cnt,perm); a.n--; cnt[o]=c; } }
    for(int o=0;o<nobj;o++) if(cnt[o]){ int c=cnt[o]; cnt[o]=0; a.word[a.n++]=(REL<<4)|o; gen(t,nobj,nw,len,one,a,arr,used,cnt,perm); a.n--; cnt[o]=c; } }
  static void all(const char* t,int nobj,int nw,int len,int one,bool perm){ Arg a; memset(&a,0,sizeof a); int cnt[5]={0}; gen(t,nobj,nw,len,one,a,0,0,cnt,perm); }
  // n objects arrive in order perm1 and are released in order perm2 (all permutations of departures; arrivals in index order or reversed)
  static void perms(const char* t,int n,int one){ int p[5]={0,1,2,3,4}; do { for(int rev=0;rev<2;rev++){ Arg a; memset(&a,0,sizeof a); a.one=one; for(int i=0;i<n;i++) a.word[a.n++]=(ARR<<4)|(rev?n-1-i:i); for(int i=0;i<n;i++){ a.word[a.n++]=(REL<<4)|p[i]; if(i==0) a.word[a.n++]=(CHG<<4)|p[(i+1)%n]; } add(t,a,n,n<5); } } while(nxt(p,n)); }
  static bool nxt(int* p,int n){ int i=n-2; while(i>=0&&p[i]>p[i+1]) i--; if(i<0) return false; int j=n-1; while(p[j]<p[i]) j--; int x=p[i]; p[i]=p[j]; p[j]=x; for(int l=i+1,r=n-1;l<r;l++,r--){ x=p[l]; p[l]=p[r]; p[r]=x; } return true; }
};
template<class F> alignas(256) unsigned char Hist<F>::g5[5*512]; template<class F> int Hist<F>::g_go[16]; template<class F> int Hist<F>::g_done[16];
void mc_register(){
  addF<FAtomic<unsigned char>>("uchar",20000); addF<FRef<unsigned long>>("ulong",8000); addF<FRef<Blob<3>>>("Blob3",8000); addF<FRef<Words<6>>>("Words6",8000);
  Hist<FAtomic<unsigned char>>::all("uchar",3,4,6,0,false); Hist<FAtomic<unsigned char>>::all("uchar",2,4,7,1,true); Hist<FAtomic<unsigned char>>::perms("uchar",5,0); Hist<FAtomic<unsigned char>>::perms("uchar",3,1); Hist<FRef<unsigned long>>::perms("ulong",4,1);
  Hist<FRef<Blob<3>>>::all("Blob3",3,4,6,1,false); Hist<FRef<Blob<3>>>::perms("Blob3",5,1);
#ifdef DEEP
  Hist<FAtomic<unsigned char>>::all("uchar",4,5,9,0,false); Hist<FAtomic<unsigned char>>::all("uchar",3,5,9,1,true);
#endif
}
