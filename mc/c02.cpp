// C02: lock-based operations are linearizable.
#define LIN_WAITS
#include <chrono>
#include "linmat.h"
#include <cstdlib>
template<class F> static void pairs(const char* t,const int* ops,int n){ int k=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ if(!writes(ops[i])&&!writes(ops[j])) continue; if(j<i && ops[i]!=ops[j] && !is_cas(ops[i]) && !is_cas(ops[j])) continue; Lin<F>::add(t,prog(mos[k++%6],5,{{mkop(ops[i],1)},{mkop(ops[j],2)}})); } }
template<class F> static void triples(const char* t,const int* ops,int n,int step){ int k=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ if(((i*n+j)%step)!=0) continue; int r=ops[(i+j)%n]; Lin<F>::add(t,prog(mos[k++%6],5,{{mkop(ops[i],1)},{mkop(ops[j],2)},{mkop(LOAD,1),mkop(r,1)}}),tri()); } }
// longer per-thread programs: read-modify-write then load against store/exchange
template<class F> static void seqs(const char* t,int rmw){ for(int w: {(int)STORE,(int)XCHG,(int)CAS_S,rmw}) for(int m: {0,4}){ Lin<F>::add(t,prog(m,5,{{mkop(rmw,1),mkop(LOAD,1)},{mkop(w,2),mkop(LOAD,2)}})); Lin<F>::add(t,prog(m,5,{{mkop(LOAD,1),mkop(LOAD,1)},{mkop(w,2),mkop(rmw,1)}})); } }
// two objects (which share an internal lock when the pool has one entry)
template<class F> static void twoobj(const char* t,int rmw){ POp a=mkop(rmw,1),b=mkop(rmw,2),l=mkop(LOAD,1),s=mkop(STORE,1); POp a1=a,l1=l,s1=s; a1.obj=l1.obj=s1.obj=1; Lin<F>::add(t,prog(4,5,{{s,l1},{s1,l}},2)); Lin<F>::add(t,prog(3,5,{{a,a1},{a1,b}},2)); Lin<F>::add(t,prog(0,5,{{a,l1},{a1,l}},2)); }
// waiting operations read the value too: waits for a value that is never there, against everything that writes
template<class F> static void waits(const char* t,std::initializer_list<int> ws){ int k=0; for(int w=1;w<=3;w++) for(int op: ws){ POp r={LOAD,0,0,0,w},n={LOAD,0,0,0,4+(op&1)}; Lin<F>::add(t,prog(mos[k++%6],5,{{mkop(op,1)},{r}})); Lin<F>::add(t,prog(mos[k%6],5,{{mkop(op,1),mkop(STORE,2)},{r,mkop(LOAD,1)}})); if(w==1) Lin<F>::add(t,prog(mos[k%6],5,{{mkop(op,1)},{n},{r}}),tri()); } }
template<class F> static void generic(const char* t){ pairs<F>(t,GEN,9); triples<F>(t,GEN,9,2); seqs<F>(t,XCHG); twoobj<F>(t,XCHG); waits<F>(t,{STORE,XCHG,CAS_S,CAS_W}); }
template<class F> static void fp(const char* t){ int all[17]; for(int i=0;i<9;i++) all[i]=GEN[i]; for(int i=0;i<8;i++) all[9+i]=FP[i]; pairs<F>(t,all,17); triples<F>(t,FP,8,3); seqs<F>(t,FADD); twoobj<F>(t,ADD); waits<F>(t,{FADD,ADD}); }
template<class F> static void ptr(const char* t){ int all[23]; for(int i=0;i<9;i++) all[i]=GEN[i]; for(int i=0;i<14;i++) all[9+i]=PT[i]; pairs<F>(t,all,23); seqs<F>(t,FADD); twoobj<F>(t,ADD); waits<F>(t,{FADD,POSTDEC}); }
template<class F> static void integer(const char* t,bool full){ int all[NOPS]; for(int i=0;i<NOPS;i++) all[i]=i; if(full) pairs<F>(t,all,NOPS); else { int k=0; for(int i=0;i<NOPS;i++) for(int j: {(int)STORE,(int)FADD,(int)CAS_S,i}) Lin<F>::add(t,prog(mos[k++%6],5,{{mkop(i,1)},{mkop(j,2)}})); } int tr[]={LOAD,STORE,XCHG,CAS_S,FADD,BTS,NEGT,OXOR}; triples<F>(t,tr,8,3); seqs<F>(t,FADD); twoobj<F>(t,ADD); waits<F>(t,{FADD,STORE}); }
// the futex based lock has a much larger state space per operation pair, so the broad all-pairs matrix runs on the pthread based one
void mc_register(){ const bool wide = strstr(CFG,"pthread")!=0 || getenv("MC_WIDE")!=0;
  generic<FRef<Blob<3>>>("Blob3"); generic<FRef<Words<6>>>("Words6"); if(wide){ generic<FAtomic<Blob<9>>>("Blob9"); generic<FAtomic<Words<6>>>("Words6"); }
  if(wide) {generic<FAtomic<Big64>>("Big64"); generic<FRef<Blob<17>>>("Blob17"); generic<FAtomic<Blob<1>>>("Blob1"); generic<FRef<Blob<8>>>("Blob8 (align 1)"); generic<FRef<Words<4>>>("Words4 (align 4)"); }
  if(wide) fp<FAtomic<long double>>("long double"); fp<FRefCopy<long double>>("long double");
#ifdef BOOST_ATOMIC_FORCE_FALLBACK
  if(!wide){ integer<FRef<unsigned>>("uint",false); fp<FRef<double>>("double"); ptr<FAtomic<int*>>("int*"); return; }
  integer<FAtomic<unsigned char>>("uchar",false); integer<FRef<unsigned short>>("ushort",false); integer<FAtomic<unsigned>>("uint",true); integer<FRef<unsigned>>("uint",false); integer<FAtomic<long>>("long",false); integer<FRef<unsigned long>>("ulong",false);
#if defined(BOOST_HAS_INT128)
  integer<FAtomic<unsigned __int128>>("uint128",false);
#endif
  fp<FAtomic<float>>("float"); fp<FRef<double>>("double"); ptr<FAtomic<int*>>("int*"); ptr<FRef<Words<3>*>>("Words3*");
#endif
}
