// C01: lock-free operations are linearizable and never use internal locks.
#define LIN_WAITS
#include <chrono>
#include "linmat.h"
#include <cstdlib>
static Prog lf(Prog p){ p.lockfree_claim=1; return p; }
// boolean-like and enumeration values
enum class E8 : unsigned char { zero }; enum E32 { e32_zero, e32_max=0x7fffffff };
template<> struct Val<E8> { static E8 mk(unsigned v){ return (E8)v; } static unsigned get(E8 e){ return (unsigned)e; } };
template<> struct Val<E32> { static E32 mk(unsigned v){ return (E32)v; } static unsigned get(E32 e){ return (unsigned)e; } };
template<class F> static void pairs(const char* t,const int* ops,int n){ int k=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ if(!writes(ops[i])&&!writes(ops[j])) continue; if(j<i && ops[i]!=ops[j] && !is_cas(ops[i]) && !is_cas(ops[j])) continue; Lin<F>::add(t,lf(prog(mos[k++%6],5,{{mkop(ops[i],1)},{mkop(ops[j],2)}}))); } }
template<class F> static void triples(const char* t,const int* ops,int n,int step){ int k=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ if(((i*n+j)%step)!=0) continue; int r=ops[(i+j)%n]; Lin<F>::add(t,lf(prog(mos[k++%6],5,{{mkop(ops[i],1)},{mkop(ops[j],2)},{mkop(LOAD,1),mkop(r,1)}})),tri()); } }
template<class F> static void seqs(const char* t,int rmw){ for(int w: {(int)STORE,(int)XCHG,(int)CAS_S,rmw}) for(int m: {0,4}){ Lin<F>::add(t,lf(prog(m,5,{{mkop(rmw,1),mkop(LOAD,1)},{mkop(w,2),mkop(LOAD,2)}}))); Lin<F>::add(t,lf(prog(m,5,{{mkop(LOAD,1),mkop(LOAD,1)},{mkop(w,2),mkop(rmw,1)}}))); }
  for(int w: {(int)CAS_W,(int)CAS_S}) { mc::Opts o; o.weak=2; Lin<F>::add(t,lf(prog(4,5,{{mkop(rmw,1),mkop(w,1)},{mkop(w,2),mkop(LOAD,2)}})),o); } }
// every operation three times in a row against the same, from two threads; every operation from three threads at once
template<class F> static void same(const char* t,const int* ops,int n,unsigned in=5){ for(int i=0;i<n;i++) if(writes(ops[i])){ POp a=mkop(ops[i],1),b=mkop(ops[i],2); mc::Opts o; o.max_execs=4000; o.weak=1; Lin<F>::add(t,lf(prog(mos[i%6],in,{{a,a},{b,b}})),o); Lin<F>::add(t,lf(prog(mos[(i+3)%6],in,{{a},{b},{a}})),o); } }
template<class F> static void twoobj(const char* t,int rmw){ POp a=mkop(rmw,1),b=mkop(rmw,2),l=mkop(LOAD,1),s=mkop(STORE,1); POp a1=a,l1=l,s1=s; a1.obj=l1.obj=s1.obj=1; Lin<F>::add(t,lf(prog(4,5,{{s,l1},{s1,l}},2))); Lin<F>::add(t,lf(prog(3,5,{{a,a1},{a1,b}},2))); }
// waiting operations read the value too: waits for a value that is never there, against everything that writes
template<class F> static void waits(const char* t,const int* ops,int n){
#ifdef BACKEND_PLAIN
  if(sizeof(typename F::T_)!=4) return;
#endif
  int k=0; for(int i=0;i<n;i++) if(writes(ops[i])){ int w=1+k%3; POp r={LOAD,0,0,0,w}; Lin<F>::add(t,prog(mos[k++%6],5,{{mkop(ops[i],1),mkop(STORE,2)},{r,mkop(LOAD,1)}})); if(k%4==0){ POp q={LOAD,0,0,0,4+(k>>2&1)}; Lin<F>::add(t,prog(mos[k%6],5,{{mkop(ops[i],1)},{q},{r}}),tri()); } } }
template<class F> static void generic(const char* t){ pairs<F>(t,GEN,9); triples<F>(t,GEN,9,1); seqs<F>(t,XCHG); twoobj<F>(t,XCHG); same<F>(t,GEN,9); waits<F>(t,GEN,9); }
template<class F> static void fp(const char* t){ int all[17]; for(int i=0;i<9;i++) all[i]=GEN[i]; for(int i=0;i<8;i++) all[9+i]=FP[i]; pairs<F>(t,all,17); triples<F>(t,all,17,3); seqs<F>(t,FADD); twoobj<F>(t,ADD); same<F>(t,all,17); waits<F>(t,all,17); }
template<class F> static void ptr(const char* t){ int all[23]; for(int i=0;i<9;i++) all[i]=GEN[i]; for(int i=0;i<14;i++) all[9+i]=PT[i]; pairs<F>(t,all,23); triples<F>(t,all,23,3); seqs<F>(t,FADD); twoobj<F>(t,ADD); same<F>(t,all,23,50); waits<F>(t,all,23); }
template<class F> static void integer(const char* t,bool full){ int all[NOPS]; for(int i=0;i<NOPS;i++) all[i]=i; if(full) pairs<F>(t,all,NOPS); else { int k=0; for(int i=0;i<NOPS;i++) for(int j: {(int)STORE,(int)XCHG,(int)FADD,(int)CAS_S,(int)LOAD,i}) Lin<F>::add(t,lf(prog(mos[k++%6],5,{{mkop(i,1)},{mkop(j,2)}}))); }
  int tr[]={LOAD,STORE,XCHG,CAS_S,CAS_W,FADD,BTS,BTC,NEGT,OXOR,OADD1,FNEG,SUBT1,OCOMPL,FCOMPL,ANDT}; triples<F>(t,tr,16,1); seqs<F>(t,FADD); seqs<F>(t,OADD); seqs<F>(t,BTC); twoobj<F>(t,ADD); same<F>(t,all,NOPS); waits<F>(t,all,NOPS); }
void mc_register(){
#ifdef ONLY16
#if defined(BOOST_HAS_INT128)
  integer<FAtomic<unsigned __int128>>("uint128",true); integer<FRef<__int128>>("int128",false); integer<FIpc<unsigned __int128>>("uint128",false);
#endif
  generic<FAtomic<Words<4>>>("Words4"); generic<FRef<Words<4>>>("Words4"); generic<FAtomic<Words<3>>>("Words3"); generic<FIpcRef<Blob<16>>>("Blob16"); generic<FAtomic<Blob<9>>>("Blob9"); fp<FAtomic<long double>>("long double"); fp<FRefCopy<long double>>("long double");
#else
  integer<FAtomic<unsigned char>>("uchar",true); integer<FRef<signed char>>("schar",false); integer<FAtomic<short>>("short",true); integer<FRef<unsigned short>>("ushort",false);
  integer<FAtomic<unsigned>>("uint",true); integer<FRef<int>>("int",false); integer<FIpc<int>>("int",false); integer<FAtomic<long>>("long",true); integer<FRef<unsigned long>>("ulong",false); integer<FIpcRef<unsigned long>>("ulong",false); integer<FIpc<unsigned char>>("uchar",false); integer<FIpcRef<short>>("short",false);
  fp<FAtomic<float>>("float"); fp<FRef<float>>("float"); fp<FAtomic<double>>("double"); fp<FRef<double>>("double"); fp<FIpc<double>>("double"); fp<FIpcRef<float>>("float");
  ptr<FAtomic<int*>>("int*"); ptr<FRef<Words<3>*>>("Words3*"); ptr<FIpc<char*>>("char*"); generic<FAtomic<void*>>("void*");
  generic<FAtomic<Blob<1>>>("Blob1"); generic<FRef<Blob<2>>>("Blob2"); generic<FAtomic<Blob<3>>>("Blob3"); generic<FIpc<Blob<3>>>("Blob3"); generic<FRef<Blob<4>>>("Blob4"); generic<FAtomic<Blob<5>>>("Blob5"); generic<FIpcRef<Blob<8>>>("Blob8"); generic<FAtomic<Words<2>>>("Words2"); generic<FAtomic<Mixed>>("Mixed"); generic<FRefCopy<Mixed>>("Mixed");
  generic<FAtomic<E8>>("enum8"); generic<FRef<E32>>("enum32");
#endif
}
