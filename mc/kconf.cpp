// Conformance of the kernel model: every script runs both in Engine A (all interleavings the script's own sequencing permits) and,
// compiled with -DNATIVE, against the real kernel; the expected results are the same table.
#include <cerrno>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <ctime>
#include <initializer_list>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <pthread.h>
#ifdef NATIVE
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <thread>
#include <vector>
static int failures; static const char* cur_name;
#define CHECK(c,...) do { if(!(c)) { failures++; printf("kernel conformance: %s: ",cur_name); printf(__VA_ARGS__); printf("\n"); } } while(0)
static unsigned char* maps_[2]; static std::atomic<bool> done_[3];
static unsigned char* map(int w){ return maps_[w]; }
static void settle(int,unsigned){ usleep(60000); }
#else
#include "mc.h"
#define CHECK(c,...) MC_CHECK(c,__VA_ARGS__)
static unsigned char* map(int w){ size_t n; return (unsigned char*)mc::alias_map(w,&n); }
static void settle(int,unsigned mask){ for(int t=0;t<3;t++) if(mask>>t&1) MC_AWAIT(mc::blocked(t)); }
#endif
static unsigned* A(int m=0){ return (unsigned*)map(m); }
static unsigned* B(int m=0){ return (unsigned*)(map(m)+64); }
enum { PRIV=FUTEX_PRIVATE_FLAG };
static long fx(unsigned* u,int op,unsigned val,const void* ts=0,unsigned* u2=0,unsigned v3=0){ errno=0; long r=syscall(SYS_futex,u,op,val,ts,u2,v3); return r<0?-errno:r; }
static long nreq(unsigned* u,int op,unsigned wake,unsigned long req,unsigned* u2,unsigned v3=0){ return fx(u,op,wake,(void*)req,u2,v3); }
static timespec T(long s,long n){ timespec t; t.tv_sec=s; t.tv_nsec=n; return t; }
static timespec in(clockid_t c,long ms){ timespec t; clock_gettime(c,&t); t.tv_nsec+=ms*1000000; t.tv_sec+=t.tv_nsec/1000000000; t.tv_nsec%=1000000000; if(t.tv_nsec<0){ t.tv_nsec+=1000000000; t.tv_sec--; } return t; }
#define EQ(e,want) do { long r_=(e); CHECK(r_==(long)(want),#e " gives %ld instead of %ld",r_,(long)(want)); } while(0)
// scripts: body(t); thread 2 is the controller where there are several
static void s_mismatch(int){ EQ(fx(A(),FUTEX_WAIT,1),-EAGAIN); EQ(fx(A(),FUTEX_WAIT|PRIV,1),-EAGAIN); timespec t=T(1,0); EQ(fx(A(),FUTEX_WAIT|PRIV,7,&t),-EAGAIN); EQ(fx(A(),FUTEX_WAIT_BITSET|PRIV,7,&t,0,~0u),-EAGAIN); }
static void s_badtime(int){ timespec a=T(-1,0),b=T(0,1000000000),c=T(0,-1); for(timespec* t: {&a,&b,&c}) { EQ(fx(A(),FUTEX_WAIT|PRIV,0,t),-EINVAL); EQ(fx(A(),FUTEX_WAIT,0,t),-EINVAL); EQ(fx(A(),FUTEX_WAIT|PRIV,9,t),-EINVAL); EQ(fx(A(),FUTEX_WAIT_BITSET|PRIV,0,t,0,~0u),-EINVAL); EQ(fx(A(),FUTEX_WAIT_BITSET|FUTEX_CLOCK_REALTIME,0,t,0,~0u),-EINVAL); } }
static void s_bitset0(int){ EQ(fx(A(),FUTEX_WAIT_BITSET|PRIV,0,0,0,0),-EINVAL); EQ(fx((unsigned*)((char*)A()+1),FUTEX_WAIT|PRIV,0),-EINVAL); EQ(fx((unsigned*)((char*)A()+2),FUTEX_WAKE|PRIV,1),-EINVAL); }
static void s_expire(int){ timespec t=T(0,2000000); EQ(fx(A(),FUTEX_WAIT|PRIV,0,&t),-ETIMEDOUT); t=T(0,0); EQ(fx(A(),FUTEX_WAIT,0,&t),-ETIMEDOUT); t=in(CLOCK_MONOTONIC,3); EQ(fx(A(),FUTEX_WAIT_BITSET|PRIV,0,&t,0,~0u),-ETIMEDOUT); timespec n; clock_gettime(CLOCK_MONOTONIC,&n); CHECK(n.tv_sec>t.tv_sec||(n.tv_sec==t.tv_sec&&n.tv_nsec>=t.tv_nsec),"woke before the deadline"); t=in(CLOCK_REALTIME,3); EQ(fx(A(),FUTEX_WAIT_BITSET|PRIV|FUTEX_CLOCK_REALTIME,0,&t,0,~0u),-ETIMEDOUT); t=T(0,0); EQ(fx(A(),FUTEX_WAIT_BITSET|PRIV|FUTEX_CLOCK_REALTIME,0,&t,0,~0u),-ETIMEDOUT); EQ(fx(A(),FUTEX_WAIT_BITSET|PRIV,0,&t,0,~0u),-ETIMEDOUT); t=in(CLOCK_MONOTONIC,-2); EQ(fx(A(),FUTEX_WAIT_BITSET|PRIV,5,&t,0,~0u),-EAGAIN); }
static void s_nobody(int){ EQ(fx(A(),FUTEX_WAKE|PRIV,1),0); EQ(fx(A(),FUTEX_WAKE,INT_MAX),0); EQ(nreq(A(),FUTEX_REQUEUE|PRIV,0,1,B()),0); EQ(nreq(A(),FUTEX_CMP_REQUEUE|PRIV,0,1,B(),1),-EAGAIN); EQ(nreq(A(),FUTEX_CMP_REQUEUE|PRIV,1,1,B(),0),0); EQ(nreq(A(),FUTEX_REQUEUE|PRIV,(unsigned)-1,1,B()),-EINVAL); EQ(nreq(A(),FUTEX_REQUEUE|PRIV,1,(unsigned)-1,B()),-EINVAL); }
template<int W,int K,long R1,int K2,int M> static void wake1(int t){ // one waiter (flags W), first a wake with flags K (expected to wake R1), then one with flags K2 that does wake it if it still sleeps
  if(t==0) EQ(fx(A(),FUTEX_WAIT|W,0),0); else { settle(t,1); EQ(fx(A(M),FUTEX_WAKE|K,1),R1); if(!R1) EQ(fx(A(),FUTEX_WAKE|K2,1),1); EQ(fx(A(),FUTEX_WAKE|K2,1),0); } }
static void s_other(int t){ if(t==0) EQ(fx(A(),FUTEX_WAIT|PRIV,0),0); else { settle(t,1); EQ(fx(B(),FUTEX_WAKE|PRIV,1),0); EQ(fx(A(),FUTEX_WAKE|PRIV,INT_MAX),1); } }
static void s_two(int t){ if(t<2) EQ(fx(A(),FUTEX_WAIT|PRIV,0),0); else { settle(t,3); EQ(fx(A(),FUTEX_WAKE|PRIV,1),1); EQ(fx(A(),FUTEX_WAKE|PRIV,5),1); EQ(fx(A(),FUTEX_WAKE|PRIV,5),0); } }
static void s_all(int t){ if(t<2) EQ(fx(A(),FUTEX_WAIT|PRIV,0),0); else { settle(t,3); EQ(fx(A(),FUTEX_WAKE|PRIV,INT_MAX),2); } }
static void s_neg(int t){ if(t<2) EQ(fx(A(),FUTEX_WAIT|PRIV,0),0); else { settle(t,3); EQ(fx(A(),FUTEX_WAKE|PRIV,0),1); EQ(fx(A(),FUTEX_WAKE|PRIV,(unsigned)-1),1); } }
static void s_requeue(int t){ if(t<2) EQ(fx(A(),FUTEX_WAIT|PRIV,0),0); else { settle(t,3); EQ(nreq(A(),FUTEX_REQUEUE|PRIV,0,1,B()),1); EQ(fx(A(),FUTEX_WAKE|PRIV,5),1); EQ(fx(A(),FUTEX_WAKE|PRIV,5),0); EQ(fx(B(),FUTEX_WAKE|PRIV,5),1); } }
static void s_requeue2(int t){ if(t<2) EQ(fx(A(),FUTEX_WAIT|PRIV,0),0); else { settle(t,3); EQ(nreq(A(),FUTEX_REQUEUE|PRIV,1,INT_MAX,B()),2); EQ(fx(A(),FUTEX_WAKE|PRIV,5),0); EQ(fx(B(),FUTEX_WAKE|PRIV,5),1); } }
static void s_requeue3(int t){ if(t<2) EQ(fx(A(),FUTEX_WAIT|PRIV,0),0); else { settle(t,3); EQ(nreq(A(),FUTEX_CMP_REQUEUE|PRIV,0,INT_MAX,B(),0),2); EQ(fx(A(),FUTEX_WAKE|PRIV,5),0); EQ(fx(B(),FUTEX_WAKE|PRIV,1),1); EQ(fx(B(),FUTEX_WAKE|PRIV,1),1); } }
static void s_requeue_wrongkey(int t){ if(t<1) EQ(fx(A(),FUTEX_WAIT|PRIV,0),0); else { settle(t,1); EQ(nreq(A(),FUTEX_REQUEUE,0,1,B()),0); EQ(fx(A(),FUTEX_WAKE|PRIV,1),1); } }
static void s_requeue_timed(int t){ // a requeued waiter keeps its deadline
  if(t<1){ timespec d=in(CLOCK_MONOTONIC,200); EQ(fx(A(),FUTEX_WAIT_BITSET|PRIV,0,&d,0,~0u),-ETIMEDOUT); } else { settle(t,1); long r=nreq(A(),FUTEX_REQUEUE|PRIV,0,1,B()); CHECK(r==1||r==0,"requeue gives %ld",r); } }
// pthread primitives
static pthread_mutex_t mx=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv=PTHREAD_COND_INITIALIZER; static int turn, woken;
static void p_mutex(int){ EQ(pthread_mutex_lock(&mx),0); EQ(pthread_mutex_trylock(&mx),EBUSY); EQ(pthread_mutex_unlock(&mx),0); EQ(pthread_mutex_trylock(&mx),0); EQ(pthread_mutex_unlock(&mx),0); }
static void p_expired(int){ pthread_mutex_lock(&mx); timespec a=T(0,0),b=T(1,500),n=T(0,1000000000),m=T(0,-1),g=T(-1,0); EQ(pthread_cond_timedwait(&cv,&mx,&a),ETIMEDOUT); EQ(pthread_mutex_trylock(&mx),EBUSY); EQ(pthread_cond_timedwait(&cv,&mx,&b),ETIMEDOUT); EQ(pthread_cond_timedwait(&cv,&mx,&n),EINVAL); EQ(pthread_cond_timedwait(&cv,&mx,&m),EINVAL); EQ(pthread_mutex_trylock(&mx),EBUSY); pthread_mutex_unlock(&mx); EQ(pthread_cond_signal(&cv),0); EQ(pthread_cond_broadcast(&cv),0); }
static void p_monotonic(int){ pthread_condattr_t at; EQ(pthread_condattr_init(&at),0); EQ(pthread_condattr_setclock(&at,CLOCK_MONOTONIC),0); EQ(pthread_condattr_setclock(&at,99),EINVAL); pthread_cond_t c; EQ(pthread_cond_init(&c,&at),0); pthread_condattr_destroy(&at); pthread_mutex_lock(&mx); timespec d=in(CLOCK_MONOTONIC,3); EQ(pthread_cond_timedwait(&c,&mx,&d),ETIMEDOUT); timespec n; clock_gettime(CLOCK_MONOTONIC,&n); CHECK(n.tv_sec>d.tv_sec||(n.tv_sec==d.tv_sec&&n.tv_nsec>=d.tv_nsec),"woke before the deadline"); pthread_mutex_unlock(&mx); EQ(pthread_cond_destroy(&c),0); }
static void p_realtime(int){ pthread_mutex_lock(&mx); timespec d=in(CLOCK_REALTIME,3); EQ(pthread_cond_timedwait(&cv,&mx,&d),ETIMEDOUT); timespec n; clock_gettime(CLOCK_REALTIME,&n); CHECK(n.tv_sec>d.tv_sec||(n.tv_sec==d.tv_sec&&n.tv_nsec>=d.tv_nsec),"woke before the deadline"); pthread_mutex_unlock(&mx); }
#if defined(__USE_GNU)
static void p_clockwait(int){ pthread_mutex_lock(&mx); timespec d=in(CLOCK_MONOTONIC,3); EQ(pthread_cond_clockwait(&cv,&mx,CLOCK_MONOTONIC,&d),ETIMEDOUT); timespec n; clock_gettime(CLOCK_MONOTONIC,&n); CHECK(n.tv_sec>d.tv_sec||(n.tv_sec==d.tv_sec&&n.tv_nsec>=d.tv_nsec),"woke before the deadline"); d=in(CLOCK_REALTIME,3); EQ(pthread_cond_clockwait(&cv,&mx,CLOCK_REALTIME,&d),ETIMEDOUT); EQ(pthread_cond_clockwait(&cv,&mx,CLOCK_PROCESS_CPUTIME_ID,&d),EINVAL); EQ(pthread_mutex_trylock(&mx),EBUSY); pthread_mutex_unlock(&mx); }
#endif
template<bool All> static void p_wake(int t){ // two waiters; the controller takes the mutex only when both wait
  if(t<2){ pthread_mutex_lock(&mx); turn++; while(woken==0) EQ(pthread_cond_wait(&cv,&mx),0); woken--; pthread_mutex_unlock(&mx); }
  else { settle(t,3); pthread_mutex_lock(&mx); CHECK(turn==2,"waiting released nobody into the mutex"); woken=2; if(All) pthread_cond_broadcast(&cv); else { pthread_cond_signal(&cv); pthread_cond_signal(&cv); } pthread_mutex_unlock(&mx); } }
struct Script { const char* name; int nthr; void (*body)(int); };
static const Script S_[]={
  {"wait on a different value",1,s_mismatch},{"malformed timeouts",1,s_badtime},{"empty bitset, misaligned word",1,s_bitset0},{"expired timeouts",1,s_expire},{"wake and requeue without waiters",1,s_nobody},
  {"private waiter, private wake",2,wake1<PRIV,PRIV,1,PRIV,0>},{"private waiter, shared wake",2,wake1<PRIV,0,0,PRIV,0>},{"shared waiter, shared wake",2,wake1<0,0,1,0,0>},{"shared waiter, shared wake in the other mapping",2,wake1<0,0,1,0,1>},{"private waiter, private wake in the other mapping",2,wake1<PRIV,PRIV,0,PRIV,1>},{"shared waiter, private wake",2,wake1<0,PRIV,0,0,0>},
  {"wake of another word",2,s_other},{"two waiters woken one by one",3,s_two},{"two waiters woken together",3,s_all},{"wake counts below one",3,s_neg},{"requeue one of two",3,s_requeue},{"requeue waking one",3,s_requeue2},{"compare-requeue all",3,s_requeue3},{"requeue with other flags",2,s_requeue_wrongkey},{"requeued waiter times out",2,s_requeue_timed},
  {"mutex",1,p_mutex},{"expired and malformed condition waits",1,p_expired},{"condition variable of the monotonic clock",1,p_monotonic},{"condition variable of the realtime clock",1,p_realtime},
#if defined(__USE_GNU)
  {"clockwait",1,p_clockwait},
#endif
  {"two signals",3,p_wake<false>},{"broadcast",3,p_wake<true>} };
#ifdef NATIVE
int main(){ int fd=memfd_create("kconf",0); if(fd<0||ftruncate(fd,4096)) return 3; for(auto& m: maps_) { m=(unsigned char*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(m==MAP_FAILED) return 3; }
  std::thread([]{ sleep(60); printf("kernel conformance: %s: hangs\n",cur_name); fflush(stdout); _exit(1); }).detach();
  int n=0; for(auto& s: S_){ cur_name=s.name; memset(maps_[0],0,4096); turn=woken=0; std::vector<std::thread> th; for(int t=0;t<s.nthr;t++) th.emplace_back([&s,t]{ s.body(s.nthr==2&&t==1?2:t); }); for(auto& t: th) t.join(); n++; }
  printf("%d scripts agree with the kernel, %d mismatches\n",n,failures); fflush(stdout); _exit(failures!=0); }
#else
static void init(const void*){} static void fini(const void*){}
static void body(int t,const void* p){ Script const* s=(Script const*)p; s->body(s->nthr==2&&t==1?2:t); }
void mc_register(){ for(auto& s: S_){ mc::Opts o; o.clock=0; mc::add(mc::fmt("kernel model: %s",s.name),s.nthr,init,body,fini,&s,o); } }
#endif
