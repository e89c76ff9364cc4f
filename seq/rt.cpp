#include "seq.h"
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <string>
#include <unordered_set>
#include <time.h>
namespace sq {
volatile Cur cur; volatile uint64_t cases; uint64_t states, distinct, only_case; int nviol; unsigned char* page;
static std::vector<std::string> msgs, reps, samples; static std::string out="/tmp", prop="X", json; static std::unordered_set<uint64_t> seen; static time_t t0;
void note(uint64_t h){ if(seen.size()<4000000 && seen.insert(h).second) distinct++; }
static char hb[16][40]; static int hi_;
char* hex(vf::u128 v){ char* b=hb[hi_++&15]; if(v>>64) snprintf(b,40,"0x%llx%016llx",(unsigned long long)(v>>64),(unsigned long long)v); else snprintf(b,40,"0x%llx",(unsigned long long)v); return b; }
static std::string esc(std::string const& s){ std::string r; for(char c: s){ if(c=='"'||c=='\\') r+='\\'; if((unsigned char)c<32) c=' '; r+=c; } return r; }
static void done(){
  if(!json.empty()){ FILE* f=fopen(json.c_str(),"w"); if(f){ fprintf(f,"{\"states\":%llu,\"transitions\":%llu,\"distinct\":%llu,\"samples\":[",(unsigned long long)states,(unsigned long long)cases,(unsigned long long)distinct);
    for(size_t i=0;i<samples.size();i++) fprintf(f,"%s\"%s\"",i?",":"",esc(samples[i]).c_str()); fprintf(f,"],\"violations\":[");
    for(size_t i=0;i<msgs.size();i++) fprintf(f,"%s{\"msg\":\"%s\",\"replay\":\"%s\",\"scenario\":\"%s\"}",i?",":"",esc(msgs[i]).c_str(),reps[i].c_str(),CFG); fprintf(f,"]}\n"); fclose(f); } }
  printf("SEQ %s transitions=%llu states=%llu distinct=%llu violations=%d wall=%lds\n",CFG,(unsigned long long)cases,(unsigned long long)states,(unsigned long long)distinct,nviol,(long)(time(0)-t0)); fflush(stdout); }
bool stop(){ return nviol>=5; }
void sample(const char* f, ...){ if(samples.size()>=12) return; char b[400]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); samples.push_back(b); }
void viol(const char* f, ...){ char b[600], w[400]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap);
  snprintf(w,sizeof w,"%s<%s> %s(%s,%s;%s)%s%s on state %s: ",cur.flav?cur.flav:"",cur.type?cur.type:"",cur.op?cur.op:"",hex(cur.a),hex(cur.d),mon[cur.mo],cur.what?" ":"",cur.what?cur.what:"",hex(cur.s));
  std::string m=std::string(w)+b; nviol++; char p[300]; snprintf(p,sizeof p,"%s/%s-%d-%d.replay",out.c_str(),prop.c_str(),(int)getpid()%100000,nviol); if(FILE* fp=fopen(p,"w")){ fprintf(fp,"config %s\ncase %llu\n%s\n",CFG,(unsigned long long)cases,m.c_str()); fclose(fp); }
  msgs.push_back(m); reps.push_back(p); printf("SEQ-VIOLATION %s\n  replay=%s\n",m.c_str(),p); if(stop()){ done(); fflush(stdout); _exit(1); } }
static void on_sig(int s,siginfo_t* si,void*){ unsigned char* a=(unsigned char*)si->si_addr; if(s==SIGALRM){ static uint64_t last; static int same; if(cases==last) same++; else { same=0; last=cases; } if(same<6) { alarm(5); return; } viol("the operation does not end"); }
  else if(s==SIGSEGV&&a>=page-4096&&a<page+PAGES+4096) viol("writes outside the object (fault at object page offset %ld)",(long)(a-page)); else viol("crashes with signal %d at address %p",s,(void*)a);
  done(); _exit(1); }
}
int main(int ac,char** av){ using namespace sq; t0=time(0);
  for(int i=1;i<ac;i++){ std::string a=av[i]; if(i+1<ac&&a=="--json") json=av[++i]; else if(i+1<ac&&a=="--out") out=av[++i]; else if(i+1<ac&&a=="--prop") prop=av[++i]; else if(i+1<ac&&a=="--case") only_case=strtoull(av[++i],0,10); }
  unsigned char* m=(unsigned char*)mmap(0,PAGES+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); page=m+4096; memset(m,0x77,PAGES+8192); mprotect(m,4096,PROT_READ); mprotect(m+4096+PAGES,4096,PROT_READ);
  static char alt[1<<16]; stack_t ss={}; ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_sig; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; for(int s: {SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGABRT,SIGTRAP}) sigaction(s,&sa,0); sa.sa_flags|=SA_RESTART; sigaction(SIGALRM,&sa,0); alarm(5);
  run(); done(); return nviol?1:0; }
