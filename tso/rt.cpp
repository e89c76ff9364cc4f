#include "tso.h"
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
namespace tso {
unsigned char* const shared=(unsigned char*)0x230000000000ull;
static const unsigned long PG=4096; static const size_t STK=1<<14, FPMAX=4096;
static unsigned char* stk[MAXT];                     // private stacks; the results live at the top
static std::vector<Prog> progs;
void add(Prog const& p){ progs.push_back(p); }
char* fmt(const char* f, ...){ va_list ap; va_start(ap,f); char* s; if(vasprintf(&s,f,ap)<0) abort(); va_end(ap); return s; }

// ---------------------------------------------------------------- local states of threads
enum Kind : unsigned char { ACC, LOCKED, DONE };    // what the next instruction does: plain access to shared memory, locked instruction or fence, nothing more
struct Local { int t; Kind kind; unsigned char ext; bool wr, half; unsigned haddr, hn; unsigned char lo[16]; gregset_t g; std::string fp, st; };   // a plain access that the processor may split: hn = number of bytes read first; ext: 16 byte access
static std::vector<Local> locals; static std::unordered_multimap<uint64_t,int> lindex;
static uint64_t hash(const void* p,size_t n,uint64_t h){ const unsigned char* c=(const unsigned char*)p; for(size_t i=0;i<n;i++){ h^=c[i]; h*=0x100000001b3ull; h^=h>>31; } return h; }
static const int GR[]={REG_R8,REG_R9,REG_R10,REG_R11,REG_R12,REG_R13,REG_R14,REG_R15,REG_RDI,REG_RSI,REG_RBP,REG_RBX,REG_RDX,REG_RAX,REG_RCX,REG_RSP,REG_RIP};
static bool same(Local const& a,Local const& b){ if(a.t!=b.t||a.kind!=b.kind||a.half!=b.half||a.haddr!=b.haddr||a.hn!=b.hn||memcmp(a.lo,b.lo,16)||a.st!=b.st) return false; for(int r: GR) if(a.g[r]!=b.g[r]) return false; if((a.g[REG_EFL]^b.g[REG_EFL])&0xcd5) return false; return a.fp.compare(160,256,b.fp,160,256)==0; }
static int intern(Local const& l){ uint64_t h=hash(l.st.data(),l.st.size(),l.t*7+l.kind*3+l.half); for(int r: GR) h=hash(&l.g[r],8,h); auto e=lindex.equal_range(h); for(auto i=e.first;i!=e.second;++i) if(same(locals[i->second],l)) return i->second; locals.push_back(l); lindex.emplace(h,(int)locals.size()-1); return locals.size()-1; }

// ---------------------------------------------------------------- execution of machine code
static gregset_t mainG; static unsigned char mainFP[FPMAX]; static size_t fpn;
static enum { IDLE, START, EXEC1, FREE } mode; static Local run; static unsigned char view[MEMSZ]; static bool opened; static std::string failure; static long steps_;
extern "C" char tso_done[]; 
asm(".text\n.globl tso_entry\ntso_entry:\n  callq *%rax\n.globl tso_done\ntso_done:\n  int3\n  ud2\n");
extern "C" void tso_entry();
struct Insn { bool lock, fence, xchgmem, sse16; };
static Insn decode(const unsigned char* p){ Insn r={false,false,false,false}; bool p66=false,pf3=false,pf2=false; for(;;){ if(*p==0xf0) r.lock=true; else if(*p==0x66) p66=true; else if(*p==0xf3) pf3=true; else if(*p==0xf2) pf2=true; else if(*p==0x2e||*p==0x36||*p==0x3e||*p==0x26||*p==0x64||*p==0x65||*p==0x67) ; else break; p++; }
  if((*p&0xf0)==0x40) p++;
  if((*p==0x86||*p==0x87) && (p[1]&0xc0)!=0xc0) r.xchgmem=true;
  if(*p==0x0f){ if(p[1]==0xae && p[2]==0xf0) r.fence=true; if(p[1]==0xa2) r.fence=true;
    unsigned char o=p[1]; if(!pf3&&!pf2&&(o==0x10||o==0x11||o==0x28||o==0x29)) r.sse16=true; if((o==0x6f||o==0x7f)&&(p66||pf3)) r.sse16=true; if(o==0xf0&&pf2) r.sse16=true; if((o==0xe7)&&p66) r.sse16=true; if(o==0x2b) r.sse16=true; }
  return r; }
static void open_page(){ mprotect(shared,PG,PROT_READ|PROT_WRITE); opened=true; memcpy(shared,view,MEMSZ); }
static void close_page(){ memcpy(view,shared,MEMSZ); mprotect(shared,PG,PROT_NONE); opened=false; }
static void stop(ucontext_t* u,Kind k){ run.kind=k; memcpy(run.g,u->uc_mcontext.gregs,sizeof run.g); run.fp.assign((char*)u->uc_mcontext.fpregs,fpn); unsigned char* top=stk[run.t]+STK; unsigned char* sp=(unsigned char*)run.g[REG_RSP]-128; if(sp<stk[run.t]||sp>top){ failure="stack pointer out of range"; sp=top; } run.st.assign((char*)sp,top-sp);
  memcpy(u->uc_mcontext.gregs,mainG,sizeof mainG); memcpy(u->uc_mcontext.fpregs,mainFP,fpn); u->uc_mcontext.gregs[REG_EFL]&=~0x100ll; mode=IDLE; }
static void handler(int sig,siginfo_t* si,void* uc){ ucontext_t* u=(ucontext_t*)uc; greg_t* g=u->uc_mcontext.gregs;
  if(mode==IDLE){ if(sig!=SIGTRAP){ signal(sig,SIG_DFL); return; }
    unsigned* sw=(unsigned*)((char*)u->uc_mcontext.fpregs+464); fpn=sw[0]==0x46505853u?sw[4]:512; if(fpn>FPMAX) fpn=FPMAX;
    memcpy(mainG,g,sizeof mainG); memcpy(mainFP,u->uc_mcontext.fpregs,fpn);
    greg_t csgsfs=g[REG_CSGSFS]; memcpy(g,run.g,sizeof run.g); g[REG_CSGSFS]=csgsfs; if(run.fp.size()==fpn) memcpy(u->uc_mcontext.fpregs,run.fp.data(),fpn);
    mode = run.kind==DONE ? START : EXEC1; if(mode==START) mode=FREE; else open_page();
    g[REG_EFL]|=0x100; return; }
  if(sig==SIGTRAP && mode==EXEC1){ close_page(); mode=FREE; }
  if(sig==SIGTRAP && mode==FREE){ if((char*)g[REG_RIP]==tso_done){ stop(u,DONE); return; }
    if(++steps_>200000){ failure="a thread runs on without touching shared memory"; stop(u,DONE); return; }
    Insn i=decode((unsigned char*)g[REG_RIP]); if(i.lock||i.fence||i.xchgmem){ run.ext=0; run.hn=run.haddr=0; run.wr=true; stop(u,LOCKED); return; } g[REG_EFL]|=0x100; return; }
  if(sig==SIGSEGV && mode==FREE && (unsigned char*)si->si_addr>=shared && (unsigned char*)si->si_addr<shared+PG){
    if((unsigned char*)si->si_addr>=shared+MEMSZ){ failure="access outside the objects"; stop(u,DONE); return; }
    Insn i=decode((unsigned char*)g[REG_RIP]); run.wr=(g[REG_ERR]&2)!=0; run.ext=i.sse16; unsigned ad=(unsigned)((unsigned char*)si->si_addr-shared), dist=64-(ad&63); run.hn=i.sse16?(dist<8?dist:8):dist<16?dist:0; run.haddr=run.hn?ad:0; stop(u,ACC); return; }
  char b[120]; snprintf(b,sizeof b,"signal %d at address %p (code %p)",sig,si->si_addr,(void*)g[REG_RIP]); failure=b; if(opened) close_page(); stop(u,DONE); }
// executes the pending instruction of local state id on the view and continues to the next visible instruction
static int execute(int id,unsigned char* v){ run=locals[id]; memcpy(view,v,MEMSZ); unsigned char* top=stk[run.t]+STK; memcpy(top-run.st.size(),run.st.data(),run.st.size()); run.half=false; memset(run.lo,0,16); steps_=0; run.haddr=run.hn=0;
  asm volatile("int3":::"memory"); memcpy(v,view,MEMSZ); return intern(run); }
static int start_local(int t,body_fn f){ run=Local(); run.t=t; run.kind=DONE; run.ext=0; run.wr=run.half=false; run.haddr=run.hn=0; memset(run.lo,0,16); memset(run.g,0,sizeof run.g); unsigned char* top=stk[t]+STK; memset(stk[t],0,STK); Res* out=(Res*)(top-((sizeof(Res)*MAXOPS+63)&~63ul)); for(int i=0;i<MAXOPS;i++) out[i].b=-1;
  run.g[REG_RSP]=(greg_t)((unsigned char*)out-64); run.g[REG_RIP]=(greg_t)&tso_entry; run.g[REG_RAX]=(greg_t)f; run.g[REG_RDI]=(greg_t)out; run.g[REG_EFL]=0x202; steps_=0; asm volatile("int3":::"memory"); return intern(run); }
static void results(int id,Res* r){ Local& l=locals[id]; size_t o=(sizeof(Res)*MAXOPS+63)&~63ul; memcpy(r,l.st.data()+l.st.size()-o,sizeof(Res)*MAXOPS); }

// ---------------------------------------------------------------- TSO state space
struct Ent { unsigned char off, n; unsigned char b[16]; bool operator==(Ent const& o) const { return off==o.off&&n==o.n&&!memcmp(b,o.b,n); } };
struct State { unsigned char mem[MEMSZ]; int loc[MAXT]; std::vector<Ent> buf[MAXT]; };
static std::string key(State const& s,int nt){ std::string k((const char*)s.mem,MEMSZ); for(int t=0;t<nt;t++){ k.append((const char*)&s.loc[t],sizeof(int)); k.push_back((char)s.buf[t].size()); for(auto& e: s.buf[t]) { k.push_back(e.off); k.push_back(e.n); k.append((const char*)e.b,e.n); } } return k; }
struct Trans { int next; std::vector<Ent> w; bool fail; };
static std::map<std::pair<int,std::string>,Trans> memo;
static Prog const* curp;
static Trans const& trans(int id,const unsigned char* v){ std::pair<int,std::string> k(id,std::string((const char*)v,MEMSZ)); auto it=memo.find(k); if(it!=memo.end()) return it->second;
  Trans t; t.fail=false; unsigned char a[MEMSZ]; memcpy(a,v,MEMSZ);
  if(locals[id].kind==ACC && locals[id].hn && !locals[id].wr && !locals[id].half){ Local h=locals[id]; h.half=true; memcpy(h.lo,v+h.haddr,h.hn); t.next=intern(h); return memo[k]=t; }   // first part of a load that is split
  if(locals[id].half) memcpy(a+locals[id].haddr,locals[id].lo,locals[id].hn);
  unsigned char before[MEMSZ]; memcpy(before,a,MEMSZ); bool ext=locals[id].ext; bool wr=locals[id].wr, locked=locals[id].kind==LOCKED; int nx=execute(id,a); t.next=nx; 
  bool mark[MEMSZ]; bool any=false; for(int i=0;i<MEMSZ;i++){ mark[i]=a[i]!=before[i]; any=any||mark[i]; }
  if(wr && !locked){ // a store may rewrite equal bytes: find the bytes it writes by running it on the complement as well
    unsigned char c[MEMSZ]; for(int i=0;i<MEMSZ;i++) c[i]=~before[i]; execute(id,c); for(int i=0;i<MEMSZ;i++) if(c[i]==a[i] && c[i]!=(unsigned char)~before[i]) mark[i]=true; }
  for(int i=0;i<MEMSZ;){ if(!mark[i]){ i++; continue; } int n=1; int lim=ext?8-(i&7):16; while(i+n<MEMSZ && mark[i+n] && n<lim && (i/CELLSZ)==((i+n)/CELLSZ)) n++; Ent e; e.off=i; e.n=n; memcpy(e.b,a+i,n); t.w.push_back(e); i+=n; }
  if(curp->osize) for(auto& e: t.w) for(int i=0;i<e.n;i++){ bool in=false; for(int o=0;o<curp->nobj;o++) if(e.off+i>=curp->oaddr[o]&&e.off+i<curp->oaddr[o]+curp->osize) in=true; if(!in) failure="a byte outside of the object is written"; }
  return memo[k]=t; }
struct Stats { unsigned long long states, trans, progs, outcomes, sc_outcomes; } S;
static std::vector<std::string> msgs, reps, samples; static std::string outd="/tmp", prop="X", json; static int only=-1;
static std::string rstr(Prog const& p,std::string const& k){ std::string s; const Res* r=(const Res*)k.data(); char b[200]; int q=0; for(int t=0;t<p.nt;t++){ snprintf(b,sizeof b," T%d:",t); s+=b; for(int i=0;i<p.n[t];i++,q++){ snprintf(b,sizeof b,"[v=%llx e=%llx b=%d]",(unsigned long long)r[q].v,(unsigned long long)r[q].e,r[q].b); s+=b; } } for(int o=0;o<p.nobj;o++){ u128 v; memcpy(&v,k.data()+q*sizeof(Res)+o*16,16); snprintf(b,sizeof b," x%d=%llx",o,(unsigned long long)v); s+=b; } return s; }
static Res canon(Res r,int op){ Res c; memset(&c,0,sizeof c); c.v=r.v; c.e=r.e; c.b=r.b; (void)op; return c; }
static void sc(Prog const& p,std::set<std::string>& o){ // all outcomes of sequential interleavings
  struct N { u128 s[3]; int pc[MAXT]; Res r[MAXT][MAXOPS]; }; std::vector<N> st; std::set<std::string> seen; N n0; memset((void*)&n0,0,sizeof n0); for(int i=0;i<3;i++) n0.s[i]=p.init_v[i]; st.push_back(n0);
  while(!st.empty()){ N n=st.back(); st.pop_back(); if(!seen.insert(std::string((char*)&n,sizeof n)).second) continue; bool end=true;
    for(int t=0;t<p.nt;t++) if(n.pc[t]<p.n[t]){ end=false; ROp const& op=p.ops[t][n.pc[t]]; for(int wf=0;wf<2;wf++){ N m=n; Res r; memset(&r,0,sizeof r); r.b=-1; if(op.op==FENCE_){ if(wf) continue; } else if(!p.apply(&m.s[op.obj],op,&r,wf)) continue; m.r[t][m.pc[t]]=canon(r,op.op); m.pc[t]++; st.push_back(m); } }
    if(end){ std::string k; for(int t=0;t<p.nt;t++) for(int i=0;i<p.n[t];i++) k.append((char*)&n.r[t][i],sizeof(Res)); for(int i=0;i<p.nobj;i++) k.append((char*)&n.s[i],16); o.insert(k); } } }
static void violation(int idx,Prog const& p,std::string const& m,std::vector<std::string> const& path){ char f[400]; snprintf(f,sizeof f,"%s/%s-%d.replay",outd.c_str(),prop.c_str(),idx); if(FILE* fp=fopen(f,"w")){ fprintf(fp,"config %s\nprogram %d %s\n%s\n",CFG,idx,p.name,m.c_str()); for(auto& s: path) fprintf(fp,"  %s\n",s.c_str()); fclose(fp); }
  msgs.push_back(std::string(p.name)+": "+m); reps.push_back(f); printf("TSO-VIOLATION %s: %s\n  replay=%s\n",p.name,m.c_str(),f); }
static void explore(int idx,Prog const& p){
  curp=&p;   locals.clear(); lindex.clear(); memo.clear(); failure.clear();
  mprotect(shared,PG,PROT_READ|PROT_WRITE); memset(shared,0,MEMSZ); p.init(); State s0; memcpy(s0.mem,shared,MEMSZ); mprotect(shared,PG,PROT_NONE);
  for(int t=0;t<p.nt;t++) s0.loc[t]=start_local(t,p.body[t]);
  std::set<std::string> legal; if(!p.accept) sc(p,legal); S.sc_outcomes+=legal.size();
  struct Fr { State s; int next; std::string how; }; std::vector<Fr> st; std::unordered_set<std::string> seen; std::set<std::string> outs; unsigned long long tr=0; bool fin=false;
  st.push_back(Fr{s0,0,"start"}); seen.insert(key(s0,p.nt));
  auto path=[&]{ std::vector<std::string> v; for(auto& f: st) v.push_back(f.how); return v; };
  while(!st.empty()){ Fr& f=st.back(); State const& s=f.s; bool done=true; for(int t=0;t<p.nt;t++) if(locals[s.loc[t]].kind!=DONE||!s.buf[t].empty()) done=false;
    if(!failure.empty()){ violation(idx,p,"the code under test fails: "+failure,path()); return; }
    if(done && f.next==0){ fin=true; std::string k; Res out[MAXT][MAXOPS]; for(int t=0;t<p.nt;t++){ results(s.loc[t],out[t]); for(int i=0;i<p.n[t];i++){ Res c=canon(out[t][i],p.ops[t][i].op); k.append((char*)&c,sizeof c); } }
      mprotect(shared,PG,PROT_READ|PROT_WRITE); memcpy(shared,s.mem,MEMSZ); for(int o=0;o<p.nobj;o++){ u128 v=p.final_v(o); k.append((char*)&v,16); } mprotect(shared,PG,PROT_NONE);
      if(outs.insert(k).second){ bool ok=p.accept?p.accept(out,s.mem):legal.count(k)!=0; if(!ok){ violation(idx,p,(p.accept?"forbidden outcome:":"outcome that no total order of the operations explains:")+rstr(p,k),path()); return; } } }
    int nch=p.nt*2; if(f.next>=nch){ st.pop_back(); continue; } int c=f.next++; int t=c>>1; char b[160];
    State n=s; if(c&1){ if(n.buf[t].empty()) continue; Ent e=n.buf[t][0]; memcpy(n.mem+e.off,e.b,e.n); n.buf[t].erase(n.buf[t].begin()); snprintf(b,sizeof b,"T%d store buffer drains %d bytes to x%d+%d",t,e.n,e.off/CELLSZ,e.off%CELLSZ); }
    else { Kind k=locals[n.loc[t]].kind; if(k==DONE) continue; if(k==LOCKED && !n.buf[t].empty()) continue;
      unsigned char v[MEMSZ]; memcpy(v,n.mem,MEMSZ); for(auto& e: n.buf[t]) memcpy(v+e.off,e.b,e.n);
      unsigned long rip=locals[n.loc[t]].g[REG_RIP]; Trans const& x=trans(n.loc[t],v); n.loc[t]=x.next; for(auto& e: x.w){ if(k==LOCKED) memcpy(n.mem+e.off,e.b,e.n); else n.buf[t].push_back(e); }
      snprintf(b,sizeof b,"T%d %s at %lx%s",t,k==LOCKED?"locked instruction / fence":"plain access",rip,x.w.empty()?" (load)":" (store)"); if(n.buf[t].size()>12){ failure="unbounded stores"; } }
    tr++; if(seen.insert(key(n,p.nt)).second) st.push_back(Fr{n,0,b}); if(seen.size()>400000){ violation(idx,p,"state space of the program does not end",std::vector<std::string>()); return; } }
  if(!fin){ violation(idx,p,"no execution ends",std::vector<std::string>()); return; }
  S.states+=seen.size(); S.trans+=tr; S.progs++; S.outcomes+=outs.size(); if(samples.size()<10 && (idx%37)==0){ char b[300]; snprintf(b,sizeof b,"%s: %zu states, %llu transitions, %zu outcomes (%zu sequential)",p.name,seen.size(),tr,outs.size(),legal.size()); samples.push_back(b); } }
static std::string esc(std::string const& s){ std::string r; for(char c: s){ if(c=='"'||c=='\\') r+='\\'; if((unsigned char)c<32) c=' '; r+=c; } return r; }
static void done(double secs){ if(!json.empty()){ if(FILE* f=fopen(json.c_str(),"w")){ fprintf(f,"{\"states\":%llu,\"transitions\":%llu,\"distinct\":%llu,\"programs\":%llu,\"samples\":[",S.states,S.trans,S.outcomes,S.progs); for(size_t i=0;i<samples.size();i++) fprintf(f,"%s\"%s\"",i?",":"",esc(samples[i]).c_str()); fprintf(f,"],\"violations\":["); for(size_t i=0;i<msgs.size();i++) fprintf(f,"%s{\"msg\":\"%s\",\"replay\":\"%s\",\"scenario\":\"%s\"}",i?",":"",esc(msgs[i]).c_str(),reps[i].c_str(),CFG); fprintf(f,"]}\n"); fclose(f); } }
  printf("TSO %s programs=%llu states=%llu transitions=%llu outcomes=%llu sequential=%llu violations=%zu wall=%.1fs\n",CFG,S.progs,S.states,S.trans,S.outcomes,S.sc_outcomes,msgs.size(),secs); }
}
namespace mc { void fail(const char* f,...){ fprintf(stderr,"bad operation %s\n",f); _exit(3); } }
int main(int ac,char** av){ using namespace tso; bool all=false; const char* filter=0; for(int i=1;i<ac;i++){ std::string a=av[i]; if(a=="--all") all=true; else if(i+1<ac&&a=="--json") json=av[++i]; else if(i+1<ac&&a=="--out") outd=av[++i]; else if(i+1<ac&&a=="--prop") prop=av[++i]; else if(i+1<ac&&a=="--program") only=atoi(av[++i]); else if(i+1<ac&&a=="--filter") filter=av[++i]; }
  if(mmap(shared,PG,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE,-1,0)!=shared) return 3; for(int t=0;t<MAXT;t++) stk[t]=(unsigned char*)mmap((void*)(0x238000000000ull+t*0x100000ull),STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE,-1,0);
  static char alt[1<<17]; stack_t ss={}; ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,0); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=handler; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; for(int s: {SIGTRAP,SIGSEGV,SIGBUS,SIGILL,SIGFPE}) sigaction(s,&sa,0);
  reg(); timespec a,b; clock_gettime(CLOCK_MONOTONIC,&a); for(size_t i=0;i<progs.size();i++){ if(only>=0&&(int)i!=only) continue; if(filter&&!strstr(progs[i].name,filter)) continue; explore(i,progs[i]); if(msgs.size()>=3&&!all) break; } clock_gettime(CLOCK_MONOTONIC,&b);
  done((b.tv_sec-a.tv_sec)+(b.tv_nsec-a.tv_nsec)*1e-9); return msgs.empty()?0:1; }
