// Operation matrices for linearizability programs.
#pragma once
#include "lin.h"
using namespace vf;
static const int GEN[]={LOAD,STORE,XCHG,CAS_S,CAS_W,CAS_S2,CAS_W2,CONV,ASSIGN};
static const int FP[]={FADD,FSUB,ADD,SUB,OADD,OSUB,OPADD,OPSUB};
static const int PT[]={FADD,FSUB,ADD,SUB,OADD,OSUB,OPADD,OPSUB,ADDT,SUBT,PREINC,POSTINC,PREDEC,POSTDEC};
static int mos[]={0,1,2,3,4,5};
static mc::Opts tri(){ mc::Opts o; o.max_execs=2000; return o; }
static POp mkop(int op,int side){ POp o={op,0,0,0}; if(is_cas(op)){ o.a=side==1?5:6; o.d=side==1?9:10; } else if(op==STORE||op==XCHG||op==ASSIGN) o.a=side==1?6:5; else if(op==BTS||op==BTR||op==BTC) o.a=side; else o.a=side==1?1:2; return o; }
