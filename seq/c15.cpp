// C15, direct: every CPU-specific lookup variant against a plain linear search, over all list lengths and key positions of the bound,
// with near-miss elements (equal low half, equal high half, swapped halves), duplicates and arbitrary words behind the list.
#if !defined(ABSENT)
#include <cstddef>
#include <cstdint>
#include <find_address.hpp>
#endif
#include "seq.h"
#if !defined(ABSENT)
using namespace sq;
typedef std::size_t fn_t(const volatile void*, const volatile void* const*, std::size_t);
static fn_t* const vars[]={&boost::atomics::detail::find_address_generic,&boost::atomics::detail::find_address_sse2,&boost::atomics::detail::find_address_sse41};
static const char* const names[]={"generic","SSE2","SSE4.1"};
enum { MAXN = DEEP ? 100 : 68 };
alignas(64) static const volatile void* list[MAXN+8];
static const volatile void* P(uint64_t v){ return reinterpret_cast<const volatile void*>((uintptr_t)v); }
static void one(uint64_t key,int n,int p,int q,int kind,int past){
  size_t ref=n; for(int i=0;i<n;i++) if(list[i]==P(key)){ ref=i; break; }
  for(int v=0;v<3;v++){ cases=cases+1; if(only_case&&cases!=only_case) continue; cur.flav="lookup"; cur.type=names[v]; cur.op="find"; cur.a=key; cur.s=n; cur.d=p; cur.what="";
    size_t r=vars[v](P(key),list,n); bool ok= ref<(size_t)n ? r==ref : r>=(size_t)n;
    SQ_CHECK(ok,"list of %d elements, key at %d, near miss of kind %d at %d, past-the-end kind %d: found at %zu, expected %zu",n,p,kind,q,past,r,ref); }
  note(mix(mix(ref,n),kind)); }
void sq::run(){
  const uint64_t keys[]={0x00007f1234567890ull,0x0000000012345678ull,0x00007fff00000000ull,0xffffffffffffffffull,0x8000000080000000ull,0x0000000100000001ull,0x7fffffff00000010ull};
  for(uint64_t key: keys){ uint64_t lo=key&0xffffffffu, hi=key>>32;
    auto near_=[&](int kind,int i)->uint64_t{ uint64_t o=0x1000+64*(uint64_t)i; switch(kind){ case 0: return 0x0000555500000000ull+o+(key==0x0000555500000000ull+o?1:0); case 1: return (((hi+1+i)&0xffffffffu)<<32)|lo; case 2: return (hi<<32)|((lo+1+i)&0xffffffffu); case 3: return hi==lo?~key:(lo<<32)|hi; case 4: return 0; case 5: return key^(1ull<<(i%64)); default: return key; } };
    for(int n=0;n<=MAXN;n++) for(int bg=0;bg<6;bg++) for(int past=0;past<3;past++){
      if(past&&bg>1) continue;
      auto fill=[&]{ for(int i=0;i<n;i++) list[i]=P(near_(bg,i)); for(int i=n;i<MAXN+8;i++) list[i]=P(past==0?0:past==1?key:near_(1+(i&1),i)); };
      fill(); states++; one(key,n,-1,-1,bg,past);
      for(int p=0;p<n;p++){ const volatile void* s=list[p]; list[p]=P(key); one(key,n,p,-1,bg,past);
        if(bg==0||(DEEP&&past==0)) for(int q=0;q<n;q++) if(q!=p) for(int kind: {1,2,3,5,9}){ if(!DEEP&&(q<p-17||q>p+17)&&q%8!=0) continue; const volatile void* s2=list[q]; list[q]=P(near_(kind,q)); one(key,n,p,q,kind,past); list[q]=s2; }
        list[p]=s; }
      // absent, but a near miss in every pair of places: equal low half in one, equal high half in the neighbour
      if(bg==0) for(int q=0;q<n;q++) for(int dq=1;dq<=(DEEP?40:9)&&q+dq<n;dq++) for(int sw=0;sw<2;sw++){ const volatile void *a=list[q],*b=list[q+dq]; list[q]=P(near_(1+sw,q)); list[q+dq]=P(near_(2-sw,q)); one(key,n,-1,q,10+dq*2+sw,past); list[q]=a; list[q+dq]=b; }
    }
    sample("key %#llx: lists of 0..%d elements",(unsigned long long)key,(int)MAXN); }
}
#else
void sq::run(){ sq::sample("the internal lookup interface is not available under its known name; decided through the public interface only"); }
#endif
