// Caller-provided clocks over the virtual time of the checker.
#pragma once
#include "scn.h"
#include <ratio>
typedef std::chrono::steady_clock SC; typedef std::chrono::system_clock RC;
enum { CELL_OFF=0, CELL_MAXNOW=1, CELL_MAXSET=2, CELL_STORE=3 };
// floor division
static inline int64_t fdiv(int64_t a,int64_t b){ int64_t q=a/b; return (a%b<0)?q-1:q; }
// a clock without any declared mapping; its epoch offset can be changed by the harness (it jumps); ticks of Period
template<class Period> struct JClk { typedef int64_t rep; typedef Period period; typedef std::chrono::duration<rep,period> duration; typedef std::chrono::time_point<JClk> time_point; static constexpr bool is_steady=false;
  static int64_t ns(){ return mc::now(CLOCK_MONOTONIC)+mc::get(CELL_OFF); }
  static time_point now() noexcept { __int128 n=ns(); typedef std::ratio_divide<std::nano,Period> R; /* ns -> ticks, rounded down */ int64_t t=fdiv((int64_t)n*R::num,R::den); if(!mc::get(CELL_MAXSET)||t>mc::get(CELL_MAXNOW)){ mc::set(CELL_MAXSET,1); mc::set(CELL_MAXNOW,t); } return time_point(duration(t)); } };
// clocks with a declared mapping to a POSIX clock; their epoch is 7 s later than the POSIX clock's
template<clockid_t ID> struct PClk { typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<PClk> time_point; static constexpr bool is_steady=false;
  static time_point now() noexcept { return time_point(duration(mc::now(ID)-7000000000ll)); } };
namespace boost { namespace atomics { template<clockid_t ID> struct posix_clock_traits<PClk<ID>> { static constexpr clockid_t clock_id=ID;
  static timespec to_timespec(typename PClk<ID>::time_point t) noexcept { timespec ts; __int128 n=(__int128)t.time_since_epoch().count()+7000000000ll; int64_t s=(int64_t)(n/1000000000); int64_t r=(int64_t)(n%1000000000); if(r<0){ r+=1000000000; s--; } ts.tv_sec=s; ts.tv_nsec=r; return ts; } }; } }
