// Selects the __sync_* intrinsics backend (core_ops_gcc_sync.hpp): the platform is made to look like one without an
// architecture specific backend while the library chooses, and only then.
#include <sys/syscall.h>
#include <unistd.h>
#include <features.h>
#include <cstddef>
#include <cstdint>
#include <climits>
#include <linux/futex.h>
#include <boost/config.hpp>
#include <boost/predef/architecture/arm.h>
#undef __GCC_ATOMIC_BOOL_LOCK_FREE
#undef __GCC_ATOMIC_CHAR_LOCK_FREE
#undef __GCC_ATOMIC_SHORT_LOCK_FREE
#undef __GCC_ATOMIC_INT_LOCK_FREE
#undef __GCC_ATOMIC_LONG_LOCK_FREE
#undef __GCC_ATOMIC_LLONG_LOCK_FREE
#undef __x86_64__
#include <boost/atomic/detail/config.hpp>
#include <boost/atomic/detail/platform.hpp>
#define __x86_64__ 1
