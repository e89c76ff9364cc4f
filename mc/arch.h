// Selects the inline assembly backend (core_arch_ops_gcc_x86.hpp) for all operand sizes.
#undef __GCC_ATOMIC_BOOL_LOCK_FREE
#undef __GCC_ATOMIC_CHAR_LOCK_FREE
#undef __GCC_ATOMIC_SHORT_LOCK_FREE
#undef __GCC_ATOMIC_INT_LOCK_FREE
#undef __GCC_ATOMIC_LONG_LOCK_FREE
#undef __GCC_ATOMIC_LLONG_LOCK_FREE
