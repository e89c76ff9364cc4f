#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the text stays reviewable).
import json,os
D="include/boost/atomic/detail/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
        why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        observe_at=observe or [],hook_needed=None)))

p("C01","Lock-free operations are indivisible and linearizable",
 "For every atomic type the library reports as lock-free (every operand size from 1 to 16 bytes, plain, referencing and inter-process flavours), concurrent operations on one object take effect one at a time: every execution's results and final value equal those of some sequential order that respects real-time order. No increment, bit operation, exchange or arithmetic update is lost, no load observes a mixture of two stores, and nobody observes an intermediate state.",
 ["schedules","inputs","configurations"],
 "all interleavings of the memory accesses the compiled code really makes (with x86-TSO store buffering), for every pair of operations and chosen triples, on 1/2/4/8/16-byte integers, pointers, floating point, enums and structs, both compilers, every code generation backend that can run here",
 "tests hammer a few operations for a fixed time on whatever interleavings the machine happens to produce; a lost update between two instructions or a torn 16-byte access needs a schedule they practically never hit, and several backends are never instantiated by them",
 [D+"core_ops_gcc_atomic.hpp",D+"core_arch_ops_gcc_x86.hpp",D+"core_ops_gcc_sync.hpp",D+"core_ops_cas_based.hpp",D+"cas_based_exchange.hpp",D+"extra_ops_gcc_x86.hpp",D+"extra_ops_generic.hpp",D+"extra_fp_ops_generic.hpp",D+"fp_ops_generic.hpp",D+"extending_cas_based_arithmetic.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp"],
 [("lock-prefixed instructions / __atomic intrinsics",D+"core_ops_gcc_atomic.hpp"),("cmpxchg loops",D+"extra_ops_gcc_x86.hpp"),("cmpxchg16b / aligned vector moves for 16 bytes",D+"core_arch_ops_gcc_x86.hpp")],
 observe=["return values","final object value"])
p("C02","Lock-based (emulated) operations are linearizable",
 "Operations on atomic objects that are not lock-free, whatever their type, size and alignment and whether accessed through an atomic object or atomic references, are linearizable: under every interleaving each operation appears to happen at one instant and no reader sees a partly written value. This holds also when unrelated objects share an internal lock and when the object is accessed through differently constructed references.",
 ["schedules","inputs","configurations"],
 "all interleavings of 2-3 threads with 1-3 operations each over all operation pairs, large/odd-sized/over-aligned types and forced fallback for small ones, futex-based and pthread-based lock pools, pools of 1 to 256 locks",
 "tests use free-running threads and one pool size; an access outside the critical section or a lock chosen differently by two code paths shows up only under specific interleavings",
 [D+"core_operations_emulated.hpp",D+"extra_ops_emulated.hpp",D+"fp_ops_emulated.hpp",D+"extra_fp_ops_emulated.hpp",D+"lock_pool.hpp","src/lock_pool.cpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp"],
 [("scoped_lock / short_lock held over the whole access",D+"lock_pool.hpp"),("address hash selects the lock","src/lock_pool.cpp")],
 [("lock pool","array of locks selected by hashed address","src/lock_pool.cpp")],["return values","final object value","data races on the storage"])
p("C03","Integer operations compute exact wrap-around results",
 "Every integer, enum and bool operation (add, sub, negate, and/or/xor/complement, their fetching, new-value-returning, opaque and and-test forms, increments, compound assignment and bit tests) returns and stores exactly what two's complement modular arithmetic prescribes for every operand and bit number, for signed and unsigned types of every width, with compile-time and run-time operands and every legal memory order. The result is the same on the plain, referencing, inter-process and lock-based flavours.",
 ["inputs","configurations"],
 "all 2^16 value pairs of 8-bit types, all boundary-alphabet pairs of wider types (all 2^32 pairs of 16-bit ones in the thorough tier for the main operations), all bit numbers, all memory orders, all flavours, both compilers and all backends",
 "tests check a handful of operand values per operation, mostly positive and small; wrong flags, sign extension, narrow immediates or constant-folded special cases show only for particular operands",
 [D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"extra_ops_gcc_x86.hpp",D+"extra_ops_generic.hpp",D+"extra_ops_emulated.hpp",D+"core_ops_gcc_atomic.hpp",D+"integral_conversions.hpp",D+"core_operations_emulated.hpp"],
 [("unsigned storage arithmetic + integral_truncate",D+"integral_conversions.hpp"),("flag outputs of locked instructions",D+"extra_ops_gcc_x86.hpp")],observe=["return values","stored bytes"])
p("C04","Floating point operations behave like the plain FP operation",
 "Atomic floating point add, sub, negate and their fetching and opaque forms store exactly the value the corresponding non-atomic floating point expression yields and return the old or new value as documented, for every operand including signed zeros, infinities, NaNs and denormals, for float, double and long double, lock-free or not. Padding bits of the type never influence a comparison, a compare-exchange or a wait.",
 ["inputs","schedules","configurations"],
 "all pairs over an alphabet of every FP class and rounding boundary, garbage in padding bytes, every flavour; concurrent updates over all interleavings",
 "tests use small exact integers as operands and clean padding",
 [D+"fp_ops_generic.hpp",D+"extra_fp_ops_generic.hpp",D+"fp_ops_emulated.hpp",D+"extra_fp_ops_emulated.hpp",D+"bitwise_fp_cast.hpp",D+"float_sizes.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp"],
 [("CAS loop over bit representation",D+"fp_ops_generic.hpp"),("tail padding cleared",D+"bitwise_fp_cast.hpp")],observe=["return values","stored representation"])
p("C05","Pointer operations step by whole elements in both directions",
 "Pointer fetch_add, fetch_sub, add, sub, increments, compound assignments and the and-test forms move the pointer by the given (possibly negative) number of elements, and return the old or new pointer or the null test as documented. The outcome equals plain pointer arithmetic for every element size and distance on every flavour.",
 ["inputs","configurations"],
 "all element sizes from a 1..4096 alphabet, all distances in a boundary alphabet in both directions, all flavours (plain, reference, ipc, lock-based), both compilers",
 "tests use a few small distances on two element types",
 [D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"extra_operations.hpp"],
 [("difference scaled by sizeof(element)",D+"atomic_impl.hpp")],observe=["return values","stored pointer"])
p("C06","compare_exchange succeeds exactly on equal value representation",
 "A strong compare-exchange succeeds if and only if the object's current value representation equals the expected one; on success exactly the desired value is stored, on failure the object is unchanged and the expected argument receives the current value. Weak compare-exchange may in addition fail without a change; object representation bits that are padding, and the storage beyond the value, never make equal values compare different, whatever operation or constructor put the value there.",
 ["inputs","histories","schedules","configurations"],
 "all operation histories up to a bounded depth over a small value alphabet with adversarial padding, for integers, enums, bool, floats, pointers, structs of every size 1..24 and beyond, all flavours; concurrent compare-exchange over all interleavings including spurious weak failures",
 "tests run a few compare-exchange calls on freshly stored values; padding contamination depends on which operation wrote last and on stack garbage",
 [D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"bitwise_cast.hpp",D+"storage_traits.hpp",D+"core_ops_gcc_atomic.hpp",D+"core_arch_ops_gcc_x86.hpp",D+"core_operations_emulated.hpp"],
 [("padding cleared on the way into storage",D+"bitwise_cast.hpp")],observe=["return value","expected argument","object value"])
p("C07","seq_cst operations and fences form one total order",
 "All sequentially consistent operations of a program, on lock-free objects of any size and flavour, appear in one total order consistent with program order; in particular two threads that each store (or read-modify-write) and then load the other's object cannot both miss the other's write. A sequentially consistent fence between weaker store and load gives the same guarantee.",
 ["schedules","programs","configurations"],
 "every litmus program of the store-buffering, IRIW, R, S, 2+2W, and write-to-read-causality shapes over every pair of writing and reading operations and object sizes, over all x86-TSO executions of the compiled instructions, both compilers",
 "tests run one ordering test on one size, hoping the store buffer shows; a missing full barrier on one particular operation or size is almost invisible to stress testing",
 [D+"core_ops_gcc_atomic.hpp",D+"core_arch_ops_gcc_x86.hpp",D+"extra_ops_gcc_x86.hpp",D+"fence_arch_ops_gcc_x86.hpp",D+"fence_ops_gcc_atomic.hpp","include/boost/atomic/fences.hpp",D+"gcc_atomic_memory_order_utils.hpp"],
 [("locked instruction or xchg for seq_cst stores",D+"core_arch_ops_gcc_x86.hpp"),("lock; notb as full fence",D+"fence_arch_ops_gcc_x86.hpp")],observe=["loaded values"])
p("C08","Release/acquire communication publishes everything before it",
 "If one thread writes ordinary data and then performs a releasing operation (or a release fence followed by a relaxed write) and another thread's acquiring operation (or relaxed read followed by an acquire fence) observes the result, the ordinary data is visible to it without a data race. This holds for every operation with every order the caller may pass, for failed compare-exchanges with their failure order, for waiting operations and for lock-free and lock-based objects alike.",
 ["schedules","programs","configurations"],
 "message-passing programs over every (writer operation, order) x (reader operation, order) pair for every size and flavour, all interleavings, judged by C++11 happens-before computed from the orders the implementation actually requests and by the compiled instruction order under x86-TSO",
 "on x86 hardware a weakened order is usually harmless at run time and the tests neither inspect requested orders nor compiler reordering",
 [D+"core_ops_gcc_atomic.hpp",D+"gcc_atomic_memory_order_utils.hpp",D+"memory_order_utils.hpp",D+"core_operations_emulated.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_futex.hpp","src/lock_pool.cpp",D+"atomic_flag_impl.hpp","include/boost/atomic/fences.hpp"],
 [("order conversion passed to intrinsics",D+"gcc_atomic_memory_order_utils.hpp"),("lock acquire/release ordering","src/lock_pool.cpp")],observe=["data races","loaded payload values"])
p("C09","No wake-up is ever lost",
 "If a thread is blocked or about to block waiting for an object to change and another thread changes the object and then notifies (notify_all, or notify_one at least as often as there are waiters), the waiting thread returns, however the two threads interleave. notify_one unblocks at least one and notify_all every thread that was blocked on the object at that time; this holds for indefinite and timed waits (which return on the notification, not only at the deadline), for flags and for every object size and flavour.",
 ["schedules","programs","configurations"],
 "all interleavings of 1-3 waiters and 1-2 notifiers, for natively waiting (32-bit), lock-free but lock-pool-waiting, lock-based, reference and inter-process objects, including several waiters per object and colliding objects",
 "tests give waiters a long sleep before notifying, so the check-then-block window is never hit; a lost notification in a timed wait only delays it",
 [D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp",D+"wait_ops_futex.hpp",D+"lock_pool.hpp","src/lock_pool.cpp",D+"atomic_flag_impl.hpp",D+"futex.hpp"],
 [("value re-checked after registering under the lock",D+"wait_ops_generic.hpp"),("futex compares value in kernel",D+"wait_ops_futex.hpp"),("notify takes the same lock and requeues waiters","src/lock_pool.cpp")],
 [("wait_state","condition counter and waiter count per address","src/lock_pool.cpp")],["waiters return","no timeout reported after a notification"])
p("C10","An indefinite wait returns only with a value different from the old one",
 "wait(old) returns only after the object was observed to hold a value whose representation differs from old, and returns exactly that observed value; if the object already differs it returns at once without blocking. Spurious wake-ups, notifications without a change, interrupted system calls and notifications of other objects never make it return the old value.",
 ["schedules","inputs","fault_sequences","configurations"],
 "all interleavings of waiters with changing and non-changing notifiers, with every bounded pattern of spurious/interrupted kernel answers, all flavours and all sizes including values that differ only in high bytes",
 "tests never notify without changing, never see interrupted or spurious returns, and always change the low byte",
 [D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp",D+"wait_ops_futex.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"atomic_flag_impl.hpp"],
 [("loop re-loading and comparing",D+"wait_ops_futex.hpp")],observe=["returned value"])
p("C11","Timed waits report timeout exactly when the deadline passed unchanged",
 "wait_for and wait_until report a timeout only if the given clock had reached the deadline and the value they return still equals the old one, and never block past a finite deadline once the clock reaches it; otherwise they report no timeout and return a changed value. A deadline in the past or a zero or negative duration returns at once, and a value that already differs is always reported as success even if the deadline has passed.",
 ["schedules","inputs","fault_sequences","configurations"],
 "all interleavings of a timed waiter with a storing/notifying thread and a clock that may advance at any point, kernel answers (timeout, interrupt, spurious, early timeout), system/steady/custom clocks, all flavours",
 "real time cannot be steered in tests: they check one generous timeout and one generous notification",
 [D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp",D+"wait_ops_futex.hpp",D+"chrono.hpp",D+"futex.hpp","src/lock_pool.cpp",D+"atomic_impl.hpp"],
 [("deadline compared with clock before reporting",D+"wait_ops_generic.hpp")],observe=["wait_result.value","wait_result.timeout","virtual clock at return"])
p("C12","Objects that share internal resources never disturb each other",
 "Distinct atomic objects whose waiters or locks happen to land in the same internal slot behave as if each had its own: notifying one never consumes or swallows the wake-up another one needs, waiting on one never blocks operations of another forever, and any sequence of waiters arriving and leaving on any number of objects leaves the bookkeeping intact for later waiters.",
 ["schedules","histories","configurations"],
 "all interleavings of 2-4 threads waiting on and notifying 2-3 objects forced into one slot, and all arrival/departure histories of up to 6 waiters on up to 6 objects incl. growth and reuse of the bookkeeping",
 "tests wait on one object at a time and practically never collide in the 256-entry pool",
 ["src/lock_pool.cpp",D+"lock_pool.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp"],
 [("per-address wait states inside one lock entry","src/lock_pool.cpp")],
 [("wait_state_list","address/pointer arrays with swap-erase and spare pool","src/lock_pool.cpp")],["waiters return","memory errors"])
p("C13","Every operation completes: no deadlock or missed lock hand-off",
 "Operations never deadlock or hang: whenever threads keep being scheduled, every load, store, read-modify-write, notification and satisfied wait finishes, under any contention on the internal locks, and mutual exclusion of the internal locks is never violated. It holds for both implementations of the internal locks and any pool size.",
 ["schedules","fault_sequences","configurations"],
 "all interleavings (complete for 2 threads, preemption-bounded for 3-4) of contending lock-based operations and waits, with spurious/interrupted kernel answers, futex and pthread lock implementations",
 "a missed hand-off needs a precise interleaving of unlock, contention marking and sleep; a hang in a stress test is timing luck",
 ["src/lock_pool.cpp",D+"lock_pool.hpp",D+"futex.hpp"],
 [("locked/contended bits and futex wake","src/lock_pool.cpp")],[("mutex word","locked bit, contended bit, ABA counter","src/lock_pool.cpp")],["all threads terminate","data races"])
p("C14","Inter-process atomics work across different mappings of the memory",
 "Inter-process atomic objects, references and flags are address-free: two parties that map the same memory at different addresses, in one process or several, see linearizable operations, and waits in one are ended by notifications in the other. No operation on them depends on process-private state.",
 ["schedules","configurations"],
 "all interleavings of two parties operating on two mappings of one memory object, every size and type class, every wait/notify operation incl. timed ones; real kernel confirmation with two processes",
 "tests use inter-process types only from threads of one process at one address, where process-private mechanisms also work",
 [D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"futex.hpp","include/boost/atomic/ipc_atomic.hpp","include/boost/atomic/ipc_atomic_ref.hpp","include/boost/atomic/ipc_atomic_flag.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp"],
 [("non-private futex operations",D+"wait_ops_futex.hpp"),("polling wait where no native support",D+"wait_ops_generic.hpp")],observe=["waiters return","futex keys used"])
p("C15","Waiter lookup finds the right object among any number of waited-on objects",
 "However many distinct objects currently have waiters in one internal slot and in whatever order they arrived, a notification finds exactly the waiters of its own object. All CPU-specific lookup variants return the same position as a plain linear search, including not found, for every list length and content.",
 ["inputs","configurations"],
 "every list length up to 64 with the key at every position, absent, sharing 32-bit halves with other entries, all variants (portable, SSE2, SSE4.1); every number of simultaneously waited-on objects up to 20 through the public interface",
 "tests never have more than a couple of simultaneously waited-on objects in one slot, so the vector loops and tails are not executed",
 ["src/find_address_sse2.cpp","src/find_address_sse41.cpp","src/find_address.hpp","src/lock_pool.cpp"],
 [("find_address variants with dispatch","src/lock_pool.cpp")],observe=["index returned","waiters return"])
p("C16","References act on exactly the referenced object and agree with atomics",
 "Operations through an atomic reference modify only bytes of the referenced object, give the same results as the same operations on an atomic object of that type, and are atomic with respect to all other references to the same object (constructing the first reference to an object of a type with padding bits may clear its padding and is not concurrent with accesses). The same byte confinement holds for atomic objects: neighbouring memory is never written, not even with unchanged values, and operations stay correct at every address satisfying the documented alignment.",
 ["inputs","schedules","configurations"],
 "all type sizes 1..32 and alignments, all operations, all placements within a guarded neighbourhood, concurrent neighbours over all interleavings",
 "tests place single objects and do not watch neighbouring memory while other threads modify it",
 ["include/boost/atomic/atomic_ref.hpp",D+"atomic_ref_impl.hpp",D+"core_operations.hpp",D+"storage_traits.hpp",D+"classify.hpp",D+"extending_cas_based_arithmetic.hpp"],
 [("storage size chosen not to exceed the object",D+"atomic_ref_impl.hpp")],observe=["bytes around the object","return values"])
p("C17","Lock-freedom and native-wait claims are truthful and consistent",
 "If a type, object or macro reports always lock-free then no operation on it other than waiting and notifying ever takes an internal lock or calls a blocking function, and if it reports native waiting then waits and notifies do not use internal locks either. Member function, static constant and macro reports agree with each other for every type and flavour.",
 ["inputs","configurations"],
 "every operation on every type class and size 1..32 and every flavour in every configuration that builds here, with a monitored lock pool; all capability macros",
 "tests compare some constants with macros but never observe whether locks are taken",
 [D+"capabilities.hpp",D+"caps_arch_gcc_x86.hpp",D+"caps_gcc_atomic.hpp",D+"wait_capabilities.hpp",D+"wait_caps_futex.hpp",D+"wait_ops_futex.hpp",D+"core_operations.hpp","include/boost/atomic/capabilities.hpp"],
 [("capability macros",D+"capabilities.hpp")],observe=["lock pool calls","constants"])
p("C18","Deadlines convert exactly for every clock, duration and magnitude",
 "For any clock and duration type whose value is representable in 64-bit nanoseconds (up to and including nanoseconds::max()), wait_until and wait_for honour the caller's deadline to at least clock resolution and never turn it into an earlier one: sub-resolution remainders round up, negative and pre-epoch time points are already expired, and extremely large deadlines and durations behave as far in the future. Custom clocks with or without a declared mapping to a system clock, and clocks that jump, are handled by re-checking the caller's own clock.",
 ["inputs","fault_sequences","configurations"],
 "all combinations from boundary alphabets of clock epoch, now, deadline, period ratio and representation (integer widths, floating point), clock jumps between polls, on every wait implementation",
 "tests use two durations on the standard clocks only",
 [D+"chrono.hpp",D+"has_posix_clock_traits.hpp","include/boost/atomic/posix_clock_traits_fwd.hpp",D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp","src/lock_pool.cpp",D+"futex.hpp"],
 [("rounding up conversions to timespec",D+"chrono.hpp")],observe=["kernel timeouts requested","virtual clock at return","wait_result"])
p("C19","Atomic flags behave as one-bit test-and-set objects",
 "For plain and inter-process atomic flags exactly one of several concurrent test_and_set calls on a clear flag returns false, clear makes the flag clear, test reports the current state, and a spin lock built from them gives mutual exclusion and publishes protected data. Waiting on a flag returns once the flag differs from the given state and never before, and returns the new state.",
 ["schedules","histories"],
 "all interleavings of 2-3 threads each performing up to 2-3 flag operations, all operation histories up to depth 6, lock-free and forced-fallback flags",
 "tests exercise the flag from one thread only",
 [D+"atomic_flag_impl.hpp","include/boost/atomic/atomic_flag.hpp","include/boost/atomic/ipc_atomic_flag.hpp",D+"core_ops_gcc_atomic.hpp"],
 [("test_and_set / clear primitives",D+"core_ops_gcc_atomic.hpp")],observe=["return values","payload races"])
p("C20","Waits survive allocation failures and adverse kernel answers",
 "Waiting and notifying keep all their guarantees when memory allocation for internal bookkeeping fails at any point and when the kernel answers blocking calls with interruption, would-block or spurious success at any point. In particular no thread crashes, returns the old value from an indefinite wait, reports a false timeout, or sleeps forever after being notified.",
 ["fault_sequences","schedules"],
 "every single and double failure position among all allocations of a history, every bounded pattern of adverse kernel answers, combined with all bounded interleavings of waiter and notifier",
 "tests run with a working allocator and an undisturbed kernel",
 ["src/lock_pool.cpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp",D+"wait_ops_futex.hpp",D+"futex.hpp"],
 [("fallback waiting when no wait state is available",D+"wait_ops_generic.hpp"),("retry loops around blocking calls","src/lock_pool.cpp")],observe=["waiters return","no crash"])
p("C21","Internal resources are released at exit and stay usable afterwards",
 "At process exit the library frees the memory it allocated for waiting, leaking nothing and freeing nothing twice, whatever history of waits preceded. Atomic operations, waits and notifications executed after that point, for example from other static destructors, still work correctly, and threads blocked meanwhile are not disturbed.",
 ["histories","schedules"],
 "all bounded histories of waits/notifies before, during and after the exit-time cleanup, all interleavings of the cleanup with a blocked waiter",
 "tests do not observe memory at exit nor run operations during static destruction",
 ["src/lock_pool.cpp"],
 [("exit-time cleanup of unused wait states","src/lock_pool.cpp")],observe=["allocator ledger","waiters return"])
p("C22","Stored values of any trivially copyable type come back intact",
 "Initialization (default, value, constant-initialized), store, assignment, exchange and load transfer every value bit of the object unchanged for every trivially copyable type of any size and alignment, and default construction yields the value-initialized object. Every operation sequence on an object yields exactly the same results and final value on the lock-free, lock-based, referencing and inter-process flavours.",
 ["inputs","histories","configurations"],
 "all type sizes 1..64 with every alignment that divides them, padded, enum, bool, class and array-bearing types; all operation histories up to a bounded depth over a small alphabet, compared step by step with a plain variable",
 "tests use about a dozen types and a fixed script",
 ["include/boost/atomic/atomic.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"bitwise_cast.hpp",D+"storage_traits.hpp",D+"aligned_variable.hpp",D+"classify.hpp",D+"addressof.hpp",D+"core_operations_emulated.hpp"],
 [("bitwise casts between value and storage",D+"bitwise_cast.hpp")],observe=["loaded values"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,x["id"]
