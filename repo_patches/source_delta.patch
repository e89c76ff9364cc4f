From a92ef6700ca9a5a88303f4bac32360ac9f82471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:19 +0000
Subject: [PATCH 1/6] fix: reload the value after locking the wait state in
 generic timed waits

A store and notify that happen between the first load and the wait state
being locked were missed, so that wait_for/wait_until slept until the
timeout although the atomic was changed and notified.
---
 include/boost/atomic/detail/wait_ops_generic.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 7503d5c..916373c 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -93,6 +93,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             while (new_val == old_val)
             {
                 const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
@@ -128,6 +129,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             const timespec abs_timeout(posix_clock_traits< Clock >::to_timespec(timeout));
             if (BOOST_LIKELY(abs_timeout.tv_sec >= 0))
             {
-- 
2.43.0


From 3395c55b19f2033e773608578788860624c9d5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:39 +0000
Subject: [PATCH 2/6] fix: avoid overflow in futex-based wait_for with a
 timeout close to the maximum

Adding the current time nanoseconds to the timeout overflowed, the kernel rejected the
resulting negative timeout and the wait degraded to a busy loop of failing system calls.
---
 include/boost/atomic/detail/wait_ops_futex.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/atomic/detail/wait_ops_futex.hpp b/include/boost/atomic/detail/wait_ops_futex.hpp
index 5db7e88..5dd0d53 100644
--- a/include/boost/atomic/detail/wait_ops_futex.hpp
+++ b/include/boost/atomic/detail/wait_ops_futex.hpp
@@ -294,8 +294,10 @@ public:
             timespec now{};
             if (BOOST_LIKELY(clock_gettime(CLOCK_MONOTONIC, &now) == 0))
             {
-                const std::int64_t nsec = static_cast< std::int64_t >(now.tv_nsec) + atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
-                const std::int64_t sec = static_cast< std::int64_t >(now.tv_sec) + nsec / 1000000000;
+                // Note: Avoid adding to the entire timeout in nanoseconds as it may be close to the maximum and overflow
+                const std::int64_t timeout_nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
+                const std::int64_t nsec = static_cast< std::int64_t >(now.tv_nsec) + timeout_nsec % 1000000000;
+                const std::int64_t sec = static_cast< std::int64_t >(now.tv_sec) + timeout_nsec / 1000000000 + nsec / 1000000000;
                 if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(futex_timespec::tv_sec) >::max)()))
                 {
                     futex_timespec ts{};
-- 
2.43.0


From 998ddf9f2b6aa750eea8fc1d8bdbbda72a2009d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:39 +0000
Subject: [PATCH 3/6] fix: avoid overflow in pthread-based timed waits with a
 timeout close to the maximum

Adding the current time nanoseconds to the relative timeout overflowed and pthread_cond_timedwait
failed with EINVAL without releasing the lock, so the waiter spun forever with the lock held.
---
 src/lock_pool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lock_pool.cpp b/src/lock_pool.cpp
index fe477e3..44168e2 100644
--- a/src/lock_pool.cpp
+++ b/src/lock_pool.cpp
@@ -490,8 +490,9 @@ inline bool wait_state::wait_for(lock_state& state, std::chrono::nanoseconds rel
     timespec ts{};
     BOOST_VERIFY(clock_gettime(m_clock_id, &ts) == 0);
 
-    std::chrono::nanoseconds::rep nsec = rel_timeout.count() + ts.tv_nsec;
-    std::chrono::nanoseconds::rep sec = static_cast< std::chrono::nanoseconds::rep >(ts.tv_sec) + nsec / 1000000000;
+    // Note: Avoid adding to the entire timeout in nanoseconds as it may be close to the maximum and overflow
+    std::chrono::nanoseconds::rep nsec = rel_timeout.count() % 1000000000 + ts.tv_nsec;
+    std::chrono::nanoseconds::rep sec = static_cast< std::chrono::nanoseconds::rep >(ts.tv_sec) + rel_timeout.count() / 1000000000 + nsec / 1000000000;
     if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(ts.tv_sec) >::max)()))
     {
         ts.tv_sec = static_cast< decltype(ts.tv_sec) >(sec);
-- 
2.43.0


From d7ccea0ae9151885eb6ff0c67a132fa6b91a2b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:11 +0000
Subject: [PATCH 4/6] fix: avoid overflow of the deadline in generic and
 emulated wait_for

Timeouts close to the maximum made the absolute deadline overflow into the past, so waits of
inter-process atomics without native waiting reported a timeout immediately.
---
 include/boost/atomic/detail/wait_ops_emulated.hpp |  6 +++++-
 include/boost/atomic/detail/wait_ops_generic.hpp  | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/boost/atomic/detail/wait_ops_emulated.hpp b/include/boost/atomic/detail/wait_ops_emulated.hpp
index 6f12f3a..7bab6b9 100644
--- a/include/boost/atomic/detail/wait_ops_emulated.hpp
+++ b/include/boost/atomic/detail/wait_ops_emulated.hpp
@@ -208,7 +208,11 @@ public:
     {
         static_assert(!base_type::is_interprocess, "Boost.Atomic: operation invoked on a non-lock-free inter-process atomic object");
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, timed_out);
+        // Saturate the deadline so that it doesn't overflow and become a time point in the past for large timeouts
+        std::chrono::steady_clock::time_point abs_timeout = (std::chrono::steady_clock::time_point::max)();
+        if (BOOST_LIKELY(timeout < abs_timeout - now))
+            abs_timeout = now + timeout;
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, abs_timeout, now, timed_out);
     }
 
     static void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 916373c..ca2017d 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -224,7 +224,11 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        // Saturate the deadline so that it doesn't overflow and become a time point in the past for large timeouts
+        std::chrono::steady_clock::time_point abs_timeout = (std::chrono::steady_clock::time_point::max)();
+        if (BOOST_LIKELY(timeout < abs_timeout - now))
+            abs_timeout = now + timeout;
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, abs_timeout, now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
@@ -358,7 +362,11 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        // Saturate the deadline so that it doesn't overflow and become a time point in the past for large timeouts
+        std::chrono::steady_clock::time_point abs_timeout = (std::chrono::steady_clock::time_point::max)();
+        if (BOOST_LIKELY(timeout < abs_timeout - now))
+            abs_timeout = now + timeout;
+        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, abs_timeout, now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile&) noexcept
-- 
2.43.0


From 1d7ff1df9b3436ebd59d744195fa17d730b5fa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:10 +0000
Subject: [PATCH 5/6] fix: correct rounding in the C++11 fallback of chrono
 ceil

The fallback rounded negative durations up by too much, so that a negative timeout shorter than
a nanosecond was not expired, and did not compile with floating point durations.
---
 include/boost/atomic/detail/chrono.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/boost/atomic/detail/chrono.hpp b/include/boost/atomic/detail/chrono.hpp
index 154722f..db7ef6f 100644
--- a/include/boost/atomic/detail/chrono.hpp
+++ b/include/boost/atomic/detail/chrono.hpp
@@ -16,10 +16,6 @@
 
 #include <time.h>
 #include <chrono>
-#if !defined(__cpp_lib_chrono) || (__cpp_lib_chrono < 201510l)
-#include <ratio>
-#include <type_traits>
-#endif // !defined(__cpp_lib_chrono) || (__cpp_lib_chrono < 201510l)
 #if defined(CLOCK_REALTIME)
 #include <boost/atomic/posix_clock_traits_fwd.hpp>
 #endif // defined(CLOCK_REALTIME)
@@ -41,13 +37,16 @@ using std::chrono::ceil;
 
 #else // defined(__cpp_lib_chrono) && (__cpp_lib_chrono >= 201510l)
 
+template< typename To, typename Rep, typename Period >
+inline constexpr To ceil_adjust(To to, std::chrono::duration< Rep, Period > from) noexcept
+{
+    return to < from ? To(to.count() + static_cast< typename To::rep >(1)) : to;
+}
+
 template< typename To, typename Rep, typename Period >
 inline constexpr To ceil(std::chrono::duration< Rep, Period > from) noexcept
 {
-    using conv_ratio = std::ratio_divide< Period, typename To::period >;
-    using common_rep = typename std::common_type< Rep, typename To::rep, decltype(conv_ratio::num) >::type;
-    return To(static_cast< typename To::rep >((static_cast< common_rep >(from.count()) * conv_ratio::num) / conv_ratio::den +
-        static_cast< common_rep >(((static_cast< common_rep >(from.count()) * conv_ratio::num) % conv_ratio::den) != static_cast< common_rep >(0))));
+    return atomics::detail::chrono::ceil_adjust(std::chrono::duration_cast< To >(from), from);
 }
 
 #endif // defined(__cpp_lib_chrono) && (__cpp_lib_chrono >= 201510l)
-- 
2.43.0


From cfd8c9cd6dc239cf9fa43b09ecc816444720dd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:18 +0000
Subject: [PATCH 6/6] fix: support any duration type and avoid overflow in
 wait_for

wait_for with a duration that is not implicitly convertible to
std::chrono::steady_clock::duration (e.g. floating point or picoseconds) did
not compile, and the deadline overflowed for timeouts close to, or above, the
maximum, so that the wait timed out immediately.
---
 include/boost/atomic/detail/chrono.hpp        | 24 +++++++++++++++++++
 .../atomic/detail/wait_ops_darwin_ulock.hpp   |  2 +-
 .../atomic/detail/wait_ops_dragonfly_umtx.hpp |  2 +-
 .../boost/atomic/detail/wait_ops_emulated.hpp |  6 +----
 .../atomic/detail/wait_ops_freebsd_umtx.hpp   | 10 ++++----
 .../boost/atomic/detail/wait_ops_futex.hpp    |  4 ++--
 .../boost/atomic/detail/wait_ops_generic.hpp  | 12 ++--------
 .../boost/atomic/detail/wait_ops_windows.hpp  |  2 +-
 8 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/include/boost/atomic/detail/chrono.hpp b/include/boost/atomic/detail/chrono.hpp
index db7ef6f..b434e72 100644
--- a/include/boost/atomic/detail/chrono.hpp
+++ b/include/boost/atomic/detail/chrono.hpp
@@ -51,6 +51,30 @@ inline constexpr To ceil(std::chrono::duration< Rep, Period > from) noexcept
 
 #endif // defined(__cpp_lib_chrono) && (__cpp_lib_chrono >= 201510l)
 
+//! Converts duration, rounding up. The result saturates if it is not representable.
+template< typename To, typename Rep, typename Period >
+inline To saturated_ceil(std::chrono::duration< Rep, Period > from) noexcept
+{
+    using fp_duration = std::chrono::duration< double, typename To::period >;
+    const fp_duration fp_from = std::chrono::duration_cast< fp_duration >(from);
+    if (fp_from >= std::chrono::duration_cast< fp_duration >((To::max)()))
+        return (To::max)();
+    if (fp_from <= std::chrono::duration_cast< fp_duration >((To::min)()))
+        return (To::min)();
+    return atomics::detail::chrono::ceil< To >(from);
+}
+
+//! Returns the time point when the timeout expires, rounded up to the clock resolution. The result saturates if it is not representable.
+template< typename Clock, typename Rep, typename Period >
+inline typename Clock::time_point get_deadline(typename Clock::time_point now, std::chrono::duration< Rep, Period > timeout) noexcept
+{
+    const typename Clock::duration rel_timeout = atomics::detail::chrono::saturated_ceil< typename Clock::duration >(timeout);
+    typename Clock::time_point deadline = (Clock::time_point::max)();
+    if (rel_timeout < deadline - now)
+        deadline = now + rel_timeout;
+    return deadline;
+}
+
 } // namespace chrono
 } // namespace detail
 
diff --git a/include/boost/atomic/detail/wait_ops_darwin_ulock.hpp b/include/boost/atomic/detail/wait_ops_darwin_ulock.hpp
index ae24b5a..e43c011 100644
--- a/include/boost/atomic/detail/wait_ops_darwin_ulock.hpp
+++ b/include/boost/atomic/detail/wait_ops_darwin_ulock.hpp
@@ -164,7 +164,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_dragonfly_umtx.hpp b/include/boost/atomic/detail/wait_ops_dragonfly_umtx.hpp
index 8035dcd..2017c9f 100644
--- a/include/boost/atomic/detail/wait_ops_dragonfly_umtx.hpp
+++ b/include/boost/atomic/detail/wait_ops_dragonfly_umtx.hpp
@@ -121,7 +121,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_emulated.hpp b/include/boost/atomic/detail/wait_ops_emulated.hpp
index 7bab6b9..3218ab8 100644
--- a/include/boost/atomic/detail/wait_ops_emulated.hpp
+++ b/include/boost/atomic/detail/wait_ops_emulated.hpp
@@ -208,11 +208,7 @@ public:
     {
         static_assert(!base_type::is_interprocess, "Boost.Atomic: operation invoked on a non-lock-free inter-process atomic object");
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        // Saturate the deadline so that it doesn't overflow and become a time point in the past for large timeouts
-        std::chrono::steady_clock::time_point abs_timeout = (std::chrono::steady_clock::time_point::max)();
-        if (BOOST_LIKELY(timeout < abs_timeout - now))
-            abs_timeout = now + timeout;
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, abs_timeout, now, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, timed_out);
     }
 
     static void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_freebsd_umtx.hpp b/include/boost/atomic/detail/wait_ops_freebsd_umtx.hpp
index 12e3757..5097a37 100644
--- a/include/boost/atomic/detail/wait_ops_freebsd_umtx.hpp
+++ b/include/boost/atomic/detail/wait_ops_freebsd_umtx.hpp
@@ -255,8 +255,10 @@ public:
             _umtx_time umt{};
             if (BOOST_LIKELY(clock_gettime(CLOCK_MONOTONIC, &umt._timeout) == 0))
             {
-                const std::int64_t nsec = static_cast< std::int64_t >(umt._timeout.tv_nsec) + atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
-                const std::int64_t sec = static_cast< std::int64_t >(umt._timeout.tv_sec) + nsec / 1000000000;
+                // Note: Avoid adding to the entire timeout in nanoseconds as it may be close to the maximum and overflow
+                const std::int64_t timeout_nsec = atomics::detail::chrono::saturated_ceil< std::chrono::nanoseconds >(timeout).count();
+                const std::int64_t nsec = static_cast< std::int64_t >(umt._timeout.tv_nsec) + timeout_nsec % 1000000000;
+                const std::int64_t sec = static_cast< std::int64_t >(umt._timeout.tv_sec) + timeout_nsec / 1000000000 + nsec / 1000000000;
                 if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(timespec::tv_sec) >::max)()))
                 {
                     umt._timeout.tv_sec = static_cast< decltype(umt._timeout.tv_sec) >(sec);
@@ -269,7 +271,7 @@ public:
         }
 
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
 #else // defined(UMTX_ABSTIME)
@@ -343,7 +345,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
 #endif // defined(UMTX_ABSTIME)
diff --git a/include/boost/atomic/detail/wait_ops_futex.hpp b/include/boost/atomic/detail/wait_ops_futex.hpp
index 5dd0d53..4d1d6e6 100644
--- a/include/boost/atomic/detail/wait_ops_futex.hpp
+++ b/include/boost/atomic/detail/wait_ops_futex.hpp
@@ -295,7 +295,7 @@ public:
             if (BOOST_LIKELY(clock_gettime(CLOCK_MONOTONIC, &now) == 0))
             {
                 // Note: Avoid adding to the entire timeout in nanoseconds as it may be close to the maximum and overflow
-                const std::int64_t timeout_nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
+                const std::int64_t timeout_nsec = atomics::detail::chrono::saturated_ceil< std::chrono::nanoseconds >(timeout).count();
                 const std::int64_t nsec = static_cast< std::int64_t >(now.tv_nsec) + timeout_nsec % 1000000000;
                 const std::int64_t sec = static_cast< std::int64_t >(now.tv_sec) + timeout_nsec / 1000000000 + nsec / 1000000000;
                 if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(futex_timespec::tv_sec) >::max)()))
@@ -333,7 +333,7 @@ public:
 #endif // defined(BOOST_ATOMIC_DETAIL_FUTEX_WAIT_BITSET) && defined(_POSIX_MONOTONIC_CLOCK) && (_POSIX_MONOTONIC_CLOCK >= 0)
 
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index ca2017d..20761b8 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -224,11 +224,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        // Saturate the deadline so that it doesn't overflow and become a time point in the past for large timeouts
-        std::chrono::steady_clock::time_point abs_timeout = (std::chrono::steady_clock::time_point::max)();
-        if (BOOST_LIKELY(timeout < abs_timeout - now))
-            abs_timeout = now + timeout;
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, abs_timeout, now, order, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
@@ -362,11 +358,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        // Saturate the deadline so that it doesn't overflow and become a time point in the past for large timeouts
-        std::chrono::steady_clock::time_point abs_timeout = (std::chrono::steady_clock::time_point::max)();
-        if (BOOST_LIKELY(timeout < abs_timeout - now))
-            abs_timeout = now + timeout;
-        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, abs_timeout, now, order, timed_out);
+        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile&) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_windows.hpp b/include/boost/atomic/detail/wait_ops_windows.hpp
index 1c20940..2055950 100644
--- a/include/boost/atomic/detail/wait_ops_windows.hpp
+++ b/include/boost/atomic/detail/wait_ops_windows.hpp
@@ -133,7 +133,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::get_deadline< std::chrono::steady_clock >(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
-- 
2.43.0

