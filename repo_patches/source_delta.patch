From 5e1c5d5406341b6be5637a2beeeb3a3d9841ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:37 +0000
Subject: [PATCH 01/52] fix: scoped_lock move assignment releases the mutex it
 already holds

---
 include/coro/mutex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/coro/mutex.hpp b/include/coro/mutex.hpp
index 7fe1c05..2de01c2 100644
--- a/include/coro/mutex.hpp
+++ b/include/coro/mutex.hpp
@@ -99,6 +99,8 @@ public:
     {
         if (std::addressof(other) != this)
         {
+            // Release the mutex currently held, if any, before taking over the other lock's mutex.
+            unlock();
             m_mutex = std::exchange(other.m_mutex, nullptr);
         }
         return *this;
-- 
2.43.0


From 2bf8904c2c96dbb79fb4d894a4d6d2c69233a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:28 +0000
Subject: [PATCH 02/52] fix: latch::remaining() is zero once the count is
 exhausted

---
 include/coro/latch.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/coro/latch.hpp b/include/coro/latch.hpp
index ffd8b6a..c2e11b7 100644
--- a/include/coro/latch.hpp
+++ b/include/coro/latch.hpp
@@ -40,7 +40,12 @@ public:
     /**
      * @return The number of tasks this latch is still waiting to complete.
      */
-    auto remaining() const noexcept -> std::size_t { return m_count.load(std::memory_order::acquire); }
+    auto remaining() const noexcept -> std::size_t
+    {
+        // The count can drop below zero, in which case there is nothing left to wait for.
+        const auto count = m_count.load(std::memory_order::acquire);
+        return (count > 0) ? static_cast<std::size_t>(count) : 0;
+    }
 
     /**
      * If the latch counter goes to zero then the task awaiting the latch is resumed.
-- 
2.43.0


From 136769313fde0fbf5c60fce0586c146892b5c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:28 +0000
Subject: [PATCH 03/52] fix: semaphore::acquire() reports acquired exactly when
 it took a permit

---
 include/coro/semaphore.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/coro/semaphore.hpp b/include/coro/semaphore.hpp
index ee362e0..b13caf7 100644
--- a/include/coro/semaphore.hpp
+++ b/include/coro/semaphore.hpp
@@ -39,15 +39,22 @@ class acquire_operation
 public:
     explicit acquire_operation(semaphore<max_value>& s) : m_semaphore(s) { }
 
-    [[nodiscard]] auto await_ready() const noexcept -> bool
+    [[nodiscard]] auto await_ready() noexcept -> bool
     {
         // If the semaphore is shutdown or a resources can be acquired without suspending release the lock and resume execution.
-        if (m_semaphore.m_shutdown.load(std::memory_order::acquire) || m_semaphore.try_acquire())
+        if (m_semaphore.m_shutdown.load(std::memory_order::acquire))
         {
             m_semaphore.m_mutex.unlock();
             return true;
         }
 
+        if (m_semaphore.try_acquire())
+        {
+            m_result = semaphore_acquire_result::acquired;
+            m_semaphore.m_mutex.unlock();
+            return true;
+        }
+
         return false;
     }
 
@@ -67,16 +74,14 @@ public:
 
     [[nodiscard]] auto await_resume() const -> semaphore_acquire_result
     {
-        if (m_semaphore.m_shutdown.load(std::memory_order::acquire))
-        {
-            return semaphore_acquire_result::shutdown;
-        }
-        return semaphore_acquire_result::acquired;
+        return m_result;
     }
 
     acquire_operation<max_value>* m_next{nullptr};
     semaphore<max_value>&         m_semaphore;
     std::coroutine_handle<>       m_awaiting_coroutine;
+    /// @brief Acquired only if this operation was given a resource, a shutdown resumes it without one.
+    semaphore_acquire_result      m_result{semaphore_acquire_result::shutdown};
 };
 
 } // namespace detail
@@ -125,6 +130,7 @@ public:
         auto* waiter = detail::awaiter_list_pop(m_acquire_waiters);
         if (waiter != nullptr)
         {
+            waiter->m_result = semaphore_acquire_result::acquired;
             m_mutex.unlock();
             waiter->m_awaiting_coroutine.resume();
         }
-- 
2.43.0


From 84aa32104032ad2ec0eb241474aa81ef6ddcfae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:40 +0000
Subject: [PATCH 04/52] fix: shared_mutex scoped locks are released when the
 scoped task throws

---
 include/coro/shared_mutex.hpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/coro/shared_mutex.hpp b/include/coro/shared_mutex.hpp
index f9af741..1dbb7cb 100644
--- a/include/coro/shared_mutex.hpp
+++ b/include/coro/shared_mutex.hpp
@@ -6,6 +6,7 @@
 
 #include <atomic>
 #include <coroutine>
+#include <exception>
 
 namespace coro
 {
@@ -125,8 +126,21 @@ public:
     {
         co_await m_mutex.lock();
         co_await detail::shared_lock_operation<executor_type>{*this, false};
-        co_await scoped_task;
+        // The lock must also be released if the scoped task throws.
+        std::exception_ptr exception{nullptr};
+        try
+        {
+            co_await scoped_task;
+        }
+        catch (...)
+        {
+            exception = std::current_exception();
+        }
         co_await unlock_shared();
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
 
@@ -140,8 +154,21 @@ public:
     {
         co_await m_mutex.lock();
         co_await detail::shared_lock_operation<executor_type>{*this, true};
-        co_await scoped_task;
+        // The lock must also be released if the scoped task throws.
+        std::exception_ptr exception{nullptr};
+        try
+        {
+            co_await scoped_task;
+        }
+        catch (...)
+        {
+            exception = std::current_exception();
+        }
         co_await unlock();
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
 
-- 
2.43.0


From dde01b893eb2d3ab4fd6751a275afe65610fb467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:04 +0000
Subject: [PATCH 05/52] fix: queue::shutdown() stops the queue also when it
 races with shutdown_drain()

---
 include/coro/queue.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index 4402748..65ae1fa 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -333,16 +333,15 @@ public:
      */
     auto shutdown() -> coro::task<void>
     {
-        auto expected = m_running_state.load(std::memory_order::acquire);
-        if (expected == running_state_t::stopped)
+        if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)
         {
             co_return;
         }
 
-        // We use the lock to guarantee the m_running_state has propagated.
+        // We use the lock to guarantee the m_running_state has propagated. The state can go from running to draining
+        // while waiting for the lock, the queue has to be stopped in either case.
         auto lk = co_await m_mutex.scoped_lock();
-        if (!m_running_state.compare_exchange_strong(
-                expected, running_state_t::stopped, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)
         {
             co_return;
         }
-- 
2.43.0


From 71a0ec2b90fde87702ee559cc42a1409f39755d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:04 +0000
Subject: [PATCH 06/52] fix: ring_buffer::shutdown() stops the buffer also when
 it races with shutdown_drain()

---
 include/coro/ring_buffer.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/coro/ring_buffer.hpp b/include/coro/ring_buffer.hpp
index 0aeae52..428869d 100644
--- a/include/coro/ring_buffer.hpp
+++ b/include/coro/ring_buffer.hpp
@@ -320,15 +320,14 @@ public:
     auto shutdown() -> coro::task<void>
     {
         // Only wake up waiters once.
-        auto expected = m_running_state.load(std::memory_order::acquire);
-        if (expected == running_state_t::stopped)
+        if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)
         {
             co_return;
         }
 
         auto lk = co_await m_mutex.scoped_lock();
         // Only let one caller do the wake-ups, this can go from running or draining to stopped
-        if (!m_running_state.compare_exchange_strong(expected, running_state_t::stopped, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)
         {
             co_return;
         }
-- 
2.43.0


From 58a6cf0b51fa23526e2c5ef3363009c27457b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:04 +0000
Subject: [PATCH 07/52] fix: ring_buffer::shutdown_drain() reports stopped to
 the producers it turns away

---
 include/coro/ring_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/coro/ring_buffer.hpp b/include/coro/ring_buffer.hpp
index 428869d..534dbda 100644
--- a/include/coro/ring_buffer.hpp
+++ b/include/coro/ring_buffer.hpp
@@ -374,6 +374,7 @@ public:
         while (produce_waiters != nullptr)
         {
             auto* next = produce_waiters->m_next;
+            produce_waiters->m_result = ring_buffer_result::produce::stopped;
             produce_waiters->m_awaiting_coroutine.resume();
             produce_waiters = next;
         }
-- 
2.43.0


From d4eb344411e4221479ec3bc4eb7342b1a5cc5eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:15 +0000
Subject: [PATCH 08/52] fix: condition_variable timed waits do not use the
 waiter after it has completed

---
 include/coro/condition_variable.hpp | 40 +++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 654bca5..25b559e 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -157,6 +157,8 @@ private:
         coro::event m_notify_callback{};
         /// @brief Flag to notify if the awaiter has completed via no_timeout or timeout.
         std::atomic<bool> m_awaiter_completed{false};
+        /// @brief True if the wait() call completed with a timeout.
+        bool m_timed_out{false};
         /// @brief The status of the wait() call, this is _ONLY_ valid if the m_awaiter_completed flag was obtained,
         /// otherwise its a dangling reference.
         std::optional<std::cv_status>& m_status;
@@ -215,21 +217,23 @@ private:
 
         /**
          * @brief Task to handle the no_timeout case, however it is resumed even after a timeout since it needs to exit
-         * for the controller task.
+         * for the controller task. The awaiter is dead by then if it timed out, so only the controller's data is used.
          *
          * @param data The controller task's data.
+         * @param awaiting_coroutine The caller's coroutine.
          * @return coro::task<void>
          */
-        auto make_on_notify_callback_task(controller_data& data) -> coro::task<void>
+        static auto make_on_notify_callback_task(controller_data& data, std::coroutine_handle<> awaiting_coroutine)
+            -> coro::task<void>
         {
             co_await data.m_notify_callback;
 
             // If this is the condition and not a timeout resume from this task.
-            if (m_status.value() == std::cv_status::no_timeout)
+            if (!data.m_timed_out)
             {
                 // The condition coroutine is resumed from here instead of the awaiter hook task to
                 // guarantee the controller is still alive until the caller's coroutine is completed.
-                m_awaiting_coroutine.resume();
+                awaiting_coroutine.resume();
             }
 
             // This was a timeout, do nothing but exit to let the controller task know it can safely exit now.
@@ -238,26 +242,37 @@ private:
 
         /**
          * @brief Task to handle the timeout case, this will always wait the duration of the timeout before exiting.
+         * The awaiter is only alive if this task is the one that completes it.
          *
          * @param data The controller task data.
+         * @param executor The executor used to wait for the timeout.
+         * @param wait_for The amount of time to wait for.
+         * @param mutex The caller's mutex.
+         * @param awaiting_coroutine The caller's coroutine.
          * @return coro::task<void>
          */
-        auto make_timeout_task(controller_data& data) -> coro::task<void>
+        static auto make_timeout_task(
+            controller_data&                   data,
+            std::unique_ptr<io_executor_type>& executor,
+            const std::chrono::nanoseconds     wait_for,
+            coro::mutex&                       mutex,
+            std::coroutine_handle<>            awaiting_coroutine) -> coro::task<void>
         {
-            co_await m_executor->schedule_after(m_wait_for);
+            co_await executor->schedule_after(wait_for);
             auto lock = co_await data.m_event_mutex.scoped_lock();
             bool expected{false};
             if (data.m_awaiter_completed.compare_exchange_strong(
                     expected, true, std::memory_order::release, std::memory_order::relaxed))
             {
-                m_status = {std::cv_status::timeout};
+                data.m_timed_out = true;
+                data.m_status    = {std::cv_status::timeout};
                 lock.unlock();
 
                 // This means the timeout has occurred first. Before resuming the wait_[for|until]() caller the lock
                 // must be re-acquired.
-                co_await m_lock.m_mutex->lock();
-                m_predicate_result = data.m_predicate.has_value() ? data.m_predicate.value()() : true;
-                m_awaiting_coroutine.resume();
+                co_await mutex.lock();
+                data.m_predicate_result = data.m_predicate.has_value() ? data.m_predicate.value()() : true;
+                awaiting_coroutine.resume();
                 co_return;
             }
 
@@ -280,9 +295,12 @@ private:
             // actual coroutine only once.
             awaiter_with_wait_hook hook_task{m_condition_variable, m_lock, data};
             detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(&hook_task));
+            // Neither task may use this awaiter once it is completed, it can be at any time after the unlock.
+            auto on_notify_callback = make_on_notify_callback_task(data, m_awaiting_coroutine);
+            auto timeout = make_timeout_task(data, m_executor, m_wait_for, *m_lock.m_mutex, m_awaiting_coroutine);
             m_lock.m_mutex->unlock(); // Unlock the actual lock now that we are setup, not the fake hook task.
 
-            co_await coro::when_all(make_on_notify_callback_task(data), make_timeout_task(data));
+            co_await coro::when_all(std::move(on_notify_callback), std::move(timeout));
             co_return;
         }
 
-- 
2.43.0


From 578d14a9496fc424599c64302d7ef6d826feea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:15 +0000
Subject: [PATCH 09/52] fix: condition_variable re-enqueues a waiter that is
 not ready before unlocking its mutex

---
 include/coro/condition_variable.hpp |  5 ++---
 src/condition_variable.cpp          | 20 ++++++++++++++------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 25b559e..6cee095 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -38,7 +38,7 @@ private:
     {
         /// @brief The waiter is ready to be resumed, either the predicate passed or its been requested to stop.
         ready,
-        /// @brief The waiter is not ready to be resumed
+        /// @brief The waiter is not ready to be resumed, it has been put back into the list of waiters.
         not_ready,
         /// @brief The waiter is a hook and has timed out and is dead.
         awaiter_dead,
@@ -554,8 +554,7 @@ private:
         switch (co_await waiter->on_notify())
         {
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                detail::awaiter_list_push(m_awaiters, waiter);
+                // The waiter re-enqueued itself since the predicate isn't ready, the notify has been satisfied.
                 break;
             case notify_status_t::ready:
             case notify_status_t::awaiter_dead:
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index aa641d4..bed60a6 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -74,7 +74,11 @@ auto condition_variable::awaiter_with_predicate::on_notify() -> coro::task<condi
         co_return notify_status_t::ready;
     }
 
-    m_lock.m_mutex->unlock();
+    // Re-enqueue before unlocking, otherwise a notify after the unlock could miss this waiter. Once it is in the list and
+    // unlocked it can be resumed by another notify, it must not be used anymore.
+    auto* waiter_mutex = m_lock.m_mutex;
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
+    waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
 
@@ -119,7 +123,11 @@ auto condition_variable::awaiter_with_predicate_stop_token::on_notify() -> coro:
         co_return notify_status_t::ready;
     }
 
-    m_lock.m_mutex->unlock();
+    // Re-enqueue before unlocking, otherwise a notify after the unlock could miss this waiter. Once it is in the list and
+    // unlocked it can be resumed by another notify, it must not be used anymore.
+    auto* waiter_mutex = m_lock.m_mutex;
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
+    waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
 
@@ -190,6 +198,8 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
         co_return notify_status_t::ready;
     }
 
+    // Re-enqueue before unlocking, otherwise a notify after the unlock could miss this waiter.
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
     waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
@@ -213,8 +223,7 @@ auto condition_variable::notify_one() -> coro::task<void>
                 // The predicate was ready and the awaiter is resumed.
                 co_return;
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                coro::detail::awaiter_list_push(m_awaiters, waiter);
+                // The waiter re-enqueued itself since the predicate isn't ready, the notify has been satisfied.
                 co_return;
             case notify_status_t::awaiter_dead:
                 // This is an awaiter_with_wait_hook that timed out, try the next awaiter.
@@ -235,8 +244,7 @@ auto condition_variable::notify_all() -> coro::task<void>
         switch (co_await waiter->on_notify())
         {
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                coro::detail::awaiter_list_push(m_awaiters, waiter);
+                // The waiter re-enqueued itself since the predicate isn't ready, the notify has been satisfied.
                 break;
             case notify_status_t::ready:
             case notify_status_t::awaiter_dead:
-- 
2.43.0


From 2312a3a28bd0efde4980810df800541884378fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:03 +0000
Subject: [PATCH 10/52] fix: condition_variable waiters are removed by one
 notifier at a time

---
 include/coro/condition_variable.hpp |  9 ++++++++-
 src/condition_variable.cpp          | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 6cee095..bb00d0c 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -12,6 +12,7 @@
 #include <chrono>
 #include <condition_variable>
 #include <functional>
+#include <mutex>
 #include <optional>
 
 #ifdef LIBCORO_FEATURE_NETWORKING
@@ -405,7 +406,7 @@ public:
     template<coro::concepts::executor executor_type>
     auto notify_all(std::unique_ptr<executor_type>& executor) -> void
     {
-        auto* waiter = detail::awaiter_list_pop_all(m_awaiters);
+        auto* waiter = pop_all_waiters();
 
         while (waiter != nullptr)
         {
@@ -548,6 +549,12 @@ public:
 private:
     /// @brief The list of waiters.
     std::atomic<awaiter_base*> m_awaiters{nullptr};
+    /// @brief Only one notifier at a time can remove waiters, otherwise a notifier could look at a waiter that another
+    ///        notifier has already removed and resumed. Adding waiters doesn't need it.
+    std::mutex m_pop_mutex{};
+
+    auto pop_waiter() -> awaiter_base*;
+    auto pop_all_waiters() -> awaiter_base*;
 
     auto make_notify_all_executor_individual_task(awaiter_base* waiter) -> coro::task<void>
     {
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index bed60a6..b63219a 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -211,7 +211,7 @@ auto condition_variable::notify_one() -> coro::task<void>
     // The loop is here in case there are *dead* awaiter_hook_tasks that need to be skipped.
     while (true)
     {
-        auto* waiter = detail::awaiter_list_pop(m_awaiters);
+        auto* waiter = pop_waiter();
         if (waiter == nullptr)
         {
             co_return; // There is nobody to currently notify.
@@ -234,7 +234,7 @@ auto condition_variable::notify_one() -> coro::task<void>
 
 auto condition_variable::notify_all() -> coro::task<void>
 {
-    auto* waiter = detail::awaiter_list_pop_all(m_awaiters);
+    auto* waiter = pop_all_waiters();
 
     while (waiter != nullptr)
     {
@@ -258,6 +258,18 @@ auto condition_variable::notify_all() -> coro::task<void>
     co_return;
 }
 
+auto condition_variable::pop_waiter() -> awaiter_base*
+{
+    std::scoped_lock lk{m_pop_mutex};
+    return detail::awaiter_list_pop(m_awaiters);
+}
+
+auto condition_variable::pop_all_waiters() -> awaiter_base*
+{
+    std::scoped_lock lk{m_pop_mutex};
+    return detail::awaiter_list_pop_all(m_awaiters);
+}
+
 auto condition_variable::wait(coro::scoped_lock& lock) -> awaiter
 {
     return awaiter{*this, lock};
-- 
2.43.0


From e45e3048e625e64faf06f727219c4fef0a272052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:47 +0000
Subject: [PATCH 11/52] fix: thread_pool decides atomically with the shutdown
 if a task is accepted

---
 include/coro/thread_pool.hpp | 40 ++++++++--------
 src/thread_pool.cpp          | 89 +++++++++++++++++-------------------
 2 files changed, 61 insertions(+), 68 deletions(-)

diff --git a/include/coro/thread_pool.hpp b/include/coro/thread_pool.hpp
index 4853654..795b866 100644
--- a/include/coro/thread_pool.hpp
+++ b/include/coro/thread_pool.hpp
@@ -54,19 +54,22 @@ public:
         auto await_ready() noexcept -> bool { return false; }
 
         /**
-         * Suspending always returns to the caller (using void return of await_suspend()) and
-         * stores the coroutine internally for the executing thread to resume from.
+         * Stores the coroutine internally for the executing thread to resume from and returns to the caller,
+         * the coroutine isn't suspended only if the thread pool has been shut down.
          */
-        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void;
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool;
 
         /**
-         * no-op as this is the function called first by the thread pool's executing thread.
+         * This is the function called first by the thread pool's executing thread.
+         * @throw std::runtime_error If the thread pool has been shut down before the coroutine could be scheduled.
          */
-        auto await_resume() noexcept -> void {}
+        auto await_resume() -> void;
 
     private:
         /// @brief The thread pool that this schedule operation will execute on.
         thread_pool& m_thread_pool;
+        /// @brief True if the thread pool did not accept the coroutine.
+        bool m_refused{false};
     };
 
     struct options
@@ -173,36 +176,32 @@ public:
     /**
      * Schedules the set of coroutine handles that are ready to be resumed.
      * @param handles The coroutine handles to schedule.
-     * @return std::size_t The number of tasks resumed, if any are null they are discarded.
+     * @return std::size_t The number of tasks resumed, if any are null they are discarded. If the thread pool has been
+     *         shut down none are resumed.
      */
     template<coro::concepts::sized_range_of<std::coroutine_handle<>> range_type>
     auto resume(const range_type& handles) noexcept -> std::size_t
     {
-        m_size.fetch_add(std::size(handles), std::memory_order::release);
-
-        std::size_t null_handles{0};
+        std::size_t total{0};
 
         {
             std::scoped_lock lk{m_wait_mutex};
+            if (m_shutdown_requested.load(std::memory_order::acquire))
+            {
+                return 0;
+            }
+
             for (const auto& handle : handles)
             {
                 if (handle != nullptr) [[likely]]
                 {
+                    m_size.fetch_add(1, std::memory_order::release);
                     m_queue.emplace_back(handle);
-                }
-                else
-                {
-                    ++null_handles;
+                    ++total;
                 }
             }
         }
 
-        if (null_handles > 0)
-        {
-            m_size.fetch_sub(null_handles, std::memory_order::release);
-        }
-
-        std::size_t total = std::size(handles) - null_handles;
         if (total >= m_threads.size())
         {
             m_wait_cv.notify_all();
@@ -278,8 +277,9 @@ private:
     auto executor(std::size_t idx) -> void;
     /**
      * @param handle Schedules the given coroutine to be executed upon the first available thread.
+     * @return False if the thread pool has been shut down.
      */
-    auto schedule_impl(std::coroutine_handle<> handle) noexcept -> void;
+    auto schedule_impl(std::coroutine_handle<> handle) noexcept -> bool;
 
     /// The number of tasks in the queue + currently executing.
     std::atomic<std::size_t> m_size{0};
diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 5310c84..610c678 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -19,9 +19,24 @@ thread_pool::schedule_operation::schedule_operation(thread_pool& tp) noexcept :
 {
 }
 
-auto thread_pool::schedule_operation::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
+auto thread_pool::schedule_operation::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
 {
-    m_thread_pool.schedule_impl(awaiting_coroutine);
+    // Once it is accepted the coroutine can be resumed by an executor thread, this operation must not be used anymore.
+    if (m_thread_pool.schedule_impl(awaiting_coroutine))
+    {
+        return true;
+    }
+
+    m_refused = true;
+    return false;
+}
+
+auto thread_pool::schedule_operation::await_resume() -> void
+{
+    if (m_refused)
+    {
+        throw std::runtime_error("coro::thread_pool is shutting down, unable to schedule new tasks.");
+    }
 }
 
 thread_pool::thread_pool(options&& opts, private_constructor) : m_opts(opts)
@@ -50,14 +65,12 @@ thread_pool::~thread_pool()
 
 auto thread_pool::schedule() -> schedule_operation
 {
-    m_size.fetch_add(1, std::memory_order::release);
     if (!m_shutdown_requested.load(std::memory_order::acquire))
     {
         return schedule_operation{*this};
     }
     else
     {
-        m_size.fetch_sub(1, std::memory_order::release);
         throw std::runtime_error("coro::thread_pool is shutting down, unable to schedule new tasks.");
     }
 }
@@ -83,29 +96,24 @@ auto thread_pool::resume(std::coroutine_handle<> handle) noexcept -> bool
         return false;
     }
 
-    m_size.fetch_add(1, std::memory_order::release);
-    if (m_shutdown_requested.load(std::memory_order::acquire))
-    {
-        m_size.fetch_sub(1, std::memory_order::release);
-        return false;
-    }
-
-    schedule_impl(handle);
-    return true;
+    return schedule_impl(handle);
 }
 
 auto thread_pool::shutdown() noexcept -> void
 {
-    // Only allow shutdown to occur once.
-    if (m_shutdown_requested.exchange(true, std::memory_order::acq_rel) == false)
+    bool already_requested{false};
     {
-        {
-            // There is a race condition if we are not holding the lock with the executors
-            // to always receive this.  std::jthread stop token works without this properly.
-            std::unique_lock<std::mutex> lk{m_wait_mutex};
-            m_wait_cv.notify_all();
-        }
+        // There is a race condition if we are not holding the lock with the executors
+        // to always receive this.  std::jthread stop token works without this properly.
+        // This also decides for each task if it is accepted, and in the queue, or not.
+        std::unique_lock<std::mutex> lk{m_wait_mutex};
+        already_requested = m_shutdown_requested.exchange(true, std::memory_order::acq_rel);
+        m_wait_cv.notify_all();
+    }
 
+    // Only allow shutdown to occur once.
+    if (!already_requested)
+    {
         for (auto& thread : m_threads)
         {
             if (thread.joinable())
@@ -123,32 +131,12 @@ auto thread_pool::executor(std::size_t idx) -> void
         m_opts.on_thread_start_functor(idx);
     }
 
-    // Process until shutdown is requested.
-    while (!m_shutdown_requested.load(std::memory_order::acquire))
+    // Process until shutdown is requested and there are no ready tasks left, no tasks are accepted after the shutdown.
+    while (true)
     {
         std::unique_lock<std::mutex> lk{m_wait_mutex};
         m_wait_cv.wait(lk, [&]() { return !m_queue.empty() || m_shutdown_requested.load(std::memory_order::acquire); });
 
-        if (m_queue.empty())
-        {
-            continue;
-        }
-
-        auto handle = m_queue.front();
-        m_queue.pop_front();
-        lk.unlock();
-
-        // Release the lock while executing the coroutine.
-        handle.resume();
-        m_size.fetch_sub(1, std::memory_order::release);
-    }
-
-    // Process until there are no ready tasks left.
-    while (m_size.load(std::memory_order::acquire) > 0)
-    {
-        std::unique_lock<std::mutex> lk{m_wait_mutex};
-        // m_size will only drop to zero once all executing coroutines are finished
-        // but the queue could be empty for threads that finished early.
         if (m_queue.empty())
         {
             break;
@@ -169,18 +157,23 @@ auto thread_pool::executor(std::size_t idx) -> void
     }
 }
 
-auto thread_pool::schedule_impl(std::coroutine_handle<> handle) noexcept -> void
+auto thread_pool::schedule_impl(std::coroutine_handle<> handle) noexcept -> bool
 {
     if (handle == nullptr || handle.done())
     {
-        return;
+        return false;
     }
 
+    std::scoped_lock lk{m_wait_mutex};
+    if (m_shutdown_requested.load(std::memory_order::acquire))
     {
-        std::scoped_lock lk{m_wait_mutex};
-        m_queue.emplace_back(handle);
-        m_wait_cv.notify_one();
+        return false;
     }
+
+    m_size.fetch_add(1, std::memory_order::release);
+    m_queue.emplace_back(handle);
+    m_wait_cv.notify_one();
+    return true;
 }
 
 } // namespace coro
-- 
2.43.0


From a729e0d4b6aaecc619e99cd40703f28a71b096fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:48 +0000
Subject: [PATCH 12/52] fix: thread_pool::shutdown waits for the executor
 threads in every caller but a task of its own

---
 include/coro/thread_pool.hpp |  7 ++++++-
 src/thread_pool.cpp          | 28 +++++++++++++++++++---------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/coro/thread_pool.hpp b/include/coro/thread_pool.hpp
index 795b866..d01cc1a 100644
--- a/include/coro/thread_pool.hpp
+++ b/include/coro/thread_pool.hpp
@@ -228,7 +228,8 @@ public:
     /**
      * Shuts down the thread pool.  This will finish any tasks scheduled prior to calling this
      * function but will prevent the thread pool from scheduling any new tasks.  This call is
-     * blocking and will wait until all inflight tasks are completed before returning.
+     * blocking and will wait until all inflight tasks are completed before returning, unless it is called from
+     * one of the thread pool's tasks.
      */
     auto shutdown() noexcept -> void;
 
@@ -267,6 +268,10 @@ private:
     std::mutex m_wait_mutex;
     /// Condition variable for each executor thread to wait on when no tasks are available.
     std::condition_variable_any m_wait_cv;
+    /// The ids of the executor threads, guarded by the wait mutex.
+    std::vector<std::thread::id> m_executor_ids;
+    /// Mutex for joining the executor threads.
+    std::mutex m_join_mutex;
     /// FIFO queue of tasks waiting to be executed.
     std::deque<std::coroutine_handle<>> m_queue;
 
diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 610c678..8676b72 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -1,6 +1,8 @@
 #include "coro/thread_pool.hpp"
 #include "coro/detail/task_self_deleting.hpp"
 
+#include <algorithm>
+
 namespace coro
 {
 
@@ -101,31 +103,39 @@ auto thread_pool::resume(std::coroutine_handle<> handle) noexcept -> bool
 
 auto thread_pool::shutdown() noexcept -> void
 {
-    bool already_requested{false};
     {
         // There is a race condition if we are not holding the lock with the executors
         // to always receive this.  std::jthread stop token works without this properly.
         // This also decides for each task if it is accepted, and in the queue, or not.
         std::unique_lock<std::mutex> lk{m_wait_mutex};
-        already_requested = m_shutdown_requested.exchange(true, std::memory_order::acq_rel);
+        m_shutdown_requested.exchange(true, std::memory_order::acq_rel);
         m_wait_cv.notify_all();
+
+        // An executor thread cannot wait for itself.
+        if (std::find(m_executor_ids.begin(), m_executor_ids.end(), std::this_thread::get_id()) != m_executor_ids.end())
+        {
+            return;
+        }
     }
 
-    // Only allow shutdown to occur once.
-    if (!already_requested)
+    // Every caller waits until the executor threads have stopped.
+    std::scoped_lock lk{m_join_mutex};
+    for (auto& thread : m_threads)
     {
-        for (auto& thread : m_threads)
+        if (thread.joinable())
         {
-            if (thread.joinable())
-            {
-                thread.join();
-            }
+            thread.join();
         }
     }
 }
 
 auto thread_pool::executor(std::size_t idx) -> void
 {
+    {
+        std::scoped_lock lk{m_wait_mutex};
+        m_executor_ids.emplace_back(std::this_thread::get_id());
+    }
+
     if (m_opts.on_thread_start_functor != nullptr)
     {
         m_opts.on_thread_start_functor(idx);
-- 
2.43.0


From 9ea9bef496c72750adff02f6fc6fc2e5a19603eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:16 +0000
Subject: [PATCH 13/52] fix: thread_pool::spawn_detached releases a task it
 could not spawn

---
 src/thread_pool.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 8676b72..98841e2 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -82,7 +82,14 @@ auto thread_pool::spawn_detached(coro::task<void>&& task) noexcept -> bool
     m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    return resume(wrapper_task.handle());
+    if (!resume(wrapper_task.handle()))
+    {
+        // The task is never going to run, release it.
+        m_size.fetch_sub(1, std::memory_order::release);
+        wrapper_task.handle().destroy();
+        return false;
+    }
+    return true;
 }
 
 auto thread_pool::spawn_joinable(coro::task<void>&& task) noexcept -> coro::task<void>
-- 
2.43.0


From f4cce8efc7519db5b2c083af3e46c8d4ae191f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:17 +0000
Subject: [PATCH 14/52] fix: task_group releases its waiters exactly when no
 task is active

start() reset the event before it counted the task and the last task set the event after it counted itself down, so a
waiter could be let through while a task was running or be left waiting, and the event could be set after the group was
destructed.
---
 include/coro/task_group.hpp | 82 ++++++++++++++++++++++++++++++++-----
 1 file changed, 72 insertions(+), 10 deletions(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index 14a9ae1..237f9c0 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -3,12 +3,16 @@
 #include "coro/concepts/executor.hpp"
 #include "coro/concepts/range_of.hpp"
 #include "coro/detail/task_self_deleting.hpp"
-#include "coro/event.hpp"
 #include "coro/task.hpp"
 
 #include <atomic>
+#include <chrono>
+#include <coroutine>
 #include <memory>
+#include <mutex>
+#include <stdexcept>
 #include <thread>
+#include <utility>
 
 namespace coro
 {
@@ -17,6 +21,42 @@ template<concepts::executor executor_type>
 class task_group
 {
 public:
+    struct awaiter
+    {
+        explicit awaiter(const task_group& group) noexcept : m_group(group) {}
+
+        /**
+         * @return True if the group has no active tasks, otherwise false to suspend this coroutine.
+         */
+        auto await_ready() const noexcept -> bool { return m_group.empty(); }
+
+        /**
+         * @return False if the group ran out of active tasks in the meantime, otherwise true to suspend this coroutine.
+         */
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
+        {
+            m_awaiting_coroutine = awaiting_coroutine;
+
+            std::scoped_lock lk{m_group.m_mutex};
+            if (m_group.empty())
+            {
+                return false;
+            }
+            m_next             = m_group.m_waiters;
+            m_group.m_waiters = this;
+            return true;
+        }
+
+        auto await_resume() noexcept -> void {}
+
+        /// The group that is waited upon.
+        const task_group& m_group;
+        /// The next awaiter of the group, nullptr if this is the last one.
+        awaiter* m_next{nullptr};
+        /// The coroutine to resume when the group is empty.
+        std::coroutine_handle<> m_awaiting_coroutine{nullptr};
+    };
+
     /**
      * Creates a task group to run the tasks on the given executor, use start(task) to add tasks to the group.
      * @param executor The executor to run the tasks on.
@@ -81,7 +121,14 @@ public:
      */
     ~task_group()
     {
-        while (!empty())
+        // The last task to complete has to be done with the group, it counts itself down while holding the lock.
+        const auto is_empty = [this]() -> bool
+        {
+            std::scoped_lock lk{m_mutex};
+            return empty();
+        };
+
+        while (!is_empty())
         {
             // Sleep a bit so the cpu doesn't totally churn.
             std::this_thread::sleep_for(std::chrono::milliseconds{10});
@@ -96,9 +143,10 @@ public:
      */
     [[nodiscard]] auto start(coro::task<void>&& task) -> bool
     {
-        // Make sure the event isn't triggered, or can trigger again.
-        m_on_empty_event.reset();
-        m_size.fetch_add(1, std::memory_order::release);
+        {
+            std::scoped_lock lk{m_mutex};
+            m_size.fetch_add(1, std::memory_order::release);
+        }
         auto wrapper_task = detail::make_task_self_deleting(std::move(task));
         wrapper_task.promise().user_final_suspend([this]() -> void { count_down(); });
 
@@ -127,20 +175,34 @@ public:
      * for the task count to drop to zero and then increase again. It is advisable to not
      * await this method on the task group until you know all tasks in the group have started.
      */
-    auto operator co_await() const noexcept -> event::awaiter { return m_on_empty_event.operator co_await(); }
+    auto operator co_await() const noexcept -> awaiter { return awaiter{*this}; }
 
 private:
     executor_type* m_executor{nullptr};
+    /// Guards the transitions of m_size to and from zero together with the waiters.
+    mutable std::mutex m_mutex{};
     /// The number of alive tasks.
     std::atomic<uint64_t> m_size{};
-    /// Event to trigger if m_size goes to zero.
-    coro::event m_on_empty_event{true};
+    /// The coroutines to resume when m_size goes to zero.
+    mutable awaiter* m_waiters{nullptr};
 
     auto count_down() -> void
     {
-        if (m_size.fetch_sub(1, std::memory_order::acq_rel) == 1)
+        awaiter* waiters{nullptr};
+        {
+            std::scoped_lock lk{m_mutex};
+            if (m_size.fetch_sub(1, std::memory_order::acq_rel) == 1)
+            {
+                waiters = std::exchange(m_waiters, nullptr);
+            }
+        }
+
+        // The group might be destructed from here on, only the waiters are known to be alive.
+        while (waiters != nullptr)
         {
-            m_on_empty_event.set();
+            auto* next = waiters->m_next;
+            waiters->m_awaiting_coroutine.resume();
+            waiters = next;
         }
     }
 };
-- 
2.43.0


From 59f5a20897bd3865263f43ec19a986e70471f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:17 +0000
Subject: [PATCH 15/52] fix: task_group::start releases a task its executor
 does not take

---
 include/coro/task_group.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index 237f9c0..5558e95 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -153,6 +153,8 @@ public:
         // Kick it.
         if (!m_executor->resume(wrapper_task.handle()))
         {
+            // The executor did not take the task so it is still suspended and owned here.
+            wrapper_task.handle().destroy();
             count_down();
             return false;
         }
-- 
2.43.0


From 2a793772c440ba236f5ce3831cc3612771b87adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:18 +0000
Subject: [PATCH 16/52] fix: io_notifier_epoll::next_events does not read a
 poll_info that is none

---
 src/detail/io_notifier_epoll.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 4723aa5..219277a 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -153,7 +153,7 @@ auto io_notifier_epoll::next_events(
         else
         {
             ready_events.emplace_back(pi, io_notifier_epoll::event_to_poll_status(ready_set[i]));
-            if (pi->m_cancel_trigger.has_value() && !keep_registered)
+            if (!keep_registered && pi->m_cancel_trigger.has_value())
             {
                 unwatch(pi->m_cancel_trigger.value().native_handle(), poll_op::read);
             }
-- 
2.43.0


From 8790396c5ec236f5377972aef8706d5a62267e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:21 +0000
Subject: [PATCH 17/52] fix: scheduler::schedule_operation does not use itself
 after it has been queued

---
 include/coro/scheduler.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 25e16f7..0eabec8 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -146,19 +146,22 @@ public:
          */
         auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
         {
-            if (m_scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
+            auto& s = m_scheduler;
+            if (s.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
             {
-                m_scheduler.m_size.fetch_add(1, std::memory_order::release);
+                s.m_size.fetch_add(1, std::memory_order::release);
                 m_awaiting_coroutine = awaiting_coroutine;
-                detail::awaiter_list_push(m_scheduler.m_scheduled_ops, this);
+                detail::awaiter_list_push(s.m_scheduled_ops, this);
+
+                // From here on the event loop can resume the coroutine, this operation must not be used anymore.
 
                 // Trigger the event to wake-up the scheduler if this event isn't currently triggered.
                 bool expected{false};
-                if (m_scheduler.m_schedule_pipe_triggered.compare_exchange_strong(
+                if (s.m_schedule_pipe_triggered.compare_exchange_strong(
                         expected, true, std::memory_order::release, std::memory_order::relaxed))
                 {
                     constexpr int control = 1;
-                    ssize_t       written = m_scheduler.m_schedule_pipe.write(&control, sizeof(control));
+                    ssize_t       written = s.m_schedule_pipe.write(&control, sizeof(control));
                     if (written != sizeof(control))
                     {
                         std::cerr
@@ -169,7 +172,7 @@ public:
             }
             else
             {
-                m_scheduler.m_thread_pool->resume(awaiting_coroutine);
+                s.m_thread_pool->resume(awaiting_coroutine);
             }
         }
 
-- 
2.43.0


From 92a9584b883336bcbd301283176d4e8a4034b3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:00 +0000
Subject: [PATCH 18/52] fix: scheduler::spawn_detached releases a task it could
 not spawn

---
 src/scheduler.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 07b6f8e..d9f45bb 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -87,7 +87,14 @@ auto scheduler::spawn_detached(coro::task<void>&& task) -> bool
     m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    return resume(wrapper_task.handle());
+    if (!resume(wrapper_task.handle()))
+    {
+        // The task is never going to run, release it.
+        m_size.fetch_sub(1, std::memory_order::release);
+        wrapper_task.handle().destroy();
+        return false;
+    }
+    return true;
 }
 
 auto scheduler::spawn_joinable(coro::task<void>&& task) -> coro::task<void>
-- 
2.43.0


From 960a0321576a377cdf33a3ecae8ce3524334b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:15 +0000
Subject: [PATCH 19/52] fix: scheduler decides atomically with the end of the
 event loop if a task is accepted

---
 include/coro/scheduler.hpp | 45 +++++++++++++++++++++++-------
 src/scheduler.cpp          | 56 ++++++++++++++++++++++++++++++++++----
 2 files changed, 86 insertions(+), 15 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 0eabec8..d967392 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -141,15 +141,20 @@ public:
         auto await_ready() noexcept -> bool { return false; }
 
         /**
-         * Suspending always returns to the caller (using void return of await_suspend()) and
-         * stores the coroutine internally for the executing thread to resume from.
+         * Suspending returns to the caller and stores the coroutine internally for the executing
+         * thread to resume from.
+         * @return False if the scheduler is shut down and does not execute the coroutine anymore.
          */
-        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
         {
             auto& s = m_scheduler;
             if (s.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
             {
-                s.m_size.fetch_add(1, std::memory_order::release);
+                if (!s.try_acquire_size())
+                {
+                    m_refused = true;
+                    return false;
+                }
                 m_awaiting_coroutine = awaiting_coroutine;
                 detail::awaiter_list_push(s.m_scheduled_ops, this);
 
@@ -170,20 +175,31 @@ public:
                     }
                 }
             }
-            else
+            else if (!s.m_thread_pool->resume(awaiting_coroutine))
             {
-                s.m_thread_pool->resume(awaiting_coroutine);
+                m_refused = true;
+                return false;
             }
+
+            return true;
         }
 
         /**
-         * no-op as this is the function called first by the thread pool's executing thread.
+         * This is the function called first by the executing thread.
+         * @throw std::runtime_error If the scheduler is shut down.
          */
-        auto await_resume() noexcept -> void {}
+        auto await_resume() -> void
+        {
+            if (m_refused)
+            {
+                throw_shutdown();
+            }
+        }
 
         std::coroutine_handle<> m_awaiting_coroutine;
         schedule_operation*     m_next{nullptr};
         bool                    m_allocated{false};
+        bool                    m_refused{false};
 
     private:
         /// The thread pool that this operation will execute on.
@@ -437,11 +453,11 @@ public:
     {
         if (m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
         {
-            return m_size.load(std::memory_order::acquire);
+            return m_size.load(std::memory_order::acquire) & ~m_size_closed;
         }
         else
         {
-            return m_size.load(std::memory_order::acquire) + m_thread_pool->size();
+            return (m_size.load(std::memory_order::acquire) & ~m_size_closed) + m_thread_pool->size();
         }
     }
 
@@ -479,6 +495,15 @@ private:
 
     /// The number of tasks executing or awaiting events in this io scheduler.
     std::atomic<std::size_t> m_size{0};
+    /// Set in m_size by the event loop when it ends, from there on nothing is accepted anymore.
+    static constexpr std::size_t m_size_closed = ~(~std::size_t{0} >> 1);
+
+    /// Accounts for another task unless the event loop has ended.
+    auto try_acquire_size() noexcept -> bool;
+    /// Ends the event loop if there are no tasks left.
+    auto try_close() noexcept -> bool;
+    /// Reports that the scheduler cannot execute a coroutine anymore.
+    [[noreturn]] static auto throw_shutdown() -> void;
 
     /// The background io worker threads.
     std::thread m_io_thread;
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index d9f45bb..ea3735c 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -119,7 +119,10 @@ auto scheduler::yield_until(time_point time) -> coro::task<void>
     }
     else
     {
-        m_size.fetch_add(1, std::memory_order::release);
+        if (!try_acquire_size())
+        {
+            throw_shutdown();
+        }
 
         auto amount = std::chrono::duration_cast<std::chrono::milliseconds>(time - now);
 
@@ -138,7 +141,11 @@ auto scheduler::poll(
 {
     // Because the size will drop when this coroutine suspends every poll needs to undo the subtraction
     // on the number of active tasks in the scheduler.  When this task is resumed by the event loop.
-    m_size.fetch_add(1, std::memory_order::release);
+    if (!try_acquire_size())
+    {
+        // The event loop has ended.
+        co_return poll_status::error;
+    }
 
     // Setup two events, a timeout event and the actual poll for op event.
     // Whichever triggers first will delete the other to guarantee only one wins.
@@ -181,7 +188,11 @@ auto scheduler::resume(std::coroutine_handle<> handle) -> bool
     {
         auto* schedule_op        = new schedule_operation{*this};
         schedule_op->m_allocated = true;
-        schedule_op->await_suspend(handle);
+        if (!schedule_op->await_suspend(handle))
+        {
+            delete schedule_op;
+            return false;
+        }
         return true;
     }
     else
@@ -227,7 +238,10 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
         // Yield/timeout tasks are considered live in the scheduler and must be accounted for. Note
         // that if the user gives an invalid amount and schedule() is directly called it will account
         // for the scheduled task there.
-        m_size.fetch_add(1, std::memory_order::release);
+        if (!try_acquire_size())
+        {
+            throw_shutdown();
+        }
 
         // Yielding does not require setting the timer position on the poll info since
         // it doesn't have a corresponding 'event' that can trigger, it always waits for
@@ -240,6 +254,38 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
     co_return;
 }
 
+auto scheduler::try_acquire_size() noexcept -> bool
+{
+    auto size = m_size.load(std::memory_order::acquire);
+    do
+    {
+        if (size & m_size_closed)
+        {
+            return false;
+        }
+    } while (!m_size.compare_exchange_weak(size, size + 1, std::memory_order::acq_rel, std::memory_order::acquire));
+
+    return true;
+}
+
+auto scheduler::try_close() noexcept -> bool
+{
+    // The thread pool has to be checked first, only the event loop moves tasks from m_size to the thread pool.
+    if (m_thread_pool != nullptr && !m_thread_pool->empty())
+    {
+        return false;
+    }
+
+    std::size_t expected{0};
+    return m_size.compare_exchange_strong(
+        expected, m_size_closed, std::memory_order::acq_rel, std::memory_order::acquire);
+}
+
+auto scheduler::throw_shutdown() -> void
+{
+    throw std::runtime_error("coro::scheduler is shutting down, unable to schedule new tasks.");
+}
+
 auto scheduler::process_events_manual(std::chrono::milliseconds timeout) -> void
 {
     bool expected{false};
@@ -259,7 +305,7 @@ auto scheduler::process_events_dedicated_thread() -> void
 
     m_io_processing.exchange(true, std::memory_order::release);
     // Execute tasks until stopped or there are no more tasks to complete.
-    while (!m_shutdown_requested.load(std::memory_order::acquire) || size() > 0)
+    while (!m_shutdown_requested.load(std::memory_order::acquire) || !try_close())
     {
         process_events_execute(m_default_timeout);
     }
-- 
2.43.0


From 8bf9757f648c171bf1d468c2f7a3998eafee819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:37 +0000
Subject: [PATCH 20/52] fix: scheduler::yield_until does not resume before the
 given time

---
 src/scheduler.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index ea3735c..c9c8a06 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -124,10 +124,8 @@ auto scheduler::yield_until(time_point time) -> coro::task<void>
             throw_shutdown();
         }
 
-        auto amount = std::chrono::duration_cast<std::chrono::milliseconds>(time - now);
-
         detail::poll_info pi{};
-        add_timer_token(now + amount, pi);
+        add_timer_token(time, pi);
         co_await pi;
     }
     co_return;
-- 
2.43.0


From 9b91e1320dd065502f0564610fa3940bd9cab80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:25 +0000
Subject: [PATCH 21/52] fix: scheduler does not disarm or delay a timer that is
 added while it processes others

---
 src/scheduler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index c9c8a06..0fea6b0 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -515,6 +515,7 @@ auto scheduler::process_timeout_execute() -> void
 
     // Update the time to the next smallest time point, re-take the current now time
     // since updating and resuming tasks could shift the time.
+    std::scoped_lock lk{m_timed_events_mutex};
     update_timeout(clock::now());
 }
 
-- 
2.43.0


From d8055e82e7eb10f678251a5751fbd25487025d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:55 +0000
Subject: [PATCH 22/52] fix: scheduler removes the events of a poll after the
 poll has set them up

---
 src/scheduler.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 0fea6b0..4e47967 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -442,6 +442,12 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
         // is ever processed, the other is discarded.
         pi->m_processed = true;
 
+        // The poll() might still be setting up its events, wait for it to suspend so that all of them are removed.
+        while (pi->m_awaiting_coroutine == nullptr)
+        {
+            std::atomic_thread_fence(std::memory_order::acquire);
+        }
+
         // Given a valid fd always remove it from epoll so the next poll can blindly EPOLL_CTL_ADD.
         if (pi->m_fd != -1)
         {
@@ -456,11 +462,6 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
 
         pi->m_poll_status = status;
 
-        while (pi->m_awaiting_coroutine == nullptr)
-        {
-            std::atomic_thread_fence(std::memory_order::acquire);
-        }
-
         m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
     }
 }
@@ -497,15 +498,16 @@ auto scheduler::process_timeout_execute() -> void
             // is ever processed, the other is discarded.
             pi->m_processed = true;
 
-            // Since this timed out, remove its corresponding event if it has one.
-            if (pi->m_fd != -1)
+            // The poll() might still be setting up its events, wait for it to suspend so that all of them are removed.
+            while (pi->m_awaiting_coroutine == nullptr)
             {
-                m_io_notifier.unwatch(*pi);
+                std::atomic_thread_fence(std::memory_order::acquire);
             }
 
-            while (pi->m_awaiting_coroutine == nullptr)
+            // Since this timed out, remove its corresponding event if it has one.
+            if (pi->m_fd != -1)
             {
-                std::atomic_thread_fence(std::memory_order::acquire);
+                m_io_notifier.unwatch(*pi);
             }
 
             m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
-- 
2.43.0


From d2ad1a02cced50a60030100b8f072276ed78e3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:41 +0000
Subject: [PATCH 23/52] fix: io_notifier_epoll::unwatch removes the cancel
 trigger of a poll too

---
 src/detail/io_notifier_epoll.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 219277a..8f02d88 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -118,6 +118,11 @@ auto io_notifier_epoll::unwatch(fd_t fd, poll_op) -> bool
 
 auto io_notifier_epoll::unwatch(poll_info& pi) -> bool
 {
+    if (pi.m_cancel_trigger.has_value())
+    {
+        unwatch(pi.m_cancel_trigger.value().native_handle(), poll_op::read);
+    }
+
     return unwatch(pi.m_fd, pi.m_op);
 }
 
-- 
2.43.0


From 1448bc253d9e2b5063bf9c6ffe1717786b150ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:21 +0000
Subject: [PATCH 24/52] fix: when_any completes with the exception of an
 awaitable that throws first

---
 include/coro/when_any.hpp | 167 ++++++++++++++++++++++++++++----------
 1 file changed, 126 insertions(+), 41 deletions(-)

diff --git a/include/coro/when_any.hpp b/include/coro/when_any.hpp
index ba73d79..62387a5 100644
--- a/include/coro/when_any.hpp
+++ b/include/coro/when_any.hpp
@@ -14,6 +14,7 @@
     #include <atomic>
     #include <cassert>
     #include <coroutine>
+    #include <exception>
     #include <optional>
     #include <stop_token>
     #include <utility>
@@ -39,30 +40,49 @@ struct when_any_variant_traits<void>
 
 template<size_t index, typename return_type, concepts::awaitable awaitable>
 auto make_when_any_tuple_task(
-    std::atomic<bool>& first_completed, coro::event& notify, std::optional<return_type>& return_value, awaitable a)
-    -> coro::task<void>
+    std::atomic<bool>&          first_completed,
+    coro::event&                notify,
+    std::optional<return_type>& return_value,
+    std::exception_ptr&         exception,
+    awaitable                   a) -> coro::task<void>
 {
-    auto expected = false;
-    if constexpr (concepts::awaitable_void<awaitable>)
+    auto               expected = false;
+    std::exception_ptr caught{nullptr};
+    try
     {
-        co_await static_cast<awaitable&&>(a);
-        if (first_completed.compare_exchange_strong(
-                expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if constexpr (concepts::awaitable_void<awaitable>)
         {
-            return_value.emplace(std::in_place_index<index>, std::monostate{});
-            notify.set();
+            co_await static_cast<awaitable&&>(a);
+            if (first_completed.compare_exchange_strong(
+                    expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
+            {
+                return_value.emplace(std::in_place_index<index>, std::monostate{});
+                notify.set();
+            }
         }
-    }
-    else
-    {
-        auto result = co_await static_cast<awaitable&&>(a);
-        if (first_completed.compare_exchange_strong(
-                expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
+        else
         {
-            return_value.emplace(std::in_place_index<index>, std::move(result));
-            notify.set();
+            auto result = co_await static_cast<awaitable&&>(a);
+            if (first_completed.compare_exchange_strong(
+                    expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
+            {
+                return_value.emplace(std::in_place_index<index>, std::move(result));
+                notify.set();
+            }
         }
     }
+    catch (...)
+    {
+        caught = std::current_exception();
+    }
+
+    // An exception completes the awaitable too.
+    if (caught != nullptr && first_completed.compare_exchange_strong(
+                                 expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
+    {
+        exception = std::move(caught);
+        notify.set();
+    }
     co_return;
 }
 
@@ -71,22 +91,34 @@ template<typename return_type, concepts::awaitable... awaitable_type, size_t...
     std::index_sequence<indices...>,
     coro::event&                notify,
     std::optional<return_type>& return_value,
+    std::exception_ptr&         exception,
     awaitable_type... awaitables) -> coro::detail::task_self_deleting
 {
     std::atomic<bool> first_completed{false};
     co_await coro::when_all(
-        make_when_any_tuple_task<indices>(first_completed, notify, return_value, std::move(awaitables))...);
+        make_when_any_tuple_task<indices>(first_completed, notify, return_value, exception, std::move(awaitables))...);
     co_return;
 }
 
 template<concepts::awaitable awaitable>
-static auto make_when_any_task_return_void(awaitable a, std::atomic<bool>& first_completed, coro::event& notify)
+static auto make_when_any_task_return_void(
+    awaitable a, std::atomic<bool>& first_completed, coro::event& notify, std::exception_ptr& exception)
     -> coro::task<void>
 {
-    co_await static_cast<awaitable&&>(a);
+    std::exception_ptr caught{nullptr};
+    try
+    {
+        co_await static_cast<awaitable&&>(a);
+    }
+    catch (...)
+    {
+        caught = std::current_exception();
+    }
+
     auto expected = false;
     if (first_completed.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
     {
+        exception = std::move(caught);
         notify.set(); // This will trigger the controller task to wake up exactly once.
     }
     co_return;
@@ -94,16 +126,36 @@ static auto make_when_any_task_return_void(awaitable a, std::atomic<bool>& first
 
 template<concepts::awaitable awaitable, typename return_type>
 static auto make_when_any_task(
-    awaitable a, std::atomic<bool>& first_completed, coro::event& notify, std::optional<return_type>& return_value)
-    -> coro::task<void>
+    awaitable                   a,
+    std::atomic<bool>&          first_completed,
+    coro::event&                notify,
+    std::optional<return_type>& return_value,
+    std::exception_ptr&         exception) -> coro::task<void>
 {
-    auto expected = false;
-    auto result   = co_await static_cast<awaitable&&>(a);
-    // Its important to only touch return_value and notify once since their lifetimes will be destroyed
-    // after being set and notified the first time.
-    if (first_completed.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
+    auto               expected = false;
+    std::exception_ptr caught{nullptr};
+    try
+    {
+        auto result = co_await static_cast<awaitable&&>(a);
+        // Its important to only touch return_value and notify once since their lifetimes will be destroyed
+        // after being set and notified the first time.
+        if (first_completed.compare_exchange_strong(
+                expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
+        {
+            return_value = std::move(result);
+            notify.set();
+        }
+    }
+    catch (...)
+    {
+        caught = std::current_exception();
+    }
+
+    // An exception completes the awaitable too.
+    if (caught != nullptr && first_completed.compare_exchange_strong(
+                                 expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
     {
-        return_value = std::move(result);
+        exception = std::move(caught);
         notify.set();
     }
 
@@ -111,8 +163,8 @@ static auto make_when_any_task(
 }
 
 template<std::ranges::range range_type, concepts::awaitable awaitable_type = std::ranges::range_value_t<range_type>>
-static auto make_when_any_controller_task_return_void(range_type awaitables, coro::event& notify)
-    -> coro::detail::task_self_deleting
+static auto make_when_any_controller_task_return_void(
+    range_type awaitables, coro::event& notify, std::exception_ptr& exception) -> coro::detail::task_self_deleting
 {
     std::atomic<bool>             first_completed{false};
     std::vector<coro::task<void>> tasks{};
@@ -124,7 +176,8 @@ static auto make_when_any_controller_task_return_void(range_type awaitables, cor
 
     for (auto&& a : awaitables)
     {
-        tasks.emplace_back(make_when_any_task_return_void<awaitable_type>(std::move(a), first_completed, notify));
+        tasks.emplace_back(
+            make_when_any_task_return_void<awaitable_type>(std::move(a), first_completed, notify, exception));
     }
 
     co_await coro::when_all(std::move(tasks));
@@ -137,8 +190,10 @@ template<
     typename return_type               = typename concepts::awaitable_traits<awaitable_type>::awaiter_return_type,
     typename return_type_base          = std::remove_reference_t<return_type>>
 static auto make_when_any_controller_task(
-    range_type awaitables, coro::event& notify, std::optional<return_type_base>& return_value)
-    -> coro::detail::task_self_deleting
+    range_type                       awaitables,
+    coro::event&                     notify,
+    std::optional<return_type_base>& return_value,
+    std::exception_ptr&              exception) -> coro::detail::task_self_deleting
 {
     // This must live for as long as the longest running when_any task since each task tries to see
     // if it was the first to complete. Only the very first task to complete will set the return_value
@@ -155,8 +210,8 @@ static auto make_when_any_controller_task(
 
     for (auto&& a : awaitables)
     {
-        tasks.emplace_back(
-            make_when_any_task<awaitable_type, return_type_base>(std::move(a), first_completed, notify, return_value));
+        tasks.emplace_back(make_when_any_task<awaitable_type, return_type_base>(
+            std::move(a), first_completed, notify, return_value, exception));
     }
 
     co_await coro::when_all(std::move(tasks));
@@ -175,16 +230,22 @@ template<concepts::awaitable... awaitable_type>
 
     coro::event                notify{};
     std::optional<return_type> return_value{std::nullopt};
+    std::exception_ptr         exception{nullptr};
 
     auto controller_task = detail::make_when_any_tuple_controller_task(
         std::index_sequence_for<awaitable_type...>{},
         notify,
         return_value,
+        exception,
         std::forward<awaitable_type>(awaitables)...);
     controller_task.handle().resume();
 
     co_await notify;
     stop_source.request_stop();
+    if (exception != nullptr)
+    {
+        std::rethrow_exception(exception);
+    }
     co_return std::move(return_value.value());
 }
 
@@ -198,15 +259,21 @@ template<concepts::awaitable... awaitable_type>
 
     coro::event                notify{};
     std::optional<return_type> return_value{std::nullopt};
+    std::exception_ptr         exception{nullptr};
 
     auto controller_task = detail::make_when_any_tuple_controller_task(
         std::index_sequence_for<awaitable_type...>{},
         notify,
         return_value,
+        exception,
         std::forward<awaitable_type>(awaitables)...);
     controller_task.handle().resume();
 
     co_await notify;
+    if (exception != nullptr)
+    {
+        std::rethrow_exception(exception);
+    }
     co_return std::move(return_value.value());
 }
 
@@ -217,16 +284,21 @@ template<
     typename return_type_base          = std::remove_reference_t<return_type>>
 [[nodiscard]] auto when_any(std::stop_source stop_source, range_type awaitables) -> coro::task<return_type_base>
 {
-    coro::event notify{};
+    coro::event        notify{};
+    std::exception_ptr exception{nullptr};
 
     if constexpr (std::is_void_v<return_type_base>)
     {
         auto controller_task =
-            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify);
+            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify, exception);
         controller_task.handle().resume();
 
         co_await notify;
         stop_source.request_stop();
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
     else
@@ -235,11 +307,15 @@ template<
         std::optional<return_type_base> return_value{std::nullopt};
 
         auto controller_task =
-            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value);
+            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value, exception);
         controller_task.handle().resume();
 
         co_await notify;
         stop_source.request_stop();
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return std::move(return_value.value());
     }
 }
@@ -251,15 +327,20 @@ template<
     typename return_type_base          = std::remove_reference_t<return_type>>
 [[nodiscard]] auto when_any(range_type awaitables) -> coro::task<return_type_base>
 {
-    coro::event notify{};
+    coro::event        notify{};
+    std::exception_ptr exception{nullptr};
 
     if constexpr (std::is_void_v<return_type_base>)
     {
         auto controller_task =
-            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify);
+            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify, exception);
         controller_task.handle().resume();
 
         co_await notify;
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
     else
@@ -267,10 +348,14 @@ template<
         std::optional<return_type_base> return_value{std::nullopt};
 
         auto controller_task =
-            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value);
+            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value, exception);
         controller_task.handle().resume();
 
         co_await notify;
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return std::move(return_value.value());
     }
 }
-- 
2.43.0


From 2d1dc304808e2aa0051e3f2a3510f99c1b30111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:21 +0000
Subject: [PATCH 25/52] fix: scheduler::schedule with a timeout does not cut
 the timeout to milliseconds

---
 include/coro/scheduler.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index d967392..2b64662 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -265,8 +265,7 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), 0ms);
-        if (timeout_ms == 0ms)
+        if (timeout <= 0ns)
         {
             if constexpr (std::is_void_v<return_type>)
             {
@@ -279,7 +278,7 @@ public:
             }
         }
 
-        auto result = co_await when_any(std::move(task), make_timeout_task(timeout_ms));
+        auto result = co_await when_any(std::move(task), make_timeout_task(std::chrono::ceil<std::chrono::nanoseconds>(timeout)));
         if (!std::holds_alternative<timeout_status>(result))
         {
             if constexpr (std::is_void_v<return_type>)
@@ -317,8 +316,7 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), 0ms);
-        if (timeout_ms == 0ms)
+        if (timeout <= 0ns)
         {
             if constexpr (std::is_void_v<return_type>)
             {
@@ -331,7 +329,7 @@ public:
             }
         }
 
-        auto result = co_await when_any(std::move(stop_source), std::move(task), make_timeout_task(timeout_ms));
+        auto result = co_await when_any(std::move(stop_source), std::move(task), make_timeout_task(std::chrono::ceil<std::chrono::nanoseconds>(timeout)));
         if (!std::holds_alternative<timeout_status>(result))
         {
             if constexpr (std::is_void_v<return_type>)
@@ -550,7 +548,7 @@ private:
     auto remove_timer_token(timed_events::iterator pos) -> void;
     auto update_timeout(time_point now) -> void;
 
-    auto make_timeout_task(std::chrono::milliseconds timeout) -> coro::task<timeout_status>
+    auto make_timeout_task(std::chrono::nanoseconds timeout) -> coro::task<timeout_status>
     {
         co_await schedule_after(timeout);
         co_return timeout_status::timeout;
-- 
2.43.0


From e925baca76753f469e07be62d8f8ccc859755fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:44 +0000
Subject: [PATCH 26/52] fix: io_notifier_epoll: a peer's half close does not
 end polls for writing

---
 src/detail/io_notifier_epoll.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 8f02d88..acd8864 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -82,9 +82,15 @@ auto io_notifier_epoll::watch_timer(const timer_handle& timer, std::chrono::nano
 auto io_notifier_epoll::watch(fd_t fd, poll_op op, void* data, bool keep, bool is_cancel_event) -> bool
 {
     auto event_data     = event_t{};
-    event_data.events   = static_cast<uint32_t>(op) | EPOLLRDHUP;
+    event_data.events   = static_cast<uint32_t>(op);
     event_data.data.u64 = encode_udata(keep, is_cancel_event, data);
 
+    // The peer shutting down its writing end only matters to those who read, the descriptor can still be written to.
+    if (poll_op_readable(op))
+    {
+        event_data.events |= EPOLLRDHUP;
+    }
+
     if (!keep)
     {
         event_data.events |= EPOLLONESHOT;
-- 
2.43.0


From 77ac3f93c887af018820c2477684203dd0198d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:07 +0000
Subject: [PATCH 27/52] fix: timer_handle closes its timerfd, every scheduler
 leaked one

---
 include/coro/detail/timer_handle.hpp |  7 +++++++
 src/detail/timer_handle.cpp          | 16 ++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/include/coro/detail/timer_handle.hpp b/include/coro/detail/timer_handle.hpp
index 4d97d0f..9b7a06d 100644
--- a/include/coro/detail/timer_handle.hpp
+++ b/include/coro/detail/timer_handle.hpp
@@ -17,6 +17,13 @@ class timer_handle
 public:
     timer_handle(const void* timer_handle_ptr, io_notifier& notifier);
 
+    timer_handle(const timer_handle&)                    = delete;
+    timer_handle(timer_handle&&)                         = delete;
+    auto operator=(const timer_handle&) -> timer_handle& = delete;
+    auto operator=(timer_handle&&) -> timer_handle&      = delete;
+
+    ~timer_handle();
+
     coro::fd_t get_fd() const { return m_fd; }
 
     const void* get_inner() const { return m_timer_handle_ptr; }
diff --git a/src/detail/timer_handle.cpp b/src/detail/timer_handle.cpp
index 81c2cc0..d22365e 100644
--- a/src/detail/timer_handle.cpp
+++ b/src/detail/timer_handle.cpp
@@ -2,6 +2,8 @@
 
 #include "coro/io_notifier.hpp"
 
+#include <unistd.h>
+
 namespace coro::detail
 {
 
@@ -16,6 +18,11 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     (void)notifier;
 }
 
+timer_handle::~timer_handle()
+{
+    // kqueue timers are identifiers, not file descriptors, there is nothing to close.
+}
+
 #elif defined(__linux__)
 
 timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
@@ -25,6 +32,15 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     notifier.watch(m_fd, poll_op::read, const_cast<void*>(m_timer_handle_ptr), true);
 }
 
+timer_handle::~timer_handle()
+{
+    if (m_fd != -1)
+    {
+        ::close(m_fd);
+        m_fd = -1;
+    }
+}
+
 #endif
 
 } // namespace coro::detail
-- 
2.43.0


From 03a7d453b15cdffe88eaac01f00163bf16de3057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:07 +0000
Subject: [PATCH 28/52] fix: pipe_t moved-from owns no descriptor and
 assignment closes the old ones

---
 include/coro/detail/pipe.hpp | 2 +-
 include/coro/poll.hpp        | 2 +-
 src/detail/pipe.cpp          | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/coro/detail/pipe.hpp b/include/coro/detail/pipe.hpp
index 8da95a0..0559797 100644
--- a/include/coro/detail/pipe.hpp
+++ b/include/coro/detail/pipe.hpp
@@ -28,7 +28,7 @@ public:
     auto close() -> void;
 
 private:
-    std::array<fd_t, 2> m_fds{-1};
+    std::array<fd_t, 2> m_fds{-1, -1};
 };
 
 } // namespace coro::detail
diff --git a/include/coro/poll.hpp b/include/coro/poll.hpp
index 22aca81..116cfbe 100644
--- a/include/coro/poll.hpp
+++ b/include/coro/poll.hpp
@@ -88,7 +88,7 @@ public:
     poll_stop_source() = default;
 
     poll_stop_source(const poll_stop_source&) = delete;
-    poll_stop_source(poll_stop_source&& other) { *this = std::move(other); }
+    poll_stop_source(poll_stop_source&& other) noexcept : m_pipe(std::move(other.m_pipe)) {}
 
     poll_stop_source& operator=(const poll_stop_source&) = delete;
     poll_stop_source& operator=(poll_stop_source&& other)
diff --git a/src/detail/pipe.cpp b/src/detail/pipe.cpp
index 281d9ba..b05629b 100644
--- a/src/detail/pipe.cpp
+++ b/src/detail/pipe.cpp
@@ -42,13 +42,14 @@ pipe_t::pipe_t(const pipe_t& other)
 
 pipe_t::pipe_t(pipe_t&& other) noexcept
 {
-    m_fds = std::exchange(other.m_fds, {-1});
+    m_fds = std::exchange(other.m_fds, {-1, -1});
 }
 
 auto pipe_t::operator=(const pipe_t& other) -> pipe_t&
 {
     if (std::addressof(other) != this)
     {
+        close();
         m_fds[0] = dup(other.m_fds[0]);
         m_fds[1] = dup(other.m_fds[1]);
     }
@@ -60,7 +61,8 @@ auto pipe_t::operator=(pipe_t&& other) noexcept -> pipe_t&
 {
     if (std::addressof(other) != this)
     {
-        m_fds = std::exchange(other.m_fds, {-1});
+        close();
+        m_fds = std::exchange(other.m_fds, {-1, -1});
     }
 
     return *this;
-- 
2.43.0


From ba7a4da8efcfbf42fe4bc0c47f518a2c9317c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:07 +0000
Subject: [PATCH 29/52] fix: socket assignment to itself keeps the descriptor,
 move assignment closes the old one

---
 src/net/socket.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/net/socket.cpp b/src/net/socket.cpp
index ed593e0..e055e5e 100644
--- a/src/net/socket.cpp
+++ b/src/net/socket.cpp
@@ -19,8 +19,12 @@ auto socket::type_to_os(type_t type) -> int
 
 auto socket::operator=(const socket& other) noexcept -> socket&
 {
-    this->close();
-    this->m_fd = dup(other.m_fd);
+    if (std::addressof(other) != this)
+    {
+        this->close();
+        this->m_fd = dup(other.m_fd);
+    }
+
     return *this;
 }
 
@@ -28,6 +32,7 @@ auto socket::operator=(socket&& other) noexcept -> socket&
 {
     if (std::addressof(other) != this)
     {
+        close();
         m_fd = std::exchange(other.m_fd, -1);
     }
 
-- 
2.43.0


From e79a53b88d3f55e0b9c91d88f6ef5394f5405697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:07 +0000
Subject: [PATCH 30/52] fix: tcp::server moves its cancel trigger

---
 src/net/tcp/server.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/net/tcp/server.cpp b/src/net/tcp/server.cpp
index 2e5ce33..2acd238 100644
--- a/src/net/tcp/server.cpp
+++ b/src/net/tcp/server.cpp
@@ -20,7 +20,8 @@ server::server(std::unique_ptr<coro::scheduler>& scheduler, const net::socket_ad
 server::server(server&& other)
     : m_scheduler(std::exchange(other.m_scheduler, nullptr)),
       m_options(std::move(other.m_options)),
-      m_accept_socket(std::move(other.m_accept_socket))
+      m_accept_socket(std::move(other.m_accept_socket)),
+      m_cancel_trigger(std::move(other.m_cancel_trigger))
 {
 }
 
@@ -28,9 +29,10 @@ auto server::operator=(server&& other) -> server&
 {
     if (std::addressof(other) != this)
     {
-        m_scheduler     = std::exchange(other.m_scheduler, nullptr);
-        m_options       = std::move(other.m_options);
-        m_accept_socket = std::move(other.m_accept_socket);
+        m_scheduler      = std::exchange(other.m_scheduler, nullptr);
+        m_options        = std::move(other.m_options);
+        m_accept_socket  = std::move(other.m_accept_socket);
+        m_cancel_trigger = std::move(other.m_cancel_trigger);
     }
     return *this;
 }
-- 
2.43.0


From 70d22ab5c1bee6c00bb7ca30262d4f29f9768a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:28 +0000
Subject: [PATCH 31/52] fix: scheduler::poll reports an error for a descriptor
 that cannot be polled

---
 src/detail/io_notifier_epoll.cpp |  5 ++++-
 src/scheduler.cpp                | 11 +++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index acd8864..5423244 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -107,7 +107,10 @@ auto io_notifier_epoll::watch(fd_t fd, poll_op op, void* data, bool keep, bool i
 
 auto io_notifier_epoll::watch(poll_info& pi) -> bool
 {
-    watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false);
+    if (!watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false))
+    {
+        return false;
+    }
 
     if (pi.m_cancel_trigger.has_value())
     {
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 4e47967..6f7d6a3 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -153,14 +153,17 @@ auto scheduler::poll(
 
     auto pi = detail::poll_info{fd, op, cancel_trigger};
 
-    if (timeout_requested)
+    if (!m_io_notifier.watch(pi))
     {
-        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);
+        std::cerr << "Failed to add " << fd << " to watch list\n";
+        // The descriptor cannot be polled, there will be no event to resume this coroutine.
+        m_size.fetch_sub(1, std::memory_order::release);
+        co_return poll_status::error;
     }
 
-    if (!m_io_notifier.watch(pi))
+    if (timeout_requested)
     {
-        std::cerr << "Failed to add " << fd << " to watch list\n";
+        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);
     }
 
     // The event loop will 'clean-up' whichever event didn't win since the coroutine is scheduled
-- 
2.43.0


From 26bf62f7364427add9afffa87bcf3b93835f14c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:28 +0000
Subject: [PATCH 32/52] fix: tls client recv does not spin while libssl wants
 to write

---
 include/coro/net/tls/client.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 8bca125..2d596ed 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -108,9 +108,8 @@ public:
             switch (pstatus)
             {
                 case poll_status::read:
-                    break;
                 case poll_status::write:
-                    continue;
+                    break;
                 case poll_status::timeout:
                     co_return {recv_status::timeout, std::span<element_type>{}};
                 case poll_status::error:
-- 
2.43.0


From 360e2f0c92644c6036b229cc2598f3bbf965097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:28 +0000
Subject: [PATCH 33/52] fix: tls client send does not spin while libssl wants
 to read

---
 include/coro/net/tls/client.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 2d596ed..9fb80cb 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -202,10 +202,9 @@ public:
             auto pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
             switch (pstatus)
             {
+                case poll_status::read:
                 case poll_status::write:
                     break;
-                case poll_status::read:
-                    continue;
                 case poll_status::timeout:
                     co_return {send_status::timeout, std::span<element_type>{}};
                 case poll_status::error:
-- 
2.43.0


From d00c5f56f699d9ffc5c05e2136ed66a5c4c64dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:28 +0000
Subject: [PATCH 34/52] fix: tls server hands out a client whose handshake
 failed as not connected

---
 src/net/tls/server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/net/tls/server.cpp b/src/net/tls/server.cpp
index 171b788..e801eb5 100644
--- a/src/net/tls/server.cpp
+++ b/src/net/tls/server.cpp
@@ -59,7 +59,8 @@ auto server::accept(std::chrono::milliseconds timeout) -> coro::task<coro::net::
     auto tls_client = tls::client{m_scheduler, m_tls_ctx, std::move(s), client_endpoint};
 
     auto hstatus = co_await tls_client.handshake(timeout);
-    (void)hstatus; // user must check result.
+    // user must check result.
+    tls_client.m_connect_status = hstatus;
     co_return std::move(tls_client);
 };
 
-- 
2.43.0


From 1b1b8e56437573de6160d1bba5cff24da758c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:28 +0000
Subject: [PATCH 35/52] fix: clear the libssl error queue before each
 SSL_connect

---
 src/net/tls/client.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 90c6cb6..136c1ee 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -161,10 +161,16 @@ auto client::handshake(std::chrono::milliseconds timeout) -> coro::task<connecti
         SSL_set_accept_state(tls);
     }
 
-    int r{0};
-    ERR_clear_error();
-    while ((r = SSL_connect(tls)) != 1)
+    while (true)
     {
+        // The coroutine can resume on a different thread, this thread's error queue must be empty for SSL_get_error().
+        ERR_clear_error();
+        int r = SSL_connect(tls);
+        if (r == 1)
+        {
+            break;
+        }
+
         poll_op op{poll_op::read_write};
         int     err = SSL_get_error(tls, r);
         if (err == SSL_ERROR_WANT_WRITE)
-- 
2.43.0


From 52381e7c47336b5b974d7f2b2201f4c863fe553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:28 +0000
Subject: [PATCH 36/52] fix: tls client recv does not poll the socket for data
 libssl already has

---
 include/coro/net/tls/client.hpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 9fb80cb..efda050 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -104,20 +104,24 @@ public:
                 start = std::chrono::steady_clock::now();
             }
 
-            auto pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
-            switch (pstatus)
+            // Data libssl has already taken off the socket does not make the socket readable again.
+            if (SSL_pending(tls) == 0 && (SSL_get_shutdown(tls) & SSL_RECEIVED_SHUTDOWN) == 0)
             {
-                case poll_status::read:
-                case poll_status::write:
-                    break;
-                case poll_status::timeout:
-                    co_return {recv_status::timeout, std::span<element_type>{}};
-                case poll_status::error:
-                    co_return {recv_status::error, std::span<element_type>{}};
-                case poll_status::closed:
-                    co_return {recv_status::closed, std::span<element_type>{}};
-                case poll_status::cancelled:
-                    co_return {recv_status::cancelled, std::span<element_type>{}};
+                auto pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+                switch (pstatus)
+                {
+                    case poll_status::read:
+                    case poll_status::write:
+                        break;
+                    case poll_status::timeout:
+                        co_return {recv_status::timeout, std::span<element_type>{}};
+                    case poll_status::error:
+                        co_return {recv_status::error, std::span<element_type>{}};
+                    case poll_status::closed:
+                        co_return {recv_status::closed, std::span<element_type>{}};
+                    case poll_status::cancelled:
+                        co_return {recv_status::cancelled, std::span<element_type>{}};
+                }
             }
 
             size_t bytes_recv{0};
-- 
2.43.0


From 22fc4c8b91bbe0de01542356b0aabc83b2ed8100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 37/52] fix: dns resolver tells c-ares about a socket with an
 error

---
 include/coro/net/dns/resolver.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index f9e9570..03492be 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -192,15 +192,16 @@ private:
                     ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
                     break;
                 case poll_status::closed:
-                    // might need to do something like call with two ARES_SOCKET_BAD?
-                    m_active_sockets.erase(fd);
-                    break;
                 case poll_status::error:
-                    // might need to do something like call with two ARES_SOCKET_BAD?
-                    m_active_sockets.erase(fd);
-                    break;
                 case poll_status::cancelled:
-                    m_active_sockets.erase(fd);
+                    // c-ares has to find out about the error, it closes the socket and retries or fails its lookups.
+                    ares_process_fd(m_ares_channel, fd, fd);
+                    if (m_active_sockets.contains(fd))
+                    {
+                        // It can't be polled but c-ares sees nothing wrong with it, nothing would ever end the lookups.
+                        m_active_sockets.erase(fd);
+                        ares_cancel(m_ares_channel);
+                    }
                     break;
             }
         }
-- 
2.43.0


From 70cac18e5a5a420cbe4364f414c03379e489e18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 38/52] fix: dns resolver shares its state with its poll tasks

---
 include/coro/net/dns/resolver.hpp | 158 ++++++++++++++++++++++--------
 1 file changed, 118 insertions(+), 40 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index 03492be..16a6aec 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -5,19 +5,23 @@
 #include "coro/fd.hpp"
 #include "coro/net/hostname.hpp"
 #include "coro/net/ip_address.hpp"
+#include "coro/net/socket.hpp"
 #include "coro/poll.hpp"
 #include "coro/task.hpp"
 
 #include <ares.h>
 #include <arpa/inet.h>
 #include <netdb.h>
+#include <unistd.h>
 
 #include <array>
 #include <chrono>
 #include <functional>
 #include <memory>
 #include <mutex>
+#include <optional>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 namespace coro::net::dns
@@ -80,7 +84,7 @@ class resolver
 public:
     explicit resolver(std::unique_ptr<executor_type>& executor, std::chrono::milliseconds timeout)
         : m_executor(executor),
-          m_timeout(timeout)
+          m_state(std::make_shared<state>(executor, timeout))
     {
         if (m_executor == nullptr)
         {
@@ -102,9 +106,9 @@ public:
 
         ares_options options{};
         options.sock_state_cb      = resolver::ares_socket_state_callback;
-        options.sock_state_cb_data = this;
+        options.sock_state_cb_data = m_state.get();
 
-        auto channel_init_status = ares_init_options(&m_ares_channel, &options, ARES_OPT_SOCK_STATE_CB);
+        auto channel_init_status = ares_init_options(&m_state->m_ares_channel, &options, ARES_OPT_SOCK_STATE_CB);
         if (channel_init_status != ARES_SUCCESS)
         {
             throw std::runtime_error{ares_strerror(channel_init_status)};
@@ -118,10 +122,11 @@ public:
 
     ~resolver()
     {
-        if (m_ares_channel != nullptr)
         {
-            ares_destroy(m_ares_channel);
-            m_ares_channel = nullptr;
+            // This closes all of the sockets, the poll tasks end on their own.
+            std::scoped_lock lk{m_state->m_mutex};
+            ares_destroy(m_state->m_ares_channel);
+            m_state->m_ares_channel = nullptr;
         }
 
         {
@@ -145,13 +150,16 @@ public:
         ares_addrinfo_hints hints{};
         hints.ai_family = AF_UNSPEC; // Request both IPv4 and IPv6
 
-        ares_getaddrinfo(
-            m_ares_channel,
-            hn.data().data(),
-            nullptr, // service name (port number or NULL)
-            &hints,
-            ares_dns_callback,
-            result_ptr.get());
+        {
+            std::scoped_lock lk{m_state->m_mutex};
+            ares_getaddrinfo(
+                m_state->m_ares_channel,
+                hn.data().data(),
+                nullptr, // service name (port number or NULL)
+                &hints,
+                ares_dns_callback,
+                result_ptr.get());
+        }
 
         // Suspend until this specific result is completed by ares.
         co_await resume_event;
@@ -159,48 +167,103 @@ public:
     }
 
 private:
-    /// The executor to drive the events for dns lookups.
-    std::unique_ptr<executor_type>& m_executor;
+    /// A socket of c-ares and its poll task.
+    struct watched_socket
+    {
+        watched_socket(fd_t fd, poll_op op) : m_socket(::dup(fd)), m_op(op) {}
+
+        /// The poll task has its own descriptor, c-ares can close its descriptor, and get the same one for a new socket,
+        /// while it is being polled.
+        net::socket m_socket;
+        /// What c-ares waits for, nothing once c-ares has closed the socket.
+        std::optional<poll_op> m_op;
+        /// Set if the poll task is polling for something else than m_op.
+        bool m_changed{false};
+        /// Stops the poll when m_changed is set.
+        poll_stop_source m_stop{};
+    };
+
+    /// The state shared with the poll tasks, they can outlive the resolver.
+    struct state : public std::enable_shared_from_this<state>
+    {
+        state(std::unique_ptr<executor_type>& executor, std::chrono::milliseconds timeout)
+            : m_executor(executor),
+              m_timeout(timeout)
+        {
+        }
 
-    /// The global timeout per dns lookup request.
-    std::chrono::milliseconds m_timeout{0};
+        /// The executor to drive the events for dns lookups.
+        std::unique_ptr<executor_type>& m_executor;
 
-    /// The libc-ares channel for looking up dns entries.
-    ares_channel m_ares_channel{nullptr};
+        /// The global timeout per dns lookup request.
+        std::chrono::milliseconds m_timeout{0};
 
-    /// This is the map of sockets that are currently being actively polled so multiple poll tasks
-    /// are not setup when socket state is changed.
-    std::unordered_map<fd_t, poll_op> m_active_sockets{};
+        /// Guards the c-ares channel and the sockets, c-ares only calls back from within calls that are guarded by it.
+        std::recursive_mutex m_mutex{};
 
-    auto make_poll_task(fd_t fd) -> coro::task<void>
+        /// The libc-ares channel for looking up dns entries, nullptr once the resolver is destroyed.
+        ares_channel m_ares_channel{nullptr};
+
+        /// This is the map of sockets that are currently being actively polled so multiple poll tasks
+        /// are not setup when socket state is changed.
+        std::unordered_map<fd_t, std::shared_ptr<watched_socket>> m_active_sockets{};
+    };
+
+    /// The executor to drive the events for dns lookups.
+    std::unique_ptr<executor_type>& m_executor;
+
+    /// The state shared with the poll tasks.
+    std::shared_ptr<state> m_state;
+
+    static auto make_poll_task(std::shared_ptr<state> self, std::shared_ptr<watched_socket> socket, fd_t fd)
+        -> coro::task<void>
     {
+        std::unique_lock lk{self->m_mutex};
+
         // The loop ensures non-blocking polling until the socket is closed by c-ares.
-        while (m_active_sockets.contains(fd))
+        while (socket->m_op.has_value())
         {
-            auto ops    = m_active_sockets[fd];
-            auto result = co_await m_executor->poll(fd, ops, m_timeout);
+            auto op = socket->m_op.value();
+            if (std::exchange(socket->m_changed, false))
+            {
+                socket->m_stop = poll_stop_source{};
+            }
+            auto stop_token = socket->m_stop.get_token();
+
+            lk.unlock();
+            auto result = co_await self->m_executor->poll(
+                socket->m_socket.native_handle(), op, self->m_timeout, stop_token);
+            lk.lock();
+
+            // If the socket isn't what was polled anymore then poll what it is now.
+            if (socket->m_changed)
+            {
+                continue;
+            }
+
             switch (result)
             {
                 case poll_status::read:
-                    ares_process_fd(m_ares_channel, fd, ARES_SOCKET_BAD);
+                    ares_process_fd(self->m_ares_channel, fd, ARES_SOCKET_BAD);
                     break;
                 case poll_status::write:
-                    ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, fd);
+                    ares_process_fd(self->m_ares_channel, ARES_SOCKET_BAD, fd);
                     break;
 
                 case poll_status::timeout:
-                    ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
+                    ares_process_fd(self->m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
                     break;
                 case poll_status::closed:
                 case poll_status::error:
                 case poll_status::cancelled:
                     // c-ares has to find out about the error, it closes the socket and retries or fails its lookups.
-                    ares_process_fd(m_ares_channel, fd, fd);
-                    if (m_active_sockets.contains(fd))
+                    ares_process_fd(self->m_ares_channel, fd, fd);
+                    if (!socket->m_changed)
                     {
                         // It can't be polled but c-ares sees nothing wrong with it, nothing would ever end the lookups.
-                        m_active_sockets.erase(fd);
-                        ares_cancel(m_ares_channel);
+                        socket->m_op.reset();
+                        self->m_active_sockets.erase(fd);
+                        ares_cancel(self->m_ares_channel);
                     }
                     break;
             }
@@ -211,7 +274,7 @@ private:
 
     static auto ares_socket_state_callback(void* data, ares_socket_t socket_fd, int readable, int writable) -> void
     {
-        resolver* self = static_cast<resolver*>(data);
+        auto*     self = static_cast<state*>(data);
         uint64_t  ops{0};
 
         if (readable)
@@ -225,17 +288,32 @@ private:
 
         auto fd       = static_cast<fd_t>(socket_fd);
         auto poll_ops = static_cast<poll_op>(ops);
-        if (ops != 0)
+        auto it       = self->m_active_sockets.find(fd);
+        if (it == self->m_active_sockets.end())
         {
-            auto [it, inserted] = self->m_active_sockets.insert_or_assign(fd, poll_ops);
-            if (inserted)
+            if (ops != 0)
             {
-                self->m_executor->spawn_detached(self->make_poll_task(fd));
+                auto socket = std::make_shared<watched_socket>(fd, poll_ops);
+                self->m_active_sockets.emplace(fd, socket);
+                self->m_executor->spawn_detached(make_poll_task(self->shared_from_this(), std::move(socket), fd));
             }
+            return;
         }
-        else
+
+        auto socket = it->second;
+        auto op     = (ops != 0) ? std::optional<poll_op>{poll_ops} : std::nullopt;
+        if (!op.has_value())
         {
-            self->m_active_sockets.erase(fd);
+            self->m_active_sockets.erase(it);
+        }
+
+        if (socket->m_op != op)
+        {
+            socket->m_op = op;
+            if (!std::exchange(socket->m_changed, true))
+            {
+                socket->m_stop.signal_stop();
+            }
         }
     }
 
-- 
2.43.0


From 36b80395c2f776e7df11141db1ca4bd4012cef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 39/52] fix: dns resolver releases the library when its channel
 cannot be made

---
 include/coro/net/dns/resolver.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index 16a6aec..0950e25 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -111,6 +111,7 @@ public:
         auto channel_init_status = ares_init_options(&m_state->m_ares_channel, &options, ARES_OPT_SOCK_STATE_CB);
         if (channel_init_status != ARES_SUCCESS)
         {
+            release_library();
             throw std::runtime_error{ares_strerror(channel_init_status)};
         }
     }
@@ -129,14 +130,7 @@ public:
             m_state->m_ares_channel = nullptr;
         }
 
-        {
-            std::scoped_lock g{detail::m_ares_mutex};
-            --detail::m_ares_count;
-            if (detail::m_ares_count == 0)
-            {
-                ares_library_cleanup();
-            }
-        }
+        release_library();
     }
 
     /**
@@ -215,6 +209,16 @@ private:
     /// The state shared with the poll tasks.
     std::shared_ptr<state> m_state;
 
+    static auto release_library() -> void
+    {
+        std::scoped_lock g{detail::m_ares_mutex};
+        --detail::m_ares_count;
+        if (detail::m_ares_count == 0)
+        {
+            ares_library_cleanup();
+        }
+    }
+
     static auto make_poll_task(std::shared_ptr<state> self, std::shared_ptr<watched_socket> socket, fd_t fd)
         -> coro::task<void>
     {
-- 
2.43.0


From 37995c7af65d0e4cee4c2b97b35e20062b293908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 40/52] fix: scheduler takes over event processing with acquire

---
 src/scheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 6f7d6a3..9cfe6f7 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -290,7 +290,7 @@ auto scheduler::throw_shutdown() -> void
 auto scheduler::process_events_manual(std::chrono::milliseconds timeout) -> void
 {
     bool expected{false};
-    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::release, std::memory_order::relaxed))
+    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::acquire, std::memory_order::relaxed))
     {
         process_events_execute(timeout);
         m_io_processing.exchange(false, std::memory_order::release);
-- 
2.43.0


From 09a8ed86d062089d11b333206fda7b3203e69d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 41/52] fix: detached task does not look at its frame after
 resuming it

---
 include/coro/detail/task_self_deleting.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/coro/detail/task_self_deleting.hpp b/include/coro/detail/task_self_deleting.hpp
index 06f8ea2..f7e2905 100644
--- a/include/coro/detail/task_self_deleting.hpp
+++ b/include/coro/detail/task_self_deleting.hpp
@@ -69,15 +69,8 @@ public:
         return std::coroutine_handle<promise_self_deleting>::from_promise(*m_promise);
     }
 
-    auto resume() -> bool
-    {
-        const auto h = handle();
-        if (!h.done())
-        {
-            h.resume();
-        }
-        return !h.done();
-    }
+    /// Starts the task, it must not have been started before.  The task can be deleted by the time this returns.
+    auto resume() -> void { handle().resume(); }
 
 private:
     promise_self_deleting* m_promise{nullptr};
-- 
2.43.0


From e73fd36f6d7f39b91c7d4397e8c4738045f1baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 42/52] fix: poll_info hands over the awaiting coroutine
 atomically

---
 include/coro/detail/poll_info.hpp |  8 ++++----
 src/scheduler.cpp                 | 19 ++++++++++---------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/coro/detail/poll_info.hpp b/include/coro/detail/poll_info.hpp
index 7992ff9..95907e1 100644
--- a/include/coro/detail/poll_info.hpp
+++ b/include/coro/detail/poll_info.hpp
@@ -53,8 +53,7 @@ struct poll_info
         auto await_ready() const noexcept -> bool { return false; }
         auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
         {
-            m_pi.m_awaiting_coroutine = awaiting_coroutine;
-            std::atomic_thread_fence(std::memory_order::release);
+            m_pi.m_awaiting_coroutine.store(awaiting_coroutine, std::memory_order::release);
         }
         auto await_resume() noexcept -> coro::poll_status { return m_pi.m_poll_status; }
 
@@ -72,8 +71,9 @@ struct poll_info
     /// This is needed so that if the event occurs first then the event loop can immediately disable
     /// the timeout within epoll.
     std::optional<timed_events::iterator> m_timer_pos{std::nullopt};
-    /// The awaiting coroutine for this poll info to resume upon event or timeout.
-    std::coroutine_handle<> m_awaiting_coroutine;
+    /// The awaiting coroutine for this poll info to resume upon event or timeout, the event loop waits for it to be set
+    /// before it uses the rest of the poll info.
+    std::atomic<std::coroutine_handle<>> m_awaiting_coroutine{nullptr};
     /// The status of the poll operation.
     coro::poll_status m_poll_status{coro::poll_status::error};
     /// Did the timeout and event trigger at the same time on the same epoll_wait call?
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 9cfe6f7..56c2cc6 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -440,16 +440,16 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
 {
     if (!pi->m_processed)
     {
-        std::atomic_thread_fence(std::memory_order::acquire);
         // Its possible the event and the timeout occurred in the same epoll, make sure only one
         // is ever processed, the other is discarded.
         pi->m_processed = true;
 
         // The poll() might still be setting up its events, wait for it to suspend so that all of them are removed.
-        while (pi->m_awaiting_coroutine == nullptr)
+        std::coroutine_handle<> awaiting_coroutine{nullptr};
+        do
         {
-            std::atomic_thread_fence(std::memory_order::acquire);
-        }
+            awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire);
+        } while (awaiting_coroutine == nullptr);
 
         // Given a valid fd always remove it from epoll so the next poll can blindly EPOLL_CTL_ADD.
         if (pi->m_fd != -1)
@@ -465,7 +465,7 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
 
         pi->m_poll_status = status;
 
-        m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
+        m_handles_to_resume.emplace_back(awaiting_coroutine);
     }
 }
 
@@ -502,10 +502,11 @@ auto scheduler::process_timeout_execute() -> void
             pi->m_processed = true;
 
             // The poll() might still be setting up its events, wait for it to suspend so that all of them are removed.
-            while (pi->m_awaiting_coroutine == nullptr)
+            std::coroutine_handle<> awaiting_coroutine{nullptr};
+            do
             {
-                std::atomic_thread_fence(std::memory_order::acquire);
-            }
+                awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire);
+            } while (awaiting_coroutine == nullptr);
 
             // Since this timed out, remove its corresponding event if it has one.
             if (pi->m_fd != -1)
@@ -513,7 +514,7 @@ auto scheduler::process_timeout_execute() -> void
                 m_io_notifier.unwatch(*pi);
             }
 
-            m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
+            m_handles_to_resume.emplace_back(awaiting_coroutine);
             pi->m_poll_status = coro::poll_status::timeout;
         }
     }
-- 
2.43.0


From f58aba7b2960e48ff659c69cb57904b0aff80374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 43/52] fix: queue size and empty do not read the elements
 unlocked

---
 include/coro/queue.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index 65ae1fa..63f9e8d 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -88,6 +88,7 @@ public:
                 }
 
                 m_queue.m_elements.pop();
+                m_queue.update_size();
                 m_queue.m_mutex.unlock();
                 return true;
             }
@@ -157,11 +158,7 @@ public:
      *
      * @return std::size_t The number of elements in the queue.
      */
-    auto size() const -> std::size_t
-    {
-        std::atomic_thread_fence(std::memory_order::acquire);
-        return m_elements.size();
-    }
+    auto size() const -> std::size_t { return m_size.load(std::memory_order::acquire); }
 
     /**
      * @brief Pushes the element into the queue. If the queue is empty and there are waiters
@@ -195,6 +192,7 @@ public:
         else
         {
             m_elements.push(element);
+            update_size();
         }
 
         co_return queue_produce_result::produced;
@@ -229,6 +227,7 @@ public:
         else
         {
             m_elements.push(std::move(element));
+            update_size();
         }
 
         co_return queue_produce_result::produced;
@@ -262,6 +261,7 @@ public:
         else
         {
             m_elements.emplace(std::forward<args_type>(args)...);
+            update_size();
         }
 
         co_return queue_produce_result::produced;
@@ -320,6 +320,7 @@ public:
             }
 
             m_elements.pop();
+            update_size();
             return value;
         }
 
@@ -393,6 +394,9 @@ public:
     [[nodiscard]] auto is_shutdown() const -> bool { return m_running_state.load(std::memory_order::acquire) != running_state_t::running; }
 
 private:
+    /// @brief Publishes the size of the underlying queue, the mutex must be held.
+    auto update_size() -> void { m_size.store(m_elements.size(), std::memory_order::release); }
+
     friend awaiter;
     /// @brief The list of pop() awaiters.
     awaiter* m_waiters{nullptr};
@@ -400,6 +404,8 @@ private:
     coro::mutex m_mutex{};
     /// @brief The underlying queue data structure.
     std::queue<element_type> m_elements{};
+    /// @brief The size of the underlying queue, size() and empty() don't acquire the mutex.
+    std::atomic<std::size_t> m_size{0};
     /// @brief The current running state of the queue.
     std::atomic<running_state_t> m_running_state{running_state_t::running};
 };
-- 
2.43.0


From c7456707c830a6be1e4d4026827dda3ecffda701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 44/52] fix: thread_pool queue_size takes the lock of the queue

---
 include/coro/thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coro/thread_pool.hpp b/include/coro/thread_pool.hpp
index d01cc1a..9b4ab52 100644
--- a/include/coro/thread_pool.hpp
+++ b/include/coro/thread_pool.hpp
@@ -250,7 +250,7 @@ public:
      */
     auto queue_size() const noexcept -> std::size_t
     {
-        std::atomic_thread_fence(std::memory_order::acquire);
+        std::scoped_lock lk{m_wait_mutex};
         return m_queue.size();
     }
 
@@ -265,7 +265,7 @@ private:
     /// The background executor threads.
     std::vector<std::thread> m_threads;
     /// Mutex for executor threads to sleep on the condition variable.
-    std::mutex m_wait_mutex;
+    mutable std::mutex m_wait_mutex;
     /// Condition variable for each executor thread to wait on when no tasks are available.
     std::condition_variable_any m_wait_cv;
     /// The ids of the executor threads, guarded by the wait mutex.
-- 
2.43.0


From cd6a13dabc6555b8c1fb27548e1f02c921631c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:50 +0000
Subject: [PATCH 45/52] fix: ip_address::from_string does not read past the end
 of the given view

---
 include/coro/net/ip_address.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/coro/net/ip_address.hpp b/include/coro/net/ip_address.hpp
index c8b6866..d83bdf3 100644
--- a/include/coro/net/ip_address.hpp
+++ b/include/coro/net/ip_address.hpp
@@ -7,6 +7,7 @@
 #include <span>
 #include <stdexcept>
 #include <string>
+#include <string_view>
 
 namespace coro::net
 {
@@ -62,7 +63,9 @@ public:
         ip_address addr{};
         addr.m_domain = domain;
 
-        auto success = inet_pton(static_cast<int>(addr.m_domain), address.data(), addr.m_data.data());
+        // The view isn't necessarily null terminated.
+        const std::string text{address};
+        auto success = inet_pton(static_cast<int>(addr.m_domain), text.c_str(), addr.m_data.data());
         if (success != 1)
         {
             throw std::runtime_error{"coro::net::ip_address faild to convert from string"};
-- 
2.43.0


From 4cadac480800c060beebd8451f9b0e53a86ef9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:24 +0000
Subject: [PATCH 46/52] fix: coro::invoke does not start the functor's task
 before its own task is awaited

---
 include/coro/invoke.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/coro/invoke.hpp b/include/coro/invoke.hpp
index 1111888..349e7c4 100644
--- a/include/coro/invoke.hpp
+++ b/include/coro/invoke.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <coroutine>
 #include <utility>
 
 namespace coro
@@ -12,6 +13,11 @@ template<typename functor_type, typename... args_types>
 auto make_invoker_task(functor_type functor, args_types&&... args) -> decltype(functor(std::forward<args_types>(args)...))
 {
     auto user_task = functor(std::forward<args_types>(args)...);
+
+    // The functor has its arguments now. This task is only resumed again when it is awaited, the user task must not be
+    // running by then since resuming this task is taken as its completion.
+    co_await std::suspend_always{};
+
     co_return co_await user_task;
 }
 
-- 
2.43.0


From dbb7c39d9a7e1d3e8d130ee5b306ec11d45a519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:24 +0000
Subject: [PATCH 47/52] fix: coro::invoke returns results that can only be
 moved

---
 include/coro/invoke.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/coro/invoke.hpp b/include/coro/invoke.hpp
index 349e7c4..16376d9 100644
--- a/include/coro/invoke.hpp
+++ b/include/coro/invoke.hpp
@@ -18,7 +18,7 @@ auto make_invoker_task(functor_type functor, args_types&&... args) -> decltype(f
     // running by then since resuming this task is taken as its completion.
     co_await std::suspend_always{};
 
-    co_return co_await user_task;
+    co_return co_await std::move(user_task);
 }
 
 } // namespace detail
-- 
2.43.0


From fb67ab473eb1988997dde9cab3a3b65e77ed43f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:24 +0000
Subject: [PATCH 48/52] fix: event::set resumes the waiters its executor does
 not take

---
 include/coro/event.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/coro/event.hpp b/include/coro/event.hpp
index 5d99dc4..1189a62 100644
--- a/include/coro/event.hpp
+++ b/include/coro/event.hpp
@@ -118,8 +118,13 @@ public:
             auto* waiters = static_cast<awaiter*>(old_value);
             while (waiters != nullptr)
             {
-                auto* next = waiters->m_next;
-                e->resume(waiters->m_awaiting_coroutine);
+                auto* next   = waiters->m_next;
+                auto  handle = waiters->m_awaiting_coroutine;
+                if (!e->resume(handle))
+                {
+                    // The executor does not accept the waiter, e.g. it has been shut down, nobody else knows of it.
+                    handle.resume();
+                }
                 waiters = next;
             }
         }
-- 
2.43.0


From 245c735ded1486b2c81abf40bf4e2220b3dd4aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:24 +0000
Subject: [PATCH 49/52] fix: shared_mutex resumes the readers its executor does
 not take

---
 include/coro/shared_mutex.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/coro/shared_mutex.hpp b/include/coro/shared_mutex.hpp
index 1dbb7cb..2aa093f 100644
--- a/include/coro/shared_mutex.hpp
+++ b/include/coro/shared_mutex.hpp
@@ -383,6 +383,10 @@ private:
             // If its shared then we will scan forward and awake all shared waiters onto the given
             // thread pool so they can run in parallel.
             m_state.store(state::locked_shared, std::memory_order::release);
+
+            // The waiters which the executor does not accept, e.g. since it has been shut down.
+            detail::shared_lock_operation<executor_type>*  refused_head{nullptr};
+            detail::shared_lock_operation<executor_type>** refused_tail{&refused_head};
             while (true)
             {
                 auto* to_resume = m_head_waiter.load(std::memory_order::acquire);
@@ -403,13 +407,25 @@ private:
 
                 m_shared_users.fetch_add(1, std::memory_order::release);
 
-                m_executor->resume(to_resume->m_awaiting_coroutine);
+                if (!m_executor->resume(to_resume->m_awaiting_coroutine))
+                {
+                    to_resume->m_next = nullptr;
+                    *refused_tail     = to_resume;
+                    refused_tail      = &to_resume->m_next;
+                }
             }
 
             // Cannot unlock until the entire set of shared waiters has been traversed. I think this
             // makes more sense than allocating space for all the shared waiters, unlocking, and then
             // resuming in a batch?
             lk.unlock();
+
+            while (refused_head != nullptr)
+            {
+                auto handle  = refused_head->m_awaiting_coroutine;
+                refused_head = refused_head->m_next;
+                handle.resume();
+            }
         }
     }
 };
-- 
2.43.0


From 967c94f69d5b92469276cd5aec4e3991e170b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:24 +0000
Subject: [PATCH 50/52] fix: condition_variable notifies on the calling thread
 if the executor does not take the notification

---
 include/coro/condition_variable.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index bb00d0c..9d0fc41 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -385,7 +385,11 @@ public:
     template<coro::concepts::executor executor_type>
     auto notify_one(std::unique_ptr<executor_type>& executor) -> void
     {
-        executor->spawn_detached(notify_one());
+        if (!executor->spawn_detached(notify_one()))
+        {
+            // The executor does not accept the notification, e.g. it has been shut down, notify on this thread.
+            detail::make_task_self_deleting(notify_one()).resume();
+        }
     }
 
     /**
@@ -414,7 +418,11 @@ public:
             awaiter_base* next = waiter->m_next;
             // This will kick off each task in parallel on the scheduler, they will fight over the lock
             // but will give the best parallelism scheduling them immediately.
-            executor->spawn_detached(make_notify_all_executor_individual_task(waiter));
+            if (!executor->spawn_detached(make_notify_all_executor_individual_task(waiter)))
+            {
+                // The executor does not accept the notification, nobody else knows of this waiter anymore.
+                detail::make_task_self_deleting(make_notify_all_executor_individual_task(waiter)).resume();
+            }
             waiter = next;
         }
 
-- 
2.43.0


From b388853f5c0b5cc7fb12e6e60170bf46d73dee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:36 +0000
Subject: [PATCH 51/52] fix: to_string names poll_status::cancelled

---
 src/poll.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/poll.cpp b/src/poll.cpp
index c53b787..ebef09e 100644
--- a/src/poll.cpp
+++ b/src/poll.cpp
@@ -29,6 +29,7 @@ static const std::string poll_status_write{"write"};
 static const std::string poll_status_timeout{"timeout"};
 static const std::string poll_status_error{"error"};
 static const std::string poll_status_closed{"closed"};
+static const std::string poll_status_cancelled{"cancelled"};
 
 auto to_string(poll_status status) -> const std::string&
 {
@@ -44,6 +45,8 @@ auto to_string(poll_status status) -> const std::string&
             return poll_status_error;
         case poll_status::closed:
             return poll_status_closed;
+        case poll_status::cancelled:
+            return poll_status_cancelled;
         default:
             return poll_unknown;
     }
-- 
2.43.0


From e01da78fadae480975dbf498bd4a150ca7409ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:58 +0000
Subject: [PATCH 52/52] fix: task_group made from an empty unique_ptr executor
 throws like the other constructors

---
 include/coro/task_group.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index 5558e95..c661c08 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -98,7 +98,7 @@ public:
     }
 
     explicit task_group(std::unique_ptr<executor_type>& executor)
-        : m_executor(executor.get())
+        : task_group(executor.get())
     { }
 
     explicit task_group(std::unique_ptr<executor_type>& executor, coro::task<void>&& task)
-- 
2.43.0

