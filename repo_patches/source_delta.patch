From c003d89441ce7836a3be90657e162673597f3cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 01/23] fix: lightweight_barrier must not rely on a weak
 compare exchange to succeed

compare_exchange_weak may fail spuriously in which case the expected value
stays null: wait() then dereferenced a null waiter and complete() silently
left the barrier incomplete so that waiters blocked forever.
---
 src/lightweight_barrier.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index 03c0d5b..c9dac48 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -106,7 +106,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
     // try to become the owner of the mutex
     auto candidate = std::make_unique<waiter>();
     previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, candidate.get(), std::memory_order_acq_rel)) {
         // value was incomplete before, we are the owner now so wait
         auto* barrier = candidate.release();
@@ -117,7 +117,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
         return true;
     }
     // else: somebody else placed a waiter barrier before, use it instead
-    // (previous holds the barrier obtained from compare_exchange_weak above)
+    // (previous holds the barrier obtained from compare_exchange_strong above)
     return previous->wait(timeout);
 }
 
@@ -128,7 +128,7 @@ lightweight_barrier::complete()
     // branches are kept for readability
 
     auto* previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, kCompleted, std::memory_order_acq_rel)) { // NOLINT
         // nobody was waiting and now marked as complete
     } else if (kCompleted == previous) { // NOLINT
-- 
2.43.0


From e0719055be0c1262d829c186a8050904ee943c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 02/23] fix: timers and notifiers must not touch their
 cancelable after completing the barrier

The handler operation completed the worker's barrier while its
cancelable_scope was still open. The worker could release the last reference
to the timer or notifier before the scope left the cancelable, which is a
use after free.
---
 src/naive/naive_socket_notifier.cpp | 12 ++++++++----
 src/naive/naive_timer.cpp           |  9 ++++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 488c74d..da852c1 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -163,11 +163,15 @@ public:
                     lightweight_barrier barrier;
                     queue->async(make_operation(
                       [handler, socket, type, &barrier, &handler_cancelable] {
-                          cancelable_scope scope(handler_cancelable);
-                          if (scope) {
-                              execute_operation_on_this_thread(
-                                *handler, socket, type);
+                          {
+                              cancelable_scope scope(handler_cancelable);
+                              if (scope) {
+                                  execute_operation_on_this_thread(
+                                    *handler, socket, type);
+                              }
                           }
+                          // the notifier may be gone as soon as the barrier
+                          // completed
                           barrier.complete();
                       }));
                     barrier.wait();
diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index 239de07..b346e50 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -104,10 +104,13 @@ public:
 
                 lightweight_barrier barrier;
                 queue->async(make_operation([handler, &barrier, &cancelable] {
-                    cancelable_scope scope(cancelable);
-                    if (scope) {
-                        execute_operation_on_this_thread(*handler);
+                    {
+                        cancelable_scope scope(cancelable);
+                        if (scope) {
+                            execute_operation_on_this_thread(*handler);
+                        }
                     }
+                    // the timer may be gone as soon as the barrier completed
                     barrier.complete();
                 }));
                 barrier.wait();
-- 
2.43.0


From 24ddc0e2d09482443e7ea1f3bd3007a4342fefcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 03/23] fix: threadpool must account for new and woken threads
 correctly

A worker was started before it was counted as active, and active and idle
counts were compared without being a consistent snapshot, so that submitting
an operation could terminate the process through an assertion. A woken thread
which was still counted as idle made submitters believe their operation would
be picked up although nobody was left to do so; the operation then waited for
an unrelated one to finish.

Threads are now counted before they start, a thread is spawned when there are
more pending operations than idle threads, and a woken thread schedules again
once it is no longer counted as idle.
---
 src/naive/naive_semaphore.h    |  5 +++
 src/naive/naive_threadpool.cpp | 57 +++++++++++++++++++++-------------
 src/naive/naive_threadpool.h   |  2 +-
 3 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/naive/naive_semaphore.h b/src/naive/naive_semaphore.h
index 2480963..e4484c5 100644
--- a/src/naive/naive_semaphore.h
+++ b/src/naive/naive_semaphore.h
@@ -84,6 +84,11 @@ public:
      */
     void release(int count = 1);
 
+    /**
+        @return The count at the time of this call
+     */
+    int count() const { return m_count.load(std::memory_order_seq_cst); }
+
 private:
     std::atomic<int> m_count;
     std::atomic<int> m_waiters;
diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index c995561..53827e5 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -164,7 +164,10 @@ public:
                           skMaxSleepBeforeThreadExit)) {
                         // all good go pick the operation
                         m_data->m_idle_threads.fetch_sub(
-                          1, std::memory_order_release);
+                          1, std::memory_order_seq_cst);
+                        // more operations may have been added while we were
+                        // still counted as idle although already woken
+                        schedule(m_data);
                     } else {
                         // end this thread it seems there is no work remaining
                         m_data->m_idle_threads.fetch_sub(
@@ -285,7 +288,7 @@ threadpool::execute(const operation_ptr& work, const queue_priority priority)
     if (enqueued) {
         m_data->m_operations_counter.release();
     }
-    schedule();
+    schedule(m_data);
 }
 
 ithreadpool_ptr
@@ -304,33 +307,45 @@ backend::global_threadpool()
 }
 
 void
-threadpool::schedule()
+threadpool::schedule(const data_ptr& data)
 {
-    // lets check if there is an idle thread first
-    const int active_threads =
-      m_data->m_active_threads.load(std::memory_order_consume);
+    // lets check if there are enough idle threads first
+    // Note: The counters are updated independently of each other so these are
+    //       no consistent snapshot. An idle thread which was woken already but
+    //       is still counted will schedule again once it updated the counter
+    const int pending_operations = data->m_operations_counter.count();
     const int idle_threads =
-      m_data->m_idle_threads.load(std::memory_order_consume);
+      data->m_idle_threads.load(std::memory_order_seq_cst);
+    int active_threads = data->m_active_threads.load(std::memory_order_seq_cst);
     XDISPATCH_ASSERT(idle_threads >= 0);
     XDISPATCH_ASSERT(active_threads >= 0);
-    XDISPATCH_ASSERT(idle_threads <= active_threads &&
-                     "We must never have more idle than active threads");
 
-    if (idle_threads > 0) {
+    if (pending_operations <= idle_threads) {
         // idle count will be decremented by thread waking up again
-        XDISPATCH_TP_TRACE(this, active_threads, idle_threads)
+        XDISPATCH_TP_TRACE(data->m_pool, active_threads, idle_threads)
           << "Woke an idle thread";
+        return;
     }
     // check if we are good to create another thread
-    else if (active_threads <
-             m_data->m_max_threads.load(std::memory_order_consume)) {
-        auto thread = std::make_shared<worker>(m_data);
-        operation_queue_manager::instance().attach(thread);
-        m_data->m_active_threads.fetch_add(1, std::memory_order_release);
-
-        XDISPATCH_TP_TRACE(this, active_threads + 1, idle_threads)
-          << "Spawned thread " << thread->get_id()
-          << " (max=" << m_data->m_max_threads << ")";
+    // Note: the thread has to be accounted for before it starts to run
+    while (active_threads <
+           data->m_max_threads.load(std::memory_order_consume)) {
+        if (data->m_active_threads.compare_exchange_weak(
+              active_threads, active_threads + 1, std::memory_order_seq_cst)) {
+            std::shared_ptr<worker> thread;
+            try {
+                thread = std::make_shared<worker>(data);
+            } catch (...) {
+                data->m_active_threads.fetch_sub(1, std::memory_order_seq_cst);
+                throw;
+            }
+            operation_queue_manager::instance().attach(thread);
+
+            XDISPATCH_TP_TRACE(data->m_pool, active_threads + 1, idle_threads)
+              << "Spawned thread " << thread->get_id()
+              << " (max=" << data->m_max_threads << ")";
+            break;
+        }
     }
     // all threads busy and processor allocation reached, wait
     // and the operation will be picked up as soon as a thread is available
@@ -346,7 +361,7 @@ threadpool::notify_thread_blocked()
     const auto idle = m_data->m_idle_threads.load(std::memory_order_consume);
     XDISPATCH_TP_TRACE(this, active, idle)
       << "Increased threadcount to " << max_threads;
-    schedule();
+    schedule(m_data);
 }
 
 void
diff --git a/src/naive/naive_threadpool.h b/src/naive/naive_threadpool.h
index 3f624a6..eca2559 100644
--- a/src/naive/naive_threadpool.h
+++ b/src/naive/naive_threadpool.h
@@ -91,7 +91,7 @@ private:
     class data;
     using data_ptr = std::shared_ptr<data>;
 
-    void schedule();
+    static void schedule(const data_ptr& data);
 
     data_ptr m_data;
 };
-- 
2.43.0


From c8a3a6485da1ecfddc6d01e6c61bdb839818b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 04/23] fix: barrier waits with a timeout beyond the range of
 the clock must not return at once

---
 src/lightweight_barrier.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index c9dac48..df8c83c 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -52,7 +52,13 @@ public:
 
         std::unique_lock<std::mutex> lock(m_mutex);
         if (!predicate()) {
-            if (std::chrono::milliseconds(-1) != timeout) {
+            // a timeout which cannot be represented by the clock would overflow
+            // and needs to be treated as infinite
+            using clock = std::chrono::steady_clock;
+            const auto longest =
+              std::chrono::duration_cast<std::chrono::milliseconds>(
+                clock::time_point::max() - clock::now()) / 2;
+            if (std::chrono::milliseconds(-1) != timeout && timeout < longest) {
                 return m_cond.wait_for(lock, timeout, predicate);
             }
             m_cond.wait(lock, predicate);
-- 
2.43.0


From 4080208ace4ec68f9a011454fe5f771f06dd9d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 05/23] fix: group must wait for all operations added before
 and share the timeout among them

---
 src/naive/naive_consumable.cpp |  25 ++++-----
 src/naive/naive_consumable.h   |  15 ++---
 src/naive/naive_group.cpp      | 100 +++++++++++++++++++++++++--------
 3 files changed, 92 insertions(+), 48 deletions(-)

diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index f2459c0..e39b34f 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -26,9 +26,8 @@
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
-consumable::consumable(size_t resources, const consumable_ptr& preceeding)
-  : m_preceeding(preceeding)
-  , m_resources(resources)
+consumable::consumable(size_t resources)
+  : m_resources(resources)
 {}
 
 void
@@ -50,23 +49,19 @@ consumable::consume_resource()
     }
 }
 
-// Recursion is no risk because infinite recursion is guarded by checking
-// preceeding against this
 bool
-consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
+consumable::fully_consumed() const
+{
+    return 0 == m_resources.load();
+}
+
+bool
+consumable::wait_for_consumed(const std::chrono::milliseconds timeout)
 {
-    // make sure that the preceeding consumable is satisfied
-    if (m_preceeding && m_preceeding.get() != this) {
-        if (m_preceeding->wait_for_consumed(timeout)) {
-            // satisfied, continue with this
-        } else {
-            return false;
-        }
-    }
     // if no resources have been available or consumed
     // the barrier will never be completed but the consumable
     // can be considered as fully satisfied still
-    if (0 == m_resources.load()) {
+    if (fully_consumed()) {
         return true;
     }
     ithreadpool::block_scope blocked;
diff --git a/src/naive/naive_consumable.h b/src/naive/naive_consumable.h
index 605f770..2b6116c 100644
--- a/src/naive/naive_consumable.h
+++ b/src/naive/naive_consumable.h
@@ -36,9 +36,6 @@ using consumable_ptr = std::shared_ptr<consumable>;
     This is similar to a counting semaphore but in a backward
     way in that a caller will get unblocked when no resources
     are left, not when a resource is left as with a semaphore.
-
-    Consumables can be daisy-chained to model a dependent list
-    of resources that need to be drained up before proceeding.
  */
 class consumable
 {
@@ -48,12 +45,8 @@ public:
 
         @param resources The initial number of resources
                     that can be consumed from the very beginning
-        @param preceeding A preceeding consumable that needs to be
-                    freed up as well before this consumable
-                    is considered as fully consumed
      */
-    explicit consumable(size_t resources = 0,
-                        const consumable_ptr& preceeding = consumable_ptr());
+    explicit consumable(size_t resources = 0);
 
     /**
         @brief Adds an additional free resource to the consumable
@@ -70,6 +63,11 @@ public:
      */
     void consume_resource();
 
+    /**
+        @return true if no resources are left
+     */
+    bool fully_consumed() const;
+
     /**
         @brief Blocks until all resources to be consumed or the
                given timeout has passed whatever comes first
@@ -83,7 +81,6 @@ public:
       std::chrono::milliseconds timeout = std::chrono::milliseconds(-1));
 
 private:
-    const consumable_ptr m_preceeding;
     std::atomic<size_t> m_resources;
     lightweight_barrier m_barrier;
 };
diff --git a/src/naive/naive_group.cpp b/src/naive/naive_group.cpp
index 7a7f3e5..fc01ac1 100644
--- a/src/naive/naive_group.cpp
+++ b/src/naive/naive_group.cpp
@@ -27,47 +27,43 @@
 #include "naive_operations.h"
 #include "naive_threadpool.h"
 
+#include <algorithm>
+#include <chrono>
+#include <mutex>
+#include <vector>
+
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
-class group_impl
-  : public igroup_impl
-  , public std::enable_shared_from_this<group_impl>
+class group_impl : public igroup_impl
 {
 public:
     group_impl(const ithreadpool_ptr& pool, backend_type backend)
       : igroup_impl()
       , m_pool(pool)
       , m_backend(backend)
-      , m_consumable(std::make_shared<consumable>())
+      , m_consumable(make_open_consumable())
     {}
 
     ~group_impl() override = default;
 
     void async(const operation_ptr& op, const iqueue_impl_ptr& q) final
     {
-        const auto c = std::atomic_load(&m_consumable);
-        XDISPATCH_ASSERT(c);
-        c->add_resource();
+        consumable_ptr c;
+        {
+            // adding the resource must not interleave with close() as the
+            // consumable must not receive any more resources afterwards
+            std::lock_guard<std::mutex> lock(m_CS);
+            c = m_consumable;
+            XDISPATCH_ASSERT(c);
+            c->add_resource();
+        }
         q->async(std::make_shared<consuming_operation>(op, c));
     }
 
     bool wait(std::chrono::milliseconds timeout) final
     {
-        // swap the previous consumable with a new one that all operations
-        // submitted after this call will be added to and which waits on the
-        // previous consumable in a chain. Use a compare/exchange and retry
-        // whenever the consumable was already swapped by another thread
-        consumable_ptr old_c;
-        consumable_ptr new_c;
-        do {
-            old_c = std::atomic_load(&m_consumable);
-            new_c = std::make_shared<consumable>(0, old_c);
-        } while (
-          !std::atomic_compare_exchange_weak(&m_consumable, &old_c, new_c));
-        XDISPATCH_ASSERT(old_c);
-        XDISPATCH_ASSERT(new_c);
-        return old_c->wait_for_consumed(timeout);
+        return wait_for(close(), timeout);
 
         // FIXME(zwicker): This is blocking and will not work if invoked from
         // within
@@ -79,12 +75,14 @@ public:
     {
         XDISPATCH_ASSERT(q);
 
-        const auto this_ptr = shared_from_this();
-        auto notify_op = make_operation([op, q, this_ptr] {
+        // only operations added up to now are waited for, i.e. the list of
+        // consumables has to be obtained before returning to the caller
+        const auto pending = close();
+        auto notify_op = make_operation([op, q, pending] {
             // note: wait(..) will already notify the threadpool that
             //       we are blocking one of its threads through our internal
             //       use of a consumable
-            this_ptr->wait(std::chrono::milliseconds::max());
+            wait_for(pending, std::chrono::milliseconds(-1));
             q->async(op);
         });
 
@@ -95,8 +93,62 @@ public:
     backend_type backend() final { return m_backend; }
 
 private:
+    using consumables = std::vector<consumable_ptr>;
+
+    // An open consumable holds one resource more than there are outstanding
+    // operations so that it cannot be fully consumed while it is still possible
+    // for further operations to get added to it
+    static consumable_ptr make_open_consumable()
+    {
+        return std::make_shared<consumable>(1);
+    }
+
+    // Closes the current consumable so that all operations submitted after this
+    // call will be added to a new one. Returns all consumables which need to be
+    // waited for so that all operations added before are known to be executed.
+    consumables close()
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        m_closed.erase(std::remove_if(m_closed.begin(),
+                                      m_closed.end(),
+                                      [](const consumable_ptr& c) {
+                                          return c->fully_consumed();
+                                      }),
+                       m_closed.end());
+        auto old_c = m_consumable;
+        m_consumable = make_open_consumable();
+        old_c->consume_resource();
+        if (!old_c->fully_consumed()) {
+            m_closed.push_back(old_c);
+        }
+        return m_closed;
+    }
+
+    static bool wait_for(const consumables& pending,
+                         const std::chrono::milliseconds timeout)
+    {
+        const auto start = std::chrono::steady_clock::now();
+        for (const auto& c : pending) {
+            auto remaining = timeout;
+            if (std::chrono::milliseconds(-1) != timeout) {
+                // the timeout applies to all of the consumables in total
+                const auto elapsed =
+                  std::chrono::duration_cast<std::chrono::milliseconds>(
+                    std::chrono::steady_clock::now() - start);
+                remaining =
+                  std::max(timeout - elapsed, std::chrono::milliseconds(0));
+            }
+            if (!c->wait_for_consumed(remaining)) {
+                return false;
+            }
+        }
+        return true;
+    }
+
     const ithreadpool_ptr m_pool;
     const backend_type m_backend;
+    std::mutex m_CS;
+    consumables m_closed;
     consumable_ptr m_consumable;
 };
 
-- 
2.43.0


From ab696dbd8278633f95f0d19113ef036f0f1741c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 06/23] fix: timer must not run two series of firings after
 suspend and resume nor restart once cancelled

---
 src/naive/naive_timer.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index b346e50..d0f79cd 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -44,6 +44,8 @@ public:
       , m_pool(pool)
       , m_handler()
       , m_running(0)
+      , m_cancelled(false)
+      , m_worker_cookie(0)
       , m_cancelable()
     {}
 
@@ -78,23 +80,28 @@ public:
     void resume(std::chrono::milliseconds delay) final
     {
         std::lock_guard<std::mutex> lock(m_CS);
+        if (m_cancelled) {
+            // a cancelled timer cannot be used again
+            return;
+        }
         if (1 != ++m_running) {
             // only proceed when we become runnable
             return;
         }
 
         const auto this_ptr = shared_from_this();
+        const auto cookie = m_worker_cookie;
 
         // the timer will execute via a helper borrowed from the
         // global default threadpool. It is ensured that enough
         // threads are available for the pool even though the
         // timer is blocking while it is active
-        auto timer_op = make_operation([this_ptr, delay] {
+        auto timer_op = make_operation([this_ptr, delay, cookie] {
             ithreadpool::block_scope blocked;
             std::this_thread::sleep_for(delay);
 
             std::unique_lock<std::mutex> lock(this_ptr->m_CS);
-            while (this_ptr->m_running > 0) {
+            while (cookie == this_ptr->m_worker_cookie) {
                 const auto handler = this_ptr->m_handler;
                 const auto interval = this_ptr->m_interval;
                 const auto queue = this_ptr->m_queue;
@@ -131,14 +138,19 @@ public:
     void suspend() override
     {
         std::lock_guard<std::mutex> lock(m_CS);
-        --m_running;
+        if (0 == --m_running) {
+            // any worker kicked off by the previous resume needs to end, even
+            // when the timer gets resumed again before the worker notices
+            ++m_worker_cookie;
+        }
     }
 
     void cancel() override
     {
         {
             std::lock_guard<std::mutex> lock(m_CS);
-            m_running = 0;
+            m_cancelled = true;
+            ++m_worker_cookie;
         }
         m_cancelable.disable();
     }
@@ -153,6 +165,8 @@ private:
     ithreadpool_ptr m_pool;
     operation_ptr m_handler;
     int m_running;
+    bool m_cancelled;
+    int m_worker_cookie;
     cancelable m_cancelable;
 };
 
-- 
2.43.0


From c2fda8cf7cb734f439c01e248480fcccb13d07b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 07/23] fix: disabling a cancelable must wait for the running
 handler even if it was disabled before

---
 include/xdispatch/impl/cancelable.h | 17 +++++++++++----
 src/cancelable.cpp                  | 34 +++++++++++++++++------------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/include/xdispatch/impl/cancelable.h b/include/xdispatch/impl/cancelable.h
index 1ecac5e..491941f 100644
--- a/include/xdispatch/impl/cancelable.h
+++ b/include/xdispatch/impl/cancelable.h
@@ -23,6 +23,8 @@
 #define XDISPATCH_CANCELABLE_H_
 
 #include <atomic>
+#include <condition_variable>
+#include <mutex>
 
 /**
  * @addtogroup xdispatch
@@ -54,7 +56,9 @@ public:
         /**< Entity has been queued but not executed yet */
         active_enabled,
         /**< Entity is actively being executed */
-        active_running
+        active_running,
+        /**< Entity was disabled but is still being executed */
+        active_cancelling
     };
 
     /**
@@ -65,6 +69,9 @@ public:
     /**
        Marks the entity as not to be queued anywhere,
        i.e. sets it to active_disabled
+
+       Blocks until the entity is not executed anymore unless invoked
+       by the entity itself.
     */
     void disable();
 
@@ -91,10 +98,12 @@ protected:
     void leave();
 
 private:
+    // protects the state
+    std::mutex m_CS;
     // the current state of the handler
-    std::atomic<active_state> m_active;
-    // barrier to ensure defined cancellation
-    lightweight_barrier m_barrier;
+    active_state m_active;
+    // notified when a disabled entity is not executed anymore
+    std::condition_variable m_cond;
 };
 
 /**
diff --git a/src/cancelable.cpp b/src/cancelable.cpp
index 46351aa..45cfaac 100644
--- a/src/cancelable.cpp
+++ b/src/cancelable.cpp
@@ -36,23 +36,26 @@ cancelable::cancelable()
 void
 cancelable::disable()
 {
-    if (current_c.find(this) != current_c.end()) {
-        // recursion
-        m_active.store(active_disabled);
-    } else {
-        auto current = m_active.exchange(active_disabled);
-        if (active_running == current) {
-            // tried to disable while still running
-            m_barrier.wait();
-        }
+    std::unique_lock<std::mutex> lock(m_CS);
+    const bool recursion = current_c.find(this) != current_c.end();
+    if (active_running == m_active) {
+        // tried to disable while still running
+        m_active = active_cancelling;
+    } else if (active_enabled == m_active) {
+        m_active = active_disabled;
+    }
+    if (!recursion) {
+        // somebody else might be waiting here as well
+        m_cond.wait(lock, [this] { return active_disabled == m_active; });
     }
 }
 
 bool
 cancelable::enter()
 {
-    auto expected = active_enabled;
-    if (m_active.compare_exchange_strong(expected, active_running)) {
+    std::lock_guard<std::mutex> lock(m_CS);
+    if (active_enabled == m_active) {
+        m_active = active_running;
         current_c.insert(this);
         return true;
     }
@@ -63,11 +66,14 @@ cancelable::enter()
 void
 cancelable::leave()
 {
+    std::lock_guard<std::mutex> lock(m_CS);
     current_c.erase(this);
-    auto expected = active_running;
-    if (!m_active.compare_exchange_strong(expected, active_enabled)) {
+    if (active_running == m_active) {
+        m_active = active_enabled;
+    } else {
         // disabled in the meantime
-        m_barrier.complete();
+        m_active = active_disabled;
+        m_cond.notify_all();
     }
 }
 
-- 
2.43.0


From 4cd5e78becd3c4d9b0a5f2100e79845551d2ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 08/23] fix: socket notifier must not spin on a closed socket
 or while its handler runs, overflow fd_set, nor use two workers

---
 src/naive/naive_socket_notifier.cpp | 61 ++++++++++++++++-------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index da852c1..371a58f 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -30,7 +30,7 @@
 #if (defined XDISPATCH2_HAVE_WINSOCK2)
     #include <winsock2.h>
 #elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-    #include <sys/select.h>
+    #include <poll.h>
 #else
     #error "naive_socket_notifier is not supported on this platform"
 #endif
@@ -58,7 +58,7 @@ public:
       , m_pool(pool)
       , m_handler()
       , m_resume_counter(0)
-      , m_worker_cookie(0)
+      , m_worker_active(false)
     {}
 
     ~socket_notifier_impl() override { socket_notifier_impl::suspend(); }
@@ -87,29 +87,33 @@ public:
             return;
         }
 
-        // FIXME(zwicker): This needs to check if the previous
-        //                 suspend has actually been processed or elsewise
-        //                 we might end up with two handlers running
+        if (m_worker_active) {
+            // the previous suspend has not been processed yet so
+            // the worker is still around and will simply proceed
+            return;
+        }
+        m_worker_active = true;
 
         const auto this_ptr = shared_from_this();
-        const auto cookie = m_worker_cookie;
 
         // the notifier will execute via a helper borrowed from the
         // global default threadpool. It is ensured that enough
         // threads are available for the pool even though the
         // notifier is blocking while it is active
-        auto socket_notifier_op = make_operation([this_ptr, cookie] {
+        auto socket_notifier_op = make_operation([this_ptr] {
             ithreadpool::block_scope blocked;
 
             std::unique_lock<std::mutex> lock(this_ptr->m_CS);
-            while (cookie == this_ptr->m_worker_cookie) {
+            while (this_ptr->m_resume_counter > 0) {
                 const auto socket = this_ptr->m_socket;
                 const auto type = this_ptr->m_type;
 
                 int res = -1;
+                bool invalid = false;
                 {
                     inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
 
+#if (defined XDISPATCH2_HAVE_WINSOCK2)
                     struct timeval timeout;
                     constexpr auto k5sec = 5;
                     timeout.tv_sec = k5sec;
@@ -125,28 +129,36 @@ public:
                     } else {
                         res = select(nfds, nullptr, &fds, nullptr, &timeout);
                     }
+#elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
+                    // select(..) cannot handle descriptors >= FD_SETSIZE
+                    constexpr auto k5sec = 5000;
+                    struct pollfd fds;
+                    memset(&fds, 0, sizeof(fds));
+                    fds.fd = static_cast<int>(socket);
+                    fds.events = notifier_type::READ == type ? POLLIN : POLLOUT;
+
+                    res = poll(&fds, 1, k5sec);
+                    if (res > 0) {
+                        invalid = (fds.revents & POLLNVAL) != 0;
+                    }
+#endif
                 }
 
-                if (cookie != this_ptr->m_worker_cookie) {
+                if (this_ptr->m_resume_counter <= 0) {
                     // bail out if we were woken as a result of suspending
                     break;
                 }
 
 #if (defined XDISPATCH2_HAVE_WINSOCK2)
-                if (SOCKET_ERROR == res && WSAENOTSOCK == WSAGetLastError()) {
-                    // not a socket anymore
-                    XDISPATCH_WARNING() << "socket_notifier: Socket " << socket
-                                        << " is not a socket";
-                    break;
-                }
-#elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-                if (EBADF == res) {
-                    // socket was closed somewhere else
+                invalid =
+                  SOCKET_ERROR == res && WSAENOTSOCK == WSAGetLastError();
+#endif
+                if (invalid) {
+                    // not a socket (anymore), e.g. closed somewhere else
                     XDISPATCH_WARNING()
                       << "socket_notifier: Socket " << socket << " is invalid";
                     break;
                 }
-#endif
                 if (res == 0) {
                     // timeout, try again
                 } else if (res > 0) {
@@ -180,6 +192,7 @@ public:
                                         << ") failed: " << strerror(errno);
                 }
             }
+            this_ptr->m_worker_active = false;
         });
 
         // FIXME(zwicker): Add accessors to execute with the queue's priority
@@ -190,13 +203,8 @@ public:
     {
         std::lock_guard<std::mutex> lock(m_CS);
         if (m_resume_counter > 0) {
+            // the worker will end as soon as it notices
             --m_resume_counter;
-            // when we have just suspended increment the cookie
-            // so any workers kicked off with the previous cookie
-            // know they should end.
-            if (0 == m_resume_counter) {
-                ++m_worker_cookie;
-            }
         };
     }
 
@@ -205,7 +213,6 @@ public:
         {
             std::lock_guard<std::mutex> lock(m_CS);
             m_resume_counter = -1;
-            ++m_worker_cookie;
         }
         m_handler_cancelable.disable();
     }
@@ -225,7 +232,7 @@ private:
     ithreadpool_ptr m_pool;
     socket_notifier_operation_ptr m_handler;
     int m_resume_counter;
-    int m_worker_cookie;
+    bool m_worker_active;
     cancelable m_handler_cancelable;
 };
 
-- 
2.43.0


From c0d16a662e6f11b10491eab0eb06fcb2009072a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 09/23] fix: signal handlers must not be dropped when invoked
 while another invocation is still running

---
 include/xdispatch/impl/cancelable.h | 22 +++++++++++++++++++---
 src/cancelable.cpp                  | 19 +++++++++++++------
 src/signals.cpp                     |  2 +-
 3 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/include/xdispatch/impl/cancelable.h b/include/xdispatch/impl/cancelable.h
index 491941f..b795b00 100644
--- a/include/xdispatch/impl/cancelable.h
+++ b/include/xdispatch/impl/cancelable.h
@@ -61,10 +61,21 @@ public:
         active_cancelling
     };
 
+    enum concurrency_mode
+    {
+        /**< Entity can only be entered again after having been left */
+        exclusive = 0,
+        /**< Entity can be entered several times at once */
+        concurrent
+    };
+
     /**
        @brief Constructs an active (not disabled) cancelable.
+
+       @param mode Selects what happens when entering the entity while
+              it is being executed already.
      */
-    cancelable();
+    explicit cancelable(concurrency_mode mode = exclusive);
 
     /**
        Marks the entity as not to be queued anywhere,
@@ -86,22 +97,27 @@ protected:
         It is recommended to not invoke this directly but go through
         cancelable_scope instead which manages this for you.
 
-        @returns true if the entity had been active_enabled
+        @returns true if the entity had been active_enabled or is
+                 active_running already and may be executed concurrently
     */
     bool enter();
 
     /**
         Notifies the entity that the call is done,
         i.e. sets it to active_enabled again if it had
-        been in the active_running state before
+        been in the active_running state before and is
+        not executed elsewhere
     */
     void leave();
 
 private:
+    const concurrency_mode m_mode;
     // protects the state
     std::mutex m_CS;
     // the current state of the handler
     active_state m_active;
+    // the number of times the handler is being executed
+    int m_running;
     // notified when a disabled entity is not executed anymore
     std::condition_variable m_cond;
 };
diff --git a/src/cancelable.cpp b/src/cancelable.cpp
index 45cfaac..78fbdd6 100644
--- a/src/cancelable.cpp
+++ b/src/cancelable.cpp
@@ -27,10 +27,13 @@
 
 __XDISPATCH_BEGIN_NAMESPACE
 
-static thread_local std::set<cancelable*> current_c;
+// a cancelable may be entered recursively when an entity invokes itself
+static thread_local std::multiset<cancelable*> current_c;
 
-cancelable::cancelable()
-  : m_active(active_enabled)
+cancelable::cancelable(concurrency_mode mode)
+  : m_mode(mode)
+  , m_active(active_enabled)
+  , m_running(0)
 {}
 
 void
@@ -54,8 +57,10 @@ bool
 cancelable::enter()
 {
     std::lock_guard<std::mutex> lock(m_CS);
-    if (active_enabled == m_active) {
+    if (active_enabled == m_active ||
+        (active_running == m_active && concurrent == m_mode)) {
         m_active = active_running;
+        ++m_running;
         current_c.insert(this);
         return true;
     }
@@ -67,8 +72,10 @@ void
 cancelable::leave()
 {
     std::lock_guard<std::mutex> lock(m_CS);
-    current_c.erase(this);
-    if (active_running == m_active) {
+    current_c.erase(current_c.find(this));
+    if (0 != --m_running) {
+        // still being executed elsewhere
+    } else if (active_running == m_active) {
         m_active = active_enabled;
     } else {
         // disabled in the meantime
diff --git a/src/signals.cpp b/src/signals.cpp
index 3872be6..ec112ac 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -165,7 +165,7 @@ connection::operator!=(const connection& other) const
 signal_p::connection_handler::connection_handler(const queue& q,
                                                  notification_mode m)
   : m_queue(q)
-  , m_active()
+  , m_active(cancelable::concurrent)
   , m_pending(0)
   , m_mode(m)
 {}
-- 
2.43.0


From b12c113e73bccd08090028f65cafd4cee935e980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 10/23] fix: signals must not hold locks while waiting for
 handlers, go silent or use a destroyed signal

---
 include/xdispatch/signals.h |  74 +++++++++++++++++-----
 src/signals.cpp             | 118 +++++++++++++++++++++++++++---------
 2 files changed, 149 insertions(+), 43 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index f59ef85..44d38fe 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -190,6 +190,10 @@ class XDISPATCH_EXPORT signal_p
 protected:
     class connection_handler;
     using connection_handler_ptr = std::shared_ptr<connection_handler>;
+    class handler_list;
+    using handler_list_ptr = std::shared_ptr<handler_list>;
+
+    friend class connection;
 
 public:
     /// Creates a new signal_p queuing all handler invocations into group
@@ -247,22 +251,62 @@ protected:
         /// i.e. makes sure it is not executed anymore
         void disable();
 
+        /// Drops all invocations queued so far
+        void skip();
+
+        /// Marks an invocation which has been queued at the given
+        /// generation as no longer pending
+        ///
+        /// @returns false if the invocation was skipped in the meantime
+        bool dequeue(int generation);
+
         // the queue to execute the handler on
         const queue m_queue;
         // the current state of the handler
         cancelable m_active;
-        // the number of items that have been queued
-        std::atomic<int> m_pending;
+        // true while there is an invocation which has been queued
+        std::atomic<bool> m_pending;
+        // increased to skip all invocations queued before
+        std::atomic<int> m_generation;
+        // the list the handler is part of while it is connected
+        std::weak_ptr<handler_list> m_list;
+        // true until the handler gets disconnected
+        std::atomic<bool> m_connected;
         // the mode in which the handler will be called
         notification_mode m_mode;
     };
 
-    // Protects parallel access
-    std::mutex m_CS;
+    /// Private container class for the list of connected handlers, it outlives
+    /// the signal as long as it is needed to disconnect one of the handlers
+    class XDISPATCH_EXPORT handler_list
+    {
+    public:
+        // Protects parallel access
+        std::mutex m_CS;
+        // List of connected handlers
+        std::vector<connection_handler_ptr> m_handlers;
+        // List of disconnected handlers which might still be executing
+        std::vector<std::weak_ptr<connection_handler>> m_disconnected;
+    };
+
+    /// Disconnects the handler identified by id. It does not matter if
+    /// the signal it had been connected to still exists.
+    static bool disconnect_handler(const std::shared_ptr<void>& id);
+
+    /// @returns true if the handler identified by id is connected
+    static bool is_handler_connected(const std::shared_ptr<void>& id);
+
+    /// @returns the handlers which are currently connected
+    std::vector<connection_handler_ptr> handlers() const;
+
+    // Ensures that all handlers receive emits in the same order. No other lock
+    // must be held while executing or queuing a handler as it might use or
+    // disconnect from the signal on its own
+    std::recursive_mutex m_emit_CS;
     // The group used to track all handler calls
     std::unique_ptr<group> m_group;
     // List of connected handlers
-    std::vector<connection_handler_ptr> m_handlers;
+    const handler_list_ptr m_list;
 };
 
 template<typename Signature>
@@ -385,23 +429,25 @@ public:
     {
         // FIXME(zwicker): Can this be pulled into the signal_p?
         // FIXME(zwicker): Would this allow us to make cancelable private?
-        std::lock_guard<std::mutex> lock(m_CS);
+        std::lock_guard<std::recursive_mutex> lock(m_emit_CS);
 
-        for (const connection_handler_ptr& handler : m_handlers) {
-            auto pending = handler->m_pending++;
+        for (const connection_handler_ptr& handler : handlers()) {
             if (notification_mode::_synchronous_update == handler->m_mode) {
                 cancelable_scope cancel_scope(handler->m_active);
                 if (cancel_scope) {
-                    handler->m_pending--;
                     std::static_pointer_cast<connection_handler_t>(handler)
                       ->m_func(argList...);
                 }
-            } else if (notification_mode::single_updates == handler->m_mode ||
-                       pending < 1) {
+            } else {
+                const bool pending = handler->m_pending.exchange(true);
+                if (pending &&
+                    notification_mode::single_updates != handler->m_mode) {
+                    continue;
+                }
+                const int generation = handler->m_generation;
                 auto invocation = [=] {
                     cancelable_scope cancel_scope(handler->m_active);
-                    if (cancel_scope) {
-                        handler->m_pending--;
+                    if (cancel_scope && handler->dequeue(generation)) {
                         std::static_pointer_cast<connection_handler_t>(handler)
                           ->m_func(argList...);
                     }
@@ -411,8 +457,6 @@ public:
                 } else {
                     handler->m_queue.async(std::move(invocation));
                 }
-            } else {
-                handler->m_pending--;
             }
         }
     }
diff --git a/src/signals.cpp b/src/signals.cpp
index ec112ac..6ea28c6 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -126,10 +126,8 @@ connection::connection()
 bool
 connection::disconnect()
 {
-    bool disconnected = false;
-    if (m_parent) {
-        disconnected = m_parent->disconnect(*this);
-    }
+    // the parent might be gone already so it must not be used
+    const bool disconnected = signal_p::disconnect_handler(m_id.lock());
     m_id.reset();
     m_parent = nullptr;
     return disconnected;
@@ -138,7 +136,8 @@ connection::disconnect()
 bool
 connection::connected() const
 {
-    return !m_id.expired();
+    // the handler is kept alive by invocations which are still queued
+    return signal_p::is_handler_connected(m_id.lock());
 }
 
 bool
@@ -166,7 +165,9 @@ signal_p::connection_handler::connection_handler(const queue& q,
                                                  notification_mode m)
   : m_queue(q)
   , m_active(cancelable::concurrent)
-  , m_pending(0)
+  , m_pending(false)
+  , m_generation(0)
+  , m_connected(true)
   , m_mode(m)
 {}
 
@@ -176,59 +177,120 @@ signal_p::connection_handler::disable()
     m_active.disable();
 }
 
+void
+signal_p::connection_handler::skip()
+{
+    ++m_generation;
+    m_pending = false;
+}
+
+bool
+signal_p::connection_handler::dequeue(int generation)
+{
+    if (generation != m_generation) {
+        return false;
+    }
+    m_pending = false;
+    return true;
+}
+
 signal_p::signal_p(const group& g)
   : m_group(new group(g))
+  , m_list(std::make_shared<handler_list>())
 {}
 
 signal_p::signal_p()
   : m_group()
+  , m_list(std::make_shared<handler_list>())
 {}
 
 signal_p::~signal_p()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-
-    for (const auto& handler : m_handlers) {
-        handler->disable();
+    for (const auto& handler : handlers()) {
+        disconnect_handler(handler);
+    }
+    // handlers which disconnected themselves might be executing still
+    std::vector<std::weak_ptr<connection_handler>> disconnected;
+    {
+        std::lock_guard<std::mutex> lock(m_list->m_CS);
+        disconnected.swap(m_list->m_disconnected);
+    }
+    for (const auto& weak_handler : disconnected) {
+        const auto handler = weak_handler.lock();
+        if (handler) {
+            handler->disable();
+        }
     }
-    m_handlers.clear();
 }
 
 bool
 signal_p::disconnect(connection& c)
 {
     const auto c_void = c.m_id.lock();
-    const auto c_handler = std::static_pointer_cast<connection_handler>(c_void);
-    if (c_handler) {
-        std::lock_guard<std::mutex> lock(m_CS);
-        const auto last =
-          std::remove(m_handlers.begin(), m_handlers.end(), c_handler);
-        m_handlers.erase(last, m_handlers.end());
-    }
     c.m_id.reset();
-    if (c_handler) {
-        c_handler->disable();
-        return true;
+    return disconnect_handler(c_void);
+}
+
+bool
+signal_p::disconnect_handler(const std::shared_ptr<void>& id)
+{
+    const auto c_handler = std::static_pointer_cast<connection_handler>(id);
+    if (!c_handler) {
+        return false;
     }
-    return false;
+    const bool disconnected = c_handler->m_connected.exchange(false);
+    const auto list = c_handler->m_list.lock();
+    if (disconnected && list) {
+        std::lock_guard<std::mutex> lock(list->m_CS);
+        auto& handlers = list->m_handlers;
+        const auto last =
+          std::remove(handlers.begin(), handlers.end(), c_handler);
+        handlers.erase(last, handlers.end());
+
+        auto& obsolete = list->m_disconnected;
+        obsolete.erase(
+          std::remove_if(obsolete.begin(),
+                         obsolete.end(),
+                         [](const std::weak_ptr<connection_handler>& h) {
+                             return h.expired();
+                         }),
+          obsolete.end());
+        obsolete.push_back(c_handler);
+    }
+    // also needs to wait when it was disconnected elsewhere right before
+    c_handler->disable();
+    return disconnected;
+}
+
+bool
+signal_p::is_handler_connected(const std::shared_ptr<void>& id)
+{
+    const auto c_handler = std::static_pointer_cast<connection_handler>(id);
+    return c_handler && c_handler->m_connected;
 }
 
 void
 signal_p::skip_all()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-
-    for (const auto& handler : m_handlers) {
-        handler->disable();
+    for (const auto& handler : handlers()) {
+        handler->skip();
     }
 }
 
+std::vector<signal_p::connection_handler_ptr>
+signal_p::handlers() const
+{
+    std::lock_guard<std::mutex> lock(m_list->m_CS);
+    return m_list->m_handlers;
+}
+
 connection
 signal_p::connect(const connection_handler_ptr& job)
 {
+    job->m_list = m_list;
     {
-        std::lock_guard<std::mutex> lock(m_CS);
-        m_handlers.push_back(job);
+        std::lock_guard<std::mutex> lock(m_list->m_CS);
+        m_list->m_handlers.push_back(job);
     }
     return connection(job, this);
 }
-- 
2.43.0


From 17f2a861f5ff4f5b0f944427846b06137d452c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 11/23] fix: connection_manager must not hold its lock while
 waiting for handlers

---
 include/xdispatch/signals.h |  3 +++
 src/signals.cpp             | 45 ++++++++++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index 44d38fe..7eda230 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -498,6 +498,9 @@ public:
 private:
     connection_manager(const connection_manager&) = delete;
 
+    void reset_connections_if(
+      const std::function<bool(const connection&)>& predicate);
+
     std::mutex m_CS;
     std::vector<scoped_connection> m_connections;
 };
diff --git a/src/signals.cpp b/src/signals.cpp
index 6ea28c6..d08de35 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -20,6 +20,7 @@
  */
 
 #include <algorithm>
+#include <iterator>
 
 #include "xdispatch_internal.h"
 #include "xdispatch/signals.h"
@@ -34,19 +35,47 @@ connection_manager::~connection_manager()
 void
 connection_manager::reset_connections()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-    m_connections.clear();
+    reset_connections_if([](const connection&) { return true; });
 }
 
 void
 connection_manager::reset_connections_with(const signal_p& s)
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-    const auto last = std::remove_if(
-      m_connections.begin(),
-      m_connections.end(),
-      [&s](const scoped_connection& sc) { return sc.is_connected_to(s); });
-    m_connections.erase(last, m_connections.end());
+    reset_connections_if(
+      [&s](const connection& c) { return c.is_connected_to(s); });
+}
+
+void
+connection_manager::reset_connections_if(
+  const std::function<bool(const connection&)>& predicate)
+{
+    // disconnecting may need to wait for a handler which in turn might use this
+    // manager so it has to be done without the lock. Keep the connections
+    // though so that others resetting at the same time wait for it as well.
+    std::vector<connection> connections;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        std::copy_if(m_connections.begin(),
+                     m_connections.end(),
+                     std::back_inserter(connections),
+                     predicate);
+    }
+    for (auto c : connections) {
+        c.disconnect();
+    }
+
+    std::vector<scoped_connection> obsolete;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        std::vector<scoped_connection> remaining;
+        for (auto& c : m_connections) {
+            const auto found =
+              std::find(connections.begin(), connections.end(), c);
+            auto& target = connections.end() == found ? remaining : obsolete;
+            target.push_back(std::move(c));
+        }
+        m_connections.swap(remaining);
+    }
 }
 
 connection_manager&
-- 
2.43.0


From 4f43b18e263a0f428930044733f45a141b1842ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 12/23] fix: a connection to a destroyed signal must not claim
 to be connected to a new one

---
 src/signals.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/signals.cpp b/src/signals.cpp
index d08de35..cde5c87 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -172,8 +172,11 @@ connection::connected() const
 bool
 connection::is_connected_to(const signal_p& signal) const
 {
-    const auto* const signal_ptr = &signal;
-    return signal_ptr == m_parent;
+    // do not compare the address of the signal as another signal might be using
+    // the memory of a signal gone in the meantime
+    const auto handler =
+      std::static_pointer_cast<signal_p::connection_handler>(m_id.lock());
+    return handler && handler->m_list.lock() == signal.m_list;
 }
 
 bool
-- 
2.43.0


From 4ceca56ac60c8e7f7287defd1018e67b3769a631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 13/23] fix: signal_barrier must be fully constructed before
 its handler uses it and keep the first values

---
 include/xdispatch/signals_barrier.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/xdispatch/signals_barrier.h b/include/xdispatch/signals_barrier.h
index 474b546..5848799 100644
--- a/include/xdispatch/signals_barrier.h
+++ b/include/xdispatch/signals_barrier.h
@@ -27,6 +27,9 @@
  * @{
  */
 
+#include <atomic>
+#include <memory>
+#include <stdexcept>
 #include <tuple>
 
 #include "xdispatch/signals.h"
@@ -92,11 +95,16 @@ public:
      */
     explicit signal_barrier(signal<void(Args...)>& signal)
       : m_signal(signal)
+      , m_raised(false)
       , m_barrier()
+      , m_values()
       , m_connection(signal.connect([this](Args... values) {
-          m_values.set(values...);
-          m_connection.disconnect();
-          m_barrier.complete();
+          // may execute while m_connection is still being initialized and
+          // also concurrently in case the signal is raised several times
+          if (!m_raised.exchange(true)) {
+              m_values.set(values...);
+              m_barrier.complete();
+          }
       }))
     {}
 
@@ -153,9 +161,11 @@ public:
 
 private:
     signal<void(Args...)>& m_signal;
+    std::atomic<bool> m_raised;
     lightweight_barrier m_barrier;
-    scoped_connection m_connection;
     value_holder<0> m_values;
+    // last as the handler uses all of the other members
+    scoped_connection m_connection;
 };
 
 __XDISPATCH_END_NAMESPACE
-- 
2.43.0


From db2cb21060fb18ea8aa8aa78f502ecf498be9444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 14/23] fix: waitable_queue must not release operations while
 holding its lock

---
 src/waitable_queue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 4876d4a..35ba6b1 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -61,6 +61,8 @@ public:
 
             lock.unlock();
             xdispatch::execute_operation_on_this_thread(*op);
+            // releasing the operation may queue another one
+            op.reset();
             lock.lock();
             ++m_completed;
         }
-- 
2.43.0


From d95c4f1669765685bdf1090756c741e4d90851e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 15/23] fix: delayed operations of a waitable_queue must be
 released once executed

---
 src/waitable_queue.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 35ba6b1..3e18cb9 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -161,11 +161,8 @@ public:
     {
         auto timer =
           backend_for_type(backend()).create_timer(shared_from_this());
-        timer->handler(make_operation([op, timer] {
-            execute_operation_on_this_thread(*op);
-            timer->cancel();
-        }));
-        timer->resume(delay);
+        naive::delayed_operation::create_and_dispatch(
+          std::move(timer), delay, op);
     }
 
     backend_type backend() override
-- 
2.43.0


From 5e642b068389e0713ccd92a7f56c7d829813a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 16/23] fix: waitable_queue: tell the pool about threads
 waiting for the active operation

Threads of the pool which were notified while another operation of the
queue is active block until that has completed. When it depends on the
pool itself, e.g. by a nested apply, no thread was left to execute it.
---
 src/waitable_queue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 3e18cb9..2f5f801 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -25,6 +25,7 @@
 
 #include "xdispatch_internal.h"
 #include "xdispatch/waitable_queue.h"
+#include "xdispatch/backend_naive_ithreadpool.h"
 #include "xdispatch/impl/iqueue_impl.h"
 #include "xdispatch/impl/itimer_impl.h"
 #include "trace_utils.h"
@@ -50,6 +51,8 @@ public:
         std::unique_lock<std::mutex> lock(m_CS);
         // wait for parallel executions to complete
         if (m_active) {
+            // the active operation may depend on the threads blocked here
+            naive::ithreadpool::block_scope blocked;
             m_cond.wait(lock, [this] { return !m_active; });
         }
         // we are the active worker now
@@ -84,6 +87,7 @@ public:
             // we can just wait for it to complete and will not deadlock
             if (m_active) {
                 XDISPATCH_TRACE() << "Waiting for active operation";
+                naive::ithreadpool::block_scope blocked;
                 m_cond.wait(lock, [this] { return !m_active; });
             }
             // there is some chance nothing was queued to begin with
-- 
2.43.0


From d12a3721fd865a3ee579d89157c3893bddb3986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 17/23] fix: mixing two backends must throw the documented
 error instead of terminating

---
 src/trace_utils.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/trace_utils.cpp b/src/trace_utils.cpp
index e4db999..bcddc36 100644
--- a/src/trace_utils.cpp
+++ b/src/trace_utils.cpp
@@ -57,7 +57,6 @@ trace_utils::assert_same_backend(backend_type a, backend_type b)
                            std::to_string(static_cast<int>(a)) + " and " +
                            std::to_string(static_cast<int>(b));
         std::cerr << XDISPATCH_TRACE_PREFIX << error << std::endl;
-        XDISPATCH_ASSERT(false && "Cannot mix two different backends");
         throw std::logic_error(error);
     }
 }
-- 
2.43.0


From 434177f1f0fde9d7483adee2550a8a95bfbf3749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 18/23] fix: qt5: threads blocked in a Qt pool must not reduce
 the number of usable threads

---
 src/qt5/qt5_threadpool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qt5/qt5_threadpool.cpp b/src/qt5/qt5_threadpool.cpp
index c6dbbda..8471a47 100644
--- a/src/qt5/qt5_threadpool.cpp
+++ b/src/qt5/qt5_threadpool.cpp
@@ -89,13 +89,14 @@ ThreadPoolProxy::execute(const operation_ptr& work,
 void
 ThreadPoolProxy::notify_thread_blocked()
 {
-    m_pool->reserveThread();
+    // a thread waiting for others does not count, another one may run instead
+    m_pool->releaseThread();
 }
 
 void
 ThreadPoolProxy::notify_thread_unblocked()
 {
-    m_pool->releaseThread();
+    m_pool->reserveThread();
 }
 
 } // namespace qt5
-- 
2.43.0


From bac97b1f10f50a7e2a76b6e1ec72b046ad16b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 19/23] fix: a parallel queue must not release its pool on one
 of the pool's own threads

---
 src/naive/naive_operation_queue_manager.cpp | 8 ++++----
 src/naive/naive_parallel_queue.cpp          | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/naive/naive_operation_queue_manager.cpp b/src/naive/naive_operation_queue_manager.cpp
index 7ce0ab5..db20b30 100644
--- a/src/naive/naive_operation_queue_manager.cpp
+++ b/src/naive/naive_operation_queue_manager.cpp
@@ -39,11 +39,11 @@ void
 operation_queue_manager::detach(const void* const q)
 {
     m_thread.execute(make_operation([q, this] {
-        for (auto it = m_queues.begin(); it != m_queues.end();) {
+        // a pool is attached once by every queue using it
+        for (auto it = m_queues.begin(); it != m_queues.end(); ++it) {
             if (it->get() == q) {
-                it = m_queues.erase(it);
-            } else {
-                ++it;
+                m_queues.erase(it);
+                break;
             }
         }
     }));
diff --git a/src/naive/naive_parallel_queue.cpp b/src/naive/naive_parallel_queue.cpp
index be99bed..877e06f 100644
--- a/src/naive/naive_parallel_queue.cpp
+++ b/src/naive/naive_parallel_queue.cpp
@@ -47,7 +47,11 @@ public:
 
     ~parallel_queue_impl() override
     {
-        operation_queue_manager::instance().detach(m_pool.get());
+        // leave the last reference to the manager: a pool waits for its
+        // threads when released so that must not happen on one of them
+        const auto* const pool = m_pool.get();
+        m_pool.reset();
+        operation_queue_manager::instance().detach(pool);
     }
 
     void async(const operation_ptr& op) final
-- 
2.43.0


From f0e80b92e032867069bafe9e88f94c3e2b114f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 20/23] fix: qt5: connections made from another thread than the
 object's must end with the object

---
 src/qt5/qt5_signals.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qt5/qt5_signals.h b/src/qt5/qt5_signals.h
index fab9213..f13bcb9 100644
--- a/src/qt5/qt5_signals.h
+++ b/src/qt5/qt5_signals.h
@@ -64,6 +64,8 @@ public:
           QString(), Qt::FindDirectChildrenOnly);
         if (createIfMissing && nullptr == oc) {
             oc = new ObjectConnectionManager;
+            // parent and child need to be in the same thread
+            oc->moveToThread(object->thread());
             oc->setParent(object);
         }
         return oc;
-- 
2.43.0


From 718524f4038145d877e7b5d7c39b5e5a946074a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 21/23] fix: queues of the library must not be destroyed while
 other threads still use them at process exit

---
 src/backend.cpp                  | 32 +++++++++++++++++---------------
 src/naive/naive_serial_queue.cpp | 17 ++++++++++-------
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/backend.cpp b/src/backend.cpp
index b3ff780..6c0d957 100644
--- a/src/backend.cpp
+++ b/src/backend.cpp
@@ -117,45 +117,47 @@ platform_backend()
 queue
 main_queue()
 {
-    static iqueue_impl_ptr s_instance =
-      platform_backend().create_main_queue(k_label_main);
-    return queue(k_label_main, s_instance);
+    // the queues are intentionally leaked, here and below, because they are
+    // still in use by other threads while the process ends
+    static auto* s_instance = new iqueue_impl_ptr(
+      platform_backend().create_main_queue(k_label_main));
+    return queue(k_label_main, *s_instance);
 }
 
 static queue
 global_queue_USER_INTERACTIVE()
 {
-    static iqueue_impl_ptr s_instance =
+    static auto* s_instance = new iqueue_impl_ptr(
       platform_backend().create_parallel_queue(
-        k_label_global_INTERACTIVE, queue_priority::USER_INTERACTIVE);
-    return queue(k_label_global_INTERACTIVE, s_instance);
+        k_label_global_INTERACTIVE, queue_priority::USER_INTERACTIVE));
+    return queue(k_label_global_INTERACTIVE, *s_instance);
 }
 
 static queue
 global_queue_USER_INITIATED()
 {
-    static iqueue_impl_ptr s_instance =
+    static auto* s_instance = new iqueue_impl_ptr(
       platform_backend().create_parallel_queue(k_label_global_INITIATED,
-                                               queue_priority::USER_INITIATED);
-    return queue(k_label_global_INITIATED, s_instance);
+                                               queue_priority::USER_INITIATED));
+    return queue(k_label_global_INITIATED, *s_instance);
 }
 
 static queue
 global_queue_UTILITY()
 {
-    static iqueue_impl_ptr s_instance =
+    static auto* s_instance = new iqueue_impl_ptr(
       platform_backend().create_parallel_queue(k_label_global_UTILITY,
-                                               queue_priority::UTILITY);
-    return queue(k_label_global_UTILITY, s_instance);
+                                               queue_priority::UTILITY));
+    return queue(k_label_global_UTILITY, *s_instance);
 }
 
 static queue
 global_queue_BACKGROUND()
 {
-    static iqueue_impl_ptr s_instance =
+    static auto* s_instance = new iqueue_impl_ptr(
       platform_backend().create_parallel_queue(k_label_global_BACKGROUND,
-                                               queue_priority::BACKGROUND);
-    return queue(k_label_global_BACKGROUND, s_instance);
+                                               queue_priority::BACKGROUND));
+    return queue(k_label_global_BACKGROUND, *s_instance);
 }
 
 queue
diff --git a/src/naive/naive_serial_queue.cpp b/src/naive/naive_serial_queue.cpp
index 12bd9d6..8f40f57 100644
--- a/src/naive/naive_serial_queue.cpp
+++ b/src/naive/naive_serial_queue.cpp
@@ -112,18 +112,21 @@ backend::create_serial_queue(const std::string& label,
 static std::shared_ptr<manual_thread>
 main_thread()
 {
-    static std::shared_ptr<manual_thread> s_thread =
-      std::make_shared<manual_thread>(k_label_main,
-                                      queue_priority::USER_INTERACTIVE);
-    return s_thread;
+    // intentionally leaked, still in use by other threads at process exit
+    static auto* s_thread =
+      new std::shared_ptr<manual_thread>(std::make_shared<manual_thread>(
+        k_label_main, queue_priority::USER_INTERACTIVE));
+    return *s_thread;
 }
 
 iqueue_impl_ptr
 backend::create_main_queue(const std::string& label, backend_type backend)
 {
-    static iqueue_impl_ptr s_queue = std::make_shared<serial_queue_impl>(
-      main_thread(), label, queue_priority::USER_INTERACTIVE, backend);
-    return s_queue;
+    // intentionally leaked, still in use by other threads at process exit
+    static auto* s_queue =
+      new iqueue_impl_ptr(std::make_shared<serial_queue_impl>(
+        main_thread(), label, queue_priority::USER_INTERACTIVE, backend));
+    return *s_queue;
 }
 
 void
-- 
2.43.0


From 33a962ccd715a20940344a6f1b60bdf5a19e44d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 22/23] fix: ending the process within a handler must not use
 destroyed thread data

exit() destroys the objects with thread storage duration of the calling
thread first. When called by a handler, timers, notifiers and signals
destroyed as static objects afterwards still access the set of active
cancelables.
---
 src/cancelable.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cancelable.cpp b/src/cancelable.cpp
index 78fbdd6..16f1796 100644
--- a/src/cancelable.cpp
+++ b/src/cancelable.cpp
@@ -28,7 +28,9 @@
 __XDISPATCH_BEGIN_NAMESPACE
 
 // a cancelable may be entered recursively when an entity invokes itself
-static thread_local std::multiset<cancelable*> current_c;
+// Note: not destroyed along with the thread as the process may be ended from
+//       within a handler with other cancelables being disabled afterwards
+static thread_local std::multiset<cancelable*>* current_c = nullptr;
 
 cancelable::cancelable(concurrency_mode mode)
   : m_mode(mode)
@@ -40,7 +42,7 @@ void
 cancelable::disable()
 {
     std::unique_lock<std::mutex> lock(m_CS);
-    const bool recursion = current_c.find(this) != current_c.end();
+    const bool recursion = current_c && 0 != current_c->count(this);
     if (active_running == m_active) {
         // tried to disable while still running
         m_active = active_cancelling;
@@ -61,7 +63,10 @@ cancelable::enter()
         (active_running == m_active && concurrent == m_mode)) {
         m_active = active_running;
         ++m_running;
-        current_c.insert(this);
+        if (!current_c) {
+            current_c = new std::multiset<cancelable*>;
+        }
+        current_c->insert(this);
         return true;
     }
     // disabled
@@ -72,7 +77,11 @@ void
 cancelable::leave()
 {
     std::lock_guard<std::mutex> lock(m_CS);
-    current_c.erase(current_c.find(this));
+    current_c->erase(current_c->find(this));
+    if (current_c->empty()) {
+        delete current_c;
+        current_c = nullptr;
+    }
     if (0 != --m_running) {
         // still being executed elsewhere
     } else if (active_running == m_active) {
-- 
2.43.0


From 6cd4e0603ca8fdd9fa76d9c26e43868798098353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 23/23] fix: a block of the pool's queue must not be reused
 before all its operations have been taken

---
 src/naive/3rdparty/concurrentqueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naive/3rdparty/concurrentqueue.h b/src/naive/3rdparty/concurrentqueue.h
index e90b9c2..9e9fe2e 100644
--- a/src/naive/3rdparty/concurrentqueue.h
+++ b/src/naive/3rdparty/concurrentqueue.h
@@ -1841,7 +1841,7 @@ private:
             else
             {
                 // Increment counter
-                auto prevVal = elementsCompletelyDequeued.fetch_add( 1, std::memory_order_release );
+                auto prevVal = elementsCompletelyDequeued.fetch_add( 1, std::memory_order_acq_rel );
                 assert( prevVal < BLOCK_SIZE );
                 return prevVal == BLOCK_SIZE - 1;
             }
@@ -1867,7 +1867,7 @@ private:
             else
             {
                 // Increment counter
-                auto prevVal = elementsCompletelyDequeued.fetch_add( count, std::memory_order_release );
+                auto prevVal = elementsCompletelyDequeued.fetch_add( count, std::memory_order_acq_rel );
                 assert( prevVal + count <= BLOCK_SIZE );
                 return prevVal + count == BLOCK_SIZE;
             }
-- 
2.43.0

