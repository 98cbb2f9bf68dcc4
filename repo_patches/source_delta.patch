From c92421658d375aa7c773faed449353ef7415ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 01/64] fix: LockFreeStack read the next index of a node
 without synchronisation

A thread popping with an outdated head reads index_next while another
thread pushes that node: make the access atomic, and acquire the head
before following it.
---
 .../include/klepsydra/core/lock_free_stack.h  | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/lock_free_stack.h b/core/modules/core/include/klepsydra/core/lock_free_stack.h
index a60e83c..61544c8 100644
--- a/core/modules/core/include/klepsydra/core/lock_free_stack.h
+++ b/core/modules/core/include/klepsydra/core/lock_free_stack.h
@@ -18,6 +18,8 @@
 #define LOCK_FREE_STACK_H
 
 #include <atomic>
+#include <cstdint>
+#include <functional>
 #include <iostream>
 #include <memory>
 #include <vector>
@@ -31,9 +33,12 @@ class LockFreeStack
 
     // TODO see if constructor should throw if requested capacity is > (UNDEF_INDEX - 1)
 
+    // A thread popping with an outdated head may read the next index of a node that another
+    // thread is pushing at the same time: the value read is then thrown away by the failing
+    // compare exchange, but the access itself must be atomic.
     struct node_t final
     {
-        uint16_t index_next;
+        std::atomic<uint16_t> index_next;
     };
 
     struct head_t final
@@ -52,12 +57,9 @@ class LockFreeStack
         {}
     };
 
-    using aligned_node_t =
-        typename std::aligned_storage<sizeof(node_t), std::alignment_of<node_t>::value>::type;
-
     static_assert(sizeof(head_t) == 2 * sizeof(uint16_t), "Stack head should be 2 pointers size.");
 
-    std::unique_ptr<aligned_node_t[]> node_buffer_ptr;
+    std::unique_ptr<node_t[]> node_buffer_ptr;
     node_t *node_buffer;
     std::atomic<head_t> head;
     std::atomic<head_t> free_nodes;
@@ -69,19 +71,19 @@ public:
         size_t realCapacity = capacity;
         free_nodes.store(head_t(), std::memory_order_relaxed);
         // preallocate nodes
-        node_buffer_ptr.reset(new aligned_node_t[realCapacity]);
-        node_buffer = reinterpret_cast<node_t *>(node_buffer_ptr.get());
+        node_buffer_ptr.reset(new node_t[realCapacity]);
+        node_buffer = node_buffer_ptr.get();
         data_buffer.resize(realCapacity);
         for (size_t i = 0; i < realCapacity - 1; ++i) {
             if (initFunction != nullptr) {
                 initFunction(data_buffer[i]);
             }
-            node_buffer[i].index_next = i + 1;
+            node_buffer[i].index_next.store(i + 1, std::memory_order_relaxed);
         }
         if (initFunction != nullptr) {
             initFunction(data_buffer[realCapacity - 1]);
         }
-        node_buffer[realCapacity - 1].index_next = UNDEF_INDEX;
+        node_buffer[realCapacity - 1].index_next.store(UNDEF_INDEX, std::memory_order_relaxed);
         head.store(head_t(node_buffer, &node_buffer[0]), std::memory_order_relaxed);
     }
 
@@ -109,12 +111,13 @@ public:
 private:
     node_t *_pop(std::atomic<head_t> &h)
     {
-        head_t next, orig = h.load(std::memory_order_relaxed);
+        head_t next, orig = h.load(std::memory_order_acquire);
         do {
             if (orig.node_index == UNDEF_INDEX)
                 return nullptr;
             next.aba = orig.aba + 1;
-            next.node_index = node_buffer[orig.node_index].index_next;
+            next.node_index = node_buffer[orig.node_index].index_next.load(
+                std::memory_order_relaxed);
         } while (!h.compare_exchange_weak(orig,
                                           next,
                                           std::memory_order_acq_rel,
@@ -126,7 +129,7 @@ private:
     {
         head_t next, orig = h.load(std::memory_order_relaxed);
         do {
-            node->index_next = orig.node_index;
+            node->index_next.store(orig.node_index, std::memory_order_relaxed);
             next.aba = orig.aba + 1;
             next.node_index = _getIndex(node);
         } while (!h.compare_exchange_weak(orig,
-- 
2.43.0


From d715231b85eec187026dcae9ce8561614e2a714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 02/64] fix: LockFreeStack ABA tag and index were 16 bits wide

The tag wrapped after 65536 operations, so a thread preempted during a
pop could corrupt the stack (one element handed out twice, others lost),
and a stack built for more than 65535 elements silently kept 65535.
---
 .../include/klepsydra/core/lock_free_stack.h   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/lock_free_stack.h b/core/modules/core/include/klepsydra/core/lock_free_stack.h
index 61544c8..ae2224d 100644
--- a/core/modules/core/include/klepsydra/core/lock_free_stack.h
+++ b/core/modules/core/include/klepsydra/core/lock_free_stack.h
@@ -29,22 +29,22 @@ namespace kpsr {
 template<typename T>
 class LockFreeStack
 {
-    static const int UNDEF_INDEX = 65535;
-
-    // TODO see if constructor should throw if requested capacity is > (UNDEF_INDEX - 1)
+    static const uint32_t UNDEF_INDEX = UINT32_MAX;
 
     // A thread popping with an outdated head may read the next index of a node that another
     // thread is pushing at the same time: the value read is then thrown away by the failing
     // compare exchange, but the access itself must be atomic.
     struct node_t final
     {
-        std::atomic<uint16_t> index_next;
+        std::atomic<uint32_t> index_next;
     };
 
-    struct head_t final
+    // The aba tag must not come back to the same value while a thread is preempted in between
+    // reading the head and replacing it: 16 bits take only 65536 operations to wrap.
+    struct alignas(2 * sizeof(uint32_t)) head_t final
     {
-        uint16_t aba;
-        uint16_t node_index;
+        uint32_t aba;
+        uint32_t node_index;
         head_t() noexcept
             : aba(0)
             , node_index(UNDEF_INDEX)
@@ -57,7 +57,7 @@ class LockFreeStack
         {}
     };
 
-    static_assert(sizeof(head_t) == 2 * sizeof(uint16_t), "Stack head should be 2 pointers size.");
+    static_assert(sizeof(head_t) == 2 * sizeof(uint32_t), "Stack head should be 2 pointers size.");
 
     std::unique_ptr<node_t[]> node_buffer_ptr;
     node_t *node_buffer;
@@ -138,7 +138,7 @@ private:
                                           std::memory_order_acquire));
     }
 
-    int _getIndex(const node_t *node)
+    uint32_t _getIndex(const node_t *node)
     {
         return (reinterpret_cast<uintptr_t>(node) - reinterpret_cast<uintptr_t>(node_buffer)) /
                sizeof(node_t);
-- 
2.43.0


From 27488cdcdcf26b6bab1ef3308b4fad6ce3f3af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 03/64] fix: SmartObjectPool lost failed acquisitions counted
 by several threads

---
 core/modules/core/include/klepsydra/core/smart_object_pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/modules/core/include/klepsydra/core/smart_object_pool.h b/core/modules/core/include/klepsydra/core/smart_object_pool.h
index f4f1d36..c6d93a2 100644
--- a/core/modules/core/include/klepsydra/core/smart_object_pool.h
+++ b/core/modules/core/include/klepsydra/core/smart_object_pool.h
@@ -17,10 +17,12 @@
 #ifndef SMART_OBJECT_POOL_H
 #define SMART_OBJECT_POOL_H
 
+#include <atomic>
 #include <functional>
 #include <klepsydra/core/lock_free_stack.h>
 #include <memory>
 #include <stdexcept>
+#include <thread>
 
 #include <spdlog/spdlog.h>
 
@@ -139,7 +141,7 @@ public:
     /*!
      * @brief objectPoolFails
      */
-    long objectPoolFails = 0;
+    std::atomic<long> objectPoolFails{0};
 
 private:
     std::function<void(T &)> _finalizerFunction;
-- 
2.43.0


From af14a7b89f48ff810969b75d2400c71c74128428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 04/64] fix: SmartObjectPool destruction raced with objects
 being returned

A thread dropping the last reference to a pooled object while the pool is
destroyed pushed it to a stack that was already deleted.
---
 .../core/include/klepsydra/core/smart_object_pool.h        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/modules/core/include/klepsydra/core/smart_object_pool.h b/core/modules/core/include/klepsydra/core/smart_object_pool.h
index c6d93a2..8642575 100644
--- a/core/modules/core/include/klepsydra/core/smart_object_pool.h
+++ b/core/modules/core/include/klepsydra/core/smart_object_pool.h
@@ -99,6 +99,13 @@ public:
 
     virtual ~SmartObjectPool()
     {
+        // Objects released from here on are deleted. Those on their way back to the pool in
+        // another thread have to arrive before the pool is dismantled.
+        std::weak_ptr<SmartObjectPool<T, D> *> returning(this_ptr_);
+        this_ptr_.reset();
+        while (!returning.expired()) {
+            std::this_thread::yield();
+        }
         std::unique_ptr<T, D> t_ptr;
         while (pool_->pop(t_ptr)) {
             if (_finalizerFunction) {
-- 
2.43.0


From 72a0b1f392df404216e0b00069ffb3474b87ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 05/64] fix: SmartObjectPool did not compile with clang
 (std::exception has no message)

---
 core/modules/core/include/klepsydra/core/smart_object_pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/smart_object_pool.h b/core/modules/core/include/klepsydra/core/smart_object_pool.h
index 8642575..9a83248 100644
--- a/core/modules/core/include/klepsydra/core/smart_object_pool.h
+++ b/core/modules/core/include/klepsydra/core/smart_object_pool.h
@@ -137,13 +137,13 @@ public:
     /*!
      * @brief empty
      */
-    bool empty() const { throw std::exception("Unsupported operation."); }
+    bool empty() const { throw std::logic_error("Unsupported operation."); }
 
     /*!
      * @brief size
      * @return
      */
-    size_t size() const { throw std::exception("Unsupported operation."); }
+    size_t size() const { throw std::logic_error("Unsupported operation."); }
 
     /*!
      * @brief objectPoolFails
-- 
2.43.0


From 5c9fc9100c653033f44fffaae488093dcccdd587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 06/64] fix: multi_producer_sequencer published availability
 flags without synchronisation

Producers wrote and consumers read the flags as plain ints, so a consumer
could see a slot as published before its content.
---
 .../disruptor4cpp/multi_producer_sequencer.h          | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index 02fe4d2..8d59230 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -47,9 +47,9 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #ifndef DISRUPTOR4CPP_MULTI_PRODUCER_SEQUENCER_H_
 #define DISRUPTOR4CPP_MULTI_PRODUCER_SEQUENCER_H_
 
+#include <atomic>
 #include <cstddef>
 #include <cstdint>
-#include <cstring>
 #include <memory>
 #include <stdexcept>
 #include <thread>
@@ -79,7 +79,8 @@ public:
         , wait_strategy_()
         , gating_sequences_()
     {
-        std::memset(available_buffer_, ~0, sizeof(available_buffer_));
+        for (auto &flag : available_buffer_)
+            flag.store(-1, std::memory_order_relaxed);
     }
 
     ~multi_producer_sequencer() = default;
@@ -209,7 +210,7 @@ public:
     {
         int index = calculate_index(seq);
         int flag = calculate_availability_flag(seq);
-        return available_buffer_[index] == flag;
+        return available_buffer_[index].load(std::memory_order_acquire) == flag;
     }
 
     int64_t get_highest_published_sequence(int64_t lower_bound, int64_t available_sequence) const
@@ -247,7 +248,7 @@ private:
     {
         int index = calculate_index(seq);
         int flag = calculate_availability_flag(seq);
-        available_buffer_[index] = flag;
+        available_buffer_[index].store(flag, std::memory_order_release);
     }
 
     int calculate_availability_flag(int64_t seq) const
@@ -261,7 +262,7 @@ private:
     TSequence gating_sequence_cache_;
     TWaitStrategy wait_strategy_;
     std::vector<TSequence *> gating_sequences_;
-    int available_buffer_[BufferSize];
+    std::atomic<int> available_buffer_[BufferSize];
 };
 } // namespace disruptor4cpp
 
-- 
2.43.0


From 201de65cf18a07a27f41ad16fc6d0feb27339dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 07/64] fix: multi_producer_sequencer truncated the cursor to
 32 bits

After 2^31 events try_next and has_available_capacity always saw free room,
so slots still being consumed were overwritten.
---
 .../high_performance/disruptor4cpp/multi_producer_sequencer.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index 8d59230..c338074 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -231,7 +231,7 @@ private:
     static constexpr int INDEX_MASK = static_cast<int>(BufferSize) - 1;
     static constexpr int INDEX_SHIFT = util::log2(BufferSize);
 
-    bool has_available_capacity(int required_capacity, int cursor_value)
+    bool has_available_capacity(int required_capacity, int64_t cursor_value)
     {
         int64_t wrap_point = (cursor_value + required_capacity) - static_cast<int64_t>(BufferSize);
         int64_t cached_gating_sequence = gating_sequence_cache_.get();
-- 
2.43.0


From 701f825ce07e1064bc2c5a6a07a029d27d033d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 08/64] fix: lite_blocking_wait_strategy could miss a wake-up

The waiter's store of the flag and its check of the cursor could be
reordered, so a publisher saw no waiter while the waiter saw no event.
---
 .../wait_strategies/lite_blocking_wait_strategy.h             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
index c3d65de..7980b5f 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/wait_strategies/lite_blocking_wait_strategy.h
@@ -74,7 +74,7 @@ public:
         if ((available_sequence = cursor_sequence.get()) < seq) {
             std::unique_lock<std::recursive_mutex> lock(mutex_);
             do {
-                signal_needed_.store(true, std::memory_order_release);
+                signal_needed_.exchange(true, std::memory_order_acq_rel);
                 if ((available_sequence = cursor_sequence.get()) >= seq)
                     break;
 
@@ -91,7 +91,7 @@ public:
 
     void signal_all_when_blocking()
     {
-        if (signal_needed_.exchange(false, std::memory_order_release)) {
+        if (signal_needed_.exchange(false, std::memory_order_acq_rel)) {
             std::lock_guard<std::recursive_mutex> lock(mutex_);
             processor_notify_condition_.notify_all();
         }
-- 
2.43.0


From b1561f3213cbf169c980edb8b4c058c630fd4241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 09/64] fix: event processors could miss a halt

A halt arriving between run() marking itself running and clearing the alert
was lost, and the no-op processor never woke its barrier at all.
---
 .../disruptor4cpp/batch_event_processor.h                | 3 ++-
 .../disruptor4cpp/no_op_event_processor.h                | 9 +++++++--
 .../high_performance/disruptor4cpp/sequence_barrier.h    | 4 ++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
index 7ac664f..eaac998 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
@@ -112,7 +112,8 @@ public:
         typename TRingBuffer::event_type *event = nullptr;
         int64_t next_sequence = sequence_.get() + 1;
         try {
-            while (true) {
+            // A halt that came before the alert was cleared is only visible here.
+            while (running_.load(std::memory_order_acquire)) {
                 try {
                     const int64_t available_sequence = sequence_barrier_.wait_for(next_sequence);
                     while (next_sequence <= available_sequence) {
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
index 833c6ff..b363c38 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
@@ -82,7 +82,11 @@ public:
 
     typename TRingBuffer::sequence_type &get_sequence() { return sequence_; }
 
-    void halt() { running_.store(false, std::memory_order_release); }
+    void halt()
+    {
+        running_.store(false, std::memory_order_release);
+        sequence_barrier_.alert();
+    }
 
     bool is_running() const { return running_.load(std::memory_order_acquire); }
 
@@ -97,7 +101,8 @@ public:
         sequence_barrier_.clear_alert();
         int64_t next_sequence = sequence_.get() + 1;
         try {
-            while (true) {
+            // A halt that came before the alert was cleared is only visible here.
+            while (running_.load(std::memory_order_acquire)) {
                 try {
                     const int64_t available_sequence = sequence_barrier_.wait_for(next_sequence);
                     while (next_sequence <= available_sequence) {
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
index c56db6d..b58c971 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/sequence_barrier.h
@@ -98,11 +98,11 @@ public:
 
     void alert()
     {
-        alerted_.store(true, std::memory_order_release);
+        alerted_.exchange(true, std::memory_order_acq_rel);
         wait_strategy_.signal_all_when_blocking();
     }
 
-    void clear_alert() { alerted_.store(false, std::memory_order_release); }
+    void clear_alert() { alerted_.exchange(false, std::memory_order_acq_rel); }
 
     void check_alert() const
     {
-- 
2.43.0


From 03dcb4ba4fdc1b52ab3a65ad5c6296cd230098fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 10/64] fix: SafeQueue timed pops could pop an empty queue

After waking up the queue was not checked again, so a spurious wake-up, or
an item taken by another consumer first, popped from an empty queue.
---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index d331aab..efb575a 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -17,6 +17,7 @@
 #ifndef SAFE_QUEUE_H
 #define SAFE_QUEUE_H
 
+#include <chrono>
 #include <condition_variable>
 #include <cstdint>
 #include <list>
@@ -287,8 +288,9 @@ public:
             if (timeout == 0)
                 return false;
 
-            if (m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout)) ==
-                std::cv_status::timeout)
+            if (!m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout), [this]() {
+                    return !m_queue.empty();
+                }))
                 return false;
         }
 
@@ -315,8 +317,9 @@ public:
             if (timeout == 0)
                 return false;
 
-            if (m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout)) ==
-                std::cv_status::timeout)
+            if (!m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout), [this]() {
+                    return !m_queue.empty();
+                }))
                 return false;
         }
 
-- 
2.43.0


From 8f5097602d46a11f57bb3c04eba30edbc8ce4375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 11/64] fix: SafeQueue blocking pushes never returned without a
 limit

A limit of 0 means no limit, but push waited for size() < 0.
---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index efb575a..9ede290 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -90,7 +90,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return m_max_num_items == 0 || m_queue.size() < m_max_num_items; });
 
         m_queue.push(item);
         m_non_empty_condition.notify_one();
@@ -107,7 +107,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return m_max_num_items == 0 || m_queue.size() < m_max_num_items; });
 
         m_queue.push(item);
         m_non_empty_condition.notify_one();
@@ -124,7 +124,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return m_max_num_items == 0 || m_queue.size() < m_max_num_items; });
 
         m_queue.push(std::move(item));
         m_non_empty_condition.notify_one();
-- 
2.43.0


From 71c26f1b52fcb79febf4af564bcc4ee5ddb2d343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 12/64] fix: copied and moved SafeQueues lost their limit

The move constructor also read its source without locking it.
---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 9ede290..27c39dc 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -60,7 +60,12 @@ public:
      * @brief SafeQueue
      * @param sq
      */
-    SafeQueue(SafeQueue &&sq) { m_queue = std::move(sq.m_queue); }
+    SafeQueue(SafeQueue &&sq)
+    {
+        std::lock_guard<std::mutex> lock(sq.m_mutex);
+        m_queue = std::move(sq.m_queue);
+        m_max_num_items = sq.m_max_num_items;
+    }
 
     /**
      * @brief SafeQueue
@@ -70,6 +75,7 @@ public:
     {
         std::lock_guard<std::mutex> lock(sq.m_mutex);
         m_queue = sq.m_queue;
+        m_max_num_items = sq.m_max_num_items;
     }
 
     ~SafeQueue() { std::lock_guard<std::mutex> lock(m_mutex); }
-- 
2.43.0


From 4d12be8f69859ea9d60ff54ce3e74fc952d7f996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 13/64] fix: SafeQueue swap and assignment could deadlock, race
 and strand blocked pushers

Both mutexes are now taken together, move assignment locks its source, and
pushers blocked on a full queue are told when the exchange, or a new limit,
makes room.
---
 .../include/klepsydra/mem_core/safe_queue.h   | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 27c39dc..415d9b2 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -84,7 +84,12 @@ public:
      * @brief set_max_num_items Sets the maximum number of items in the queue. Defaults is 0: No limit
      * @param max_num_items
      */
-    void set_max_num_items(unsigned int max_num_items) { m_max_num_items = max_num_items; }
+    void set_max_num_items(unsigned int max_num_items)
+    {
+        std::lock_guard<std::mutex> lock(m_mutex);
+        m_max_num_items = max_num_items;
+        m_non_full_condition.notify_all();
+    }
 
     /**
      * @brief push Pushes the item into the queue. It blocks if the queue is full
@@ -372,8 +377,9 @@ public:
     void swap(SafeQueue &sq)
     {
         if (this != &sq) {
-            std::lock_guard<std::mutex> lock1(m_mutex);
-            std::lock_guard<std::mutex> lock2(sq.m_mutex);
+            std::lock(m_mutex, sq.m_mutex);
+            std::lock_guard<std::mutex> lock1(m_mutex, std::adopt_lock);
+            std::lock_guard<std::mutex> lock2(sq.m_mutex, std::adopt_lock);
             m_queue.swap(sq.m_queue);
 
             if (!m_queue.empty())
@@ -381,6 +387,9 @@ public:
 
             if (!sq.m_queue.empty())
                 sq.m_non_empty_condition.notify_all();
+
+            m_non_full_condition.notify_all();
+            sq.m_non_full_condition.notify_all();
         }
     }
 
@@ -392,13 +401,16 @@ public:
     SafeQueue &operator=(const SafeQueue &sq)
     {
         if (this != &sq) {
-            std::lock_guard<std::mutex> lock1(m_mutex);
-            std::lock_guard<std::mutex> lock2(sq.m_mutex);
+            std::lock(m_mutex, sq.m_mutex);
+            std::lock_guard<std::mutex> lock1(m_mutex, std::adopt_lock);
+            std::lock_guard<std::mutex> lock2(sq.m_mutex, std::adopt_lock);
             std::queue<T, Container> temp{sq.m_queue};
             m_queue.swap(temp);
 
             if (!m_queue.empty())
                 m_non_empty_condition.notify_all();
+
+            m_non_full_condition.notify_all();
         }
 
         return *this;
@@ -411,11 +423,18 @@ public:
      */
     SafeQueue &operator=(SafeQueue &&sq)
     {
-        std::lock_guard<std::mutex> lock(m_mutex);
-        m_queue = std::move(sq.m_queue);
+        if (this != &sq) {
+            std::lock(m_mutex, sq.m_mutex);
+            std::lock_guard<std::mutex> lock1(m_mutex, std::adopt_lock);
+            std::lock_guard<std::mutex> lock2(sq.m_mutex, std::adopt_lock);
+            m_queue = std::move(sq.m_queue);
+
+            if (!m_queue.empty())
+                m_non_empty_condition.notify_all();
 
-        if (!m_queue.empty())
-            m_non_empty_condition.notify_all();
+            m_non_full_condition.notify_all();
+            sq.m_non_full_condition.notify_all();
+        }
 
         return *this;
     }
-- 
2.43.0


From 87c0fe2a09248f69127741369e5d914fcceb562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 14/64] fix: in-memory middleware destroyed while running used
 destroyed objects

The polling thread was only joined by the base class destructors, after the
queue and the overriding takeEventFromQueue were gone.
---
 .../include/klepsydra/mem_core/basic_middleware_provider.h     | 3 +++
 .../klepsydra/mem_core/concurrent_middleware_provider.h        | 3 +++
 .../include/klepsydra/mem_core/concurrent_queue_poller.h       | 3 +++
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
index 8601697..cc60a20 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
@@ -78,6 +78,9 @@ public:
             new SafeQueuePoller<T>(_internalQueue, this->_eventEmitter, eventName, 1000));
     }
 
+    // The poller uses the queue, which is destroyed before the base class.
+    virtual ~BasicMiddlewareProvider() { this->_poller->stop(); }
+
     SafeQueue<EventData<const T>> _internalQueue;
 };
 } // namespace mem
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
index a14246f..6387135 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
@@ -86,6 +86,9 @@ public:
                                          _token));
     }
 
+    // The poller uses the queue, which is destroyed before the base class.
+    virtual ~ConcurrentMiddlewareProvider() { this->_poller->stop(); }
+
     /**
      * @brief _internalQueue
      */
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
index 04b0a68..dd870ff 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
@@ -70,6 +70,9 @@ public:
         , _token(token)
     {}
 
+    // The polling thread calls takeEventFromQueue, so it has to end before this object does.
+    virtual ~ConcurrentQueuePoller() { this->stop(); }
+
 private:
     void takeEventFromQueue() override
     {
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
index 512cfdb..ca4f8f4 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
@@ -63,6 +63,9 @@ public:
         , _internalQueue(safeQueue)
     {}
 
+    // The polling thread calls takeEventFromQueue, so it has to end before this object does.
+    virtual ~SafeQueuePoller() { this->stop(); }
+
 private:
     void takeEventFromQueue() override
     {
-- 
2.43.0


From dfb9faa75e4f28a071b85a59fdc63e0550949a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 15/64] fix: stopping a poller whose thread had not started yet
 hung

The late thread overwrote the request to stop and stop waited for it forever.
---
 core/modules/mem_mdlw/src/in_memory_queue_poller.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
index 9f397b6..1911dcd 100644
--- a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
+++ b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
@@ -39,13 +39,15 @@ void InMemoryQueuePoller::stop()
     if (!isStarted()) {
         return;
     }
+    // A thread that has not reached its loop yet would overwrite _running, so it checks _started too.
+    _started.store(false, std::memory_order_release);
     _running.store(false, std::memory_order_release);
     if (_threadNotifier.joinable()) {
         _threadNotifier.join();
     }
+    _running.store(false, std::memory_order_release);
     _loopFunction = (std::packaged_task<void()>(
         std::bind(&InMemoryQueuePoller::pollingLoop, this))); // to allow restarting
-    _started.store(false, std::memory_order_release);
 }
 
 InMemoryQueuePoller::~InMemoryQueuePoller()
@@ -59,7 +61,7 @@ InMemoryQueuePoller::~InMemoryQueuePoller()
 void InMemoryQueuePoller::pollingLoop()
 {
     _running.store(true, std::memory_order_release);
-    while (isRunning()) {
+    while (isRunning() && isStarted()) {
         takeEventFromQueue();
     }
 }
-- 
2.43.0


From 8ecaa315db2e8e016fa4369ac1069db4ae57b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 16/64] fix: closing a socket reported success as failure and
 closed the descriptor twice

---
 core/modules/socket_mdlw/src/base_socket.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/core/modules/socket_mdlw/src/base_socket.cpp b/core/modules/socket_mdlw/src/base_socket.cpp
index 506ef7b..cb7d943 100644
--- a/core/modules/socket_mdlw/src/base_socket.cpp
+++ b/core/modules/socket_mdlw/src/base_socket.cpp
@@ -58,18 +58,18 @@ void kpsr::socket_mdlw::BaseSocket::close()
                               __func__,
                               ": accept called on a bad socket object (this object was moved)"));
     }
-    while (true) {
-        int state = ::close(socketId);
-        if (state == invalidSocketId) {
-            break;
-        }
+    // The descriptor is released whatever close reports, so it is never closed again:
+    // its number may already belong to somebody else.
+    const int closedId = socketId;
+    socketId = invalidSocketId;
+    if (::close(closedId) == -1) {
         switch (errno) {
         case EBADF:
             throw std::domain_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: EBADF: ", socketId, " ", std::strerror(errno)));
+                "BaseSocket::", __func__, ": close: EBADF: ", closedId, " ", std::strerror(errno)));
         case EIO:
             throw std::runtime_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: EIO:  ", socketId, " ", std::strerror(errno)));
+                "BaseSocket::", __func__, ": close: EIO:  ", closedId, " ", std::strerror(errno)));
         case EINTR: {
             // TODO: Check for user interrupt flags.
             //       Beyond the scope of this project
@@ -78,10 +78,9 @@ void kpsr::socket_mdlw::BaseSocket::close()
         }
         default:
             throw std::runtime_error(buildErrorMessage(
-                "BaseSocket::", __func__, ": close: ???:  ", socketId, " ", std::strerror(errno)));
+                "BaseSocket::", __func__, ": close: ???:  ", closedId, " ", std::strerror(errno)));
         }
     }
-    socketId = invalidSocketId;
 }
 
 void kpsr::socket_mdlw::BaseSocket::swap(kpsr::socket_mdlw::BaseSocket &other) noexcept
-- 
2.43.0


From ac713a925c8e8e656979f1976ffcf0ff2cca5c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 17/64] fix: writing to a socket whose peer is gone ended the
 process with SIGPIPE

---
 core/modules/socket_mdlw/src/data_socket.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/modules/socket_mdlw/src/data_socket.cpp b/core/modules/socket_mdlw/src/data_socket.cpp
index b8b9590..b50d8a1 100644
--- a/core/modules/socket_mdlw/src/data_socket.cpp
+++ b/core/modules/socket_mdlw/src/data_socket.cpp
@@ -14,6 +14,7 @@
 
 #include <arpa/inet.h>
 #include <cstring>
+#include <sys/socket.h>
 #include <unistd.h>
 
 #include <klepsydra/socket_core/data_socket.h>
@@ -24,7 +25,8 @@ void kpsr::socket_mdlw::DataSocket::putMessageData(char const *buffer, std::size
     std::size_t dataWritten = 0;
 
     while (dataWritten < size) {
-        std::size_t put = write(getSocketId(), buffer + dataWritten, size - dataWritten);
+        // A peer that is gone is reported as EPIPE below, not with a signal that ends the process.
+        std::size_t put = ::send(getSocketId(), buffer + dataWritten, size - dataWritten, MSG_NOSIGNAL);
         if (put == static_cast<std::size_t>(-1)) {
             switch (errno) {
             case EINVAL:
-- 
2.43.0


From 2704f32a157b3b3e91bafed1dd750d2aae46ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 18/64] fix: sockets with descriptor 0 could not be read

---
 .../socket_mdlw/include/klepsydra/socket_core/data_socket.tpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp b/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
index c9323ea..f48a401 100644
--- a/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
+++ b/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
@@ -35,7 +35,7 @@ template<typename F>
  */
 std::size_t DataSocket::getMessageData(char* buffer, std::size_t size, F scanForEnd)
 {
-    if (getSocketId() == 0)
+    if (getSocketId() == invalidSocketId)
     {
         throw std::logic_error(buildErrorMessage("DataSocket::", __func__, ": accept called on a bad socket object (this object was moved)"));
     }
-- 
2.43.0


From 0dcc0537940c36fe5e4aefe2521c1fe8e47a6398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 19/64] fix: accept overflowed its descriptor set above 1023
 and gave up on signals

---
 .../modules/socket_mdlw/src/server_socket.cpp | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/core/modules/socket_mdlw/src/server_socket.cpp b/core/modules/socket_mdlw/src/server_socket.cpp
index 31bcae1..e8de002 100644
--- a/core/modules/socket_mdlw/src/server_socket.cpp
+++ b/core/modules/socket_mdlw/src/server_socket.cpp
@@ -16,8 +16,14 @@
 #include <sys/un.h>
 
 #include <fcntl.h>
+#include <poll.h>
 #include <unistd.h>
 
+#include <algorithm>
+#include <cerrno>
+#include <chrono>
+#include <limits>
+
 #include <klepsydra/socket_core/server_socket.h>
 #include <klepsydra/socket_core/utility.h>
 
@@ -79,19 +85,22 @@ std::shared_ptr<kpsr::socket_mdlw::DataSocket> kpsr::socket_mdlw::ServerSocket::
                               ": accept called on a bad socket object (this object was moved)"));
     }
 
-    struct timeval tv;
-    fd_set readfds;
-
-    tv.tv_sec = timeout;
-    tv.tv_usec = 0;
-
-    FD_ZERO(&readfds);
-    FD_SET(getSocketId(), &readfds);
+    struct pollfd pfd;
+    pfd.fd = getSocketId();
+    pfd.events = POLLIN;
 
     // Wait until the socket is ready to accept, or a timeout occurs
-    ::select(getSocketId() + 1, &readfds, NULL, NULL, &tv);
-
-    if (!FD_ISSET(getSocketId(), &readfds)) {
+    const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(timeout);
+    int ready = -1;
+    do {
+        const auto left = std::chrono::duration_cast<std::chrono::milliseconds>(
+            deadline - std::chrono::steady_clock::now() + std::chrono::microseconds(999));
+        const auto wait = std::min<long long>(left.count() > 0 ? left.count() : 0,
+                                              std::numeric_limits<int>::max());
+        ready = ::poll(&pfd, 1, static_cast<int>(wait));
+    } while (ready == -1 && errno == EINTR);
+
+    if (ready == 0) {
         throw std::runtime_error(
             buildErrorMessage("ServerSocket:", __func__, ": accept: Timed out"));
     }
-- 
2.43.0


From 84e4c39299f485ef89a289c3dd791c51e6a3c953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 20/64] fix: void_caster_mapper.h could not be included
 together with identity_mapper.h

---
 .../include/klepsydra/serialization/void_caster_mapper.h    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
index 452b703..4cd414e 100644
--- a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
+++ b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
@@ -14,8 +14,8 @@
  * limitations under the License.
  */
 
-#ifndef IDENTITY_MAPPER_H
-#define IDENTITY_MAPPER_H
+#ifndef VOID_CASTER_MAPPER_H
+#define VOID_CASTER_MAPPER_H
 
 #include <cstring>
 #include <iostream>
@@ -62,4 +62,4 @@ public:
 };
 } // namespace kpsr
 
-#endif // IDENTITY_MAPPER_H
+#endif // VOID_CASTER_MAPPER_H
-- 
2.43.0


From 2a7d72ffb809b6a58b462396465bb5083662eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:26 +0000
Subject: [PATCH 21/64] fix: void caster mapper read behind messages shorter
 than the event

---
 .../include/klepsydra/serialization/void_caster_mapper.h      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
index 4cd414e..51623f7 100644
--- a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
+++ b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
@@ -19,6 +19,7 @@
 
 #include <cstring>
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 
 #include <klepsydra/serialization/mapper.h>
@@ -45,6 +46,9 @@ public:
      */
     void fromMiddleware(const std::vector<unsigned char> &message, T &event)
     {
+        if (message.size() < sizeof(T)) {
+            throw std::length_error("VoidCasterMapper: the message is shorter than the event.");
+        }
         std::memcpy(&event, message.data(), sizeof(T));
     }
 
-- 
2.43.0


From c780c07271a8d88f26caab9f12b88fbbd37f4950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 22/64] fix: a reset state machine still processed events
 queued before the reset

---
 state_machine/modules/state_machine/src/state_machine_impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/state_machine/modules/state_machine/src/state_machine_impl.cpp b/state_machine/modules/state_machine/src/state_machine_impl.cpp
index 684a9a2..69c91a3 100644
--- a/state_machine/modules/state_machine/src/state_machine_impl.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_impl.cpp
@@ -42,6 +42,7 @@ void StateMachineImpl::reset()
 {
     _started = false;
     _currentStateId = _initialStateId;
+    _eventQueue = std::queue<std::string>();
 }
 void StateMachineImpl::update()
 {
-- 
2.43.0


From 6fa9c41ff39edfba98e56fab3884da22d1a5d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 23/64] fix: state machine observers that react to a
 notification broke the notification

---
 .../modules/state_machine/src/state_machine_impl.cpp       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_impl.cpp b/state_machine/modules/state_machine/src/state_machine_impl.cpp
index 69c91a3..43416bf 100644
--- a/state_machine/modules/state_machine/src/state_machine_impl.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_impl.cpp
@@ -75,8 +75,11 @@ void StateMachineImpl::enqueueAndUpdate(const std::string &event)
 
 void StateMachineImpl::updateObservers(const std::string &stateId, bool stateChanged)
 {
-    for (auto observer : _observers) {
-        observer(_id + ":" + stateId, stateChanged);
+    // Observers may update the machine and register or unregister observers.
+    const std::string fullStateId = _id + ":" + stateId;
+    const auto observers = _observers;
+    for (const auto &observer : observers) {
+        observer(fullStateId, stateChanged);
     }
 }
 
-- 
2.43.0


From b79e5536fd352ac342ae575fc15d75cf3e58df73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 24/64] fix: removeActions left the entry and one-off actions
 in place

---
 .../modules/state_machine/src/state_machine_listener.cpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_listener.cpp b/state_machine/modules/state_machine/src/state_machine_listener.cpp
index 61edb07..0597996 100644
--- a/state_machine/modules/state_machine/src/state_machine_listener.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_listener.cpp
@@ -45,10 +45,14 @@ void StateMachineListener::addPeriodicAction(const std::string &stateId,
 void StateMachineListener::removeActions(const std::string &stateId)
 {
     std::string id = getCompleteName(stateId);
-    _periodicActions[id].clear();
+    _actions.erase(id);
+    _oneOffActions.erase(id);
+    _periodicActions.erase(id);
 }
 void StateMachineListener::removeActions()
 {
+    _actions.clear();
+    _oneOffActions.clear();
     _periodicActions.clear();
 }
 
-- 
2.43.0


From 590261f690a7939b7baa08eab148b6c9300ef5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 25/64] fix: state machine actions that add actions or update
 the machine used freed actions and repeated one-off ones

---
 .../src/state_machine_listener.cpp            | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_listener.cpp b/state_machine/modules/state_machine/src/state_machine_listener.cpp
index 0597996..9f52bc3 100644
--- a/state_machine/modules/state_machine/src/state_machine_listener.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_listener.cpp
@@ -58,21 +58,29 @@ void StateMachineListener::removeActions()
 
 void StateMachineListener::updateCurrentState(const std::string &currentStateId, bool stateChanged)
 {
+    // The actions may add or remove actions and update the state machine.
     if (stateChanged) {
-        if (_oneOffActions.find(currentStateId) != _oneOffActions.end()) {
-            for (auto action : _oneOffActions[currentStateId]) {
+        auto oneOff = _oneOffActions.find(currentStateId);
+        if (oneOff != _oneOffActions.end()) {
+            const auto actions = std::move(oneOff->second);
+            _oneOffActions.erase(oneOff);
+            for (const auto &action : actions) {
                 action(currentStateId);
             }
-            _oneOffActions.erase(currentStateId);
         }
-        if (_actions.find(currentStateId) != _actions.end()) {
-            for (auto action : _actions[currentStateId]) {
+        auto entry = _actions.find(currentStateId);
+        if (entry != _actions.end()) {
+            const auto actions = entry->second;
+            for (const auto &action : actions) {
                 action(currentStateId);
             }
         }
     }
-    if (_periodicActions.find(currentStateId) != _periodicActions.end()) {
-        for (auto action : _periodicActions[currentStateId]) {
+
+    auto periodic = _periodicActions.find(currentStateId);
+    if (periodic != _periodicActions.end()) {
+        const auto actions = periodic->second;
+        for (const auto &action : actions) {
             action(currentStateId);
         }
     }
-- 
2.43.0


From 398de8b50663c8cdb89121c9094b242eedf86b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 26/64] fix: a single listener that removes itself was
 destroyed while running

---
 .../unsafe_single_listener_event_emitter.h    | 57 ++++++++++---------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h b/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h
index 65e9710..e2f28f8 100644
--- a/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/unsafe_single_listener_event_emitter.h
@@ -64,31 +64,32 @@ public:
                       listenerName,
                       subscriberName);
         if (!_listenerRegistered) {
-            _singleListener = callback;
             _listenerName = listenerName;
             _subscriberName = subscriberName;
             if (container) {
-                _singleListenerStats = std::make_shared<SubscriptionStats>(subscriberName,
-                                                                           listenerName,
-                                                                           EVENT_EMITTER_NAME,
-                                                                           true);
-                container->attach(_singleListenerStats.get());
-
-                _singleListenerWrapper = [this](const Event &event,
-                                                long long unsigned int enqueuedTimeNs) {
-                    this->_singleListenerStats->startProcessMeasure();
-                    if (enqueuedTimeNs > 0) {
-                        this->_singleListenerStats->totalEnqueuedTimeInNs +=
-                            (TimeUtils::getCurrentNanosecondsAsLlu() - enqueuedTimeNs);
-                    }
-                    this->_singleListener(event);
-                    this->_singleListenerStats->stopProcessMeasure();
-                };
+                auto listenerStats = std::make_shared<SubscriptionStats>(subscriberName,
+                                                                         listenerName,
+                                                                         EVENT_EMITTER_NAME,
+                                                                         true);
+                _singleListenerStats = listenerStats;
+                container->attach(listenerStats.get());
+
+                _singleListener = std::make_shared<Listener>(
+                    [listenerStats, callback](const Event &event,
+                                              long long unsigned int enqueuedTimeNs) {
+                        listenerStats->startProcessMeasure();
+                        if (enqueuedTimeNs > 0) {
+                            listenerStats->totalEnqueuedTimeInNs +=
+                                (TimeUtils::getCurrentNanosecondsAsLlu() - enqueuedTimeNs);
+                        }
+                        callback(event);
+                        listenerStats->stopProcessMeasure();
+                    });
             } else {
-                _singleListenerWrapper = [this](const Event &event,
-                                                long long unsigned int enqueuedTimeNs) {
-                    this->_singleListener(event);
-                };
+                _singleListener = std::make_shared<Listener>(
+                    [callback](const Event &event, long long unsigned int enqueuedTimeNs) {
+                        callback(event);
+                    });
             }
             _listenerRegistered = true;
         }
@@ -116,8 +117,8 @@ public:
     {
         if (listenerId == 0) {
             _listenerRegistered = false;
-            _singleListener = [](const Event &event) {};
-            if (container) {
+            _singleListener.reset();
+            if (container && _singleListenerStats) {
                 container->detach(_singleListenerStats.get());
                 _singleListenerStats.reset();
             }
@@ -138,7 +139,9 @@ public:
         if ((subscriberName != _subscriberName) || !_listenerRegistered) {
             return;
         }
-        _singleListenerWrapper(event, enqueuedTimeNs);
+        // The listener may remove itself, so it is kept until it returns.
+        const std::shared_ptr<Listener> listener = _singleListener;
+        (*listener)(event, enqueuedTimeNs);
     }
 
     /**
@@ -176,10 +179,8 @@ private:
     std::string _listenerName;
     std::string _subscriberName;
     std::shared_ptr<SubscriptionStats> _singleListenerStats = nullptr;
-    std::function<void(const Event &event)> _singleListener = nullptr;
-
-    std::function<void(const Event &event, long long unsigned int enqueuedTimeNs)>
-        _singleListenerWrapper = nullptr;
+    typedef std::function<void(const Event &event, long long unsigned int enqueuedTimeNs)> Listener;
+    std::shared_ptr<Listener> _singleListener = nullptr;
 
     UnsafeSingleListenerEventEmitter(const UnsafeSingleListenerEventEmitter &) = delete;
     const UnsafeSingleListenerEventEmitter &operator=(const UnsafeSingleListenerEventEmitter &) =
-- 
2.43.0


From efea31febde1ed727ef74eca956b04fd8dceccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 27/64] fix: multi listener emitter broke when listeners
 changed while emitting and mixed up statistics

---
 .../unsafe_multi_listener_event_emitter.h     | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
index 07a6d87..0e16263 100644
--- a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
@@ -94,14 +94,14 @@ public:
                     callback(event);
                     listenerStat->stopProcessMeasure();
                 };
-                _listeners.push_back(wrappedCallback);
+                _listeners.push_back(std::make_shared<Listener>(wrappedCallback));
 
             } else {
                 auto wrappedCallback = [callback](const Event &event,
                                                   long long unsigned int enqueuedTimeNs) {
                     callback(event);
                 };
-                _listeners.push_back(wrappedCallback);
+                _listeners.push_back(std::make_shared<Listener>(wrappedCallback));
             }
             _subscriberNameMap[subscriberName].push_back(listenerId);
             return listenerId;
@@ -176,7 +176,7 @@ public:
         }
         _listenersNameMap.clear();
         _subscriberNameMap.clear();
-        _listenersNameMap.clear();
+        _listenerStats.clear();
         _listeners.clear();
     }
 
@@ -191,9 +191,18 @@ public:
                    const Event &event) override
     {
         spdlog::trace("{} subscriberName: {}.", __PRETTY_FUNCTION__, subscriberName);
-        auto &listenerVector = _subscriberNameMap[subscriberName];
-        for (auto &it : listenerVector) {
-            _listeners[it](event, enqueuedTimeNs);
+        auto subscriberIterator = _subscriberNameMap.find(subscriberName);
+        if (_subscriberNameMap.end() == subscriberIterator) {
+            return;
+        }
+        // Listeners may add and remove listeners, themselves included.
+        std::vector<std::shared_ptr<Listener>> listeners;
+        listeners.reserve(subscriberIterator->second.size());
+        for (auto &listenerId : subscriberIterator->second) {
+            listeners.push_back(_listeners[listenerId]);
+        }
+        for (auto &listener : listeners) {
+            (*listener)(event, enqueuedTimeNs);
         }
     }
 
@@ -227,10 +236,11 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &listenerId) override
     {
-        if (_listenerStats.size() <= listenerId) {
+        auto listenerStatsIterator = _listenerStats.find(listenerId);
+        if (_listenerStats.end() == listenerStatsIterator) {
             return nullptr;
         }
-        return _listenerStats.at(listenerId);
+        return listenerStatsIterator->second;
     }
 
 private:
@@ -238,8 +248,8 @@ private:
     std::unordered_map<std::string, unsigned int> _listenersNameMap;
     std::unordered_map<std::string, std::vector<unsigned int>> _subscriberNameMap;
     std::unordered_map<unsigned int, std::shared_ptr<SubscriptionStats>> _listenerStats;
-    std::vector<std::function<void(const Event &event, long long unsigned int enqueuedTimeNs)>>
-        _listeners;
+    typedef std::function<void(const Event &event, long long unsigned int enqueuedTimeNs)> Listener;
+    std::vector<std::shared_ptr<Listener>> _listeners;
 
     UnsafeMultiListenerEventEmitter(const UnsafeMultiListenerEventEmitter &) = delete;
     const UnsafeMultiListenerEventEmitter &operator=(const UnsafeMultiListenerEventEmitter &) =
-- 
2.43.0


From 41bc843c794a9ef8f80d7c073341fdb196ac2b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 28/64] fix: asking a subscriber for the statistics of an
 unknown listener registered it as listener 0

---
 .../include/klepsydra/core/event_emitter_subscriber.h    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
index 731899f..67047b2 100644
--- a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
+++ b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
@@ -167,11 +167,16 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getSubscriptionStats(const std::string &name)
     {
+        auto listenerIterator = _listenersMap.find(name);
+        if (listenerIterator == _listenersMap.end()) {
+            spdlog::debug("{}. Listener {} not found.", __PRETTY_FUNCTION__, name);
+            return nullptr;
+        }
         spdlog::trace("{}. ListenerId {} for name: {}",
                       __PRETTY_FUNCTION__,
-                      _listenersMap[name],
+                      listenerIterator->second,
                       name);
-        return _eventEmitter->getListenerStats(_listenersMap[name]);
+        return _eventEmitter->getListenerStats(listenerIterator->second);
     }
 
 protected:
-- 
2.43.0


From 1aa13dcdae6f234095026e4e8b95cc837b8b02a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 29/64] fix: safe event emitter ran one-off listeners twice and
 read its listeners unlocked

---
 .../klepsydra/core/safe_event_emitter.h       | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/safe_event_emitter.h b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
index 6354945..e2268a9 100644
--- a/core/modules/core/include/klepsydra/core/safe_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
@@ -117,7 +117,7 @@ public:
                    const Event &event) override
     {
         spdlog::trace("{}. subscriberName: {}", __PRETTY_FUNCTION__, subscriberName);
-        std::vector<std::shared_ptr<ListenerBase>> handlers(listeners.size());
+        std::vector<std::shared_ptr<ListenerBase>> handlers;
         {
             std::lock_guard<std::mutex> lock(mutex);
 
@@ -132,10 +132,10 @@ public:
         }
 
         for (auto &h : handlers) {
-            h->runCallback(event, enqueuedTimeNs);
-            if (h->isOnce) {
-                removeListener(nullptr, h->id);
+            if (h->isOnce && !takeOnceListener(subscriberName, h)) {
+                continue;
             }
+            h->runCallback(event, enqueuedTimeNs);
         }
     }
 
@@ -146,7 +146,7 @@ public:
      */
     void discardEvent(const std::string &subscriberName) override
     {
-        std::vector<std::shared_ptr<ListenerBase>> handlers(listeners.size());
+        std::vector<std::shared_ptr<ListenerBase>> handlers;
         {
             std::lock_guard<std::mutex> lock(mutex);
             auto range = listeners.equal_range(subscriberName);
@@ -176,6 +176,7 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &listenerId) override
     {
+        std::lock_guard<std::mutex> lock(mutex);
         auto i = std::find_if(listeners.begin(),
                               listeners.end(),
                               [&](std::pair<const std::string, std::shared_ptr<ListenerBase>> p) {
@@ -189,6 +190,7 @@ public:
 
     void removeAllListeners(Container *container) override
     {
+        std::lock_guard<std::mutex> lock(mutex);
         if (container) {
             for (auto &subscriberListenerBasePair : listeners) {
                 container->detach(subscriberListenerBasePair.second->listenerStats.get());
@@ -273,6 +275,23 @@ private:
         return listenerId;
     }
 
+    // Whoever removes a one-off listener runs it: it has to run once even if several threads
+    // emit at the same time or it emits the event again itself.
+    bool takeOnceListener(const std::string &subscriberName,
+                          const std::shared_ptr<ListenerBase> &listener)
+    {
+        std::lock_guard<std::mutex> lock(mutex);
+
+        auto range = listeners.equal_range(subscriberName);
+        for (auto i = range.first; i != range.second; ++i) {
+            if (i->second == listener) {
+                listeners.erase(i);
+                return true;
+            }
+        }
+        return false;
+    }
+
     std::mutex mutex;
     unsigned int last_listener = 0;
     std::multimap<std::string, std::shared_ptr<ListenerBase>> listeners;
-- 
2.43.0


From 4e52f5b11b7bff4ea3c37544804c94c056e26449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 30/64] fix: event loop publishers shared by threads lost
 discarded events

---
 .../include/klepsydra/high_performance/event_loop_publisher.h  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h
index 22a5a45..114ae7d 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_publisher.h
@@ -123,7 +123,8 @@ public:
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
             spdlog::info("EventLoopPublisher::internalPublish. no more capacity.{}", _eventName);
-            _discardedMessages++;
+            // The publisher may be shared by several threads.
+            __atomic_fetch_add(&_discardedMessages, 1, __ATOMIC_RELAXED);
         }
     }
 
-- 
2.43.0


From 244f9876de5547412f9fcaf1b6c8895e101673ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 31/64] fix: restarting the event loop dropped the events it
 had accepted

---
 .../include/klepsydra/high_performance/event_loop.h         | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
index 1c11a91..f145b69 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
@@ -78,10 +78,6 @@ public:
         , _isStarted(false)
         , _eventLoopTask([this] {
             spdlog::trace("kpsr::high_perf::EventLoop::_eventLoopTask begin");
-            std::vector<disruptor4cpp::sequence *> sequences_to_add;
-            sequences_to_add.resize(1);
-            sequences_to_add[0] = &batchEventProcessor->get_sequence();
-            this->_ringBuffer.add_gating_sequences(sequences_to_add);
             spdlog::debug(EVENT_LOOP_START_MESSAGE);
             this->batchEventProcessor->run();
             spdlog::trace("kpsr::high_perf::EventLoop::_eventLoopTask end.");
@@ -93,6 +89,8 @@ public:
         auto barrier = _ringBuffer.new_barrier();
         batchEventProcessor = std::unique_ptr<BatchProcessor>(
             new BatchProcessor(_ringBuffer, std::move(barrier), _eventHandler, name));
+        // Gate the ring once: a restart must resume where the loop stopped, not at the cursor.
+        _ringBuffer.add_gating_sequences({&batchEventProcessor->get_sequence()});
     }
 
     /**
-- 
2.43.0


From c49c459049e548210ae3ece5d8d4d42ad47ed139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 32/64] fix: stopping an event loop whose thread had not come
 up hung

---
 .../include/klepsydra/high_performance/event_loop.h         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
index f145b69..1537d68 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
@@ -126,8 +126,12 @@ public:
             return;
         }
         _isStarted.store(false, std::memory_order_release);
-        this->batchEventProcessor->halt();
         spdlog::debug("kpsr::high_perf::EventLoop::stop. Halting the batchEventProcessor");
+        // A halt before the thread has entered run() is lost, so insist until it has returned.
+        do {
+            this->batchEventProcessor->halt();
+        } while (_batchProcessorThreadFuture.wait_for(std::chrono::milliseconds(1)) ==
+                 std::future_status::timeout);
         if (this->batchProcessorThread.joinable()) {
             this->batchProcessorThread.join();
         }
-- 
2.43.0


From 299f6e6a96a1e6a4b78814e997f522b2b231e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 33/64] fix: destroying a running event loop terminated the
 process

---
 .../include/klepsydra/high_performance/event_loop.h            | 2 ++
 .../high_performance/event_loop_middleware_provider.h          | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
index 1537d68..7167ce9 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
@@ -93,6 +93,8 @@ public:
         _ringBuffer.add_gating_sequences({&batchEventProcessor->get_sequence()});
     }
 
+    ~EventLoop() { stop(); }
+
     /**
      * @brief start start consumer thread
      */
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
index e063641..976c7fc 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
@@ -88,7 +88,8 @@ public:
         , _scheduler(nullptr)
     {}
 
-    ~EventLoopMiddlewareProvider() {}
+    // The loop must be stopped before the subscribers it runs are destroyed.
+    ~EventLoopMiddlewareProvider() { stop(); }
 
     template<class T>
     /**
-- 
2.43.0


From 17153ea856c1b87e3be3faf306fbfca5fb5a9489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 34/64] fix: scheduling a name again or destroying the
 scheduler terminated the process

---
 .../mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h       | 2 ++
 core/modules/mem_mdlw/src/basic_scheduler.cpp                   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
index 4d75aa9..6df04fd 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
@@ -84,6 +84,8 @@ private:
          */
         ScheduledThread(const std::string &name, int after, bool repeat, std::function<void()> task);
 
+        ~ScheduledThread() { stop(); }
+
         /**
          * @brief
          */
diff --git a/core/modules/mem_mdlw/src/basic_scheduler.cpp b/core/modules/mem_mdlw/src/basic_scheduler.cpp
index c138501..83472ae 100644
--- a/core/modules/mem_mdlw/src/basic_scheduler.cpp
+++ b/core/modules/mem_mdlw/src/basic_scheduler.cpp
@@ -74,6 +74,7 @@ void kpsr::mem::BasicScheduler::startScheduledTask(const std::string &name,
                                                    bool repeat,
                                                    std::function<void()> task)
 {
+    stopScheduledTask(name);
     _threadMap[name] = std::shared_ptr<ScheduledThread>(
         new ScheduledThread(name, after, repeat, task));
     _threadMap[name]->start();
-- 
2.43.0


From 2c637b03a2d7f31ebc7c5000b5c974191ff5250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 35/64] fix: scheduler used from several threads or from its
 own tasks corrupted its table or terminated

---
 .../klepsydra/mem_core/basic_scheduler.h      |  8 ++--
 core/modules/mem_mdlw/src/basic_scheduler.cpp | 42 +++++++++++++++----
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
index 6df04fd..c9fead5 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
@@ -21,6 +21,7 @@
 #include <future>
 #include <map>
 #include <memory>
+#include <mutex>
 #include <thread>
 
 #include <klepsydra/sdk/scheduler.h>
@@ -38,6 +39,8 @@ namespace mem {
 class BasicScheduler : public Scheduler
 {
 public:
+    ~BasicScheduler();
+
     /**
      * @brief Start Scheduled Task
      * @param name Name of task
@@ -71,7 +74,7 @@ private:
     /**
      * @brief Internal Thread class
      */
-    class ScheduledThread
+    class ScheduledThread : public std::enable_shared_from_this<ScheduledThread>
     {
     public:
         /**
@@ -84,8 +87,6 @@ private:
          */
         ScheduledThread(const std::string &name, int after, bool repeat, std::function<void()> task);
 
-        ~ScheduledThread() { stop(); }
-
         /**
          * @brief
          */
@@ -105,6 +106,7 @@ private:
         std::function<void()> _task;
     };
 
+    std::mutex _mutex;
     std::map<std::string, std::shared_ptr<ScheduledThread>> _threadMap;
 };
 } // namespace mem
diff --git a/core/modules/mem_mdlw/src/basic_scheduler.cpp b/core/modules/mem_mdlw/src/basic_scheduler.cpp
index 83472ae..282a035 100644
--- a/core/modules/mem_mdlw/src/basic_scheduler.cpp
+++ b/core/modules/mem_mdlw/src/basic_scheduler.cpp
@@ -29,7 +29,9 @@ kpsr::mem::BasicScheduler::ScheduledThread::ScheduledThread(const std::string &n
 void kpsr::mem::BasicScheduler::ScheduledThread::start()
 {
     _isRunning = true;
-    std::function<void()> scheduledTask = [this]() {
+    // Keeps the object alive for a task that stops or replaces itself.
+    auto self = shared_from_this();
+    std::function<void()> scheduledTask = [this, self]() {
         if (_repeat) {
             long long before = 0;
             long long after = 0;
@@ -64,28 +66,52 @@ void kpsr::mem::BasicScheduler::ScheduledThread::start()
 void kpsr::mem::BasicScheduler::ScheduledThread::stop()
 {
     _isRunning = false;
-    if (_thread.joinable()) {
+    if (_thread.get_id() == std::this_thread::get_id()) {
+        // A task cannot wait for itself.
+        _thread.detach();
+    } else if (_thread.joinable()) {
         _thread.join();
     }
 }
 
+kpsr::mem::BasicScheduler::~BasicScheduler()
+{
+    for (auto &scheduled : _threadMap) {
+        scheduled.second->stop();
+    }
+}
+
 void kpsr::mem::BasicScheduler::startScheduledTask(const std::string &name,
                                                    int after,
                                                    bool repeat,
                                                    std::function<void()> task)
 {
     stopScheduledTask(name);
-    _threadMap[name] = std::shared_ptr<ScheduledThread>(
-        new ScheduledThread(name, after, repeat, task));
-    _threadMap[name]->start();
+    auto scheduled = std::make_shared<ScheduledThread>(name, after, repeat, task);
+    {
+        std::lock_guard<std::mutex> lock(_mutex);
+        // Another thread may have scheduled the same name meanwhile.
+        std::swap(_threadMap[name], scheduled);
+        _threadMap[name]->start();
+    }
+    if (scheduled) {
+        scheduled->stop();
+    }
 }
 
 void kpsr::mem::BasicScheduler::stopScheduledTask(const std::string &name)
 {
-    if (_threadMap.find(name) != _threadMap.end()) {
-        _threadMap[name]->stop();
-        _threadMap.erase(name);
+    std::shared_ptr<ScheduledThread> scheduled;
+    {
+        std::lock_guard<std::mutex> lock(_mutex);
+        auto search = _threadMap.find(name);
+        if (search == _threadMap.end()) {
+            return;
+        }
+        scheduled = search->second;
+        _threadMap.erase(search);
     }
+    scheduled->stop();
 }
 
 void kpsr::mem::BasicScheduler::startScheduledService(int after, bool repeat, Service *service)
-- 
2.43.0


From 11704d3c7a0a0c66a003c5539dc808a315b1d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:22 +0000
Subject: [PATCH 36/64] fix: slots of a multiplexer created from a model event
 shared one event

---
 .../data_multiplexer_middleware_provider.h               | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
index 2339a4b..cf70bb0 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
@@ -82,7 +82,6 @@ public:
         std::function<void(const TEvent &, TEvent &)> eventCloner = nullptr)
         : _name(name)
         , _container(container)
-        , _modelEvent(nullptr)
         , _ringBuffer([&eventInitializer](DataMultiplexerDataWrapper<TEvent> &event) {
             if (eventInitializer) {
                 eventInitializer(*event.eventData);
@@ -107,8 +106,10 @@ public:
         std::function<void(const TEvent &, TEvent &)> eventCloner = nullptr)
         : _name(name)
         , _container(container)
-        , _modelEvent(new DataMultiplexerDataWrapper<TEvent>(std::make_shared<TEvent>(event)))
-        , _ringBuffer(_modelEvent.get())
+        , _ringBuffer([&event](DataMultiplexerDataWrapper<TEvent> &slot) {
+            // Every slot needs an event of its own.
+            slot.eventData = std::make_shared<TEvent>(event);
+        })
         , _publisher(container, name, eventCloner, _ringBuffer)
     {}
 
@@ -166,8 +167,6 @@ public:
 private:
     std::string _name;
     Container *_container;
-    std::unique_ptr<DataMultiplexerDataWrapper<TEvent>> _modelEvent;
-
     RingBuffer _ringBuffer;
 
     DataMultiplexerPublisher<TEvent, BufferSize> _publisher;
-- 
2.43.0


From 2519de519e738eed7900fafb6595b9a63e3856ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 37/64] fix: a multiplexer subscriber that did not come up in
 time terminated the process

---
 .../data_multiplexer_subscriber.h             | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
index 47c3530..52f1412 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
@@ -102,6 +102,7 @@ public:
         long counterUs = 0;
         while (!this->batchEventProcessor->is_running()) {
             if (counterUs > _timeoutUs) {
+                stop();
                 throw std::runtime_error("Could not start the DataMultiplexerListener");
             }
             std::this_thread::sleep_for(std::chrono::microseconds(100));
@@ -115,18 +116,25 @@ public:
         if (!_started) {
             return;
         }
-        while (!batchEventProcessor->is_running()) {
-            std::this_thread::sleep_for(std::chrono::microseconds(1));
-        }
-        batchEventProcessor->halt();
-        if (_batchProcessorThread.joinable()) {
-            _batchProcessorThread.join();
-        }
+        stop();
     }
 
     std::unique_ptr<BatchProcessor> batchEventProcessor;
 
 private:
+    void stop()
+    {
+        // A halt before the thread has entered run() is lost, so insist until it has returned.
+        do {
+            batchEventProcessor->halt();
+        } while (_batchProcessorThreadFuture.wait_for(std::chrono::milliseconds(1)) ==
+                 std::future_status::timeout);
+        if (_batchProcessorThread.joinable()) {
+            _batchProcessorThread.join();
+        }
+        _ringBuffer.remove_gating_sequence(batchEventProcessor->get_sequence());
+    }
+
     RingBuffer &_ringBuffer;
     DataMultiplexerEventHandler<TEvent> _eventHandler;
     std::atomic<bool> _started;
-- 
2.43.0


From 8da6b44a9be7239443166ef41f6793d485e26e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 38/64] fix: the container walks and changes its statistics
 under the right locks, and detaches exactly what it is given

---
 core/modules/core/src/core_container.cpp | 123 +++++++++++++----------
 1 file changed, 70 insertions(+), 53 deletions(-)

diff --git a/core/modules/core/src/core_container.cpp b/core/modules/core/src/core_container.cpp
index b1d9542..de28d8d 100644
--- a/core/modules/core/src/core_container.cpp
+++ b/core/modules/core/src/core_container.cpp
@@ -37,20 +37,29 @@ void kpsr::CoreContainer::start()
 {
     _running = true;
 
-    for (auto stats : _serviceStats) {
-        stats->start();
+    {
+        std::lock_guard<std::mutex> lock(_serviceStatsMutex);
+        for (auto stats : _serviceStats) {
+            stats->start();
+        }
     }
-
-    for (auto stats : _functionStats) {
-        stats->start();
+    {
+        std::lock_guard<std::mutex> lock(_functionStatsMutex);
+        for (auto stats : _functionStats) {
+            stats->start();
+        }
     }
-
-    for (auto stats : _publicationStats) {
-        stats->start();
+    {
+        std::lock_guard<std::mutex> lock(_publishStatsMutex);
+        for (auto stats : _publicationStats) {
+            stats->start();
+        }
     }
-
-    for (auto stats : _subscriptionStats) {
-        stats->start();
+    {
+        std::lock_guard<std::mutex> lock(_subscriptionStatsMutex);
+        for (auto stats : _subscriptionStats) {
+            stats->start();
+        }
     }
 }
 
@@ -58,20 +67,29 @@ void kpsr::CoreContainer::stop()
 {
     _running = false;
 
-    for (auto stats : _serviceStats) {
-        stats->stop();
+    {
+        std::lock_guard<std::mutex> lock(_serviceStatsMutex);
+        for (auto stats : _serviceStats) {
+            stats->stop();
+        }
     }
-
-    for (auto stats : _functionStats) {
-        stats->stop();
+    {
+        std::lock_guard<std::mutex> lock(_functionStatsMutex);
+        for (auto stats : _functionStats) {
+            stats->stop();
+        }
     }
-
-    for (auto stats : _publicationStats) {
-        stats->stop();
+    {
+        std::lock_guard<std::mutex> lock(_publishStatsMutex);
+        for (auto stats : _publicationStats) {
+            stats->stop();
+        }
     }
-
-    for (auto stats : _subscriptionStats) {
-        stats->stop();
+    {
+        std::lock_guard<std::mutex> lock(_subscriptionStatsMutex);
+        for (auto stats : _subscriptionStats) {
+            stats->stop();
+        }
     }
 }
 
@@ -80,8 +98,11 @@ void kpsr::CoreContainer::attach(Service *service)
     if (nullptr == service) {
         return;
     }
-    std::lock_guard<std::mutex> lock(_serviceMutex);
-    _managedServices.push_back(service);
+    {
+        std::lock_guard<std::mutex> lock(_serviceMutex);
+        _managedServices.push_back(service);
+    }
+    std::lock_guard<std::mutex> lock(_serviceStatsMutex);
     _serviceStats.push_back(&service->serviceStats);
     if (_running) {
         spdlog::info(
@@ -96,26 +117,17 @@ void kpsr::CoreContainer::detach(Service *service)
     if (nullptr == service) {
         return;
     }
-    std::lock_guard<std::mutex> lock(_serviceMutex);
     {
-        auto itr = std::find_if(_managedServices.begin(),
-                                _managedServices.end(),
-                                [service](Service *item) {
-                                    return item->serviceStats.name == service->serviceStats.name;
-                                });
+        std::lock_guard<std::mutex> lock(_serviceMutex);
+        auto itr = std::find(_managedServices.begin(), _managedServices.end(), service);
         if (itr != _managedServices.end()) {
             _managedServices.erase(itr);
         }
     }
-    {
-        auto itr = std::find_if(_serviceStats.begin(),
-                                _serviceStats.end(),
-                                [service](ServiceStats *item) {
-                                    return item->name == service->serviceStats.name;
-                                });
-        if (itr != _serviceStats.end()) {
-            _serviceStats.erase(itr);
-        }
+    std::lock_guard<std::mutex> lock(_serviceStatsMutex);
+    auto itr = std::find(_serviceStats.begin(), _serviceStats.end(), &service->serviceStats);
+    if (itr != _serviceStats.end()) {
+        _serviceStats.erase(itr);
     }
 }
 
@@ -140,14 +152,19 @@ void kpsr::CoreContainer::detach(FunctionStats *functionStats)
     if (nullptr == functionStats) {
         return;
     }
-    std::lock_guard<std::mutex> lock(_functionStatsMutex);
-    auto itr = std::find_if(_functionStats.begin(),
-                            _functionStats.end(),
-                            [functionStats](FunctionStats *item) {
-                                return item->name == functionStats->name;
-                            });
-    if (itr != _functionStats.end()) {
-        _functionStats.erase(itr);
+    {
+        std::lock_guard<std::mutex> lock(_functionStatsMutex);
+        auto itr = std::find(_functionStats.begin(), _functionStats.end(), functionStats);
+        if (itr != _functionStats.end()) {
+            _functionStats.erase(itr);
+            return;
+        }
+    }
+    // Statistics of services that were attached on their own are detached here too.
+    std::lock_guard<std::mutex> lock(_serviceStatsMutex);
+    auto itr = std::find(_serviceStats.begin(), _serviceStats.end(), functionStats);
+    if (itr != _serviceStats.end()) {
+        _serviceStats.erase(itr);
     }
 }
 
@@ -205,11 +222,7 @@ void kpsr::CoreContainer::detach(SubscriptionStats *subscriptionStats)
         return;
     }
     std::lock_guard<std::mutex> lock(_subscriptionStatsMutex);
-    auto itr = std::find_if(_subscriptionStats.begin(),
-                            _subscriptionStats.end(),
-                            [subscriptionStats](SubscriptionStats *item) {
-                                return item->name == subscriptionStats->name;
-                            });
+    auto itr = std::find(_subscriptionStats.begin(), _subscriptionStats.end(), subscriptionStats);
     if (itr != _subscriptionStats.end()) {
         _subscriptionStats.erase(itr);
     }
@@ -220,7 +233,11 @@ void kpsr::CoreContainer::detach(PublicationStats *publicationStats)
     if (nullptr == publicationStats) {
         return;
     }
-    _publicationStats.clear();
+    std::lock_guard<std::mutex> lock(_publishStatsMutex);
+    auto itr = std::find(_publicationStats.begin(), _publicationStats.end(), publicationStats);
+    if (itr != _publicationStats.end()) {
+        _publicationStats.erase(itr);
+    }
 }
 
 std::string kpsr::CoreContainer::getName() const
-- 
2.43.0


From cf1febee6379bdbd3b6e86932ebfd397cbc22781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 39/64] fix: a destroyed managed service no longer receives
 system events

---
 .../core/include/klepsydra/core/manage_service.h  | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/manage_service.h b/core/modules/core/include/klepsydra/core/manage_service.h
index 5c130ed..553f893 100644
--- a/core/modules/core/include/klepsydra/core/manage_service.h
+++ b/core/modules/core/include/klepsydra/core/manage_service.h
@@ -50,13 +50,16 @@ public:
     /*!
      * @brief ManagedService
      * @param environment
-     * @param systemStatusEventSubscriber start and stop will be handled by the master service.
+     * @param systemStatusEventSubscriber start and stop will be handled by the master service. It has to
+     *        outlive this service.
      * @param serviceName
      */
     ManagedService(Environment *environment,
                    Subscriber<SystemEventData> *systemStatusEventSubscriber,
                    std::string serviceName)
         : Service(nullptr, environment, serviceName, false)
+        , _systemStatusEventSubscriber(systemStatusEventSubscriber)
+        , _listenerName(serviceName)
     {
         if (systemStatusEventSubscriber != nullptr) {
             std::function<void(SystemEventData)> systemListener =
@@ -65,9 +68,17 @@ public:
         }
     }
 
-    virtual ~ManagedService() {}
+    virtual ~ManagedService()
+    {
+        if (_systemStatusEventSubscriber != nullptr) {
+            _systemStatusEventSubscriber->removeListener(_listenerName);
+        }
+    }
 
 private:
+    Subscriber<SystemEventData> *_systemStatusEventSubscriber;
+    std::string _listenerName;
+
     void onSystemMessageReceived(const SystemEventData &event)
     {
         spdlog::info(
-- 
2.43.0


From 2646ce5e5fbc7261143969a1539a5a40ab1565f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 40/64] fix: an event loop middleware removes its statistics
 from the container it leaves

---
 .../event_loop_function_exec_listener.h       |  3 ++
 .../event_loop_middleware_provider.h          | 41 +++++++++++++------
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_function_exec_listener.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_function_exec_listener.h
index 27b3369..9a18521 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_function_exec_listener.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_function_exec_listener.h
@@ -73,6 +73,9 @@ public:
 
     void setContainer(Container *container)
     {
+        if (this->_container != nullptr) {
+            this->_container->detach(_externalEventEmitter->getListenerStats(_listenerId).get());
+        }
         _container = container;
         if (this->_container != nullptr) {
             this->_container->attach(_externalEventEmitter->getListenerStats(_listenerId).get());
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
index 976c7fc..56b4b50 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
@@ -89,7 +89,11 @@ public:
     {}
 
     // The loop must be stopped before the subscribers it runs are destroyed.
-    ~EventLoopMiddlewareProvider() { stop(); }
+    ~EventLoopMiddlewareProvider()
+    {
+        stop();
+        detachSchedulerPublisher();
+    }
 
     template<class T>
     /**
@@ -189,20 +193,19 @@ public:
         if (!isRunning()) {
             _container = container;
             if (_scheduler && (_subscriberMap.size() == 1) && (_publisherMap.size() == 1)) {
-                if (_container) {
-                    for (auto &keyValue : _subscriberMap) {
-                        std::shared_ptr<EventLoopFunctionExecutorListener> schedulerSubscriber =
-                            std::static_pointer_cast<EventLoopFunctionExecutorListener>(
-                                keyValue.second);
-                        schedulerSubscriber->setContainer(container);
-                        Publisher<std::function<void()>> *schedulerPublisher =
-                            getPublisher<std::function<void()>>(keyValue.first, 0, nullptr, nullptr);
+                detachSchedulerPublisher();
+                for (auto &keyValue : _subscriberMap) {
+                    std::shared_ptr<EventLoopFunctionExecutorListener> schedulerSubscriber =
+                        std::static_pointer_cast<EventLoopFunctionExecutorListener>(
+                            keyValue.second);
+                    schedulerSubscriber->setContainer(container);
+                    Publisher<std::function<void()>> *schedulerPublisher =
+                        getPublisher<std::function<void()>>(keyValue.first, 0, nullptr, nullptr);
+                    if (_container) {
                         _container->attach(&schedulerPublisher->publicationStats);
+                        _attachedSchedulerPublisher = schedulerPublisher;
+                        _schedulerContainer = _container;
                     }
-                } else {
-                    //TODO: detach all statistics
-                    spdlog::warn("Cannot attach statistics to null container. A reference to a "
-                                 "previous container may remain in use.");
                 }
             } else if ((_subscriberMap.size() > 0) || (_publisherMap.size() > 0)) {
                 spdlog::info("Container cannot be attached to already existing subscribers or "
@@ -213,7 +216,19 @@ public:
     }
 
 private:
+    // The publisher only detaches itself from the container it was created with.
+    void detachSchedulerPublisher()
+    {
+        if (_schedulerContainer) {
+            _schedulerContainer->detach(&_attachedSchedulerPublisher->publicationStats);
+            _schedulerContainer = nullptr;
+            _attachedSchedulerPublisher = nullptr;
+        }
+    }
+
     Container *_container;
+    Container *_schedulerContainer = nullptr;
+    Publisher<std::function<void()>> *_attachedSchedulerPublisher = nullptr;
     RingBuffer _ringBuffer;
     std::shared_ptr<EventEmitterInterface<EventloopDataWrapper>> _externalEventEmitter;
     EventLoop<BufferSize> _eventLoop;
-- 
2.43.0


From a9bd111fabc1aafd99202e2fba6f4530a5a5b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 41/64] fix: callback handlers can be used from inside their
 callbacks

---
 .../include/klepsydra/core/callback_handler.h | 52 +++++++++++--------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/callback_handler.h b/core/modules/core/include/klepsydra/core/callback_handler.h
index 6808a56..aceb527 100644
--- a/core/modules/core/include/klepsydra/core/callback_handler.h
+++ b/core/modules/core/include/klepsydra/core/callback_handler.h
@@ -116,22 +116,18 @@ public:
     virtual void requestAndReply(const Request &request,
                                  const std::function<void(const Reply &)> &callback)
     {
-        std::pair<Request, std::function<void(const Reply &)>> pair = std::make_pair(request,
-                                                                                     callback);
-        _requestCallbackVector.push_back(pair);
+        addRequest(request, callback);
         _publisher->publish(request);
     }
 
 protected:
     virtual void onReplyReceived(const Reply &reply)
     {
-        for (auto it = _requestCallbackVector.begin(); it != _requestCallbackVector.end();) {
-            if (_correlationFunction((*it).first, reply)) {
-                (*it).second(reply);
-                _requestCallbackVector.erase(it);
-                return;
-            }
-            ++it;
+        // The callback may make requests or receive replies itself, so its request is removed first.
+        std::function<void(const Reply &)> callback;
+        if (takeCallback(reply, callback)) {
+            callback(reply);
+            return;
         }
         spdlog::info(
             "CallbackHandler::onReplyReceived. Reply not mapped. Callback name: {}. _publisher: {}",
@@ -139,6 +135,24 @@ protected:
             _publisher->name);
     }
 
+    virtual void addRequest(const Request &request,
+                            const std::function<void(const Reply &)> &callback)
+    {
+        _requestCallbackVector.push_back(std::make_pair(request, callback));
+    }
+
+    virtual bool takeCallback(const Reply &reply, std::function<void(const Reply &)> &callback)
+    {
+        for (auto it = _requestCallbackVector.begin(); it != _requestCallbackVector.end(); ++it) {
+            if (_correlationFunction((*it).first, reply)) {
+                callback = std::move((*it).second);
+                _requestCallbackVector.erase(it);
+                return true;
+            }
+        }
+        return false;
+    }
+
 private:
     Publisher<Request> *_publisher;
     Subscriber<Reply> *_subscriber;
@@ -221,23 +235,19 @@ public:
 
     virtual ~MultiThreadCallbackHandler() {}
 
-    /**
-     * @brief requestAndReply
-     * @param request Event to publish
-     * @param callback std::function to invoke when the reply is received.
-     */
-    void requestAndReply(const Request &request,
-                         const std::function<void(const Reply &)> &callback) override
+protected:
+    // Neither the publication nor the callback is under the lock: both can lead to further requests and replies.
+    void addRequest(const Request &request,
+                    const std::function<void(const Reply &)> &callback) override
     {
         std::lock_guard<std::mutex> lock(_mutex);
-        CallbackHandler<Request, Reply>::requestAndReply(request, callback);
+        CallbackHandler<Request, Reply>::addRequest(request, callback);
     }
 
-protected:
-    void onReplyReceived(const Reply &reply) override
+    bool takeCallback(const Reply &reply, std::function<void(const Reply &)> &callback) override
     {
         std::lock_guard<std::mutex> lock(_mutex);
-        CallbackHandler<Request, Reply>::onReplyReceived(reply);
+        return CallbackHandler<Request, Reply>::takeCallback(reply, callback);
     }
 
 private:
-- 
2.43.0


From 89942b4298c76bf82da5555b1f438458706193ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 42/64] fix: text properties keep their blanks, malformed
 hexadecimal numbers are refused

---
 .../core/include/klepsydra/core/config_file.h  |  2 +-
 .../include/klepsydra/core/prop_file_convert.h | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/config_file.h b/core/modules/core/include/klepsydra/core/config_file.h
index 3a4f3fd..3b6b703 100644
--- a/core/modules/core/include/klepsydra/core/config_file.h
+++ b/core/modules/core/include/klepsydra/core/config_file.h
@@ -63,7 +63,7 @@ private:
     {
         value = line.substr(sepPos + 1);
         value.erase(0, value.find_first_not_of("\t "));
-        value.erase(value.find_last_not_of("\t ") + 1);
+        value.erase(value.find_last_not_of("\t \r") + 1);
     }
 
     void extractContents(const std::string &line)
diff --git a/core/modules/core/include/klepsydra/core/prop_file_convert.h b/core/modules/core/include/klepsydra/core/prop_file_convert.h
index d4c9a40..2c806c8 100644
--- a/core/modules/core/include/klepsydra/core/prop_file_convert.h
+++ b/core/modules/core/include/klepsydra/core/prop_file_convert.h
@@ -41,17 +41,23 @@ public:
         T returnVal;
         std::istringstream iss(val);
         std::string::size_type hexCode = val.find("0x", 0);
-        if (hexCode == std::string::npos) {
-            if (!(iss >> returnVal))
-                throw std::invalid_argument("CFG: Not a valid " + (std::string) typeid(T).name() +
-                                            " received!\n");
-        } else {
-            iss >> std::hex >> returnVal;
+        if (hexCode != std::string::npos) {
+            iss >> std::hex;
         }
+        if (!(iss >> returnVal))
+            throw std::invalid_argument("CFG: Not a valid " + (std::string) typeid(T).name() +
+                                        " received!\n");
 
         return returnVal;
     }
 };
+
+// Text is taken as it is, including the blanks inside of it.
+template<>
+inline std::string PropertyFileConvert::string_to_T<std::string>(const std::string &val)
+{
+    return val;
+}
 } // namespace kpsr
 
 #endif
-- 
2.43.0


From 4f5e2d764c406edd9f6923f19761216c17e6dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 43/64] fix: setting an existing dynamic property changes it

---
 .../core/include/klepsydra/core/configuration_properties.h      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/modules/core/include/klepsydra/core/configuration_properties.h b/core/modules/core/include/klepsydra/core/configuration_properties.h
index 12216fb..9bf23ef 100644
--- a/core/modules/core/include/klepsydra/core/configuration_properties.h
+++ b/core/modules/core/include/klepsydra/core/configuration_properties.h
@@ -57,6 +57,8 @@ public:
                 return false;
             } else {
                 spdlog::debug("Overwriting old data with new value");
+                it->second = std::make_shared<Property<T>>(propertyValue);
+                return true;
             }
         }
         auto insertionResult = _properties.insert(
-- 
2.43.0


From 5c0b0daed459ed884123ebe5c9fafec6c9a7b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 44/64] fix: a configuration with an unreadable section is
 refused as a whole, copying does not skip types

---
 .../core/configuration_environment.h          | 32 +++++++++----------
 .../core/src/configuration_environment.cpp    | 16 +++++-----
 2 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/configuration_environment.h b/core/modules/core/include/klepsydra/core/configuration_environment.h
index 2477a03..97a94c9 100644
--- a/core/modules/core/include/klepsydra/core/configuration_environment.h
+++ b/core/modules/core/include/klepsydra/core/configuration_environment.h
@@ -152,26 +152,24 @@ private:
 
     template<class Archive>
     void serialize(Archive &archive)
+    {
+        serializeSection(archive, "StringProperties", _stringProperties);
+        serializeSection(archive, "FloatProperties", _floatProperties);
+        serializeSection(archive, "IntProperties", _intProperties);
+        serializeSection(archive, "BoolProperties", _boolProperties);
+    }
+
+    // A section can be missing, but one that cannot be read makes the whole content invalid: the archive
+    // is left inside of it and would not find the sections that follow.
+    template<class Archive, class Properties>
+    void serializeSection(Archive &archive, const char *name, Properties &properties)
     {
         try {
-            archive(cereal::make_nvp("StringProperties", _stringProperties));
-        } catch (const std::exception &e) {
-            spdlog::debug("No string properties found");
-        }
-        try {
-            archive(cereal::make_nvp("FloatProperties", _floatProperties));
-        } catch (const std::exception &e) {
-            spdlog::debug("No float properties found");
-        }
-        try {
-            archive(cereal::make_nvp("IntProperties", _intProperties));
-        } catch (const std::exception &e) {
-            spdlog::debug("No int properties found");
-        }
-        try {
-            archive(cereal::make_nvp("BoolProperties", _boolProperties));
+            archive(cereal::make_nvp(name, properties));
+        } catch (const ::cereal::RapidJSONException &) {
+            throw;
         } catch (const std::exception &e) {
-            spdlog::debug("No bool properties found");
+            spdlog::debug("No {} found", name);
         }
     }
 
diff --git a/core/modules/core/src/configuration_environment.cpp b/core/modules/core/src/configuration_environment.cpp
index 7b5ace3..c9fa458 100644
--- a/core/modules/core/src/configuration_environment.cpp
+++ b/core/modules/core/src/configuration_environment.cpp
@@ -143,13 +143,11 @@ bool ConfigurationEnvironment::loadFile(const std::string &fileName, const std::
 bool ConfigurationEnvironment::copyFrom(const ConfigurationEnvironment &otherEnvironment,
                                         const std::string &rootNode)
 {
-    bool copyResult = true;
-    copyResult = copyResult &&
-                 _stringProperties.copyFrom(otherEnvironment._stringProperties, rootNode);
-    copyResult = copyResult && _boolProperties.copyFrom(otherEnvironment._boolProperties, rootNode);
-    copyResult = copyResult && _intProperties.copyFrom(otherEnvironment._intProperties, rootNode);
-    copyResult = copyResult &&
-                 _floatProperties.copyFrom(otherEnvironment._floatProperties, rootNode);
+    // Properties of every type are copied, also when one that exists already could not be.
+    bool copyResult = _stringProperties.copyFrom(otherEnvironment._stringProperties, rootNode);
+    copyResult = _boolProperties.copyFrom(otherEnvironment._boolProperties, rootNode) && copyResult;
+    copyResult = _intProperties.copyFrom(otherEnvironment._intProperties, rootNode) && copyResult;
+    copyResult = _floatProperties.copyFrom(otherEnvironment._floatProperties, rootNode) && copyResult;
     return copyResult;
 }
 
@@ -159,7 +157,9 @@ bool ConfigurationEnvironment::updateConfiguration(const std::string &jsonConten
     ss << jsonContent;
     try {
         ::cereal::JSONInputArchive iarchive(ss);
-        serialize(iarchive);
+        ConfigurationEnvironment updated(*this);
+        updated.serialize(iarchive);
+        *this = updated;
     } catch (::cereal::Exception &ex) {
         spdlog::error("{} Error loading Environment from json string", ex.what());
         return false;
-- 
2.43.0


From 4025df28fa0966f93b375b114ce0ab56df6ad54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 45/64] fix: several threads can publish to a concurrent
 middleware

---
 .../include/klepsydra/mem_core/concurrent_queue_publisher.h  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_publisher.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_publisher.h
index 84c25cc..df87635 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_publisher.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_publisher.h
@@ -17,6 +17,8 @@
 #ifndef CONCURRENT_PUBLISHER_H
 #define CONCURRENT_PUBLISHER_H
 
+#include <mutex>
+
 #include <klepsydra/core/object_pool_publisher.h>
 
 #include <concurrentqueue.h>
@@ -108,6 +110,8 @@ public:
         EventData<const T> safeQueueEvent;
         safeQueueEvent.enqueuedTimeInNs = _updateTime();
         safeQueueEvent.eventData = eventData;
+        // The producer token, shared by all publishing threads, can only be used by one of them at a time.
+        std::lock_guard<std::mutex> lock(_tokenMutex);
         _internalQueuePush(safeQueueEvent);
     }
 
@@ -115,6 +119,7 @@ private:
     moodycamel::ConcurrentQueue<EventData<const T>> &_internalQueue;
     bool _discardItemsWhenFull;
     moodycamel::ProducerToken &_token;
+    std::mutex _tokenMutex;
     std::function<void(EventData<const T> &)> _internalQueuePush;
     std::function<long long unsigned int(void)> _updateTime;
 };
-- 
2.43.0


From f45e8b4d8f4fbfc44dfa1bfff97b4f29913ed449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 46/64] fix: slots of a multiplexer created from a model event
 get their own event when written, without copying it at construction

---
 .../data_multiplexer_event_data.h             | 19 +++++++++++++
 .../data_multiplexer_middleware_provider.h    |  9 +++---
 .../data_multiplexer_publisher.h              | 28 +++++++++++--------
 3 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_event_data.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_event_data.h
index 94c3f54..443f724 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_event_data.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_event_data.h
@@ -41,8 +41,22 @@ struct DataMultiplexerDataWrapper
 
     DataMultiplexerDataWrapper(std::shared_ptr<T> eventData)
         : eventData(eventData)
+        , sharedEvent(true)
     {}
 
+    /**
+     * @brief getOwnEvent the event to be changed when publishing. One that is shared with other slots is
+     * replaced by a copy of it.
+     */
+    std::shared_ptr<T> &getOwnEvent()
+    {
+        if (sharedEvent) {
+            eventData = std::make_shared<T>(*eventData);
+            sharedEvent = false;
+        }
+        return eventData;
+    }
+
     /**
      * @brief eventData
      */
@@ -52,6 +66,11 @@ struct DataMultiplexerDataWrapper
      * @brief enqueuedTimeInNs
      */
     long long unsigned int enqueuedTimeInNs;
+
+    /**
+     * @brief sharedEvent whether the event is the model event, the same in several slots.
+     */
+    bool sharedEvent = false;
 };
 } // namespace high_performance
 } // namespace kpsr
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
index cf70bb0..2339a4b 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_middleware_provider.h
@@ -82,6 +82,7 @@ public:
         std::function<void(const TEvent &, TEvent &)> eventCloner = nullptr)
         : _name(name)
         , _container(container)
+        , _modelEvent(nullptr)
         , _ringBuffer([&eventInitializer](DataMultiplexerDataWrapper<TEvent> &event) {
             if (eventInitializer) {
                 eventInitializer(*event.eventData);
@@ -106,10 +107,8 @@ public:
         std::function<void(const TEvent &, TEvent &)> eventCloner = nullptr)
         : _name(name)
         , _container(container)
-        , _ringBuffer([&event](DataMultiplexerDataWrapper<TEvent> &slot) {
-            // Every slot needs an event of its own.
-            slot.eventData = std::make_shared<TEvent>(event);
-        })
+        , _modelEvent(new DataMultiplexerDataWrapper<TEvent>(std::make_shared<TEvent>(event)))
+        , _ringBuffer(_modelEvent.get())
         , _publisher(container, name, eventCloner, _ringBuffer)
     {}
 
@@ -167,6 +166,8 @@ public:
 private:
     std::string _name;
     Container *_container;
+    std::unique_ptr<DataMultiplexerDataWrapper<TEvent>> _modelEvent;
+
     RingBuffer _ringBuffer;
 
     DataMultiplexerPublisher<TEvent, BufferSize> _publisher;
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
index dfe006e..62342a6 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
@@ -67,19 +67,23 @@ public:
         , _ringBuffer(ringBuffer)
     {
         if (eventCloner) {
-            _eventCloner = [eventCloner](const TEvent &original, std::shared_ptr<TEvent> &cloned) {
-                eventCloner(original, *cloned);
+            _eventCloner = [eventCloner](const TEvent &original,
+                                         DataMultiplexerDataWrapper<TEvent> &slot) {
+                eventCloner(original, *slot.getOwnEvent());
             };
             _eventClonerSharedPtr = [eventCloner](std::shared_ptr<const TEvent> &original,
-                                                  std::shared_ptr<TEvent> &cloned) {
-                eventCloner(*original, *cloned);
+                                                  DataMultiplexerDataWrapper<TEvent> &slot) {
+                eventCloner(*original, *slot.getOwnEvent());
             };
         } else {
-            _eventCloner = [](const TEvent &original, std::shared_ptr<TEvent> &cloned) {
-                cloned = std::make_shared<TEvent>(original);
+            _eventCloner = [](const TEvent &original, DataMultiplexerDataWrapper<TEvent> &slot) {
+                slot.eventData = std::make_shared<TEvent>(original);
+                slot.sharedEvent = false;
             };
             _eventClonerSharedPtr = [](std::shared_ptr<const TEvent> &original,
-                                       std::shared_ptr<TEvent> &cloned) { *cloned = *original; };
+                                       DataMultiplexerDataWrapper<TEvent> &slot) {
+                *slot.getOwnEvent() = *original;
+            };
         }
 
         if (container) {
@@ -97,7 +101,7 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            _eventCloner(event, _ringBuffer[seq].eventData);
+            _eventCloner(event, _ringBuffer[seq]);
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -116,7 +120,7 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            _eventClonerSharedPtr(event, _ringBuffer[seq].eventData);
+            _eventClonerSharedPtr(event, _ringBuffer[seq]);
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -136,7 +140,7 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            process(*_ringBuffer[seq].eventData);
+            process(*_ringBuffer[seq].getOwnEvent());
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -149,8 +153,8 @@ public:
 
 private:
     RingBuffer &_ringBuffer;
-    std::function<void(const TEvent &, std::shared_ptr<TEvent> &)> _eventCloner;
-    std::function<void(std::shared_ptr<const TEvent> &, std::shared_ptr<TEvent> &)>
+    std::function<void(const TEvent &, DataMultiplexerDataWrapper<TEvent> &)> _eventCloner;
+    std::function<void(std::shared_ptr<const TEvent> &, DataMultiplexerDataWrapper<TEvent> &)>
         _eventClonerSharedPtr;
     std::function<long long unsigned int(void)> _updateTime;
 };
-- 
2.43.0


From 210ac50cdbfeea2de2c9a9c47e3501b0add35907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:34 +0000
Subject: [PATCH 47/64] fix: malformed ZeroMQ messages and interrupted polls do
 not end the process

---
 .../klepsydra/zmq_core/binary_zmq_poller.h    | 13 ++---
 .../klepsydra/zmq_core/json_zmq_poller.h      | 13 ++---
 .../zmq_core/void_caster_zmq_poller.h         | 17 ++-----
 .../include/klepsydra/zmq_core/zmq_poller.h   | 47 ++++++++++++++++++-
 4 files changed, 56 insertions(+), 34 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
index 1bf8079..3680a51 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
@@ -55,16 +55,9 @@ public:
     virtual void poll()
     {
         while (_running) {
-            zmq::pollitem_t items[] = {{_subscriber, 0, ZMQ_POLLIN, 0}};
-            if (zmq::poll(items, 1, _pollPeriod) == -1)
-                break;
-
-            if (items[0].revents & ZMQ_POLLIN) {
-                zmq::message_t topicMsg;
-                _subscriber.recv(topicMsg);
-                std::string topic(static_cast<char *>(topicMsg.data()), topicMsg.size());
-                zmq::message_t content;
-                _subscriber.recv(content);
+            std::string topic;
+            zmq::message_t content;
+            if (receive(topic, content)) {
                 kpsr::core::NonCopyingStringBuffer buffer((char *) content.data(), content.size());
                 Base bufferPointer = &buffer;
                 executeFunction(topic, bufferPointer);
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
index 564104b..1332aa4 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
@@ -52,16 +52,9 @@ public:
     void poll()
     {
         while (_running) {
-            zmq::pollitem_t items[] = {{_subscriber, 0, ZMQ_POLLIN, 0}};
-            if (zmq::poll(items, 1, _pollPeriod) == -1)
-                break;
-
-            if (items[0].revents & ZMQ_POLLIN) {
-                zmq::message_t topicMsg;
-                zmq::message_t content;
-                _subscriber.recv(topicMsg);
-                _subscriber.recv(content);
-                std::string topic(static_cast<char *>(topicMsg.data()), topicMsg.size());
+            std::string topic;
+            zmq::message_t content;
+            if (receive(topic, content)) {
                 std::string contentString(static_cast<char *>(content.data()), content.size());
                 executeFunction(topic, contentString);
             }
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
index c19a2bb..7de10d3 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
@@ -50,20 +50,11 @@ public:
     void poll() override
     {
         while (this->_running) {
-            zmq::pollitem_t items[] = {{this->_subscriber, 0, ZMQ_POLLIN, 0}};
-            if (zmq::poll(items, 1, this->_pollPeriod) == -1)
-                break;
-
-            if (items[0].revents & ZMQ_POLLIN) {
-                zmq::message_t topicMsg;
-                _subscriber.recv(topicMsg);
-                std::string topic(static_cast<char *>(topicMsg.data()), topicMsg.size());
-                zmq::message_t content;
-                this->_subscriber.recv(content);
-
+            std::string topic;
+            zmq::message_t content;
+            if (receive(topic, content)) {
                 unsigned char *data = (unsigned char *) content.data();
-                std::vector<unsigned char> event(content.size());
-                memcpy(&event[0], data, content.size());
+                std::vector<unsigned char> event(data, data + content.size());
 
                 this->executeFunction(topic, event);
             }
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
index 25dda71..55bf365 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
@@ -18,6 +18,7 @@
 #define ZMQ_POLLER_H
 
 #include <atomic>
+#include <cerrno>
 #include <functional>
 #include <future>
 #include <map>
@@ -136,7 +137,14 @@ public:
         std::lock_guard<std::mutex> lock(mutex);
         auto search = _functionTopicMap.find(topic);
         if (search != _functionTopicMap.end()) {
-            _functionTopicMap[topic](event);
+            try {
+                _functionTopicMap[topic](event);
+            } catch (const std::exception &e) {
+                // The content comes from anywhere. It must not prevent the delivery of other messages.
+                spdlog::warn("ZMQPoller::executeFunction. Message of topic {} dropped: {}",
+                             topic,
+                             e.what());
+            }
         }
     }
 
@@ -146,6 +154,43 @@ public:
     virtual void poll() = 0;
 
 protected:
+    /**
+     * @brief receive waits for a message during the poll period.
+     * @param topic
+     * @param content
+     * @return true if a message of two parts, topic and content, arrived. Any other one is dropped.
+     */
+    bool receive(std::string &topic, zmq::message_t &content)
+    {
+        zmq::pollitem_t items[] = {{_subscriber, 0, ZMQ_POLLIN, 0}};
+        try {
+            zmq::poll(items, 1, _pollPeriod);
+        } catch (const zmq::error_t &e) {
+            if (e.num() == EINTR) {
+                return false;
+            }
+            throw;
+        }
+        if (!(items[0].revents & ZMQ_POLLIN)) {
+            return false;
+        }
+        zmq::message_t topicMsg;
+        _subscriber.recv(topicMsg);
+        bool valid = topicMsg.more();
+        if (valid) {
+            _subscriber.recv(content);
+            bool more = content.more();
+            valid = !more;
+            while (more) {
+                zmq::message_t dropped;
+                _subscriber.recv(dropped);
+                more = dropped.more();
+            }
+        }
+        topic.assign(static_cast<char *>(topicMsg.data()), topicMsg.size());
+        return valid;
+    }
+
     void pollingLoop()
     {
         _running.store(true, std::memory_order_relaxed);
-- 
2.43.0


From 2861266e8d66e53ba44c21ebb30e05b4325c995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:54 +0000
Subject: [PATCH 48/64] fix: several threads can publish through the ZeroMQ
 channels of a provider

---
 .../klepsydra/zmq_core/binary_to_zmq_channel.h       |  8 +++++++-
 .../include/klepsydra/zmq_core/json_to_zmq_channel.h |  9 ++++++++-
 .../klepsydra/zmq_core/to_zmq_middleware_provider.h  | 12 +++++++++---
 .../klepsydra/zmq_core/void_caster_to_zmq_channel.h  | 11 ++++++++++-
 4 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_to_zmq_channel.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_to_zmq_channel.h
index 2643c7f..ee2e98b 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_to_zmq_channel.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_to_zmq_channel.h
@@ -21,6 +21,7 @@
 #include <zmq.hpp>
 
 #include <memory>
+#include <mutex>
 #include <streambuf>
 #include <string>
 
@@ -48,13 +49,15 @@ public:
      * @param environment
      * @param publisher this ZMQ socket has to be provided. Meaning that we give control to the user on how to setup ZMQ.
      * @param topic to include in the multi-part message
+     * @param publisherMutex to share with the other channels of the socket, which admits one thread at a time
      */
     BinaryToZMQChannel(Container *container,
                        const std::string &topic,
                        int poolSize,
                        std::function<void(Base &)> initializerFunction,
                        zmq::socket_t &publisher,
-                       std::function<void(Base &)> finalizerFunction)
+                       std::function<void(Base &)> finalizerFunction,
+                       std::shared_ptr<std::mutex> publisherMutex = std::make_shared<std::mutex>())
         : ObjectPoolPublisher<Base>(container,
                                     topic,
                                     "ZMQ_BINARY",
@@ -64,12 +67,14 @@ public:
                                     std::move(finalizerFunction))
         , _publisher(publisher)
         , _topic(topic)
+        , _publisherMutex(std::move(publisherMutex))
     {}
 
 protected:
     void internalPublish(std::shared_ptr<const Base> event) override
     {
         auto buffer = dynamic_cast<std::stringbuf *>(*event);
+        std::lock_guard<std::mutex> lock(*_publisherMutex);
         _publisher.send(zmq::const_buffer(_topic.c_str(), _topic.size()), zmq::send_flags::sndmore);
         zmq::message_t message(buffer->str().data(), buffer->str().size());
         _publisher.send(message);
@@ -78,6 +83,7 @@ protected:
 private:
     zmq::socket_t &_publisher;
     std::string _topic;
+    std::shared_ptr<std::mutex> _publisherMutex;
 };
 } // namespace zmq_mdlw
 } // namespace kpsr
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_to_zmq_channel.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_to_zmq_channel.h
index d3681a0..6ddd56a 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_to_zmq_channel.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_to_zmq_channel.h
@@ -20,6 +20,8 @@
 #include <zmq.hpp>
 
 #include <exception>
+#include <memory>
+#include <mutex>
 #include <string>
 
 #include <klepsydra/core/object_pool_publisher.h>
@@ -46,12 +48,14 @@ public:
      * @param environment
      * @param publisher this ZMQ socket has to be provided. Meaning that we give control to the user on how to setup ZMQ.
      * @param topic to include in the multi-part message
+     * @param publisherMutex to share with the other channels of the socket, which admits one thread at a time
      */
     JsonToZMQChannel(Container *container,
                      std::string topic,
                      int poolSize,
                      std::function<void(std::string &)> initializerFunction,
-                     zmq::socket_t &publisher)
+                     zmq::socket_t &publisher,
+                     std::shared_ptr<std::mutex> publisherMutex = std::make_shared<std::mutex>())
         : ObjectPoolPublisher<std::string>(container,
                                            topic,
                                            "ZMQ_JSON",
@@ -60,11 +64,13 @@ public:
                                            nullptr)
         , _publisher(publisher)
         , _topic(topic)
+        , _publisherMutex(std::move(publisherMutex))
     {}
 
 protected:
     void internalPublish(std::shared_ptr<const std::string> event) override
     {
+        std::lock_guard<std::mutex> lock(*_publisherMutex);
         _publisher.send(zmq::const_buffer(_topic.data(), _topic.size()), zmq::send_flags::sndmore);
         zmq::message_t message(event->c_str(), event->size());
         _publisher.send(message);
@@ -73,6 +79,7 @@ protected:
 private:
     zmq::socket_t &_publisher;
     std::string _topic;
+    std::shared_ptr<std::mutex> _publisherMutex;
 };
 } // namespace zmq_mdlw
 } // namespace kpsr
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
index 9c250b9..f57f90b 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
@@ -19,6 +19,7 @@
 
 #include <map>
 #include <memory>
+#include <mutex>
 
 #include <klepsydra/core/to_middleware_channel.h>
 
@@ -69,6 +70,7 @@ public:
     ToZMQMiddlewareProvider(Container *container, zmq::socket_t &zmqPublisher)
         : _container(container)
         , _zmqPublisher(zmqPublisher)
+        , _zmqPublisherMutex(std::make_shared<std::mutex>())
     {}
 
     template<class T>
@@ -100,7 +102,8 @@ public:
                                        poolSize,
                                        initializerFunction,
                                        _zmqPublisher,
-                                       finalizerFunction)};
+                                       finalizerFunction,
+                                       _zmqPublisherMutex)};
             std::shared_ptr<Publisher<T>> publisher{
                 std::make_shared<ToMiddlewareChannel<T, Base>>(_container,
                                                                topic + "_zmq",
@@ -128,7 +131,8 @@ public:
             return publisher.get();
         } else {
             std::unique_ptr<JsonToZMQChannel> toZmqChannel{
-                new JsonToZMQChannel(_container, topic, poolSize, nullptr, _zmqPublisher)};
+                new JsonToZMQChannel(
+                    _container, topic, poolSize, nullptr, _zmqPublisher, _zmqPublisherMutex)};
             std::shared_ptr<Publisher<T>> publisher{
                 std::make_shared<ToMiddlewareChannel<T, std::string>>(_container,
                                                                       topic + "_zmq",
@@ -156,7 +160,8 @@ public:
             return publisher.get();
         } else {
             std::unique_ptr<VoidCasterToZMQChannel> toZmqChannel{
-                new VoidCasterToZMQChannel(_container, topic, poolSize, nullptr, _zmqPublisher)};
+                new VoidCasterToZMQChannel(
+                    _container, topic, poolSize, nullptr, _zmqPublisher, _zmqPublisherMutex)};
             std::shared_ptr<Publisher<T>> publisher{
                 std::make_shared<ToMiddlewareChannel<T, std::vector<unsigned char>>>(
                     _container, topic + "_zmq", std::move(toZmqChannel))};
@@ -169,6 +174,7 @@ public:
 private:
     Container *_container;
     zmq::socket_t &_zmqPublisher;
+    std::shared_ptr<std::mutex> _zmqPublisherMutex;
     std::map<std::string, std::shared_ptr<void>> _binaryPublisherMap;
     std::map<std::string, std::shared_ptr<void>> _jsonPublisherMap;
     std::map<std::string, std::shared_ptr<void>> _voidCasterPublisherMap;
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_to_zmq_channel.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_to_zmq_channel.h
index cb8dd3b..30d5f03 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_to_zmq_channel.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_to_zmq_channel.h
@@ -19,6 +19,10 @@
 
 #include <zmq.hpp>
 
+#include <memory>
+#include <mutex>
+#include <vector>
+
 #include <klepsydra/core/object_pool_publisher.h>
 
 namespace kpsr {
@@ -41,12 +45,14 @@ public:
      * @param environment
      * @param publisher this ZMQ socket has to be provided. Meaning that we give control to the user on how to setup ZMQ.
      * @param topic to include in the multi-part message
+     * @param publisherMutex to share with the other channels of the socket, which admits one thread at a time
      */
     VoidCasterToZMQChannel(Container *container,
                            std::string topic,
                            int poolSize,
                            std::function<void(std::vector<unsigned char> &)> initializerFunction,
-                           zmq::socket_t &publisher)
+                           zmq::socket_t &publisher,
+                           std::shared_ptr<std::mutex> publisherMutex = std::make_shared<std::mutex>())
         : ObjectPoolPublisher<std::vector<unsigned char>>(container,
                                                           topic,
                                                           "ZMQ_VOID_CASTER",
@@ -55,11 +61,13 @@ public:
                                                           nullptr)
         , _publisher(publisher)
         , _topic(topic)
+        , _publisherMutex(std::move(publisherMutex))
     {}
 
 protected:
     void internalPublish(std::shared_ptr<const std::vector<unsigned char>> event) override
     {
+        std::lock_guard<std::mutex> lock(*_publisherMutex);
         _publisher.send(zmq::const_buffer(_topic.data(), _topic.size()), zmq::send_flags::sndmore);
         zmq::message_t message(event->data(), event->size());
         _publisher.send(message);
@@ -68,6 +76,7 @@ protected:
 private:
     zmq::socket_t &_publisher;
     std::string _topic;
+    std::shared_ptr<std::mutex> _publisherMutex;
 };
 } // namespace zmq_mdlw
 } // namespace kpsr
-- 
2.43.0


From e49b2d9e5451acd5ab8b5f9521d33e5e86278bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:46 +0000
Subject: [PATCH 49/64] fix: ZeroMQ pollers stop whenever they are told to, or
 destroyed

---
 .../klepsydra/zmq_core/binary_zmq_poller.h      |  4 +++-
 .../zmq_core/from_zmq_middleware_provider.h     |  5 +++--
 .../klepsydra/zmq_core/json_zmq_poller.h        |  4 +++-
 .../klepsydra/zmq_core/void_caster_zmq_poller.h |  4 +++-
 .../include/klepsydra/zmq_core/zmq_poller.h     | 17 ++++++++---------
 5 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
index 3680a51..c1ae97f 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/binary_zmq_poller.h
@@ -49,12 +49,14 @@ public:
         : ZMQPoller(subscriber, pollPeriod)
     {}
 
+    ~BinaryZMQPoller() { stop(); }
+
     /**
      * @brief poll
      */
     virtual void poll()
     {
-        while (_running) {
+        while (isRunning() && isStarted()) {
             std::string topic;
             zmq::message_t content;
             if (receive(topic, content)) {
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
index f6be1db..a5958af 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
@@ -99,9 +99,10 @@ public:
     void stop() { _zmqPoller->stop(); }
 
 private:
-    std::unique_ptr<ZMQPoller<U>> _zmqPoller;
-
     std::map<std::string, std::shared_ptr<void>> _subscriberMap;
+
+    // The last member, because its thread uses the others.
+    std::unique_ptr<ZMQPoller<U>> _zmqPoller;
 };
 
 /**
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
index 1332aa4..8f6e65c 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/json_zmq_poller.h
@@ -46,12 +46,14 @@ public:
         : ZMQPoller(subscriber, pollPeriod)
     {}
 
+    ~JsonZMQPoller() { stop(); }
+
     /**
      * @brief poll
      */
     void poll()
     {
-        while (_running) {
+        while (isRunning() && isStarted()) {
             std::string topic;
             zmq::message_t content;
             if (receive(topic, content)) {
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
index 7de10d3..14f0666 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/void_caster_zmq_poller.h
@@ -44,12 +44,14 @@ public:
         : ZMQPoller<std::vector<unsigned char>>(subscriber, pollPeriod)
     {}
 
+    ~VoidCasterZMQPoller() { stop(); }
+
     /**
      * @brief poll
      */
     void poll() override
     {
-        while (this->_running) {
+        while (isRunning() && isStarted()) {
             std::string topic;
             zmq::message_t content;
             if (receive(topic, content)) {
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
index 55bf365..81b4c3b 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
@@ -90,21 +90,20 @@ public:
         if (!isStarted()) {
             return;
         }
+        // A thread that has not reached its loop yet would overwrite _running, so it checks _started too.
+        _started.store(false, std::memory_order_release);
         _running.store(false, std::memory_order_release);
         if (_threadNotifier.joinable()) {
             _threadNotifier.join();
         }
+        _running.store(false, std::memory_order_release);
         _poller = std::packaged_task<void()>(std::bind(&ZMQPoller::pollingLoop, this));
-        _started.store(false, std::memory_order_release);
     }
 
-    ~ZMQPoller()
-    {
-        _running = false;
-        if (_threadNotifier.joinable()) {
-            _threadNotifier.join();
-        }
-    }
+    /**
+     * @brief ~ZMQPoller. Implementations have to stop in their destructors, as the thread executes their poll.
+     */
+    virtual ~ZMQPoller() { ZMQPoller::stop(); }
 
     /**
      * @brief registerToTopic
@@ -193,7 +192,7 @@ protected:
 
     void pollingLoop()
     {
-        _running.store(true, std::memory_order_relaxed);
+        _running.store(true, std::memory_order_release);
         this->poll();
     }
 
-- 
2.43.0


From 180a64926c9a9ce2bc0074e635e22377bcc53659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:46 +0000
Subject: [PATCH 50/64] fix: ZeroMQ topics can be registered again once
 unregistered, and from inside listeners

---
 .../zmq_core/from_zmq_middleware_provider.h   | 13 ++---------
 .../include/klepsydra/zmq_core/zmq_poller.h   | 22 ++++++++++++++-----
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
index a5958af..bdb2688 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
@@ -17,7 +17,6 @@
 #ifndef FROM_ZMQ_MIDDLEWARE_PROVIDER_H
 #define FROM_ZMQ_MIDDLEWARE_PROVIDER_H
 
-#include <map>
 #include <memory>
 
 #include <spdlog/spdlog.h>
@@ -66,19 +65,14 @@ public:
      */
     void registerToTopic(const std::string &topic, Publisher<T> *internalPublisher)
     {
-        auto search = _subscriberMap.find(topic);
-        if (search == _subscriberMap.end()) {
+        if (!_zmqPoller->isRegistered(topic)) {
             std::shared_ptr<FromMiddlewareChannel<T, U>> fromMiddlewareChannel(
                 new FromMiddlewareChannel<T, U>(internalPublisher));
             std::function<void(U)> onDataAvailableFunction =
                 std::bind(&FromMiddlewareChannel<T, U>::onMiddlewareMessage,
-                          fromMiddlewareChannel.get(),
+                          fromMiddlewareChannel,
                           std::placeholders::_1);
             _zmqPoller->registerToTopic(topic, onDataAvailableFunction);
-
-            std::shared_ptr<void> internalPointer = std::static_pointer_cast<void>(
-                fromMiddlewareChannel);
-            _subscriberMap[topic] = internalPointer;
         }
     }
 
@@ -99,9 +93,6 @@ public:
     void stop() { _zmqPoller->stop(); }
 
 private:
-    std::map<std::string, std::shared_ptr<void>> _subscriberMap;
-
-    // The last member, because its thread uses the others.
     std::unique_ptr<ZMQPoller<U>> _zmqPoller;
 };
 
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
index 81b4c3b..22db59d 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
@@ -112,7 +112,7 @@ public:
      */
     void registerToTopic(const std::string &topic, std::function<void(const T &)> function)
     {
-        std::lock_guard<std::mutex> lock(mutex);
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         _functionTopicMap[topic] = function;
     }
 
@@ -122,10 +122,20 @@ public:
      */
     void unregisterFromTopic(const std::string &topic)
     {
-        std::lock_guard<std::mutex> lock(mutex);
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         _functionTopicMap.erase(topic);
     }
 
+    /**
+     * @brief isRegistered
+     * @param topic
+     */
+    bool isRegistered(const std::string &topic)
+    {
+        std::lock_guard<std::recursive_mutex> lock(mutex);
+        return _functionTopicMap.find(topic) != _functionTopicMap.end();
+    }
+
     /**
      * @brief executeFunction
      * @param topic
@@ -133,11 +143,12 @@ public:
      */
     void executeFunction(const std::string &topic, const T &event)
     {
-        std::lock_guard<std::mutex> lock(mutex);
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         auto search = _functionTopicMap.find(topic);
         if (search != _functionTopicMap.end()) {
             try {
-                _functionTopicMap[topic](event);
+                std::function<void(const T &)> function = search->second;
+                function(event);
             } catch (const std::exception &e) {
                 // The content comes from anywhere. It must not prevent the delivery of other messages.
                 spdlog::warn("ZMQPoller::executeFunction. Message of topic {} dropped: {}",
@@ -213,7 +224,8 @@ protected:
     std::atomic<bool> _started;
     std::packaged_task<void()> _poller;
     std::future<void> _threadNotifierFuture;
-    std::mutex mutex;
+    // Listeners can register and unregister.
+    std::recursive_mutex mutex;
 
     std::map<std::string, std::function<void(const T &)>> _functionTopicMap;
     typedef typename std::map<std::string, std::function<void(const T &)>>::iterator it_type;
-- 
2.43.0


From 7f9469b8169f7c72d2de393b39b85d77b28ae950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:43 +0000
Subject: [PATCH 51/64] fix: malformed messages and interrupted polls do not
 end a process with a ZeroMQ environment

---
 core/modules/zmq_mdlw/src/zmq_env.cpp | 42 +++++++++++++++++++++------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index 2315b74..b03d937 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -14,6 +14,7 @@
 
 #include <algorithm>
 #include <chrono>
+#include <cerrno>
 #include <string.h>
 
 #include <spdlog/spdlog.h>
@@ -208,24 +209,47 @@ void kpsr::zmq_mdlw::ZMQConfigurationPoller::stop()
 void kpsr::zmq_mdlw::ZMQConfigurationPoller::poll()
 {
     zmq::pollitem_t items[] = {{_zmqEnv->_zmqSubscriber, 0, ZMQ_POLLIN, 0}};
-    if (zmq::poll(items, 1, _pollPeriod) == -1)
-        return;
+    try {
+        if (zmq::poll(items, 1, _pollPeriod) == -1)
+            return;
+    } catch (const zmq::error_t &e) {
+        if (e.num() == EINTR)
+            return;
+        throw;
+    }
 
     if (items[0].revents & ZMQ_POLLIN) {
         zmq::message_t topicMsg;
         zmq::message_t content;
         _zmqEnv->_zmqSubscriber.recv(topicMsg);
+        if (!topicMsg.more())
+            return;
         _zmqEnv->_zmqSubscriber.recv(content);
+        bool more = content.more();
+        if (more) {
+            while (more) {
+                zmq::message_t dropped;
+                _zmqEnv->_zmqSubscriber.recv(dropped);
+                more = dropped.more();
+            }
+            return;
+        }
         std::string topic(static_cast<char *>(topicMsg.data()), topicMsg.size());
         std::string contentString(static_cast<char *>(content.data()), content.size());
         spdlog::info("kpsr::zmq_mdlw::ZMQConfigurationPoller::on_data_available.");
-        ZMQEnvironmentData environmentData;
-        mapper.fromMiddleware(contentString, environmentData);
-        if ((environmentData._configurationKey == _zmqKey) &&
-            (environmentData._sourceId != _sourceId)) {
-            spdlog::info("kpsr::zmq_mdlw::ZMQConfigurationPoller::poll. new data: {}",
-                         environmentData._configurationData);
-            this->_zmqEnv->updateConfiguration(environmentData._configurationData);
+        try {
+            ZMQEnvironmentData environmentData;
+            mapper.fromMiddleware(contentString, environmentData);
+            if ((environmentData._configurationKey == _zmqKey) &&
+                (environmentData._sourceId != _sourceId)) {
+                spdlog::info("kpsr::zmq_mdlw::ZMQConfigurationPoller::poll. new data: {}",
+                             environmentData._configurationData);
+                this->_zmqEnv->updateConfiguration(environmentData._configurationData);
+            }
+        } catch (const std::exception &e) {
+            // The content comes from anywhere.
+            spdlog::warn("kpsr::zmq_mdlw::ZMQConfigurationPoller::poll. Message dropped: {}",
+                         e.what());
         }
     }
 }
-- 
2.43.0


From dc79f896f930feb5218e6a78f62b6cd9c0c0e471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:48 +0000
Subject: [PATCH 52/64] fix: ZeroMQ environments created at the same time
 follow each other

---
 .../include/klepsydra/zmq_core/zmq_env.h      |  2 +-
 core/modules/zmq_mdlw/src/zmq_env.cpp         | 22 +++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
index 3b438dc..637acb5 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
@@ -201,7 +201,7 @@ private:
     std::string _topicName;
     std::string _zmqKey;
     int _pollPeriod;
-    long _timestamp;
+    long _sourceId;
     ZMQConfigurationPoller *_poller;
     kpsr::Mapper<ZMQEnvironmentData, std::string> mapper;
     bool _isEnvLocal;
diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index b03d937..e9be439 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <chrono>
 #include <cerrno>
+#include <random>
 #include <string.h>
 
 #include <spdlog/spdlog.h>
@@ -26,6 +27,13 @@ static const std::string DEFAULT_ZMQ_TOPIC_NAME = "DEFAULT_ZMQ_TOPIC_NAME";
 static const std::string DEFAULT_ZMQ_ENV_KEY = "DEFAULT_ZMQ_ENV_KEY";
 static const int DEFAULT_ZMQ_ENV_POOL_PERIOD = 1000;
 
+// Environments ignore their own messages: two of them, in any process, must not have the same id.
+static long uniqueSourceId()
+{
+    std::random_device device;
+    return std::uniform_int_distribution<long>()(device);
+}
+
 kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(const std::string &configurationFileName,
                                std::string zmqKey,
                                std::string topicName,
@@ -41,13 +49,11 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(const std::string &configurationFileName,
     , _topicName(topicName)
     , _zmqKey(zmqKey)
     , _pollPeriod(pollPeriod)
-    , _timestamp(std::chrono::duration_cast<std::chrono::milliseconds>(
-                     std::chrono::system_clock::now().time_since_epoch())
-                     .count())
+    , _sourceId(uniqueSourceId())
     , mapper()
     , _isEnvLocal(true)
 {
-    _poller = new ZMQConfigurationPoller(zmqKey, this, _timestamp, _pollPeriod);
+    _poller = new ZMQConfigurationPoller(zmqKey, this, _sourceId, _pollPeriod);
     _poller->start();
 }
 
@@ -67,9 +73,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(ConfigurationEnvironment *configurationEnvironmen
     : _zmqSubscriber(zmqSubscriber)
     , _decorableEnv(configurationEnvironment)
     , _zmqPublisher(zmqPublisher)
-    , _timestamp(std::chrono::duration_cast<std::chrono::milliseconds>(
-                     std::chrono::system_clock::now().time_since_epoch())
-                     .count())
+    , _sourceId(uniqueSourceId())
     , mapper()
     , _isEnvLocal(false)
 {
@@ -83,7 +87,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(ConfigurationEnvironment *configurationEnvironmen
                                   DEFAULT_ZMQ_ENV_POOL_PERIOD,
                                   rootNode);
 
-    _poller = new ZMQConfigurationPoller(_zmqKey, this, _timestamp, _pollPeriod);
+    _poller = new ZMQConfigurationPoller(_zmqKey, this, _sourceId, _pollPeriod);
     _poller->start();
 }
 
@@ -169,7 +173,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::loadFile(const std::string &fileName, const std::st
 void kpsr::zmq_mdlw::ZMQEnv::publishConfiguration()
 {
     std::string configurationData = _decorableEnv->exportEnvironment();
-    ZMQEnvironmentData environmentData(_zmqKey, configurationData, _timestamp);
+    ZMQEnvironmentData environmentData(_zmqKey, configurationData, _sourceId);
     _zmqPublisher.send(zmq::const_buffer(_topicName.c_str(), _topicName.size()),
                        zmq::send_flags::sndmore);
     std::string serializeEnvironmentData;
-- 
2.43.0


From 65fdbc44cc48964eb781af333aba660e0608631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 53/64] fix: ZeroMQ environments are protected from their
 pollers and other threads

---
 .../zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h      |  6 +++++-
 core/modules/zmq_mdlw/src/zmq_env.cpp                  | 10 ++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
index 637acb5..4f84e57 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
@@ -19,7 +19,9 @@
 
 #include <zmq.hpp>
 
+#include <atomic>
 #include <future>
+#include <mutex>
 
 #include <klepsydra/serialization/json_cereal_mapper.h>
 
@@ -57,7 +59,7 @@ private:
     ZMQEnv *_zmqEnv;
     long _sourceId;
     int _pollPeriod;
-    bool _running;
+    std::atomic<bool> _running;
     kpsr::Mapper<ZMQEnvironmentData, std::string> mapper;
     std::thread _threadPoller;
 };
@@ -196,6 +198,8 @@ private:
     void publishConfiguration();
 
     ConfigurationEnvironment *_decorableEnv;
+    // Protects the properties, and the publisher, from the poller and from other threads.
+    std::mutex _mutex;
 
     zmq::socket_t &_zmqPublisher;
     std::string _topicName;
diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index e9be439..a706101 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -93,6 +93,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(ConfigurationEnvironment *configurationEnvironmen
 
 bool kpsr::zmq_mdlw::ZMQEnv::updateConfiguration(const std::string &configurationData)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->updateConfiguration(configurationData);
 }
 
@@ -101,6 +102,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyString(const std::string &key,
                                                const std::string &defaultValue,
                                                const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyString(key, value, defaultValue, rootNode);
 }
 
@@ -109,6 +111,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyInt(const std::string &key,
                                             const int defaultValue,
                                             const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyInt(key, value, defaultValue, rootNode);
 }
 
@@ -117,6 +120,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyFloat(const std::string &key,
                                               const float defaultValue,
                                               const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyFloat(key, value, defaultValue, rootNode);
 }
 
@@ -125,6 +129,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyBool(const std::string &key,
                                              const bool defaultValue,
                                              const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyBool(key, value, defaultValue, rootNode);
 }
 
@@ -132,6 +137,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyString(const std::string &key,
                                                const std::string &value,
                                                const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyString(key, value, rootNode);
     publishConfiguration();
 }
@@ -140,6 +146,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyInt(const std::string &key,
                                             const int &value,
                                             const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyInt(key, value, rootNode);
     publishConfiguration();
 }
@@ -148,6 +155,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyFloat(const std::string &key,
                                               const float &value,
                                               const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyFloat(key, value, rootNode);
     publishConfiguration();
 }
@@ -156,12 +164,14 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyBool(const std::string &key,
                                              const bool &value,
                                              const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyBool(key, value, rootNode);
     publishConfiguration();
 }
 
 bool kpsr::zmq_mdlw::ZMQEnv::loadFile(const std::string &fileName, const std::string &nodeName)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     if (_decorableEnv->loadFile(fileName, nodeName)) {
         publishConfiguration();
         return true;
-- 
2.43.0


From c3883d2bbb5053295f0c883d5f78ce6dddfdc431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:50 +0000
Subject: [PATCH 54/64] fix: blank lines and empty values of a configuration
 file may have tabs and carriage returns

---
 core/modules/core/include/klepsydra/core/config_file.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/config_file.h b/core/modules/core/include/klepsydra/core/config_file.h
index 3b6b703..ebd9d4b 100644
--- a/core/modules/core/include/klepsydra/core/config_file.h
+++ b/core/modules/core/include/klepsydra/core/config_file.h
@@ -37,7 +37,7 @@ private:
 
     bool onlyWhitespace(const std::string &line) const
     {
-        return (line.find_first_not_of(' ') == line.npos);
+        return (line.find_first_not_of("\t \r") == line.npos);
     }
     bool validLine(const std::string &line) const
     {
@@ -47,7 +47,7 @@ private:
             return false;
 
         for (size_t i = temp.find('=') + 1; i < temp.length(); i++)
-            if (temp[i] != ' ')
+            if (temp[i] != ' ' && temp[i] != '\t' && temp[i] != '\r')
                 return true;
 
         return false;
-- 
2.43.0


From c63229110ed24639e8329d472ff6d9fe397940ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 55/64] fix: steps of the system clock do not stall or rush
 scheduled tasks

---
 core/modules/mem_mdlw/src/basic_scheduler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/modules/mem_mdlw/src/basic_scheduler.cpp b/core/modules/mem_mdlw/src/basic_scheduler.cpp
index 282a035..ca8cfa4 100644
--- a/core/modules/mem_mdlw/src/basic_scheduler.cpp
+++ b/core/modules/mem_mdlw/src/basic_scheduler.cpp
@@ -36,7 +36,7 @@ void kpsr::mem::BasicScheduler::ScheduledThread::start()
             long long before = 0;
             long long after = 0;
             while (_isRunning) {
-                int effectiveSleepTime = _after - (after - before);
+                long long effectiveSleepTime = _after - (after - before);
                 if (effectiveSleepTime > 0) {
                     std::this_thread::sleep_for(std::chrono::microseconds(effectiveSleepTime));
                 } else {
@@ -45,11 +45,11 @@ void kpsr::mem::BasicScheduler::ScheduledThread::start()
                         effectiveSleepTime);
                 }
                 before = std::chrono::duration_cast<std::chrono::microseconds>(
-                             std::chrono::system_clock::now().time_since_epoch())
+                             std::chrono::steady_clock::now().time_since_epoch())
                              .count();
                 _task();
                 after = std::chrono::duration_cast<std::chrono::microseconds>(
-                            std::chrono::system_clock::now().time_since_epoch())
+                            std::chrono::steady_clock::now().time_since_epoch())
                             .count();
             }
         } else {
-- 
2.43.0


From 7c11fe2c67f86eb8bf3c1423ea2d3d067c0af172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 56/64] fix: socket paths and ports that do not fit an address
 are refused

---
 core/modules/socket_mdlw/src/connect_socket.cpp | 11 +++++++++++
 core/modules/socket_mdlw/src/server_socket.cpp  | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/core/modules/socket_mdlw/src/connect_socket.cpp b/core/modules/socket_mdlw/src/connect_socket.cpp
index 049fab8..eeebaa7 100644
--- a/core/modules/socket_mdlw/src/connect_socket.cpp
+++ b/core/modules/socket_mdlw/src/connect_socket.cpp
@@ -25,6 +25,12 @@
 kpsr::socket_mdlw::ConnectSocket::ConnectSocket(const std::string &host, int port)
     : kpsr::socket_mdlw::DataSocket(::socket(PF_INET, SOCK_STREAM, 0))
 {
+    if (port < 0 || port > 65535) {
+        close();
+        throw std::runtime_error(
+            buildErrorMessage("ConnectSocket::", __func__, ": invalid port: ", std::to_string(port)));
+    }
+
     struct sockaddr_in serverAddr
     {};
     serverAddr.sin_family = AF_INET;
@@ -44,6 +50,11 @@ kpsr::socket_mdlw::ConnectSocket::ConnectSocket(const std::string &path)
     struct sockaddr_un serverAddr
     {};
     serverAddr.sun_family = AF_UNIX;
+    if (path.size() >= sizeof(serverAddr.sun_path)) {
+        close();
+        throw std::runtime_error(
+            buildErrorMessage("ConnectSocket::", __func__, ": path too long: ", path));
+    }
     strncpy(serverAddr.sun_path, path.data(), sizeof(serverAddr.sun_path) - 1);
 
     if (::connect(getSocketId(), (struct sockaddr *) &serverAddr, sizeof(serverAddr)) != 0) {
diff --git a/core/modules/socket_mdlw/src/server_socket.cpp b/core/modules/socket_mdlw/src/server_socket.cpp
index e8de002..7233d2f 100644
--- a/core/modules/socket_mdlw/src/server_socket.cpp
+++ b/core/modules/socket_mdlw/src/server_socket.cpp
@@ -30,6 +30,12 @@
 kpsr::socket_mdlw::ServerSocket::ServerSocket(int port)
     : BaseSocket(::socket(PF_INET, SOCK_STREAM, 0))
 {
+    if (port < 0 || port > 65535) {
+        close();
+        throw std::runtime_error(
+            buildErrorMessage("ServerSocket::", __func__, ": invalid port: ", std::to_string(port)));
+    }
+
     struct sockaddr_in serverAddr;
     bzero((char *) &serverAddr, sizeof(serverAddr));
     serverAddr.sin_family = AF_INET;
@@ -58,6 +64,11 @@ kpsr::socket_mdlw::ServerSocket::ServerSocket(const std::string &socketPath)
     struct sockaddr_un serverAddr
     {};
     serverAddr.sun_family = AF_UNIX;
+    if (socketPath.size() >= sizeof(serverAddr.sun_path)) {
+        close();
+        throw std::runtime_error(
+            buildErrorMessage("ServerSocket::", __func__, ": path too long: ", socketPath));
+    }
     strncpy(serverAddr.sun_path, socketPath.data(), sizeof(serverAddr.sun_path) - 1);
 
     // Set the server socket to non-blocking
-- 
2.43.0


From 68664ff36cf630b20ffe638acb86d804efeab8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 57/64] fix: listeners can stop the in-memory middleware they
 are run by

---
 .../mem_core/in_memory_queue_poller.h         |  6 +++-
 .../mem_mdlw/src/in_memory_queue_poller.cpp   | 29 +++++++++++++++----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/in_memory_queue_poller.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/in_memory_queue_poller.h
index 2b802bc..a08fc8d 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/in_memory_queue_poller.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/in_memory_queue_poller.h
@@ -60,6 +60,7 @@ public:
                         long timeoutMS = MEM_START_TIMEOUT_MILLISEC)
         : _running(false)
         , _started(false)
+        , _pollingThread(std::thread::id())
         , _eventName(eventName)
         , _threadNotifier()
         , _sleepPeriodUS(sleepPeriodUS)
@@ -74,7 +75,7 @@ public:
     void start();
 
     /**
-     * @brief stop
+     * @brief stop. Called by a listener, it does not wait: the thread ends once the listener returns.
      */
     void stop();
 
@@ -92,7 +93,10 @@ public:
 
 private:
     std::atomic<bool> _started;
+    std::atomic<std::thread::id> _pollingThread;
     bool isStarted();
+    bool isPollingThread();
+    void join();
     void pollingLoop();
     virtual void takeEventFromQueue() = 0;
 
diff --git a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
index 1911dcd..561a8d4 100644
--- a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
+++ b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
@@ -22,10 +22,14 @@ void InMemoryQueuePoller::start()
     if (isStarted()) {
         return;
     }
+    if (isPollingThread()) {
+        throw std::runtime_error("Could not start the poller: its thread is still running");
+    }
+    join(); // in case it was stopped by a listener
     this->_started.store(true, std::memory_order_release);
     _threadNotifier = std::thread(std::move(_loopFunction));
     int counterUs = 0;
-    while (!isRunning()) {
+    while (!isRunning() && isStarted()) {
         if (counterUs > _timeoutUs) {
             throw std::runtime_error("Could not start the poller");
         }
@@ -36,15 +40,22 @@ void InMemoryQueuePoller::start()
 
 void InMemoryQueuePoller::stop()
 {
-    if (!isStarted()) {
-        return;
-    }
     // A thread that has not reached its loop yet would overwrite _running, so it checks _started too.
     _started.store(false, std::memory_order_release);
     _running.store(false, std::memory_order_release);
-    if (_threadNotifier.joinable()) {
-        _threadNotifier.join();
+    if (isPollingThread()) {
+        return;
+    }
+    join();
+}
+
+void InMemoryQueuePoller::join()
+{
+    if (!_threadNotifier.joinable()) {
+        return;
     }
+    _threadNotifier.join();
+    _pollingThread.store(std::thread::id());
     _running.store(false, std::memory_order_release);
     _loopFunction = (std::packaged_task<void()>(
         std::bind(&InMemoryQueuePoller::pollingLoop, this))); // to allow restarting
@@ -60,12 +71,18 @@ InMemoryQueuePoller::~InMemoryQueuePoller()
 
 void InMemoryQueuePoller::pollingLoop()
 {
+    _pollingThread.store(std::this_thread::get_id());
     _running.store(true, std::memory_order_release);
     while (isRunning() && isStarted()) {
         takeEventFromQueue();
     }
 }
 
+bool InMemoryQueuePoller::isPollingThread()
+{
+    return _pollingThread.load() == std::this_thread::get_id();
+}
+
 bool InMemoryQueuePoller::isStarted()
 {
     return _started.load(std::memory_order_acquire);
-- 
2.43.0


From 71b2a9c0ac6b874bda2b975fb6e315cf7fc95d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 58/64] fix: listeners can stop the ZeroMQ receiver they are
 run by

---
 .../include/klepsydra/zmq_core/zmq_poller.h   | 34 ++++++++++++++-----
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
index 22db59d..eac6233 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
@@ -56,6 +56,7 @@ public:
         , _pollPeriod(pollPeriod)
         , _running(false)
         , _started(false)
+        , _pollingThread(std::thread::id())
         , _poller(std::bind(&ZMQPoller::pollingLoop, this))
         , _threadNotifierFuture(_poller.get_future())
         , _timeoutUs(timeoutUS)
@@ -69,11 +70,15 @@ public:
         if (isStarted()) {
             return;
         }
+        if (isPollingThread()) {
+            throw std::runtime_error("Could not start the ZMQ poller: its thread is still running");
+        }
+        join(); // in case it was stopped by a listener
         this->_started.store(true, std::memory_order_release);
         _threadNotifier = std::thread(std::move(_poller));
         spdlog::debug("Started the poller");
         long counterUs = 0;
-        while (!isRunning()) {
+        while (!isRunning() && isStarted()) {
             if (counterUs > _timeoutUs) {
                 throw std::runtime_error("Could not start the ZMQ poller");
             }
@@ -83,21 +88,17 @@ public:
     }
 
     /**
-     * @brief stop
+     * @brief stop. Called by a listener, it does not wait: the thread ends once the listener returns.
      */
     virtual void stop()
     {
-        if (!isStarted()) {
-            return;
-        }
         // A thread that has not reached its loop yet would overwrite _running, so it checks _started too.
         _started.store(false, std::memory_order_release);
         _running.store(false, std::memory_order_release);
-        if (_threadNotifier.joinable()) {
-            _threadNotifier.join();
+        if (isPollingThread()) {
+            return;
         }
-        _running.store(false, std::memory_order_release);
-        _poller = std::packaged_task<void()>(std::bind(&ZMQPoller::pollingLoop, this));
+        join();
     }
 
     /**
@@ -203,10 +204,24 @@ protected:
 
     void pollingLoop()
     {
+        _pollingThread.store(std::this_thread::get_id());
         _running.store(true, std::memory_order_release);
         this->poll();
     }
 
+    void join()
+    {
+        if (!_threadNotifier.joinable()) {
+            return;
+        }
+        _threadNotifier.join();
+        _pollingThread.store(std::thread::id());
+        _running.store(false, std::memory_order_release);
+        _poller = std::packaged_task<void()>(std::bind(&ZMQPoller::pollingLoop, this));
+    }
+
+    bool isPollingThread() { return _pollingThread.load() == std::this_thread::get_id(); }
+
     /**
      * @brief isRunning
      */
@@ -222,6 +237,7 @@ protected:
     std::thread _threadNotifier;
     std::atomic<bool> _running;
     std::atomic<bool> _started;
+    std::atomic<std::thread::id> _pollingThread;
     std::packaged_task<void()> _poller;
     std::future<void> _threadNotifierFuture;
     // Listeners can register and unregister.
-- 
2.43.0


From ddd172a6fce7946a24792574c57c4d1346a59700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 59/64] fix: listeners can stop the event loop they are run by

---
 .../klepsydra/high_performance/event_loop.h   | 50 +++++++++++++------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
index 7167ce9..8dfdef5 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
@@ -76,7 +76,9 @@ public:
         , _ringBuffer(ringBuffer)
         , _eventHandler(externalEventEmitter)
         , _isStarted(false)
+        , _loopThread(std::thread::id())
         , _eventLoopTask([this] {
+            _loopThread.store(std::this_thread::get_id());
             spdlog::trace("kpsr::high_perf::EventLoop::_eventLoopTask begin");
             spdlog::debug(EVENT_LOOP_START_MESSAGE);
             this->batchEventProcessor->run();
@@ -103,13 +105,17 @@ public:
         if (isStarted()) {
             return;
         }
+        if (isLoopThread()) {
+            throw std::runtime_error("Could not start the event loop: its thread is still running");
+        }
+        join(); // in case it was stopped by a listener
+        _isStarted.store(true, std::memory_order_release);
         batchProcessorThread = std::thread(std::move(_batchProcessTask));
         spdlog::debug(
             "kpsr::high_perf::EventLoop::start. Starting the event loop here with threadname {}",
             _threadName);
-        _isStarted.store(true, std::memory_order_release);
         long counterUs = 0;
-        while (!this->batchEventProcessor->is_running()) {
+        while (!this->batchEventProcessor->is_running() && isStarted()) {
             if (counterUs > _timeoutUs) {
                 throw std::runtime_error("Could not start the event loop");
             }
@@ -120,27 +126,18 @@ public:
     }
 
     /**
-     * @brief stop stop consumer thread.
+     * @brief stop stop consumer thread. Called by a listener, it does not wait: the thread ends once
+     * the events at hand are delivered.
      */
     void stop()
     {
-        if (!isStarted()) {
-            return;
-        }
         _isStarted.store(false, std::memory_order_release);
         spdlog::debug("kpsr::high_perf::EventLoop::stop. Halting the batchEventProcessor");
-        // A halt before the thread has entered run() is lost, so insist until it has returned.
-        do {
+        if (isLoopThread()) {
             this->batchEventProcessor->halt();
-        } while (_batchProcessorThreadFuture.wait_for(std::chrono::milliseconds(1)) ==
-                 std::future_status::timeout);
-        if (this->batchProcessorThread.joinable()) {
-            this->batchProcessorThread.join();
+            return;
         }
-        spdlog::debug("kpsr::high_perf::EventLoop::stop. Eventloop {} stopped.", this->_name);
-        // make _batchProcessTask reusable
-        _batchProcessTask = std::packaged_task<void()>(_eventLoopTask);
-        _batchProcessorThreadFuture = _batchProcessTask.get_future();
+        join();
     }
 
     bool isStarted() { return _isStarted.load(std::memory_order_acquire); }
@@ -150,12 +147,33 @@ public:
     std::string getName() { return _name; }
 
 private:
+    bool isLoopThread() const { return _loopThread.load() == std::this_thread::get_id(); }
+
+    void join()
+    {
+        if (!this->batchProcessorThread.joinable()) {
+            return;
+        }
+        // A halt before the thread has entered run() is lost, so insist until it has returned.
+        do {
+            this->batchEventProcessor->halt();
+        } while (_batchProcessorThreadFuture.wait_for(std::chrono::milliseconds(1)) ==
+                 std::future_status::timeout);
+        this->batchProcessorThread.join();
+        _loopThread.store(std::thread::id());
+        spdlog::debug("kpsr::high_perf::EventLoop::stop. Eventloop {} stopped.", this->_name);
+        // make _batchProcessTask reusable
+        _batchProcessTask = std::packaged_task<void()>(_eventLoopTask);
+        _batchProcessorThreadFuture = _batchProcessTask.get_future();
+    }
+
     std::string _name;
     std::string _threadName;
     RingBuffer &_ringBuffer;
     EventLoopEventHandler _eventHandler;
     std::unique_ptr<BatchProcessor> batchEventProcessor;
     std::atomic_bool _isStarted;
+    std::atomic<std::thread::id> _loopThread;
     std::function<void()> _eventLoopTask;
     std::packaged_task<void()> _batchProcessTask;
     std::thread batchProcessorThread;
-- 
2.43.0


From 37836a6dbc74ebfe64d4a34c6f4cbbd1d4f6fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:58 +0000
Subject: [PATCH 60/64] fix: a listener that throws does not end the in-memory
 middleware

---
 core/modules/mem_mdlw/src/in_memory_queue_poller.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
index 561a8d4..f643f0d 100644
--- a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
+++ b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
@@ -74,7 +74,12 @@ void InMemoryQueuePoller::pollingLoop()
     _pollingThread.store(std::this_thread::get_id());
     _running.store(true, std::memory_order_release);
     while (isRunning() && isStarted()) {
-        takeEventFromQueue();
+        try {
+            takeEventFromQueue();
+        } catch (const std::exception &e) {
+            // An exception of a listener must not prevent the delivery of other events.
+            spdlog::error("InMemoryQueuePoller::pollingLoop. Event {}: {}", _eventName, e.what());
+        }
     }
 }
 
-- 
2.43.0


From bc78cbc398c9fb641f47a5f8b67f4d6152cc12d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:40 +0000
Subject: [PATCH 61/64] fix: moving a queue away wakes the pushes blocked on it

The move constructor empties the queue it takes from, as the move
assignment does, but left a push that was waiting for room there blocked.
---
 core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 415d9b2..2766c85 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -65,6 +65,7 @@ public:
         std::lock_guard<std::mutex> lock(sq.m_mutex);
         m_queue = std::move(sq.m_queue);
         m_max_num_items = sq.m_max_num_items;
+        sq.m_non_full_condition.notify_all();
     }
 
     /**
-- 
2.43.0


From cd4e408cb318c4085b059f30df1229c6d3dfdfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:10 +0000
Subject: [PATCH 62/64] fix: a publication to the data multiplexer that fails
 gives its slot back

An exception of the cloner or of the function filling in the event left the
claimed slot unpublished: it was passed on with the next event, and as many of
them as the ring has slots made the publisher refuse every event for good.
---
 .../data_multiplexer_publisher.h               | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
index 62342a6..595a32a 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_publisher.h
@@ -101,7 +101,7 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            _eventCloner(event, _ringBuffer[seq]);
+            fillSlot(seq, [&]() { _eventCloner(event, _ringBuffer[seq]); });
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -120,7 +120,7 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            _eventClonerSharedPtr(event, _ringBuffer[seq]);
+            fillSlot(seq, [&]() { _eventClonerSharedPtr(event, _ringBuffer[seq]); });
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -140,7 +140,7 @@ public:
     {
         try {
             int64_t seq = _ringBuffer.try_next();
-            process(*_ringBuffer[seq].getOwnEvent());
+            fillSlot(seq, [&]() { process(*_ringBuffer[seq].getOwnEvent()); });
             _ringBuffer[seq].enqueuedTimeInNs = _updateTime();
             _ringBuffer.publish(seq);
         } catch (disruptor4cpp::insufficient_capacity_exception &ice) {
@@ -152,6 +152,18 @@ public:
     }
 
 private:
+    // A slot that could not be filled in is given back, or it would be lost or published with the next one.
+    template<typename Fill>
+    void fillSlot(int64_t seq, Fill fill)
+    {
+        try {
+            fill();
+        } catch (...) {
+            _ringBuffer.claim(seq - 1);
+            throw;
+        }
+    }
+
     RingBuffer &_ringBuffer;
     std::function<void(const TEvent &, DataMultiplexerDataWrapper<TEvent> &)> _eventCloner;
     std::function<void(std::shared_ptr<const TEvent> &, DataMultiplexerDataWrapper<TEvent> &)>
-- 
2.43.0


From 6a67f36fb11f64ecdd9c4f799d18f0e7db15c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:24 +0000
Subject: [PATCH 63/64] fix: a binary ZMQ message ends where its event ends

---
 .../include/klepsydra/zmq_core/to_zmq_middleware_provider.h    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
index f57f90b..bc9d35a 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
@@ -93,7 +93,8 @@ public:
                 if (!event) {
                     event = new std::stringbuf;
                 }
-                event->pubseekpos(0);
+                // Also drops the tail of a longer event that was written to it before.
+                static_cast<std::stringbuf *>(event)->str(std::string());
             };
             std::function<void(Base &)> finalizerFunction = [](Base &event) { delete event; };
             std::unique_ptr<BinaryToZMQChannel> toZmqChannel{
-- 
2.43.0


From e71b86f1ce19553945ad8bfac3e1f582e9f20e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:45 +0000
Subject: [PATCH 64/64] fix: the scheduler of an event loop middleware takes
 its statistics along to another container

---
 .../event_loop_middleware_provider.h          | 25 ++-----------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
index 56b4b50..a08cb42 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
@@ -89,11 +89,7 @@ public:
     {}
 
     // The loop must be stopped before the subscribers it runs are destroyed.
-    ~EventLoopMiddlewareProvider()
-    {
-        stop();
-        detachSchedulerPublisher();
-    }
+    ~EventLoopMiddlewareProvider() { stop(); }
 
     template<class T>
     /**
@@ -193,7 +189,6 @@ public:
         if (!isRunning()) {
             _container = container;
             if (_scheduler && (_subscriberMap.size() == 1) && (_publisherMap.size() == 1)) {
-                detachSchedulerPublisher();
                 for (auto &keyValue : _subscriberMap) {
                     std::shared_ptr<EventLoopFunctionExecutorListener> schedulerSubscriber =
                         std::static_pointer_cast<EventLoopFunctionExecutorListener>(
@@ -201,11 +196,7 @@ public:
                     schedulerSubscriber->setContainer(container);
                     Publisher<std::function<void()>> *schedulerPublisher =
                         getPublisher<std::function<void()>>(keyValue.first, 0, nullptr, nullptr);
-                    if (_container) {
-                        _container->attach(&schedulerPublisher->publicationStats);
-                        _attachedSchedulerPublisher = schedulerPublisher;
-                        _schedulerContainer = _container;
-                    }
+                    schedulerPublisher->setContainer(container);
                 }
             } else if ((_subscriberMap.size() > 0) || (_publisherMap.size() > 0)) {
                 spdlog::info("Container cannot be attached to already existing subscribers or "
@@ -216,19 +207,7 @@ public:
     }
 
 private:
-    // The publisher only detaches itself from the container it was created with.
-    void detachSchedulerPublisher()
-    {
-        if (_schedulerContainer) {
-            _schedulerContainer->detach(&_attachedSchedulerPublisher->publicationStats);
-            _schedulerContainer = nullptr;
-            _attachedSchedulerPublisher = nullptr;
-        }
-    }
-
     Container *_container;
-    Container *_schedulerContainer = nullptr;
-    Publisher<std::function<void()>> *_attachedSchedulerPublisher = nullptr;
     RingBuffer _ringBuffer;
     std::shared_ptr<EventEmitterInterface<EventloopDataWrapper>> _externalEventEmitter;
     EventLoop<BufferSize> _eventLoop;
-- 
2.43.0

