From bb554a1652b9910cde27d0d663704262820f51e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 01/57] fix: release threads waiting for the counter threshold
 when the handler is disabled or destroyed

---
 .../include/cpp_utils/wait/CounterWaitHandler.hpp      |  9 ++++++++-
 cpp_utils/include/cpp_utils/wait/WaitHandler.hpp       |  7 +++++++
 cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp  | 10 ++++++++--
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp          |  8 ++++++++
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
index f5ea137..0f6b052 100644
--- a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
+++ b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
@@ -67,7 +67,11 @@ public:
             CounterType initial_value,
             bool enabled = true);
 
-    //! Default constructor
+    /**
+     * @brief Destroy the Counter Wait Handler object
+     *
+     * It disables and blocks until every thread has finished.
+     */
     CPP_UTILS_DllAPI ~CounterWaitHandler();
 
     /////
@@ -123,6 +127,9 @@ public:
 
 protected:
 
+    //! Notify also threads waiting for the threshold to be reached
+    void notify_all_waiting_threads_() noexcept override;
+
     /**
      * @brief Decrease by 1 the internal value and notify threads if is still higher than threshold
      *
diff --git a/cpp_utils/include/cpp_utils/wait/WaitHandler.hpp b/cpp_utils/include/cpp_utils/wait/WaitHandler.hpp
index 980c42f..7b5e0ec 100644
--- a/cpp_utils/include/cpp_utils/wait/WaitHandler.hpp
+++ b/cpp_utils/include/cpp_utils/wait/WaitHandler.hpp
@@ -168,6 +168,13 @@ protected:
             const utils::Duration_ms& timeout,
             AwakeReason& reason) noexcept;
 
+    /**
+     * @brief Notify every thread waiting in this object
+     *
+     * Child classes with further condition variables must notify those as well.
+     */
+    virtual void notify_all_waiting_threads_() noexcept;
+
     /**
      * @brief  Current value
      *
diff --git a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
index 9636bfa..9a4fb2e 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
@@ -83,7 +83,7 @@ void WaitHandler<T>::disable() noexcept
         }
 
         // Do not block for awaken
-        wait_condition_variable_.notify_all();
+        notify_all_waiting_threads_();
     }
     else
     {
@@ -108,10 +108,16 @@ void WaitHandler<T>::blocking_disable() noexcept
         }
 
         // Notify in case there are still threads waiting to be awaken
-        wait_condition_variable_.notify_all();
+        notify_all_waiting_threads_();
     }
 }
 
+template <typename T>
+void WaitHandler<T>::notify_all_waiting_threads_() noexcept
+{
+    wait_condition_variable_.notify_all();
+}
+
 template <typename T>
 bool WaitHandler<T>::enabled() const noexcept
 {
diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index 8a7ee17..fec7c24 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -36,6 +36,8 @@ CounterWaitHandler::CounterWaitHandler(
 
 CounterWaitHandler::~CounterWaitHandler()
 {
+    // This must be done before destroying this class attributes, as there could be threads still using them
+    blocking_disable();
 }
 
 AwakeReason CounterWaitHandler::wait_and_decrement(
@@ -138,6 +140,12 @@ CounterWaitHandler& CounterWaitHandler::operator ++()
     return *this;
 }
 
+void CounterWaitHandler::notify_all_waiting_threads_() noexcept
+{
+    WaitHandler<CounterType>::notify_all_waiting_threads_();
+    threshold_reached_cv_.notify_all();
+}
+
 void CounterWaitHandler::decrease_1_nts_()
 {
     value_--;
-- 
2.43.0


From 8e3b50c1a2f5bf8425bc7f74bdd411a48fab1c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 02/57] fix: awake threads waiting for the counter threshold
 when it is reached by an increment

---
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index fec7c24..c20bdb6 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -135,6 +135,11 @@ CounterWaitHandler& CounterWaitHandler::operator ++()
         {
             wait_condition_variable_.notify_one();
         }
+        // If the threshold is reached, notify threads waiting for this event
+        else if (value_ == threshold_)
+        {
+            threshold_reached_cv_.notify_all();
+        }
     }
 
     return *this;
-- 
2.43.0


From 4d6f2f05ddf615e7bdd1a9a6a6185beba132f4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 03/57] fix: do not finish blocking_disable while a waiting
 thread still uses the wait handler

---
 cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
index 9a4fb2e..e82fb23 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
@@ -110,6 +110,10 @@ void WaitHandler<T>::blocking_disable() noexcept
         // Notify in case there are still threads waiting to be awaken
         notify_all_waiting_threads_();
     }
+
+    // The last thread that was waiting may still hold the mutex. Wait for it to release it, so it does not use this
+    // object after this method has finished (it could be destroyed).
+    std::lock_guard<std::mutex> wait_lock(wait_condition_variable_mutex_);
 }
 
 template <typename T>
-- 
2.43.0


From 38ccf711d0cb7c78c651de9df092ee2a3b28850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 04/57] fix: execute tasks again when a disabled SlotThreadPool
 is enabled

---
 cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
index 10ad615..c7c8001 100644
--- a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
+++ b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
@@ -51,6 +51,9 @@ void SlotThreadPool::enable() noexcept
 {
     if (!enabled_.exchange(true))
     {
+        // Enable Task Queue, as it could have been disabled by a previous call to disable
+        task_queue_.enable();
+
         // Execute threads
         for (uint32_t i = 0; i < number_of_threads_; ++i)
         {
-- 
2.43.0


From d37d824114b126f3efd4a53129b39084b87c5388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 05/57] fix: wait in SlotThreadPool::wait_all_consumed also for
 the tasks being executed

---
 .../include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp  | 4 ++++
 cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp      | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp b/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp
index aaef0ca..ec340c4 100644
--- a/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp
+++ b/cpp_utils/include/cpp_utils/thread_pool/pool/SlotThreadPool.hpp
@@ -29,6 +29,7 @@
 #include <cpp_utils/thread_pool/task/TaskId.hpp>
 #include <cpp_utils/thread_pool/thread/CustomThread.hpp>
 #include <cpp_utils/wait/DBQueueWaitHandler.hpp>
+#include <cpp_utils/wait/IntWaitHandler.hpp>
 
 namespace eprosima {
 namespace utils {
@@ -150,6 +151,9 @@ protected:
      */
     utils::event::DBQueueWaitHandler<TaskId> task_queue_;
 
+    //! Number of tasks emitted whose execution has not finished yet
+    utils::event::IntWaitHandler unfinished_tasks_;
+
     /**
      * @brief Threads container
      *
diff --git a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
index c7c8001..2cabd0c 100644
--- a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
+++ b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
@@ -30,6 +30,7 @@ namespace utils {
 SlotThreadPool::SlotThreadPool(
         const uint32_t n_threads)
     : number_of_threads_(n_threads)
+    , unfinished_tasks_(0)
     , enabled_(false)
 {
     logDebug(UTILS_THREAD_POOL, "Creating Thread Pool with " << n_threads << " threads.");
@@ -53,6 +54,7 @@ void SlotThreadPool::enable() noexcept
     {
         // Enable Task Queue, as it could have been disabled by a previous call to disable
         task_queue_.enable();
+        unfinished_tasks_.enable();
 
         // Execute threads
         for (uint32_t i = 0; i < number_of_threads_; ++i)
@@ -70,6 +72,7 @@ void SlotThreadPool::disable() noexcept
     {
         // Disable Task Queue, so threads will stop eventually when their current task is finished
         task_queue_.disable();
+        unfinished_tasks_.disable();
 
         for (auto& thread : threads_)
         {
@@ -94,6 +97,7 @@ void SlotThreadPool::emit(
     }
     else
     {
+        ++unfinished_tasks_;
         task_queue_.produce(it->first);
     }
 }
@@ -120,7 +124,7 @@ void SlotThreadPool::slot(
 utils::event::AwakeReason SlotThreadPool::wait_all_consumed(
         const utils::Duration_ms& timeout /* = 0 */)
 {
-    return task_queue_.wait_all_consumed(timeout);
+    return unfinished_tasks_.wait_equal(0, timeout);
 }
 
 void SlotThreadPool::thread_routine_()
@@ -150,6 +154,7 @@ void SlotThreadPool::thread_routine_()
 
             logDebug(UTILS_THREAD_POOL, "Thread: " << std::this_thread::get_id() << " executing callback.");
             task();
+            --unfinished_tasks_;
         }
     }
     catch (const utils::DisabledException& e)
-- 
2.43.0


From d0218f231d6e1b982ce893e56c091ada99ebf9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 06/57] fix: decide the result of wait_for_event while the
 thread is still registered as waiting

---
 .../cpp_utils/event/impl/EventHandler.ipp     | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
index 275a077..f704f32 100644
--- a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
@@ -121,27 +121,27 @@ template <typename ... Args>
 bool EventHandler<Args...>::wait_for_event(
         uint32_t n /*= 1*/) const noexcept
 {
-    if (is_callback_set_.load())
-    {
-        std::unique_lock<std::mutex> lock(wait_mutex_);
+    std::unique_lock<std::mutex> lock(wait_mutex_);
 
-        ++threads_waiting_;
+    ++threads_waiting_;
 
-        wait_condition_variable_.wait(
-            lock,
-            [n, this]
-            {
-                // Exit if number of events is bigger than expected n
-                // or if callback is no longer set
-                return number_of_events_registered_ >= n || !is_callback_set_.load();
-            });
+    wait_condition_variable_.wait(
+        lock,
+        [n, this]
+        {
+            // Exit if number of events is bigger than expected n
+            // or if callback is no longer set
+            return number_of_events_registered_ >= n || !is_callback_set_.load();
+        });
 
-        --threads_waiting_;
-    }
+    // True if the condition has been fulfilled. It could stop due to an unset callback
+    // Note: it must be checked with the mutex taken and before this thread stops being counted as waiting, as
+    // afterwards the number of events could change, or the object could be destroyed.
+    const bool condition_met = number_of_events_registered_.load() >= n;
+
+    --threads_waiting_;
 
-    // Return true if the condition has been fulfilled. It could stop due to an unset callback
-    // Note: number_of_events_registered_ does not required a mutex because it is being read and it is atomic
-    return number_of_events_registered_.load() >= n;
+    return condition_met;
 }
 
 template <typename ... Args>
-- 
2.43.0


From b86a46050c2fc7c1d11e024c56f02d45501ede28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 07/57] fix: stop consuming log entries before destroying the
 members of LogEventHandler

---
 cpp_utils/src/cpp/event/logging/LogEventHandler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
index 029d2e6..5c5d010 100644
--- a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
@@ -51,6 +51,9 @@ LogEventHandler::LogEventHandler(
 
 LogEventHandler::~LogEventHandler()
 {
+    // Wait for the entry being consumed (if any) and do not allow new ones, before any other member is destroyed
+    connection_callback_.reset();
+
     unset_callback();
 }
 
-- 
2.43.0


From 6fe933ab6ff12d1da7994cf22fc15915d7352780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 08/57] fix: do not consume log entries while a
 LogSevereEventHandler is not able to filter them

---
 .../include/cpp_utils/event/LogEventHandler.hpp | 15 +++++++++++++++
 .../cpp_utils/event/LogSevereEventHandler.hpp   |  3 +++
 .../src/cpp/event/logging/LogEventHandler.cpp   | 17 ++++++++++++++---
 .../cpp/event/logging/LogSevereEventHandler.cpp | 13 ++++++++++++-
 4 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp b/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
index 88a29ed..bf5f503 100644
--- a/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
+++ b/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
@@ -76,6 +76,21 @@ public:
 
 protected:
 
+    //! Tag to construct this object without registering it in Log.
+    struct NotRegistered {};
+
+    /**
+     * Construct without callback and without registering a LogConsumer.
+     *
+     * Child classes that override \c consume_ must use it, and call \c register_consumer_ once they are ready to
+     * consume entries. They must also reset \c connection_callback_ in their destructor.
+     */
+    CPP_UTILS_DllAPI LogEventHandler(
+            NotRegistered);
+
+    //! Register in Log the LogConsumer that will call this object.
+    CPP_UTILS_DllAPI void register_consumer_();
+
     /**
      * @brief Consumes an \c Entry given from the \c LogConsumerConnection .
      *
diff --git a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
index a3e6f61..d17a9d3 100644
--- a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
+++ b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
@@ -48,6 +48,9 @@ public:
             std::function<void(utils::Log::Entry)> callback,
             const utils::Log::Kind threshold = utils::Log::Kind::Warning);
 
+    //! Destroy the object, that stops consuming entries.
+    CPP_UTILS_DllAPI ~LogSevereEventHandler();
+
 protected:
 
     //! Override parent \c consume_ method but only consuming logs above the \c threshold_ kind.
diff --git a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
index 5c5d010..df66480 100644
--- a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
@@ -27,7 +27,8 @@ namespace eprosima {
 namespace utils {
 namespace event {
 
-LogEventHandler::LogEventHandler()
+LogEventHandler::LogEventHandler(
+        NotRegistered)
     : EventHandler<utils::Log::Entry>()
     , connection_callback_(
         new LogConsumerConnectionCallbackType(
@@ -37,8 +38,12 @@ LogEventHandler::LogEventHandler()
                 this->consume_(entry);
             }))
 {
-    // Create LogConsumer and register it
-    Log::RegisterConsumer(std::make_unique<LogConsumerConnection>(connection_callback_.lease()));
+}
+
+LogEventHandler::LogEventHandler()
+    : LogEventHandler(NotRegistered())
+{
+    register_consumer_();
 }
 
 LogEventHandler::LogEventHandler(
@@ -57,6 +62,12 @@ LogEventHandler::~LogEventHandler()
     unset_callback();
 }
 
+void LogEventHandler::register_consumer_()
+{
+    // Create LogConsumer and register it
+    Log::RegisterConsumer(std::make_unique<LogConsumerConnection>(connection_callback_.lease()));
+}
+
 void LogEventHandler::consume_(
         const utils::Log::Entry& entry)
 {
diff --git a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
index 8b14501..31d3228 100644
--- a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
@@ -26,7 +26,7 @@ namespace event {
 LogSevereEventHandler::LogSevereEventHandler(
         std::function<void(utils::Log::Entry)> callback,
         utils::Log::Kind threshold /* = utils::Log::Kind::Warning */)
-    : LogEventHandler(callback)
+    : LogEventHandler(NotRegistered())
     , threshold_(threshold)
 {
     // If threshold is lower than default log level (ERROR) set the filter lower
@@ -34,6 +34,17 @@ LogSevereEventHandler::LogSevereEventHandler(
     {
         utils::Log::SetVerbosity(threshold);
     }
+
+    set_callback(callback);
+
+    // Entries must not be consumed until this object is able to filter them
+    register_consumer_();
+}
+
+LogSevereEventHandler::~LogSevereEventHandler()
+{
+    // Entries must not be consumed when this object is no longer able to filter them
+    connection_callback_.reset();
 }
 
 void LogSevereEventHandler::consume_(
-- 
2.43.0


From 6a1480d057df51e9352d5b364936ae8c28392864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 09/57] fix: do not log from a LogEventHandler without callback
 every time it consumes an entry

---
 cpp_utils/src/cpp/event/logging/LogEventHandler.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
index df66480..3b06b6e 100644
--- a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
@@ -76,7 +76,12 @@ void LogEventHandler::consume_(
         entries_consumed_.push_back(entry);
     }
 
-    event_occurred_(entry);
+    // Without callback there is nothing to do. Do not even try, as skipping an event logs a new entry that would be
+    // consumed (and skipped) again, and so on forever.
+    if (is_callback_set_.load())
+    {
+        event_occurred_(entry);
+    }
 }
 
 } /* namespace event */
-- 
2.43.0


From 957601106ba680e7e51605d97d7c5f65972221ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 10/57] fix: signal manager waits with a bound, so a signal
 missed by the notification is still dispatched

---
 cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
index 224e644..5cfede5 100644
--- a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
@@ -20,6 +20,7 @@
 #pragma once
 
 #include <algorithm>
+#include <chrono>
 #include <thread>
 
 #include <cpp_utils/exception/InconsistencyException.hpp>
@@ -156,8 +157,11 @@ void SignalManager<SigVal>::signal_handler_thread_routine_() noexcept
     while (!signal_handler_thread_stop_.load())
     {
         std::unique_lock<std::mutex> lock(signal_received_cv_mutex_);
-        signal_received_cv_.wait(
+        // A notification sent from the signal handler may be missed, as \c signal_received_ cannot take the mutex.
+        // Wake up from time to time so a missed notification only delays the callbacks.
+        signal_received_cv_.wait_for(
             lock,
+            std::chrono::milliseconds(100),
             [this]
             {
                 return signals_received_.load() > 0 ||
-- 
2.43.0


From a9532b41c4bf03604025fe815754c49b1f06ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 11/57] fix: file watcher destruction could miss its callback
 thread and never return

---
 thirdparty/filewatch/FileWatch.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index f8b62d5..fddee64 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -266,7 +266,11 @@ private:
 
     void destroy()
     {
-        _destory = true;
+        {
+            // Guarded so the callback thread can not miss it between checking the flag and waiting
+            std::lock_guard<std::mutex> lock(_callback_mutex);
+            _destory = true;
+        }
         _running = std::promise<void>();
 #ifdef _WIN32
         SetEvent(_close_event);
-- 
2.43.0


From 0a2c5d6c956237391d9b05a96e24f545c5ca0643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 12/57] fix: SafeDatabase begin and end read the map before
 taking its lock

---
 .../cpp_utils/collection/database/impl/SafeDatabase.ipp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index e1b837e..4c9b113 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -94,12 +94,16 @@ SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::find(
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::begin() const
 {
+    std::shared_lock<std::shared_timed_mutex> _(mutex_);
+
     return SafeDatabaseIterator<Key, Value>(internal_db_.begin(), mutex_);
 }
 
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::end() const
 {
+    std::shared_lock<std::shared_timed_mutex> _(mutex_);
+
     return SafeDatabaseIterator<Key, Value>(internal_db_.end(), mutex_);
 }
 
-- 
2.43.0


From 95a737d219549ace9eca4ba0ed131d86d95a8b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 13/57] fix: copies of a SafeDatabase iterator released a lock
 they had not taken

---
 .../cpp_utils/collection/database/SafeDatabase.hpp       | 4 ++++
 .../cpp_utils/collection/database/impl/SafeDatabase.ipp  | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
index 63a7c0f..dc06f07 100644
--- a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
+++ b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
@@ -54,6 +54,10 @@ public:
             typename std::map<Key, Value>::const_iterator it,
             std::shared_timed_mutex& mutex);
 
+    //! Each copy keeps its own shared lock
+    SafeDatabaseIterator(
+            const SafeDatabaseIterator& other);
+
     ~SafeDatabaseIterator();
 
 private:
diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index 4c9b113..1734e79 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -28,6 +28,15 @@ SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
     mutex_.lock_shared();
 }
 
+template <typename Key, typename Value>
+SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
+        const SafeDatabaseIterator& other)
+    : std::map<Key, Value>::const_iterator(other)
+    , mutex_(other.mutex_)
+{
+    mutex_.lock_shared();
+}
+
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value>::~SafeDatabaseIterator()
 {
-- 
2.43.0


From d905df50d7dbee742f7c6d49e89091514705307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 14/57] fix: LesseePtr constructor from its owner was declared
 but not defined

---
 cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
index 7e61dca..67d7884 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
@@ -27,6 +27,13 @@ namespace utils {
 // PROTECTED CONSTRUCTOR
 ////////////////////////////
 
+template<typename T>
+LesseePtr<T>::LesseePtr(
+        const OwnerPtr<T>& owner) noexcept
+    : LesseePtr<T>(owner.lease())
+{
+}
+
 template<typename T>
 LesseePtr<T>::LesseePtr(
         std::shared_ptr<InternalPtrData<T>> data_reference) noexcept
-- 
2.43.0


From f7e1f43d0fec13c531b9a52b0c07495e5cd6697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 15/57] fix: LesseePtr operator-> released the data before it
 was used

---
 cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp | 4 ++--
 cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
index cc1141d..c0b271b 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
@@ -115,11 +115,11 @@ public:
      * This operator will acces the internal data if this still exist, and lock it while using.
      * If the data do not further exist, it will raise an exception.
      *
-     * @return Internal data ptr
+     * @return Guarded ptr to the internal data, that keeps it locked until the expression using it has finished.
      *
      * @throw ValueAccessException in case internal data no longer exists.
      */
-    T* operator ->() const;
+    GuardedPtr<T> operator ->() const;
 
     /**
      * @brief Access operator to internal ptr with exception calls in failure cases.
diff --git a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
index 67d7884..dfbcf6a 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
@@ -46,9 +46,9 @@ LesseePtr<T>::LesseePtr(
 ///////////////////////
 
 template<typename T>
-T* LesseePtr<T>::operator ->() const
+GuardedPtr<T> LesseePtr<T>::operator ->() const
 {
-    return this->lock_with_exception().operator ->();
+    return this->lock_with_exception();
 }
 
 template<typename T>
-- 
2.43.0


From d8915634ae552da643dd1a903df9d3d75f6d24d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 16/57] fix: assigning to a GuardedPtr never released the data
 it was guarding

---
 .../cpp_utils/memory/impl/GuardedPtr.hpp       |  4 ++--
 .../cpp_utils/memory/impl/GuardedPtr.ipp       | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
index 239dc42..235c281 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
@@ -63,9 +63,9 @@ public:
     GuardedPtr(
             GuardedPtr&&) noexcept = default;
 
-    //! Move operator not allowed
+    //! Move operator. It releases the data guarded so far.
     GuardedPtr<T>& operator =(
-            GuardedPtr<T>&& other) noexcept = default;
+            GuardedPtr<T>&& other) noexcept;
 
     //! Unlock the shared mutex
     ~GuardedPtr();
diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
index fd54366..4eae082 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
@@ -41,6 +41,24 @@ GuardedPtr<T>::~GuardedPtr()
     }
 }
 
+template<typename T>
+GuardedPtr<T>& GuardedPtr<T>::operator =(
+        GuardedPtr<T>&& other) noexcept
+{
+    if (this != &other)
+    {
+        // Data guarded so far must be unlocked
+        if (data_reference_)
+        {
+            data_reference_->unlock_shared();
+        }
+
+        data_reference_ = std::move(other.data_reference_);
+    }
+
+    return *this;
+}
+
 template<typename T>
 T* GuardedPtr<T>::operator ->() const noexcept
 {
-- 
2.43.0


From 3eb553d2835a5692673178427b1ca3796402532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 17/57] fix: asking a LesseePtr for its validity raced with the
 owner destroying the data

---
 .../include/cpp_utils/memory/impl/InternalPtrData.hpp  |  5 +++--
 .../include/cpp_utils/memory/impl/InternalPtrData.ipp  | 10 +++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
index c921b84..2751736 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
@@ -20,6 +20,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <shared_mutex>
@@ -125,8 +126,8 @@ protected:
     // INTERNAL VARIABLES
     ////////////////////////////
 
-    //! Pointer to the internal data
-    T* reference_;
+    //! Pointer to the internal data. Atomic because its validity is asked without taking the mutex
+    std::atomic<T*> reference_;
 
     //! Mutex to guard the data while using or destroying it
     mutable std::shared_timed_mutex shared_mutex_;
diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
index 9dc8815..20ba876 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
@@ -37,7 +37,7 @@ InternalPtrData<T>::InternalPtrData() noexcept
 template<typename T>
 InternalPtrData<T>::InternalPtrData(
         InternalPtrData&& other) noexcept
-    : reference_(std::move(other.reference_))
+    : reference_(other.reference_.load())
     , shared_mutex_(std::move(other.shared_mutex_))
     , deleter_(std::move(other.deleter_))
 {
@@ -79,7 +79,7 @@ T* InternalPtrData<T>::operator ->() const noexcept
 template<typename T>
 T& InternalPtrData<T>::operator *() const noexcept
 {
-    return *reference_;
+    return *reference_.load();
 }
 
 template<typename T>
@@ -91,7 +91,7 @@ T* InternalPtrData<T>::get() const noexcept
 template<typename T>
 InternalPtrData<T>::operator bool() const noexcept
 {
-    return reference_ != nullptr;
+    return reference_.load() != nullptr;
 }
 
 //////////////////////////////////
@@ -111,9 +111,9 @@ template<typename T>
 void InternalPtrData<T>::release_reference_()
 {
     shared_mutex_.lock();
-    if (reference_ != nullptr)
+    if (reference_.load() != nullptr)
     {
-        deleter_(reference_);
+        deleter_(reference_.load());
         reference_ = nullptr;
     }
     shared_mutex_.unlock();
-- 
2.43.0


From 1fdb9fb763070919f85f9b79b6b593418b22cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 18/57] fix: PoolConfiguration constructor with parameters was
 declared but not defined

---
 cpp_utils/include/cpp_utils/pool/IPool.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/pool/IPool.hpp b/cpp_utils/include/cpp_utils/pool/IPool.hpp
index c3ef536..eba034a 100644
--- a/cpp_utils/include/cpp_utils/pool/IPool.hpp
+++ b/cpp_utils/include/cpp_utils/pool/IPool.hpp
@@ -31,7 +31,12 @@ struct PoolConfiguration
     PoolConfiguration(
             unsigned int initial_size,
             unsigned int maximum_size,
-            unsigned int batch_size) noexcept;
+            unsigned int batch_size) noexcept
+        : initial_size(initial_size)
+        , maximum_size(maximum_size)
+        , batch_size(batch_size)
+    {
+    }
 
     //! Initial number of elements when preallocating data.
     unsigned int initial_size = 0;
-- 
2.43.0


From 4569f5355447c62a943756acf7bab2e1bd44c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 19/57] fix: create_pool could not be instantiated and its pool
 could not be destroyed

---
 cpp_utils/include/cpp_utils/pool/IPool.hpp         | 3 +++
 cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/pool/IPool.hpp b/cpp_utils/include/cpp_utils/pool/IPool.hpp
index eba034a..02aa98a 100644
--- a/cpp_utils/include/cpp_utils/pool/IPool.hpp
+++ b/cpp_utils/include/cpp_utils/pool/IPool.hpp
@@ -64,6 +64,9 @@ class IPool
 {
 public:
 
+    //! Virtual destructor: the pools are destroyed through this interface (see \c create_pool ).
+    virtual ~IPool() = default;
+
     /**
      * @brief Get a new element from the pool.
      *
diff --git a/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp b/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp
index 0522a40..bf7311d 100644
--- a/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp
+++ b/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp
@@ -42,7 +42,7 @@ namespace utils {
  * @tparam T Type of the elements in the pool.
  */
 template <typename T>
-class UnboundedPool : IPool<T>
+class UnboundedPool : public IPool<T>
 {
 public:
 
-- 
2.43.0


From 84763292b132cba42cc11f07cdfefa752e9c6239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 20/57] fix: UnboundedPool refused returned elements after an
 element creation threw

---
 cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp b/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp
index cfb0317..6fa4d10 100644
--- a/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp
+++ b/cpp_utils/include/cpp_utils/pool/impl/UnboundedPool.ipp
@@ -113,8 +113,9 @@ void UnboundedPool<T>::augment_free_values_(
     {
         auto new_element = this->new_element_();
         this->elements_.push_back(new_element);
+        // Count each element as it is added, so the count is right if creating the next one throws
+        ++reserved_;
     }
-    reserved_ += new_values_count;
     logDebug(
         LIMITLESS_POOL,
         "Pool " << TYPE_NAME(T) << " [" << this << "] augmented in "
-- 
2.43.0


From 42b1e91d9f2299f18421d8b358af21a984c42df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 21/57] fix: reading out of bounds when asking twice for the
 next command of an empty history

---
 cpp_utils/src/cpp/history/CommandHistoryHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
index dc0475f..cf4f93f 100644
--- a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
+++ b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
@@ -45,6 +45,11 @@ std::string CommandHistoryHandler::get_previous_command()
 
 std::string CommandHistoryHandler::get_next_command()
 {
+    if (command_history_.empty())
+    {
+        return "";
+    }
+
     if (current_index_ < command_history_.size() - 1)
     {
         ++current_index_;
-- 
2.43.0


From 04fd5979002b1d6c9ed4b8085e891bfc9c500730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 22/57] fix: StdinEventHandler thread filled the line without
 end when the standard input ended

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 0f03e18..0d3d059 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -300,8 +300,14 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                 {
                     case 72:  // Arrow up
 #else
-            char c;
+            int c;
             c = getchar(); // Read first character
+            if (c == EOF)
+            {
+                // End of the input: there is nothing else to read
+                set_terminal_mode_(false);
+                return;
+            }
             if (c == '\033')
             {
                 getchar(); // Ignore next character '['
-- 
2.43.0


From 5c3d781b063bf71a0640e25af62427ae6a23be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 23/57] fix: history keys divided by zero in StdinEventHandler
 when the width of the terminal is not known

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 0d3d059..dafd0ca 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -59,7 +59,11 @@ int get_terminal_width()
     return csbi.srWindow.Right - csbi.srWindow.Left + 1;
     #else
     struct winsize w;
-    ioctl(STDOUT_FILENO, TIOCGWINSZ, &w);
+    if (ioctl(STDOUT_FILENO, TIOCGWINSZ, &w) != 0 || w.ws_col == 0)
+    {
+        // The output is not a terminal, or its width is not known
+        return 80;
+    }
     return w.ws_col;
     #endif // if defined(_WIN32) || defined(_WIN64)
 }
-- 
2.43.0


From 8046f660a549b10583fd3423113a905e77155345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 24/57] fix: CommandReader destroyed its queue while its
 reading thread could still use it

---
 .../include/cpp_utils/user_interface/CommandReader.hpp | 10 +++++++---
 .../cpp_utils/user_interface/impl/CommandReader.ipp    |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp b/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
index 59c08e0..d77d524 100644
--- a/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
+++ b/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
@@ -100,9 +100,6 @@ protected:
     //! Builder to transform string into a command enum value.
     EnumBuilder<CommandEnum> builder_;
 
-    //! Event Handler used to read from stdin.
-    event::StdinEventHandler stdin_handler_;
-
     /**
      * @brief Consumer where \c stdin_handler_ will produce commands read, and method \c read_next_command will
      * consume next command.
@@ -112,6 +109,13 @@ protected:
      */
     event::DBQueueWaitHandler<std::string> commands_read_;
 
+    /**
+     * @brief Event Handler used to read from stdin.
+     *
+     * @note its callback uses \c commands_read_ , so it must be destroyed before it.
+     */
+    event::StdinEventHandler stdin_handler_;
+
 public:
 
     event::StdinEventHandler& stdin_handler()
diff --git a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
index 3260a5d..5c3608b 100644
--- a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
+++ b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
@@ -24,6 +24,7 @@ CommandReader<CommandEnum>::CommandReader(
         const EnumBuilder<CommandEnum>& builder,
         std::istream& source /* = std::cin */)
     : builder_(builder)
+    , commands_read_(0, true)
     , stdin_handler_(
         [this](std::string st)
         {
@@ -32,7 +33,6 @@ CommandReader<CommandEnum>::CommandReader(
         true,
         0,
         source)
-    , commands_read_(0, true)
 {
     // Do nothing
 }
-- 
2.43.0


From 631528e5ba95605ddbade0b6a833c09e48d992a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 25/57] fix: a quoted argument beginning with a blank was split
 by CommandReader

---
 .../include/cpp_utils/user_interface/impl/CommandReader.ipp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
index 5c3608b..60cd7e4 100644
--- a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
+++ b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
@@ -65,8 +65,9 @@ std::vector<std::string> CommandReader<CommandEnum>::join_quoted_strings(
             std::string joined = input[i];
 
             // Keep joining until we find a string ending with a quote
+            // (an opening quote alone does not close itself)
             while (i + 1 < input.size() &&
-                    (joined.empty() || joined.back() != '"'))
+                    (joined.size() == 1 || joined.back() != '"'))
             {
                 joined += " " + input[++i];
             }
-- 
2.43.0


From d2fbbe273d38e34d6da76743587740d49398f8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 26/57] fix: timers went wrong, even negative, when the system
 clock was set to another time

---
 cpp_utils/include/cpp_utils/time/Timer.hpp | 2 +-
 cpp_utils/src/cpp/time/Timer.cpp           | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/time/Timer.hpp b/cpp_utils/include/cpp_utils/time/Timer.hpp
index d956cad..52ad75c 100644
--- a/cpp_utils/include/cpp_utils/time/Timer.hpp
+++ b/cpp_utils/include/cpp_utils/time/Timer.hpp
@@ -59,7 +59,7 @@ public:
 protected:
 
     //! Time when the object has been created OR when last reset has been called.
-    std::chrono::time_point<std::chrono::high_resolution_clock> start_time_;
+    std::chrono::time_point<std::chrono::steady_clock> start_time_;
 };
 
 } /* namespace utils */
diff --git a/cpp_utils/src/cpp/time/Timer.cpp b/cpp_utils/src/cpp/time/Timer.cpp
index e8f6dc7..e487832 100644
--- a/cpp_utils/src/cpp/time/Timer.cpp
+++ b/cpp_utils/src/cpp/time/Timer.cpp
@@ -23,18 +23,18 @@ namespace eprosima {
 namespace utils {
 
 Timer::Timer() noexcept
-    : start_time_(std::chrono::high_resolution_clock::now())
+    : start_time_(std::chrono::steady_clock::now())
 {
 }
 
 void Timer::reset() noexcept
 {
-    start_time_ = std::chrono::high_resolution_clock::now();
+    start_time_ = std::chrono::steady_clock::now();
 }
 
 double Timer::elapsed() const noexcept
 {
-    return std::chrono::duration<double, std::milli>(std::chrono::high_resolution_clock::now() - start_time_).count();
+    return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - start_time_).count();
 }
 
 Duration_ms Timer::elapsed_ms() const noexcept
-- 
2.43.0


From d10beb24ca832fa30cea13e93a328dcb788d99b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 27/57] fix: string_to_timestamp refused the second before the
 epoch

---
 cpp_utils/src/cpp/time/time_utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index 77a5e02..c261843 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -133,6 +133,9 @@ Timestamp string_to_timestamp(
                       ".");
     }
 
+    // One second before the epoch is also (time_t)-1: an error is told by the day of the week, that is not set then
+    tm.tm_wday = -1;
+
     std::time_t utc_time;
     if (local_time)
     {
@@ -152,7 +155,7 @@ Timestamp string_to_timestamp(
         utc_time = timegm(&tm);
     }
 
-    if ((time_t)-1 == utc_time)
+    if ((time_t)-1 == utc_time && tm.tm_wday < 0)
     {
         throw ValueNotAllowedException(
                   STR_ENTRY << "Failed to convert string to timestamp");
-- 
2.43.0


From d710e47dfc46af2d217b4fc36ddf544a4b1d9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 28/57] fix: dates a Timestamp cannot represent overflowed

---
 cpp_utils/src/cpp/time/time_utils.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index c261843..c843be4 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -17,6 +17,7 @@
  *
  */
 
+#include <algorithm>
 #include <iomanip>
 #include <thread>
 #include <sstream>
@@ -85,7 +86,7 @@ Timestamp time_to_timestamp(
     tm.tm_min = static_cast<int>(minute);
     tm.tm_hour = static_cast<int>(hour);
 
-    return Timeclock::from_time_t(timegm(&tm));
+    return Timeclock::from_time_t(normalize(timegm(&tm)));
 }
 
 std::string timestamp_to_string(
@@ -161,6 +162,12 @@ Timestamp string_to_timestamp(
                   STR_ENTRY << "Failed to convert string to timestamp");
     }
 
+    if (normalize(utc_time) != utc_time)
+    {
+        throw ValueNotAllowedException(
+                  STR_ENTRY << "Timestamp <" << timestamp << "> is out of the range that can be represented.");
+    }
+
     return Timeclock::from_time_t(utc_time);
 }
 
@@ -196,6 +203,14 @@ time_t normalize(
                 max_value);
         normalized_time = std::max((time_t) 0, std::min(max_value, time));
     }
+#else
+    // Limits of what a Timestamp can represent
+    const time_t min_value = std::chrono::duration_cast<std::chrono::seconds>(
+        Timestamp::min().time_since_epoch()).count();
+    const time_t max_value = std::chrono::duration_cast<std::chrono::seconds>(
+        Timestamp::max().time_since_epoch()).count();
+
+    normalized_time = std::max(min_value, std::min(max_value, time));
 #endif // if _EPROSIMA_WINDOWS_PLATFORM
     return normalized_time;
 }
-- 
2.43.0


From 45c6fbfecf6712a7be91d2663988ef0e2b550a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 29/57] fix: time conversions shared static storage between
 threads

---
 cpp_utils/src/cpp/time/time_utils.cpp | 36 +++++++++++++++++++--------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index c843be4..656696f 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -36,6 +36,29 @@
 namespace eprosima {
 namespace utils {
 
+/**
+ * Calendar time of \c time, in \c result and without the shared storage of \c std::gmtime and \c std::localtime .
+ *
+ * @return \c result , or nullptr if \c time could not be converted.
+ */
+static std::tm* to_calendar_time(
+        const time_t& time,
+        bool local_time,
+        std::tm& result)
+{
+#if _EPROSIMA_WINDOWS_PLATFORM
+    return 0 == (local_time ? localtime_s(&result, &time) : gmtime_s(&result, &time)) ? &result : nullptr;
+#else
+    if (local_time)
+    {
+        // Unlike std::localtime, localtime_r may not look for changes of the time zone
+        tzset();
+        return localtime_r(&time, &result);
+    }
+    return gmtime_r(&time, &result);
+#endif // if _EPROSIMA_WINDOWS_PLATFORM
+}
+
 Timestamp now() noexcept
 {
     return Timeclock::now();
@@ -80,7 +103,7 @@ Timestamp time_to_timestamp(
 
     // Initialise with current timestamp to set date
     time_t duration_seconds = normalize(Timeclock::to_time_t(now()));
-    tm = *std::gmtime(&duration_seconds);
+    to_calendar_time(duration_seconds, false, tm);
 
     tm.tm_sec = static_cast<int>(second);
     tm.tm_min = static_cast<int>(minute);
@@ -97,15 +120,8 @@ std::string timestamp_to_string(
     std::ostringstream ss;
     time_t duration_seconds = normalize(Timeclock::to_time_t(timestamp));
 
-    std::tm* tm = nullptr;
-    if (local_time)
-    {
-        tm = std::localtime(&duration_seconds);
-    }
-    else
-    {
-        tm = std::gmtime(&duration_seconds);
-    }
+    std::tm storage;
+    std::tm* tm = to_calendar_time(duration_seconds, local_time, storage);
 
     if (tm)
     {
-- 
2.43.0


From bf0df4cacf242041054eddbda9dd023d04ff755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 30/57] fix: replace_all did not end if the replacement
 contained the text to replace, or this was empty

---
 cpp_utils/src/cpp/utils.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index d6cb93e..a064fd8 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -278,8 +278,19 @@ unsigned int replace_all(
         std::string const& replace_by)
 {
     unsigned int replacements = 0;
-    while (replace_first(st, to_replace, replace_by))
+
+    // There is no occurrence of an empty string to replace
+    if (to_replace.empty())
     {
+        return replacements;
+    }
+
+    // Continue after each replacement, as the new text may contain the string to replace
+    std::size_t pos = 0;
+    while ((pos = st.find(to_replace, pos)) != std::string::npos)
+    {
+        st.replace(pos, to_replace.length(), replace_by);
+        pos += replace_by.length();
         replacements++;
     }
     return replacements;
-- 
2.43.0


From 7d50a0a38c6ba773236751f13f4cbdc99f3ee436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 31/57] fix: split_string did not end with an empty delimiter

---
 cpp_utils/src/cpp/utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index a064fd8..be0ac17 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -358,6 +358,12 @@ std::vector<std::string> split_string(
         const std::string& source,
         const std::string& delimiter)
 {
+    // An empty delimiter does not split anything
+    if (delimiter.empty())
+    {
+        return {source};
+    }
+
     std::vector<std::string> result;
     int start = 0;
     int end = source.find(delimiter);
-- 
2.43.0


From d37df97ac9506fb1ca7fe59a16c1b8e0f072971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 32/57] fix: number_trailing_zeros_format padded before the
 sign and accepted or refused wrong lengths

---
 cpp_utils/src/cpp/utils.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index be0ac17..87d5808 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -31,7 +31,6 @@
 #include <cpp_utils/exception/PreconditionNotMet.hpp>
 #include <cpp_utils/Log.hpp>
 #include <cpp_utils/macros/macros.hpp>
-#include <cpp_utils/math/math_extension.hpp>
 #include <cpp_utils/utils.hpp>
 
 // These libraries are used to execute wildcard using system functions, and depend on the OS
@@ -314,18 +313,17 @@ std::string number_trailing_zeros_format(
         unsigned int n_chars,
         bool allow_more_chars /* = true */)
 {
-    if (!allow_more_chars)
+    // The zeros are placed between the sign and the digits
+    std::ostringstream os;
+    os << std::setw(n_chars) << std::setfill('0') << std::internal << value_to_print;
+
+    if (!allow_more_chars && os.str().size() > n_chars)
     {
-        if (value_to_print / fast_exponential(10, n_chars) > 0)
-        {
-            throw PreconditionNotMet(STR_ENTRY
-                          << "Number <" << value_to_print << ">"
-                          << " has more than <" << n_chars << "> chars");
-        }
+        throw PreconditionNotMet(STR_ENTRY
+                      << "Number <" << value_to_print << ">"
+                      << " has more than <" << n_chars << "> chars");
     }
 
-    std::ostringstream os;
-    os << std::setw(n_chars) << std::setfill('0') << value_to_print;
     return os.str();
 }
 
-- 
2.43.0


From 43d53a5e2fc11f5890d47e57afebb708dedc0af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 33/57] fix: base64 conversions overflowed a signed integer

---
 cpp_utils/src/cpp/utils.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 87d5808..8c4d00b 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -381,7 +381,9 @@ std::string base64_encode(
 {
     std::string out;
 
-    int val = 0, valb = -6;
+    // Only the lowest bits of val are used, the highest are lost when it is shifted
+    unsigned int val = 0;
+    int valb = -6;
     for (unsigned char c : in)
     {
         val = (val << 8) + c;
@@ -415,7 +417,9 @@ std::string base64_decode(
         T[base64_alphabet[i]] = i;
     }
 
-    int val = 0, valb = -8;
+    // Only the lowest bits of val are used, the highest are lost when it is shifted
+    unsigned int val = 0;
+    int valb = -8;
     for (unsigned char c : in)
     {
         if (T[c] == -1)
-- 
2.43.0


From 243aa3d06daadfad872625c53fd1edcecff19072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 34/57] fix: to_bytes lost bytes by rounding and overflowed at
 the upper limit

---
 cpp_utils/src/cpp/utils.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 8c4d00b..1606c8d 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -149,10 +149,6 @@ std::uint64_t to_bytes(
                   "The quantity is not in the expected format. It should be a rational number followed by a unit (e.g. 10MB).");
     }
 
-    // Extract the number
-    std::string number_str = matches[1].str();
-    double number = std::stod(number_str);
-
     // Extract the unit
     std::string unit_str = matches[3].str();
     to_uppercase(unit_str);
@@ -165,15 +161,35 @@ std::uint64_t to_bytes(
 
     const auto unit = units.at(unit_str);
 
-    // Check whether the product of number * unit overflows
+    // Extract the number. It is not converted to floating point so that the result is exact.
+    const std::string number_str = matches[1].str();
+    const auto point = number_str.find('.');
+    const std::string integer_part = number_str.substr(0, point);
+    const std::string decimal_part = point == std::string::npos ? "" : number_str.substr(point + 1);
+
+    // Bytes of the decimal part: 0.d1d2... * unit = (d1 * unit + (d2 * unit + ...) / 10) / 10
+    std::uint64_t decimal_bytes = 0;
+    for (auto digit = decimal_part.rbegin(); digit != decimal_part.rend(); ++digit)
+    {
+        decimal_bytes = (static_cast<std::uint64_t>(*digit - '0') * unit + decimal_bytes) / 10;
+    }
+
+    // Check whether number * unit overflows
     // @note: The parentheses are necessary to distinguish std::max from the max macro (Windows).
-    if (number > (std::numeric_limits<std::uint64_t>::max)() / unit)
+    const std::uint64_t max_number = ((std::numeric_limits<std::uint64_t>::max)() - decimal_bytes) / unit;
+
+    std::uint64_t number = 0;
+    for (const char digit_char : integer_part)
     {
-        throw std::invalid_argument("The number is too large to be converted to bytes.");
+        const std::uint64_t digit = static_cast<std::uint64_t>(digit_char - '0');
+        if (digit > max_number || number > (max_number - digit) / 10)
+        {
+            throw std::invalid_argument("The number is too large to be converted to bytes.");
+        }
+        number = number * 10 + digit;
     }
 
-    // The product is safe since the possible overflow has also been checked.
-    const std::uint64_t bytes = number * unit;
+    const std::uint64_t bytes = number * unit + decimal_bytes;
 
     return bytes;
 }
-- 
2.43.0


From 90f35308d6a3fa479d72f51ff0c54163bdf5781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 35/57] fix: demangle_if_ros_type read out of bounds with an
 empty name

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index c72c69e..59bbb45 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -127,7 +127,7 @@ std::string mangle_if_ros_topic(
 std::string demangle_if_ros_type(
         const std::string& dds_type_string)
 {
-    if (dds_type_string[dds_type_string.size() - 1] != '_')
+    if (dds_type_string.empty() || dds_type_string.back() != '_')
     {
         // not a ROS type
         return dds_type_string;
-- 
2.43.0


From 486e4f6b85ab1b1d75dccaf942ab901936a7e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 36/57] fix: the name of a service in a namespace could not be
 mangled

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index 59bbb45..2c92d50 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -221,8 +221,7 @@ std::string mangle_ros_service_in_topic(
         const std::string& topic_name,
         const std::string suffix)
 {
-    size_t topic_name_position = topic_name.rfind("/");
-    if (topic_name_position != 0)
+    if (topic_name.rfind("/", 0) != 0)
     {
         return "";
     }
-- 
2.43.0


From 37d1b59086f54f58e090f1db89f2b6f1400c9482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 37/57] fix: demangle_service_type_only took as a service a
 type with the suffix in the middle

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index 2c92d50..1c46dc6 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -299,7 +299,7 @@ std::string demangle_service_type_only(
             break;
         }
     }
-    if (std::string::npos == suffix_position)
+    if (found_suffix.empty())
     {
         logWarning(DDSPIPE_DEMANGLE,
                 "service type contains 'dds_::' but does not have a suffix"
-- 
2.43.0


From e623307ec4c085b087779d812a548f100a727f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 38/57] fix: arithmetic_progression_sum overflowed for sums
 that fit in the result

---
 cpp_utils/src/cpp/math/math_extension.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/math/math_extension.cpp b/cpp_utils/src/cpp/math/math_extension.cpp
index eb9ca7e..16a569e 100644
--- a/cpp_utils/src/cpp/math/math_extension.cpp
+++ b/cpp_utils/src/cpp/math/math_extension.cpp
@@ -116,7 +116,9 @@ unsigned int arithmetic_progression_sum(
         unsigned int interval,
         unsigned int steps) noexcept
 {
-    return (((2 * lowest + ((steps - 1) * interval)) * steps) / 2);
+    // The intermediate products may not fit in an unsigned int even if the sum does
+    const uint64_t n = steps;
+    return static_cast<unsigned int>(n * lowest + (n * (n - 1) / 2) * interval);
 }
 
 unsigned int fast_exponential(
-- 
2.43.0


From 6b04295a27065ae2482292750241d7c90e5f5cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 39/57] fix: Builder::refactor_values with a map from keys to
 values did not compile

---
 cpp_utils/include/cpp_utils/types/impl/Builder.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
index ac6e4d2..57e1c3b 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
@@ -45,7 +45,7 @@ template <typename Key, typename Value>
 void Builder<Key, Value>::refactor_values(
         const std::map<Key, Value>& keys_to_values)
 {
-    values_ = indexed_map_from_values_to_keys_(keys_to_values);
+    values_ = keys_to_values;
 }
 
 template <typename Key, typename Value>
-- 
2.43.0


From 005cb96e08320ee5d4d76f4878230b43ab276e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 40/57] fix: depth of a tree was always 0

---
 cpp_utils/include/cpp_utils/types/impl/Tree.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Tree.ipp b/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
index 0fe699f..98c7527 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
@@ -20,6 +20,8 @@
 
 #pragma once
 
+#include <algorithm>
+
 namespace eprosima {
 namespace utils {
 
@@ -94,8 +96,7 @@ unsigned int TreeNode<Info>::depth() const noexcept
     unsigned int max_value = 0;
     for (const auto& b : branches_)
     {
-        auto child_value = b.depth();
-        max_value = MAX(max_value, child_value);
+        max_value = std::max(max_value, 1 + b.depth());
     }
     return max_value;
 }
-- 
2.43.0


From 6b2522c8b95bbdd3adecaffde31025bf2648cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 41/57] fix: Heritable destroyed an object of a child class as
 if it were of the parent

---
 cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp b/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
index d017976..d22b3c9 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
@@ -40,7 +40,7 @@ template <typename T>
 template <typename U>
 Heritable<T>::Heritable(
         U* ptr)
-    : data_ptr_(static_cast<T*>(ptr))
+    : data_ptr_(std::static_pointer_cast<T>(std::shared_ptr<U>(ptr)))
 {
 }
 
-- 
2.43.0


From 7e4f7b0ee44790e6e96593c4f1358b1bce3671c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 42/57] fix: MAX and MIN gave wrong values inside a larger
 expression

---
 cpp_utils/include/cpp_utils/macros/macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/macros/macros.hpp b/cpp_utils/include/cpp_utils/macros/macros.hpp
index f0d0e96..949d297 100644
--- a/cpp_utils/include/cpp_utils/macros/macros.hpp
+++ b/cpp_utils/include/cpp_utils/macros/macros.hpp
@@ -75,8 +75,8 @@ namespace utils {
  */
 #define TYPE_NAME(x) typeid(x).name()
 
-#define MAX(x, y) x < y ? y : x
-#define MIN(x, y) x > y ? y : x
+#define MAX(x, y) ((x) < (y) ? (y) : (x))
+#define MIN(x, y) ((x) > (y) ? (y) : (x))
 
 /**
  * @brief Standarize a common way to check if the OS is windows.
-- 
2.43.0


From 12ce90fef08f4123814fb1fbfb1554f3b18bf4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 43/57] fix: Formatter cut the text at the first null character

---
 cpp_utils/src/cpp/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/Formatter.cpp b/cpp_utils/src/cpp/Formatter.cpp
index 2182a2b..b709558 100644
--- a/cpp_utils/src/cpp/Formatter.cpp
+++ b/cpp_utils/src/cpp/Formatter.cpp
@@ -29,7 +29,7 @@ Formatter::operator std::string () const noexcept
 
 std::string Formatter::to_string() const noexcept
 {
-    return ss_.str().c_str();
+    return ss_.str();
 }
 
 std::ostream& operator <<(
-- 
2.43.0


From 0c2a1f58f58da5e9e6ef55a9d7e8e7a970b69be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 44/57] fix: element_to_stream and container_to_stream did not
 compile for elements that are not pointers

---
 cpp_utils/include/cpp_utils/impl/utils.ipp | 31 ++++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/impl/utils.ipp b/cpp_utils/include/cpp_utils/impl/utils.ipp
index 96f85b5..5073f36 100644
--- a/cpp_utils/include/cpp_utils/impl/utils.ipp
+++ b/cpp_utils/include/cpp_utils/impl/utils.ipp
@@ -19,23 +19,38 @@
 #pragma once
 
 #include <cstring>
+#include <type_traits>
 
 namespace eprosima {
 namespace utils {
 
+//! Write the object pointed by an element
+template <typename T>
+void element_to_stream_(
+        std::ostream& os,
+        const T& element,
+        std::true_type /* Ptr */)
+{
+    os << (*element);
+}
+
+//! Write an element
+template <typename T>
+void element_to_stream_(
+        std::ostream& os,
+        const T& element,
+        std::false_type /* Ptr */)
+{
+    os << element;
+}
+
 template <typename T, bool Ptr /* = false */>
 std::ostream& element_to_stream(
         std::ostream& os,
         T element)
 {
-    if (Ptr)
-    {
-        os << (*element);
-    }
-    else
-    {
-        os << element;
-    }
+    // The one not used may not compile for T
+    element_to_stream_(os, element, std::integral_constant<bool, Ptr>());
 
     return os;
 }
-- 
2.43.0


From bbe6bb81cb233c5cadf3616a373ae7712f9fedb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 45/57] fix: are_set_of_ptr_equal was not symmetric

---
 cpp_utils/include/cpp_utils/impl/utils.ipp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/impl/utils.ipp b/cpp_utils/include/cpp_utils/impl/utils.ipp
index 5073f36..19bdaa4 100644
--- a/cpp_utils/include/cpp_utils/impl/utils.ipp
+++ b/cpp_utils/include/cpp_utils/impl/utils.ipp
@@ -144,6 +144,15 @@ bool are_set_of_ptr_equal(
         }
     }
 
+    // Check if every element in set2 is in set1, as several elements of set1 could be equal
+    for (auto itr2 = set2.begin(); itr2 != set2.end(); itr2++)
+    {
+        if (!set_of_ptr_contains(set1, *itr2))
+        {
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From 6ee90fcc0fb5c6346a6dd135d5d90597868ce9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 46/57] fix: blocking_disable of a Python wait handler never
 ended with a thread waiting

---
 py_utils/py_utils/wait/WaitHandler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py_utils/py_utils/wait/WaitHandler.py b/py_utils/py_utils/wait/WaitHandler.py
index 75df6cb..602597d 100644
--- a/py_utils/py_utils/wait/WaitHandler.py
+++ b/py_utils/py_utils/wait/WaitHandler.py
@@ -55,6 +55,7 @@ class WaitHandler:
         self._enabled = enabled
         self._lock = threading.Lock()
         self._condition = threading.Condition(self._lock)
+        self._no_waiting_threads_condition = threading.Condition(self._lock)
         self._n_waiting_threads = 0
 
     # Get and set methods for the protected variable
@@ -136,6 +137,8 @@ class WaitHandler:
                 timeout)
 
             self._n_waiting_threads -= 1
+            if self._n_waiting_threads == 0:
+                self._no_waiting_threads_condition.notify_all()
 
             if not self._enabled:
                 return AwakeReason.disabled
@@ -158,9 +161,10 @@ class WaitHandler:
     # Blocking disable method
     def _blocking_disable_nts(self):
         """Blocking disable object. Not mutex safe, call with _lock taken."""
-        self._enabled = False
-        while self._n_waiting_threads > 0:
-            self._condition.notify_all()
+        self._disable_nts()
+        # The lock is released while waiting, so the waiting threads could leave
+        self._no_waiting_threads_condition.wait_for(
+            lambda: self._n_waiting_threads == 0)
 
     # Blocking disable method
     def _enabled_nts(self):
-- 
2.43.0


From 90d94149f1d4ef05d2b940fa5e5b5914ce93a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 47/57] fix: a Python wait whose predicate raised an exception
 was counted as waiting for ever

---
 py_utils/py_utils/wait/WaitHandler.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/py_utils/py_utils/wait/WaitHandler.py b/py_utils/py_utils/wait/WaitHandler.py
index 602597d..8251a4f 100644
--- a/py_utils/py_utils/wait/WaitHandler.py
+++ b/py_utils/py_utils/wait/WaitHandler.py
@@ -132,13 +132,15 @@ class WaitHandler:
 
             self._n_waiting_threads += 1
 
-            awaken_reason = self._condition.wait_for(
-                lambda: not self._enabled_nts() or predicate(self._value),
-                timeout)
-
-            self._n_waiting_threads -= 1
-            if self._n_waiting_threads == 0:
-                self._no_waiting_threads_condition.notify_all()
+            try:
+                awaken_reason = self._condition.wait_for(
+                    lambda: not self._enabled_nts() or predicate(self._value),
+                    timeout)
+            finally:
+                # The thread stops waiting also if predicate raises an exception
+                self._n_waiting_threads -= 1
+                if self._n_waiting_threads == 0:
+                    self._no_waiting_threads_condition.notify_all()
 
             if not self._enabled:
                 return AwakeReason.disabled
-- 
2.43.0


From a4fcb2b4c45e2e738a448955a5c6c0c45b2c4528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 48/57] fix: the enumeration generator took empty pieces of a
 list as values

---
 .../cpp/enumeration_builder/enumeration_builder.py            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py b/dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py
index 6e6c869..f928bbc 100644
--- a/dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py
+++ b/dev_utils/src/automatic_code_generator/cpp/enumeration_builder/enumeration_builder.py
@@ -191,7 +191,9 @@ def parse_values(
         values_str: str):
     """Convert string arguments into a list of strings."""
     separator = (';' if ';' in values_str else ',')
-    return [x.strip().replace(' ', '') for x in values_str.split(separator)]
+    values = [x.strip().replace(' ', '') for x in values_str.split(separator)]
+    # Skip the empty ones (e.g. after a final separator)
+    return [x for x in values if x]
 
 
 def replace_in_text(
-- 
2.43.0


From a563a242e84793b2ab42a2f45f3ecb968779bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 49/57] fix: changing the format of the Python logger repeated
 every message in each former format

---
 py_utils/py_utils/logging/log_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/py_utils/py_utils/logging/log_utils.py b/py_utils/py_utils/logging/log_utils.py
index 7e64123..d462501 100644
--- a/py_utils/py_utils/logging/log_utils.py
+++ b/py_utils/py_utils/logging/log_utils.py
@@ -40,6 +40,8 @@ class CustomLogger(logging.Logger):
             logger_name: str = 'GLOBAL_LOG'):
         """Creates an object of Logger class and set log level and default format."""
         super().__init__(logger_name)
+        self._format_handler = logging.StreamHandler()
+        self.addHandler(self._format_handler)
         self.set_format()
         self.set_log_level(log_level)
 
@@ -47,10 +49,7 @@ class CustomLogger(logging.Logger):
             self,
             format: str = '[%(asctime)s][%(name)s][%(levelname)s] %(message)s'):
         """Modifies format for logger."""
-        l_format = logging.Formatter(format)
-        l_handler = logging.StreamHandler()
-        l_handler.setFormatter(l_format)
-        self.addHandler(l_handler)
+        self._format_handler.setFormatter(logging.Formatter(format))
 
     def set_log_level(
             self,
-- 
2.43.0


From 51298e000035d83e734c2cd808f3af023a4900dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 50/57] fix: the Python logger ignored a change of level for
 levels already used

---
 py_utils/py_utils/logging/log_utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py_utils/py_utils/logging/log_utils.py b/py_utils/py_utils/logging/log_utils.py
index d462501..6be5d07 100644
--- a/py_utils/py_utils/logging/log_utils.py
+++ b/py_utils/py_utils/logging/log_utils.py
@@ -57,6 +57,14 @@ class CustomLogger(logging.Logger):
         """Modifies logger level."""
         self.setLevel(log_level)
 
+    def isEnabledFor(
+            self,
+            level):
+        """Whether a message of such level is logged."""
+        # The native method caches its result, and changing the level only clears the cache of those loggers created
+        # by logging.getLogger, which is not the case of this one.
+        return not self.disabled and level > self.manager.disable and level >= self.getEffectiveLevel()
+
     def activate_debug(self):
         """Modifies logger level so it accepts everything equalt or greater than DEBUG."""
         self.set_log_level(logging.DEBUG)
-- 
2.43.0


From 5b7434d18104ffa793caed77ccbade011e26f388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 51/57] fix: the option parser took "--=x" for the first option
 without a long name

---
 thirdparty/optionparser/optionparser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thirdparty/optionparser/optionparser.h b/thirdparty/optionparser/optionparser.h
index e695e1b..fa903a5 100644
--- a/thirdparty/optionparser/optionparser.h
+++ b/thirdparty/optionparser/optionparser.h
@@ -1846,7 +1846,7 @@ inline bool Parser::workhorse(
             if (handle_short_options == false || try_single_minus_longopt)
             {
                 idx = 0;
-                while (usage[idx].longopt != 0 && !streq(usage[idx].longopt, longopt_name))
+                while (usage[idx].longopt != 0 && (usage[idx].longopt[0] == 0 || !streq(usage[idx].longopt, longopt_name)))
                 {
                     ++idx;
                 }
@@ -1854,7 +1854,7 @@ inline bool Parser::workhorse(
                 if (usage[idx].longopt == 0 && min_abbr_len > 0) // if we should try to match abbreviated long options
                 {
                     int i1 = 0;
-                    while (usage[i1].longopt != 0 && !streqabbr(usage[i1].longopt, longopt_name, min_abbr_len))
+                    while (usage[i1].longopt != 0 && (usage[i1].longopt[0] == 0 || !streqabbr(usage[i1].longopt, longopt_name, min_abbr_len)))
                     {
                         ++i1;
                     }
@@ -1862,7 +1862,7 @@ inline bool Parser::workhorse(
                     {
                         // now test if the match is unambiguous by checking for another match
                         int i2 = i1 + 1;
-                        while (usage[i2].longopt != 0 && !streqabbr(usage[i2].longopt, longopt_name, min_abbr_len))
+                        while (usage[i2].longopt != 0 && (usage[i2].longopt[0] == 0 || !streqabbr(usage[i2].longopt, longopt_name, min_abbr_len)))
                         {
                             ++i2;
                         }
-- 
2.43.0


From 18087ba2f3e13af7d61af7be13f8080194d3ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:10 +0000
Subject: [PATCH 52/57] fix: the minimum version of a package was not asked for

---
 cmake_utils/cmake/cpp_common/find_external.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake_utils/cmake/cpp_common/find_external.cmake b/cmake_utils/cmake/cpp_common/find_external.cmake
index 07873aa..5bfc054 100644
--- a/cmake_utils/cmake/cpp_common/find_external.cmake
+++ b/cmake_utils/cmake/cpp_common/find_external.cmake
@@ -29,7 +29,7 @@ macro(find_external_projects EXTERNAL_PROJECT_NAMES)
 
     foreach(EXTERNAL_PROJECT ${EXTERNAL_PROJECT_NAMES})
         # Check if this project requires a minimum version, set as ${EXTERNAL_PROJECT}_MINIMUM_VERSION
-        if (${${EXTERNAL_PROJECT}_MINIMUM_VERSION})
+        if (NOT "${${EXTERNAL_PROJECT}_MINIMUM_VERSION}" STREQUAL "")
 
             find_package("${EXTERNAL_PROJECT}" "${${EXTERNAL_PROJECT}_MINIMUM_VERSION}" REQUIRED)
             message(
-- 
2.43.0


From 58550f6be88baff3ce92c2333bce0dcf5c2cb578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:10 +0000
Subject: [PATCH 53/57] fix: LOG_INFO lost the value given and kept an empty
 one in the cache

---
 cmake_utils/cmake/project/cmake_options.cmake | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmake_utils/cmake/project/cmake_options.cmake b/cmake_utils/cmake/project/cmake_options.cmake
index e2f3707..ed5e9b7 100644
--- a/cmake_utils/cmake/project/cmake_options.cmake
+++ b/cmake_utils/cmake/project/cmake_options.cmake
@@ -103,10 +103,12 @@ macro(configure_cmake_options)
 
     # LOG
     # TODO change LOG cmake options to make them smarter
-    if (NOT DEFINED LOG_INFO AND "${CMAKE_BUILD_TYPE}" STREQUAL "Debug")
-        set(LOG_INFO ON)
-    else ()
-        set(LOG_INFO CACHE BOOL OFF)
+    if (NOT DEFINED LOG_INFO)
+        if ("${CMAKE_BUILD_TYPE}" STREQUAL "Debug")
+            set(LOG_INFO ON)
+        else()
+            set(LOG_INFO OFF)
+        endif()
     endif()
 
 endmacro()
-- 
2.43.0


From 440854578407558aeb909a65ff470286ff075001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:10 +0000
Subject: [PATCH 54/57] fix: the summary of a module did not default to its
 large name

---
 cmake_utils/cmake/project/load_project_settings.cmake | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmake_utils/cmake/project/load_project_settings.cmake b/cmake_utils/cmake/project/load_project_settings.cmake
index dcf3d29..48c6405 100644
--- a/cmake_utils/cmake/project/load_project_settings.cmake
+++ b/cmake_utils/cmake/project/load_project_settings.cmake
@@ -24,7 +24,7 @@
 # - MODULE_NAME: Name of the project.
 #
 # OPTIONAL ADVICED VARIABLES:
-# - MODULE_SUMMARY          : Project summary    (default MODULE_NAME)
+# - MODULE_SUMMARY          : Project summary    (default MODULE_NAME_LARGE)
 # - MODULE_FIND_PACKAGES    : Packages required to be used in the project
 # - MODULE_THIRDPARTY_HEADERONLY    : Thirdparty Headeronly projects required (in /thirdparty directory)
 # - MODULE_DEPENDENCIES     : Packages required to be linked by target
@@ -76,7 +76,7 @@ macro(load_project_settings)
 
     # Set MODULE_SUMMARY
     if (NOT MODULE_SUMMARY)
-        set (MODULE_SUMMARY ${MODULE_NAME})
+        set (MODULE_SUMMARY ${MODULE_NAME_LARGE})
     endif()
 
     # Set MODULE_DESCRIPTION
-- 
2.43.0


From 92d918effa510afefb1e11dfaab7fba0b538125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:28 +0000
Subject: [PATCH 55/57] fix: the version given in the settings was overwritten
 by the one of the file

---
 .../cmake/project/configure_project.cmake     |  3 ++-
 cmake_utils/cmake/project/read_version.cmake  | 24 ++++++++++---------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/cmake_utils/cmake/project/configure_project.cmake b/cmake_utils/cmake/project/configure_project.cmake
index cfc74b1..1a8aa3f 100644
--- a/cmake_utils/cmake/project/configure_project.cmake
+++ b/cmake_utils/cmake/project/configure_project.cmake
@@ -63,7 +63,8 @@ macro(configure_project)
     if( NOT DEFINED MODULE_VERSION_MAJOR OR
         NOT DEFINED MODULE_VERSION_MINOR OR
         NOT DEFINED MODULE_VERSION_PATCH OR
-        NOT DEFINED MODULE_VERSION)
+        NOT DEFINED MODULE_VERSION OR
+        NOT DEFINED MODULE_VERSION_STRING)
 
         read_version(${MODULE_VERSION_FILE_PATH})
     endif()
diff --git a/cmake_utils/cmake/project/read_version.cmake b/cmake_utils/cmake/project/read_version.cmake
index 89efe9b..7d5fad1 100644
--- a/cmake_utils/cmake/project/read_version.cmake
+++ b/cmake_utils/cmake/project/read_version.cmake
@@ -33,17 +33,22 @@
 # (optional) VERSION_FILE_NAME -> File to load version parameters [default: VERSION]
 macro(read_version VERSION_FILE_NAME)
 
-    # Read version file
-    file(READ ${VERSION_FILE_NAME} READ_VERSION_FILE)
+    # Read version file, for those values that are not already set
+    if(NOT DEFINED MODULE_VERSION_MAJOR OR
+       NOT DEFINED MODULE_VERSION_MINOR OR
+       NOT DEFINED MODULE_VERSION_PATCH)
 
-    string(REGEX MATCH "VERSION_MAJOR ([0-9]*)" _ ${READ_VERSION_FILE})
-    set(MODULE_VERSION_MAJOR ${CMAKE_MATCH_1})
+        file(READ ${VERSION_FILE_NAME} READ_VERSION_FILE)
 
-    string(REGEX MATCH "VERSION_MINOR ([0-9]*)" _ ${READ_VERSION_FILE})
-    set(MODULE_VERSION_MINOR ${CMAKE_MATCH_1})
+        foreach(VERSION_PART MAJOR MINOR PATCH)
+            if(NOT DEFINED MODULE_VERSION_${VERSION_PART})
+                string(REGEX MATCH "VERSION_${VERSION_PART} ([0-9]*)" _ ${READ_VERSION_FILE})
+                set(MODULE_VERSION_${VERSION_PART} ${CMAKE_MATCH_1})
+            endif()
+        endforeach()
 
-    string(REGEX MATCH "VERSION_PATCH ([0-9]*)" _ ${READ_VERSION_FILE})
-    set(MODULE_VERSION_PATCH ${CMAKE_MATCH_1})
+        message(STATUS "Read from version file ${VERSION_FILE_NAME} version: ${MODULE_VERSION_MAJOR}.${MODULE_VERSION_MINOR}.${MODULE_VERSION_PATCH}")
+    endif()
 
     # VERSION complete string
     if(NOT DEFINED MODULE_VERSION)
@@ -55,7 +60,4 @@ macro(read_version VERSION_FILE_NAME)
         message(STATUS "Set module version string ${MODULE_VERSION_STRING}")
     endif()
 
-    # Finish macro
-    message(STATUS "Read from version file ${VERSION_FILE_NAME} version: ${MODULE_VERSION_MAJOR}.${MODULE_VERSION_MINOR}.${MODULE_VERSION_PATCH}")
-
 endmacro()
-- 
2.43.0


From c9d3a68b0c929301477ce6f6c5a7e7518464189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:34 +0000
Subject: [PATCH 56/57] fix: an installed library named include/ as its include
 directory whatever INCLUDE_INSTALL_DIR is

---
 cmake_utils/cmake/compilation/compile_library.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake_utils/cmake/compilation/compile_library.cmake b/cmake_utils/cmake/compilation/compile_library.cmake
index 1f395ef..4b65575 100644
--- a/cmake_utils/cmake/compilation/compile_library.cmake
+++ b/cmake_utils/cmake/compilation/compile_library.cmake
@@ -128,7 +128,7 @@ function(compile_library _SOURCE_PATH _INCLUDE_PATH)
                 $<BUILD_INTERFACE:${PROJECT_BINARY_DIR}/include>
                 $<BUILD_INTERFACE:${PROJECT_BINARY_DIR}/include/${MODULE_NAME}>
                 $<BUILD_INTERFACE:${_SOURCE_PATH}>
-                $<INSTALL_INTERFACE:include>
+                $<INSTALL_INTERFACE:${INCLUDE_INSTALL_DIR}>
                 ${MODULE_PUBLIC_EXTRA_HEADERS}
             PRIVATE
                 ${MODULE_PRIVATE_EXTRA_HEADERS}
-- 
2.43.0


From d7286897bbc0fcdb8a82d934febea03ad5be8cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:01 +0000
Subject: [PATCH 57/57] fix: the headers of a library were not installed in
 MODULE_HEADERS_INSTALL_PATH

---
 cmake_utils/cmake/compilation/compile_library.cmake | 4 ++--
 cmake_utils/templates/cpp/library/library_dll.h.in  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmake_utils/cmake/compilation/compile_library.cmake b/cmake_utils/cmake/compilation/compile_library.cmake
index 4b65575..fb4bed3 100644
--- a/cmake_utils/cmake/compilation/compile_library.cmake
+++ b/cmake_utils/cmake/compilation/compile_library.cmake
@@ -176,8 +176,8 @@ function(compile_library _SOURCE_PATH _INCLUDE_PATH)
         # Packaging
         ###############################################################################
         # Install headers
-        install(DIRECTORY ${_INCLUDE_PATH}/${MODULE_HEADERS_PATH}
-                DESTINATION ${INCLUDE_INSTALL_DIR}
+        install(DIRECTORY ${_INCLUDE_PATH}/${MODULE_HEADERS_PATH}/
+                DESTINATION ${INCLUDE_INSTALL_DIR}/${MODULE_HEADERS_INSTALL_PATH}
                 COMPONENT headers
                 FILES_MATCHING
                 PATTERN "*.h"
diff --git a/cmake_utils/templates/cpp/library/library_dll.h.in b/cmake_utils/templates/cpp/library/library_dll.h.in
index 0613a07..53cf892 100644
--- a/cmake_utils/templates/cpp/library/library_dll.h.in
+++ b/cmake_utils/templates/cpp/library/library_dll.h.in
@@ -15,7 +15,7 @@
 #ifndef _EPROSIMA_LIBRARY_@MODULE_MACRO@DLL_H_
 #define _EPROSIMA_LIBRARY_@MODULE_MACRO@DLL_H_
 
-#include <@PROJECT_NAME@/library/config.h>
+#include "config.h"
 
 // normalize macros
 #if !defined(@MODULE_MACRO@_DYN_LINK) && !defined(@MODULE_MACRO@_STATIC_LINK) \
-- 
2.43.0

