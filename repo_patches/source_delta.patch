From 0162eeccbece91fdc643481b159a54db59023031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 1/8] fix: OneShotTimer::FireNow must not touch the timer after
 the task has run

The task may have restarted the timer, in which case the restart was lost, or
destroyed it. RunTask already stops the timer before it runs the task.
---
 rst/timer/one_shot_timer.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rst/timer/one_shot_timer.cc b/rst/timer/one_shot_timer.cc
index 95c7735..ff696ae 100644
--- a/rst/timer/one_shot_timer.cc
+++ b/rst/timer/one_shot_timer.cc
@@ -54,7 +54,6 @@ void OneShotTimer::Start(std::function<void()>&& task,
 void OneShotTimer::FireNow() {
   RST_DCHECK(IsRunning());
   RunTask(task_id_);
-  is_running_ = false;
 }
 
 void OneShotTimer::RunTask(const uint64_t task_id) {
-- 
2.43.0


From ae48d8dd69a76ac68cb447303fc8e36b45fbee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 2/8] fix: an idle pool thread must not stop while there are
 queued tasks

A thread whose wait timed out stopped without looking at the queue, and took
itself off the thread map in a later critical section, so a task pushed in
between was left without a thread to run it.
---
 rst/task_runner/thread_pool_task_runner.cc | 25 +++++++++++-----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 660d320..2a67083 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -55,16 +55,6 @@ ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() {
 
 void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
   std::function<void()> task;
-  RST_DEFER([this]() {
-    std::lock_guard lock(thread_mutex_);
-
-    const auto it = thread_id_to_thread_map_.find(std::this_thread::get_id());
-    RST_DCHECK(it != thread_id_to_thread_map_.cend());
-    it->second.detach();
-    thread_id_to_thread_map_.erase(it);
-
-    thread_cv_.notify_one();
-  });
 
   while (true) {
     auto had_items = false;
@@ -78,14 +68,23 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
 
         if (thread_cv_.wait_for(lock, keep_alive_time_) ==
             std::cv_status::timeout) {
-          return;
+          break;
         }
       }
 
-      if (should_exit_)
+      // Leave in the same critical section that has seen no tasks, otherwise a
+      // task pushed in between would count on this thread.
+      if (should_exit_ || tasks_.empty()) {
+        const auto it =
+            thread_id_to_thread_map_.find(std::this_thread::get_id());
+        RST_DCHECK(it != thread_id_to_thread_map_.cend());
+        it->second.detach();
+        thread_id_to_thread_map_.erase(it);
+
+        thread_cv_.notify_one();
         return;
+      }
 
-      RST_DCHECK(!tasks_.empty());
       auto& front = tasks_.front();
       if (front.iterations == 0) {
         task = std::move(front.task);
-- 
2.43.0


From 8aaf8173e91d59c2b74868fe688b197cba4972ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 3/8] fix: WriteImportantFile must not leave a partial temp
 file behind

If writing or closing the temp file failed, the file stayed on disk for good.
---
 rst/files/file_utils.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rst/files/file_utils.cc b/rst/files/file_utils.cc
index fd32722..6beba51 100644
--- a/rst/files/file_utils.cc
+++ b/rst/files/file_utils.cc
@@ -35,7 +35,7 @@
 #include <utility>
 
 #include "rst/guid/guid.h"
-#include "rst/status/status_macros.h"
+#include "rst/rtti/rtti.h"
 #include "rst/stl/resize_uninitialized.h"
 #include "rst/strings/str_cat.h"
 
@@ -112,7 +112,14 @@ Status WriteImportantFile(const filesystem::path& filename,
                           const std::string_view data) {
   const filesystem::path temp_filename(
       StrCat({filename.native(), Guid().AsStringView().value(), ".tmp"}));
-  RST_TRY(WriteFile(temp_filename.c_str(), "wxb", data));
+
+  auto status = WriteFile(temp_filename.c_str(), "wxb", data);
+  if (status.err()) {
+    // The temp file was created unless it could not be opened.
+    if (dyn_cast<FileOpenError>(status.GetError()) == nullptr)
+      (void)Remove(temp_filename);
+    return status;
+  }
 
   if (!Rename(temp_filename, filename)) {
     (void)Remove(temp_filename);
-- 
2.43.0


From d4860ab6f68550e5fc5a38cd1a4ed1bf3b9ce614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 4/8] fix: move assignment of a Value from one of its own
 descendants

The target was cleaned up before the source, which it owns, was read.
---
 rst/value/value.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rst/value/value.cc b/rst/value/value.cc
index 712bec5..f649a1a 100644
--- a/rst/value/value.cc
+++ b/rst/value/value.cc
@@ -58,11 +58,13 @@ Value::Value(Value&& other) noexcept { MoveConstruct(std::move(other)); }
 Value::~Value() { Cleanup(); }
 
 Value& Value::operator=(Value&& rhs) noexcept {
-  if (type_ == rhs.type_) {
-    MoveAssign(std::move(rhs));
+  // |rhs| can be stored inside of this value, so take its content first.
+  Value value(std::move(rhs));
+  if (type_ == value.type_) {
+    MoveAssign(std::move(value));
   } else {
     Cleanup();
-    MoveConstruct(std::move(rhs));
+    MoveConstruct(std::move(value));
   }
 
   return *this;
-- 
2.43.0


From 50fe43d914b9c39c9dcbff42b4f24a635efdce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 5/8] fix: range check of Value(int64_t) for the minimum
 int64_t

std::abs() of it is not representable, so the check had undefined behavior.
---
 rst/value/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rst/value/value.h b/rst/value/value.h
index c8a219a..d24e2f7 100644
--- a/rst/value/value.h
+++ b/rst/value/value.h
@@ -138,7 +138,7 @@ class Value {
   // Can store |2^53 - 1| at maximum since it's a max safe integer that can be
   // stored in JavaScript.
   explicit Value(int64_t value) : Value(static_cast<double>(value)) {
-    RST_DCHECK(std::abs(value) <= kMaxSafeInteger);
+    RST_DCHECK(value >= -kMaxSafeInteger && value <= kMaxSafeInteger);
   }
 
   explicit Value(double value) : type_(Type::kNumber), number_(value) {
-- 
2.43.0


From 5744a2ceca48684eb1a8798df272a1ef90bc530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 6/8] fix: Barrier must not be touched after its mutex has been
 released

A thread whose wait has returned may destroy the barrier, while another thread
was about to notify its condition variable.
---
 rst/threading/barrier.cc | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/rst/threading/barrier.cc b/rst/threading/barrier.cc
index c008454..2651988 100644
--- a/rst/threading/barrier.cc
+++ b/rst/threading/barrier.cc
@@ -43,40 +43,34 @@ Barrier::~Barrier() {
 }
 
 void Barrier::CountDownAndWait() {
-  {
-    std::unique_lock lock(mutex_);
-    RST_DCHECK(counter_ > 0);
+  std::unique_lock lock(mutex_);
+  RST_DCHECK(counter_ > 0);
 
-    counter_--;
-    while (counter_ != 0)
-      cv_.wait(lock);
-  }
+  counter_--;
+  while (counter_ != 0)
+    cv_.wait(lock);
 
+  // Notify under the lock, since the barrier can be destroyed after unlocking.
   cv_.notify_one();
 }
 
 void Barrier::CountDown() {
-  size_t counter = 0;
-
-  {
-    std::lock_guard lock(mutex_);
-    RST_DCHECK(counter_ > 0);
-
-    counter = --counter_;
-  }
+  std::lock_guard lock(mutex_);
+  RST_DCHECK(counter_ > 0);
 
-  if (counter == 0)
+  counter_--;
+  // Notify under the lock, since the barrier can be destroyed after unlocking.
+  if (counter_ == 0)
     cv_.notify_one();
 }
 
 void Barrier::Wait() {
-  {
-    std::unique_lock lock(mutex_);
+  std::unique_lock lock(mutex_);
 
-    while (counter_ != 0)
-      cv_.wait(lock);
-  }
+  while (counter_ != 0)
+    cv_.wait(lock);
 
+  // Notify under the lock, since the barrier can be destroyed after unlocking.
   cv_.notify_one();
 }
 
-- 
2.43.0


From 2b7cde2ba062fd383051b176405e4d4e03abc71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 7/8] fix: reject pointers to const as format arguments

They were implicitly converted to bool and printed as true.
---
 rst/strings/arg.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rst/strings/arg.h b/rst/strings/arg.h
index e125ff0..fc0e0fb 100644
--- a/rst/strings/arg.h
+++ b/rst/strings/arg.h
@@ -72,8 +72,11 @@ class Arg {
  public:
   static constexpr size_t kBufferSize = 20;
 
-  // NOLINTNEXTLINE(runtime/explicit)
-  Arg(const bool value) : view_(value ? "true" : "false") {}
+  // Takes exactly bool, since pointers are implicitly converted to it.
+  template <class T,
+            typename std::enable_if_t<std::is_same_v<T, bool>, bool> = true>
+  Arg(const T value)  // NOLINT(runtime/explicit)
+      : view_(value ? "true" : "false") {}
 
   // NOLINTNEXTLINE(runtime/explicit)
   Arg(const char value) : view_(buffer_, 1) { buffer_[0] = value; }
-- 
2.43.0


From 939a7212cdad64c5bab2957ca066688dadcf24b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 8/8] fix: Format doesn't overrun its buffer when placeholders
 are missing

---
 rst/strings/format.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rst/strings/format.cc b/rst/strings/format.cc
index afc7c85..5fd8e19 100644
--- a/rst/strings/format.cc
+++ b/rst/strings/format.cc
@@ -48,8 +48,7 @@ std::string FormatAndReturnString(const NotNull<const char*> not_null_format,
     RST_DCHECK(values != nullptr);
     new_size += values[i].size();
   }
-  RST_DCHECK(new_size >= size * 2);
-  new_size -= size * 2;
+  // Doesn't subtract the placeholders since their number is not known yet.
 
   std::string output;
   StringResizeUninitialized(&output, new_size);
-- 
2.43.0

