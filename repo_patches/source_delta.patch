From b8387ad647aa0052ef48e8b6186bce28aa16d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 1/8] fix: destroy executed thread pool task before waiting for
 the next one

The executed task was swapped into the queue by the next pop() and destroyed
with the queue mutex held: a function object which posts to the same pool from
its destructor (e.g. abandons a promise with continuation on this pool)
deadlocked the worker. It was also kept alive as long as the worker was idle so
promises owned by it were not abandoned.
---
 portable_concurrency/bits/portable_concurrency.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 7d12602..257cf6a 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -89,8 +89,12 @@ void process_queue(
   const std::atomic<bool> &stopped
 ) noexcept {
   unique_function<void()> task;
-  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task))
+  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task)) {
     task();
+    // Destroy executed task right here: otherwise it stays alive until the next
+    // one is popped and is destroyed while the queue mutex is locked.
+    task = unique_function<void()>{};
+  }
 }
 
 } // namespace
-- 
2.43.0


From e1c2d1327bdae2c0d82ef08e29558d88fa401bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 2/8] fix: async of a function returning reference stores
 dangling reference

task::operator() had decayed return type so future<const T&> referred to a
destroyed temporary copy of the object returned by the function.
---
 portable_concurrency/bits/async.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/async.h b/portable_concurrency/bits/async.h
index 1097b4c..27d9736 100644
--- a/portable_concurrency/bits/async.h
+++ b/portable_concurrency/bits/async.h
@@ -24,10 +24,12 @@ public:
   task(F &&f, A &&...a)
       : func_(std::forward<F>(f)), args_(std::forward<A>(a)...) {}
 
-  auto operator()() { return run(std::make_index_sequence<sizeof...(A)>()); }
+  decltype(auto) operator()() {
+    return run(std::make_index_sequence<sizeof...(A)>());
+  }
 
 private:
-  template <size_t... I> auto run(std::index_sequence<I...>) {
+  template <size_t... I> decltype(auto) run(std::index_sequence<I...>) {
     return this_ns::invoke(std::move(func_), std::move(std::get<I>(args_))...);
   }
 
-- 
2.43.0


From e82e2851fb5e8a01dbcee6c1384786cbb7fb73ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 3/8] fix: unique_function with heap allocated functor returns
 dangling reference

Return type of the wrapper lambda was decayed so unique_function<const T&()>
constructed from a large function object returned a reference to a temporary.
---
 portable_concurrency/bits/unique_function.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/unique_function.hpp b/portable_concurrency/bits/unique_function.hpp
index 9933172..df98fdd 100644
--- a/portable_concurrency/bits/unique_function.hpp
+++ b/portable_concurrency/bits/unique_function.hpp
@@ -33,7 +33,9 @@ unique_function<R(A...)>::unique_function(F &&f, std::false_type) {
   if (detail::is_null(f))
     return;
   func_ = [func = std::make_unique<std::decay_t<F>>(std::forward<F>(f))](
-              A... a) { return detail::invoke(*func, std::forward<A>(a)...); };
+              A... a) -> decltype(auto) {
+    return detail::invoke(*func, std::forward<A>(a)...);
+  };
 }
 
 template <typename R, typename... A>
-- 
2.43.0


From 8e59923a4ca164f42e22fe9e4f67a64900a5c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 4/8] fix: interruptible shared_future::then must not
 invalidate the shared_future

Shared future can have any number of continuations. All the other overloads of
then, next and notify leave it valid.
---
 portable_concurrency/bits/shared_future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/shared_future.hpp b/portable_concurrency/bits/shared_future.hpp
index 069745d..0fe53ff 100644
--- a/portable_concurrency/bits/shared_future.hpp
+++ b/portable_concurrency/bits/shared_future.hpp
@@ -191,7 +191,7 @@ shared_future<T>::then(E &&exec, F &&f) {
   detail::continuations_stack &subscriptions = state_->continuations();
   return detail::make_then_state<result_type>(
       subscriptions, std::forward<E>(exec),
-      [f = std::forward<F>(f), parent = std::move(state_)](
+      [f = std::forward<F>(f), parent = state_](
           std::shared_ptr<detail::shared_state<result_type>>
               state) mutable noexcept {
         promise<result_type> p{std::exchange(state, nullptr)};
-- 
2.43.0


From 7e27727750e29605e62c22929391e42d755bbc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 5/8] fix: latch::count_down must not touch the latch after
 unlocking it

A thread returned from latch::wait() is allowed to destroy the latch while
notify_all() call is still to be executed in the thread which counted it down
to zero.
---
 .../bits/portable_concurrency.cpp               | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 257cf6a..3cef1c0 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -121,15 +121,14 @@ void latch::count_down_and_wait() {
 }
 
 void latch::count_down(ptrdiff_t n) {
-  {
-    std::lock_guard<std::mutex> lock{mutex_};
-    assert(counter_ >= n);
-    assert(n >= 0);
-    counter_ -= n;
-    if (counter_ > 0)
-      return;
-  }
-  cv_.notify_all();
+  // Notify with mutex locked: as soon as it is unlocked waiters may return and
+  // destroy this object.
+  std::lock_guard<std::mutex> lock{mutex_};
+  assert(counter_ >= n);
+  assert(n >= 0);
+  counter_ -= n;
+  if (counter_ == 0)
+    cv_.notify_all();
 }
 
 bool latch::is_ready() const noexcept {
-- 
2.43.0


From ea5f5cce8580198172f52cbfea91e6a49fcb037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:28 +0000
Subject: [PATCH 6/8] fix: self move assignment of unique_function used a
 destroyed callable

The callable was destroyed and then moved from (stack-buffer-overflow for a
lambda which owns a std::string). Leave the object as it is.
---
 portable_concurrency/bits/small_unique_function.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portable_concurrency/bits/small_unique_function.hpp b/portable_concurrency/bits/small_unique_function.hpp
index 0aadd0a..a302af3 100644
--- a/portable_concurrency/bits/small_unique_function.hpp
+++ b/portable_concurrency/bits/small_unique_function.hpp
@@ -123,6 +123,8 @@ small_unique_function<R(A...)>::small_unique_function(
 template <typename R, typename... A>
 small_unique_function<R(A...)> &small_unique_function<R(A...)>::operator=(
     small_unique_function<R(A...)> &&rhs) noexcept {
+  if (this == &rhs)
+    return *this;
   if (vtbl_)
     vtbl_->destroy(buffer_);
   if (rhs.vtbl_)
-- 
2.43.0


From 8fff46c470dd523130f9f6b7fff5c9d98e7c30a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:07 +0000
Subject: [PATCH 7/8] fix: moving a task over a continuation abandons the
 continuation

The task handed to an executor abandons the continuation when it is destroyed
without being invoked, but lost it when another task was moved over it: the
future of the continuation never became ready.
---
 portable_concurrency/bits/then.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/then.hpp b/portable_concurrency/bits/then.hpp
index bca2740..061c863 100644
--- a/portable_concurrency/bits/then.hpp
+++ b/portable_concurrency/bits/then.hpp
@@ -184,7 +184,10 @@ template <typename CntState> struct cnt_action {
   cnt_action(std::weak_ptr<CntState> wdata) : wdata(std::move(wdata)) {}
   cnt_action(cnt_action &&rhs) noexcept : wdata(std::move(rhs.wdata)) {}
   cnt_action &operator=(cnt_action &&rhs) noexcept {
-    wdata = std::move(rhs.wdata);
+    if (this == &rhs)
+      return *this;
+    if (auto data = std::exchange(wdata, std::move(rhs.wdata)).lock())
+      data->abandon();
     return *this;
   }
 
-- 
2.43.0


From 52687618c7eade864ce9f183e1cb3df146c358e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:32 +0000
Subject: [PATCH 8/8] fix: a packaged task copies the result of a function
 which returns a reference

packaged_task<T()> constructed from a function returning T& moved from the
object the function referred to.
---
 portable_concurrency/bits/shared_state.h | 5 +++++
 portable_concurrency/bits/utils.h        | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/shared_state.h b/portable_concurrency/bits/shared_state.h
index 78707eb..743129a 100644
--- a/portable_concurrency/bits/shared_state.h
+++ b/portable_concurrency/bits/shared_state.h
@@ -115,6 +115,11 @@ public:
     unwrap(self, state_of(std::move(val)));
   }
 
+  static void unwrap(std::shared_ptr<shared_state> &self,
+                     shared_future<T> &val) {
+    unwrap(self, state_of(val));
+  }
+
   template <typename U>
   static std::enable_if_t<
       !std::is_same<std::decay_t<U>, std::shared_ptr<future_state<T>>>::value>
diff --git a/portable_concurrency/bits/utils.h b/portable_concurrency/bits/utils.h
index 6df231f..daa9e48 100644
--- a/portable_concurrency/bits/utils.h
+++ b/portable_concurrency/bits/utils.h
@@ -17,7 +17,7 @@ void set_state_value(std::shared_ptr<shared_state<R>> &state, F &&f, A &&...a) {
     auto &&res = ::portable_concurrency::cxx14_v1::detail::invoke(
         std::forward<F>(f), std::forward<A>(a)...);
     executed = true;
-    shared_state<R>::unwrap(state, std::move(res));
+    shared_state<R>::unwrap(state, std::forward<decltype(res)>(res));
   } catch (...) {
     if (executed)
       throw;
-- 
2.43.0

