From b1ae229afd5804d21a08902544bedc6856f8801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 01/38] fix: make move assignment of basic_file compile

io_object_holder's noexcept specification called the service's move_assign
without the other object's service.
---
 include/asioext/io_object_holder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/io_object_holder.hpp b/include/asioext/io_object_holder.hpp
index 9a2d25f..d7e622b 100644
--- a/include/asioext/io_object_holder.hpp
+++ b/include/asioext/io_object_holder.hpp
@@ -107,6 +107,7 @@ public:
   // Move-assign an I/O object.
   io_object_holder& operator=(io_object_holder&& other)
       noexcept(noexcept(std::declval<IoObjectService>().move_assign(std::declval<implementation_type&>(),
+                                                                    std::declval<IoObjectService&>(),
                                                                     std::declval<implementation_type&>())))
   {
     if (this != &other)
-- 
2.43.0


From f18d279997a8de447bbe04b255c40b2c7b92917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 02/38] fix: make basic_file's native handle constructors
 compile

---
 include/asioext/basic_file.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/basic_file.hpp b/include/asioext/basic_file.hpp
index f139c04..742377d 100644
--- a/include/asioext/basic_file.hpp
+++ b/include/asioext/basic_file.hpp
@@ -149,7 +149,7 @@ public:
     : holder_(ex)
   {
     error_code ec;
-    holder_.get_service().assign(holder_.get_implementation(), handle.native_handle(), ec);
+    holder_.get_service().assign(holder_.get_implementation(), handle, ec);
     detail::throw_error(ec, "basic_file construct");
   }
 
@@ -168,7 +168,7 @@ public:
     : holder_(context)
   {
     error_code ec;
-    holder_.get_service().assign(holder_.get_implementation(), handle.native_handle(), ec);
+    holder_.get_service().assign(holder_.get_implementation(), handle, ec);
     detail::throw_error(ec, "basic_file construct");
   }
 
-- 
2.43.0


From d70b47c313acbbd5d00506e1b3117f3ee9aaaa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 03/38] fix: dispatch file handlers through the file's executor

basic_file could not be constructed from an executor at all (the service could
only be created by an io_context), and handlers without an associated executor
were dispatched through the service's io_context instead of the executor the
file had been given.
---
 include/asioext/basic_file.hpp                |  8 +--
 include/asioext/detail/service_base.hpp       | 12 ++---
 .../asioext/impl/thread_pool_file_service.cpp |  6 +--
 .../asioext/impl/thread_pool_file_service.hpp | 49 +++++++++++--------
 include/asioext/thread_pool_file_service.hpp  | 37 ++++++++------
 5 files changed, 64 insertions(+), 48 deletions(-)

diff --git a/include/asioext/basic_file.hpp b/include/asioext/basic_file.hpp
index 742377d..819843c 100644
--- a/include/asioext/basic_file.hpp
+++ b/include/asioext/basic_file.hpp
@@ -1103,7 +1103,7 @@ public:
                   ReadHandler&& handler)
   {
     return holder_.get_service().async_read_some(holder_.get_implementation(),
-        buffers, std::forward<ReadHandler>(handler));
+        buffers, std::forward<ReadHandler>(handler), holder_.get_executor());
   }
 
   /// @}
@@ -1158,7 +1158,7 @@ public:
                    WriteHandler&& handler)
   {
     return holder_.get_service().async_write_some(holder_.get_implementation(),
-        buffers, std::forward<WriteHandler>(handler));
+        buffers, std::forward<WriteHandler>(handler), holder_.get_executor());
   }
 
   /// @}
@@ -1213,7 +1213,7 @@ public:
                      ReadHandler&& handler)
   {
     return holder_.get_service().async_read_some_at(holder_.get_implementation(),
-        offset, buffers, std::forward<ReadHandler>(handler));
+        offset, buffers, std::forward<ReadHandler>(handler), holder_.get_executor());
   }
 
   /// @}
@@ -1266,7 +1266,7 @@ public:
                       WriteHandler&& handler)
   {
     return holder_.get_service().async_write_some_at(holder_.get_implementation(),
-        offset, buffers, std::forward<WriteHandler>(handler));
+        offset, buffers, std::forward<WriteHandler>(handler), holder_.get_executor());
   }
 
   /// @}
diff --git a/include/asioext/detail/service_base.hpp b/include/asioext/detail/service_base.hpp
index 0f331da..0ecbef0 100644
--- a/include/asioext/detail/service_base.hpp
+++ b/include/asioext/detail/service_base.hpp
@@ -13,9 +13,9 @@
 #endif
 
 #if defined(ASIOEXT_USE_BOOST_ASIO)
-# include <boost/asio/io_context.hpp>
+# include <boost/asio/execution_context.hpp>
 #else
-# include <asio/io_context.hpp>
+# include <asio/execution_context.hpp>
 #endif
 
 ASIOEXT_NS_BEGIN
@@ -27,19 +27,19 @@ struct service_id : asio::execution_context::id
 {};
 
 template <typename Service>
-class io_context_service_base : public asio::io_context::service
+class execution_context_service_base : public asio::execution_context::service
 {
 public:
   static service_id<Service> id;
 
   // Constructor.
-  io_context_service_base(asio::io_context& owner)
-    : asio::io_context::service(owner)
+  execution_context_service_base(asio::execution_context& owner)
+    : asio::execution_context::service(owner)
   {}
 };
 
 template <typename Service>
-service_id<Service> io_context_service_base<Service>::id;
+service_id<Service> execution_context_service_base<Service>::id;
 
 }
 
diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 0906740..f089d51 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -11,14 +11,14 @@
 ASIOEXT_NS_BEGIN
 
 thread_pool_file_service::thread_pool_file_service(
-    asio::io_context& owner, std::size_t num_threads)
-  : io_context_service_base(owner)
+    asio::execution_context& owner, std::size_t num_threads)
+  : execution_context_service_base(owner)
   , pool_(num_threads)
   , impl_list_(0)
 {
 }
 
-void thread_pool_file_service::shutdown_service()
+void thread_pool_file_service::shutdown()
 {
   // Close all implementations, causing all operations to complete.
   detail::mutex::scoped_lock lock(mutex_);
diff --git a/include/asioext/impl/thread_pool_file_service.hpp b/include/asioext/impl/thread_pool_file_service.hpp
index bdfa471..4761cc5 100644
--- a/include/asioext/impl/thread_pool_file_service.hpp
+++ b/include/asioext/impl/thread_pool_file_service.hpp
@@ -24,16 +24,16 @@ ASIOEXT_NS_BEGIN
 
 namespace detail {
 
-template <typename OperationImpl>
+template <typename OperationImpl, typename IoExecutor>
 class thread_pool_fs_op
 {
 public:
   thread_pool_fs_op(const cancellation_token_source& source,
                     OperationImpl& impl,
-                    thread_pool_file_service* svc)
+                    const IoExecutor& io_ex)
     : cancel_token_(source)
     , impl_(std::move(impl))
-    , svc_(svc)
+    , io_ex_(io_ex)
   {
     // ctor
   }
@@ -48,27 +48,28 @@ public:
     } else {
       bytes_transferred = impl_(ec);
     }
-    auto ex = get_associated_executor(self, svc_->get_io_context().get_executor());
+    auto ex = get_associated_executor(self, io_ex_);
     asio::post(ex, self.complete_to_bound_handler(ec, bytes_transferred));
   }
 
 private:
   cancellation_token cancel_token_;
   OperationImpl impl_;
-  thread_pool_file_service* svc_;
+  IoExecutor io_ex_;
 };
 
 struct thread_pool_fs_init
 {
-  template <typename Handler, typename Implementation>
+  template <typename Handler, typename Implementation, typename IoExecutor>
   void operator()(Handler&& handler,
                   Implementation&& impl,
                   const cancellation_token_source& source,
+                  const IoExecutor& io_ex,
                   thread_pool_file_service* svc)
   {
-    auto ex = get_associated_executor(handler, svc->get_io_context().get_executor());
+    auto ex = get_associated_executor(handler, io_ex);
     auto op = make_composed_operation(
-        thread_pool_fs_op<Implementation>(source, impl, svc),
+        thread_pool_fs_op<Implementation, IoExecutor>(source, impl, io_ex),
         std::move(handler), ex);
 
     asio::post(asio::bind_executor(svc->get_thread_pool(), std::move(op)));
@@ -159,53 +160,61 @@ size_t thread_pool_file_service::write_some_at(
   return impl.handle_.write_some_at(offset, buffers, ec);
 }
 
-template <typename MutableBufferSequence, typename CompletionToken>
+template <typename MutableBufferSequence, typename CompletionToken,
+          typename IoExecutor>
 ASIOEXT_INITFN_RESULT_TYPE(CompletionToken, void(error_code, std::size_t))
 thread_pool_file_service::async_read_some(implementation_type& impl,
                                           const MutableBufferSequence& buffers,
-                                          CompletionToken&& token)
+                                          CompletionToken&& token,
+                                          const IoExecutor& io_ex)
 {
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_read<MutableBufferSequence>{impl.handle_, buffers},
-      impl.cancel_token_, this);
+      impl.cancel_token_, io_ex, this);
 }
 
-template <typename ConstBufferSequence, typename CompletionToken>
+template <typename ConstBufferSequence, typename CompletionToken,
+          typename IoExecutor>
 ASIOEXT_INITFN_RESULT_TYPE(CompletionToken, void(error_code, std::size_t))
 thread_pool_file_service::async_write_some(implementation_type& impl,
                                            const ConstBufferSequence& buffers,
-                                           CompletionToken&& token)
+                                           CompletionToken&& token,
+                                           const IoExecutor& io_ex)
 {
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_write<ConstBufferSequence>{impl.handle_, buffers},
-      impl.cancel_token_, this);
+      impl.cancel_token_, io_ex, this);
 }
 
-template <typename MutableBufferSequence, typename CompletionToken>
+template <typename MutableBufferSequence, typename CompletionToken,
+          typename IoExecutor>
 ASIOEXT_INITFN_RESULT_TYPE(CompletionToken, void(error_code, std::size_t))
 thread_pool_file_service::async_read_some_at(
     implementation_type& impl, uint64_t offset,
     const MutableBufferSequence& buffers,
-    CompletionToken&& token)
+    CompletionToken&& token,
+    const IoExecutor& io_ex)
 {
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_read_at<MutableBufferSequence>{impl.handle_, offset, buffers},
-      impl.cancel_token_, this);
+      impl.cancel_token_, io_ex, this);
 }
 
-template <typename ConstBufferSequence, typename CompletionToken>
+template <typename ConstBufferSequence, typename CompletionToken,
+          typename IoExecutor>
 ASIOEXT_INITFN_RESULT_TYPE(CompletionToken, void(error_code, std::size_t))
 thread_pool_file_service::async_write_some_at(
     implementation_type& impl, uint64_t offset,
-    const ConstBufferSequence& buffers, CompletionToken&& token)
+    const ConstBufferSequence& buffers, CompletionToken&& token,
+    const IoExecutor& io_ex)
 {
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_write_at<ConstBufferSequence>{impl.handle_, offset, buffers},
-      impl.cancel_token_, this);
+      impl.cancel_token_, io_ex, this);
 }
 
 ASIOEXT_NS_END
diff --git a/include/asioext/thread_pool_file_service.hpp b/include/asioext/thread_pool_file_service.hpp
index 817d32f..157ba84 100644
--- a/include/asioext/thread_pool_file_service.hpp
+++ b/include/asioext/thread_pool_file_service.hpp
@@ -47,15 +47,15 @@ ASIOEXT_NS_BEGIN
 /// This FileService class uses a thread-pool to emulate asynchronous file I/O.
 class thread_pool_file_service
 #if !defined(ASIOEXT_IS_DOCUMENTATION)
-  : public asioext::detail::io_context_service_base<thread_pool_file_service>
+  : public asioext::detail::execution_context_service_base<thread_pool_file_service>
 #else
-  : public asio::io_context::service
+  : public asio::execution_context::service
 #endif
 {
 public:
 #if defined(ASIOEXT_IS_DOCUMENTATION)
   /// The unique service identifier.
-  static asio::io_context::id id;
+  static asio::execution_context::id id;
 #endif
 
 #if defined(ASIOEXT_IS_DOCUMENTATION)
@@ -92,17 +92,17 @@ public:
   };
 #endif
 
-  /// Construct a new file service for the specified io_context.
+  /// Construct a new file service for the specified execution context.
   ///
-  /// @param owner The io_context that owns this service object.
+  /// @param owner The execution context that owns this service object.
   ///
   /// @param num_threads The number of threads that shall be spawned to
   /// execute file I/O operations. Defaults to 1.
-  ASIOEXT_DECL explicit thread_pool_file_service(asio::io_context& owner,
+  ASIOEXT_DECL explicit thread_pool_file_service(asio::execution_context& owner,
                                                  std::size_t num_threads = 1);
 
   /// Destroy all user-defined handler objects owned by the service.
-  ASIOEXT_DECL void shutdown_service();
+  ASIOEXT_DECL void shutdown();
 
   /// Construct a new file implementation.
   ASIOEXT_DECL void construct(implementation_type& impl);
@@ -249,38 +249,45 @@ public:
                        const ConstBufferSequence& buffers,
                        error_code& ec) ASIOEXT_NOEXCEPT;
 
+  // In all of the following, io_ex is the executor handlers without an
+  // associated one are dispatched through.
+
   /// Start an asynchronous read. The buffer for the data being received must be
   /// valid for the lifetime of the asynchronous operation.
-  template <typename MutableBufferSequence, typename Handler>
+  template <typename MutableBufferSequence, typename Handler,
+            typename IoExecutor>
   ASIOEXT_INITFN_RESULT_TYPE(Handler, void(error_code, std::size_t))
   async_read_some(implementation_type& impl,
                   const MutableBufferSequence& buffers,
-                  Handler&& handler);
+                  Handler&& handler, const IoExecutor& io_ex);
 
   /// Start an asynchronous write. The data being written must be valid for the
   /// lifetime of the asynchronous operation.
-  template <typename ConstBufferSequence, typename Handler>
+  template <typename ConstBufferSequence, typename Handler,
+            typename IoExecutor>
   ASIOEXT_INITFN_RESULT_TYPE(Handler, void(error_code, std::size_t))
   async_write_some(implementation_type& impl,
                    const ConstBufferSequence& buffers,
-                   Handler&& handler);
+                   Handler&& handler, const IoExecutor& io_ex);
 
   /// Start an asynchronous read at a specified offset. The buffer for the data
   /// being received must be valid for the lifetime of the asynchronous
   /// operation.
-  template <typename MutableBufferSequence, typename Handler>
+  template <typename MutableBufferSequence, typename Handler,
+            typename IoExecutor>
   ASIOEXT_INITFN_RESULT_TYPE(Handler, void(error_code, std::size_t))
   async_read_some_at(implementation_type& impl, uint64_t offset,
                      const MutableBufferSequence& buffers,
-                     Handler&& handler);
+                     Handler&& handler, const IoExecutor& io_ex);
 
   /// Start an asynchronous write at a specified offset. The data being written
   /// must be valid for the lifetime of the asynchronous operation.
-  template <typename ConstBufferSequence, typename Handler>
+  template <typename ConstBufferSequence, typename Handler,
+            typename IoExecutor>
   ASIOEXT_INITFN_RESULT_TYPE(Handler, void(error_code, std::size_t))
   async_write_some_at(implementation_type& impl, uint64_t offset,
                       const ConstBufferSequence& buffers,
-                      Handler&& handler);
+                      Handler&& handler, const IoExecutor& io_ex);
 
   /// @private
   // This is needed for tests.
-- 
2.43.0


From dc5ab80db05b16cdd94e033f0e9c56da517a5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 04/38] fix: clear the error_code when cancelling a file
 succeeds

---
 include/asioext/impl/thread_pool_file_service.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index f089d51..e350d38 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -259,6 +259,7 @@ void thread_pool_file_service::cancel(implementation_type& impl,
 
   impl.cancel_token_.cancel();
   // TODO(tim): log handler operation
+  ec = error_code();
 }
 
 void thread_pool_file_service::close_for_destruction(implementation_type& impl)
-- 
2.43.0


From 7ddbc95ff4f4d27cd83a374f561cf228017e5fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 05/38] fix: don't terminate when closing fails in a file's
 destructor

---
 include/asioext/impl/thread_pool_file_service.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index e350d38..bfbc5e0 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -267,7 +267,9 @@ void thread_pool_file_service::close_for_destruction(implementation_type& impl)
   if (impl.handle_.is_open()) {
     // TODO(tim): log handler operation
     impl.cancel_token_.destroy();
-    impl.handle_.close();
+    // There is nobody to report an error to, and this runs in destructors.
+    error_code ec;
+    impl.handle_.close(ec);
   }
 }
 
-- 
2.43.0


From a3d71ff46968d19a67dccea62324c728d157edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 06/38] fix: keep a moved-from file usable

Move construction left it with a destroyed cancellation token source, so every
operation started after opening it again was aborted.
---
 include/asioext/impl/thread_pool_file_service.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index bfbc5e0..7e466c0 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -8,6 +8,8 @@
 
 #include "asioext/detail/error.hpp"
 
+#include <utility>
+
 ASIOEXT_NS_BEGIN
 
 thread_pool_file_service::thread_pool_file_service(
@@ -48,8 +50,8 @@ void thread_pool_file_service::move_construct(
   impl.handle_ = other_impl.handle_;
   other_impl.handle_.clear();
 
-  impl.cancel_token_ =
-      ASIOEXT_MOVE_CAST(cancellation_token_source)(other_impl.cancel_token_);
+  // The moved-from object gets our fresh token source, so it can be used again.
+  std::swap(impl.cancel_token_, other_impl.cancel_token_);
 
   // Insert implementation into linked list of all implementations.
   detail::mutex::scoped_lock lock(mutex_);
-- 
2.43.0


From c8a369e73fc85b70a5efc00852c2403be2c4f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 07/38] fix: cancel unstarted operations when a file is closed

They kept the descriptor and went on to use it after it had been closed, when it
may already belong to another file.
---
 include/asioext/impl/thread_pool_file_service.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 7e466c0..44e4f97 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -168,6 +168,9 @@ void thread_pool_file_service::assign(implementation_type& impl,
 void thread_pool_file_service::close(implementation_type& impl,
                                      error_code& ec) ASIOEXT_NOEXCEPT
 {
+  // Operations that haven't started yet must not use the closed handle.
+  if (impl.handle_.is_open())
+    impl.cancel_token_.cancel();
   impl.handle_.close(ec);
 }
 
-- 
2.43.0


From 3264405e794e1d7fae9225c943b053ea85b9d969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 08/38] fix: move pending operations along in move assignment

The target kept its own, possibly destroyed, cancellation token source: operations
of the source file could no longer be cancelled, and operations started on a target
that had been open before were aborted.
---
 include/asioext/impl/thread_pool_file_service.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 44e4f97..b16992f 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -84,6 +84,10 @@ void thread_pool_file_service::move_assign(
   impl.handle_ = other_impl.handle_;
   other_impl.handle_.clear();
 
+  // The pending operations move along, so they have to be cancelled through us.
+  impl.cancel_token_.reset();
+  std::swap(impl.cancel_token_, other_impl.cancel_token_);
+
   if (this != &other_service) {
     // Insert implementation into linked list of all implementations.
     detail::mutex::scoped_lock lock(other_service.mutex_);
-- 
2.43.0


From 64e742ea6bc2fcec5cc26bee880e7eea6f2c0cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 09/38] fix: end all operations when a file service is shut
 down

shutdown() only told the thread pool to stop: operations being executed could
still complete through services that were already destroyed, and operations
that were never executed destroyed their handlers (and executors, and files)
after the services these refer to.
---
 .../asioext/impl/thread_pool_file_service.cpp | 12 ++++++----
 include/asioext/thread_pool_file_service.hpp  | 23 ++++++++++++++++---
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index b16992f..5b37604 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -15,19 +15,23 @@ ASIOEXT_NS_BEGIN
 thread_pool_file_service::thread_pool_file_service(
     asio::execution_context& owner, std::size_t num_threads)
   : execution_context_service_base(owner)
-  , pool_(num_threads)
   , impl_list_(0)
+  , pool_(num_threads)
 {
 }
 
 void thread_pool_file_service::shutdown()
 {
-  // Close all implementations, causing all operations to complete.
+  // All operations have to be gone before any service of our execution context
+  // is destroyed: They own handlers, their executors and maybe files.
+  pool_.stop();
+  pool_.join();
+  pool_.shutdown();
+
+  // Close all implementations.
   detail::mutex::scoped_lock lock(mutex_);
   for (implementation_type* cur = impl_list_; cur; cur = cur->next_)
     close_for_destruction(*cur);
-
-  pool_.stop();
 }
 
 void thread_pool_file_service::construct(implementation_type& impl)
diff --git a/include/asioext/thread_pool_file_service.hpp b/include/asioext/thread_pool_file_service.hpp
index 157ba84..2539963 100644
--- a/include/asioext/thread_pool_file_service.hpp
+++ b/include/asioext/thread_pool_file_service.hpp
@@ -301,14 +301,31 @@ private:
   // destroyed.
   ASIOEXT_DECL void close_for_destruction(implementation_type& impl);
 
-  // The thread pool.
-  asio::thread_pool pool_;
-
   // Mutex to protect access to the linked list of implementations.
   detail::mutex mutex_;
 
   // The head of a linked list of all implementations.
   implementation_type* impl_list_;
+
+  // Unlike asio::thread_pool, this allows destroying operations that were never
+  // executed before the pool itself is destroyed.
+  class pool : public asio::thread_pool
+  {
+  public:
+    explicit pool(std::size_t num_threads)
+      : asio::thread_pool(num_threads)
+    {
+      // ctor
+    }
+
+    void shutdown()
+    {
+      asio::thread_pool::shutdown();
+    }
+  };
+
+  // The thread pool.
+  pool pool_;
 };
 
 ASIOEXT_NS_END
-- 
2.43.0


From c0a5005d20198561e22d9b1e76c15383300cea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 10/38] fix: don't cancel tokens when resetting a live
 cancellation_token_source

---
 include/asioext/impl/cancellation_token.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/cancellation_token.cpp b/include/asioext/impl/cancellation_token.cpp
index 250ea19..86ead2f 100644
--- a/include/asioext/impl/cancellation_token.cpp
+++ b/include/asioext/impl/cancellation_token.cpp
@@ -55,7 +55,8 @@ void cancellation_token_source::destroy() ASIOEXT_NOEXCEPT
 
 void cancellation_token_source::reset()
 {
-  if (!ptr_)
+  // The stored pointer is always null, only ownership matters.
+  if (ptr_.use_count() == 0)
     ptr_.reset(static_cast<void*>(0), detail::null_deleter());
 }
 
-- 
2.43.0


From d660277dad8eec89725d20b1d6f25ebb91162855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 11/38] fix: don't revive a destroyed cancellation_token_source
 in cancel()

---
 include/asioext/impl/cancellation_token.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/cancellation_token.cpp b/include/asioext/impl/cancellation_token.cpp
index 86ead2f..3c430d1 100644
--- a/include/asioext/impl/cancellation_token.cpp
+++ b/include/asioext/impl/cancellation_token.cpp
@@ -45,7 +45,9 @@ cancellation_token_source& cancellation_token_source::operator=(
 
 void cancellation_token_source::cancel()
 {
-  ptr_.reset(static_cast<void*>(0), detail::null_deleter());
+  // A destroyed source stays destroyed until it's reset().
+  if (ptr_.use_count() != 0)
+    ptr_.reset(static_cast<void*>(0), detail::null_deleter());
 }
 
 void cancellation_token_source::destroy() ASIOEXT_NOEXCEPT
-- 
2.43.0


From d75cf2419747ab3c08cf97843279ed610c0c2239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 12/38] fix: make assigning a handler to a unique_handler
 compile

The new handler is also stored before the old one is destroyed, so a failing
allocation doesn't leave a dangling pointer behind.
---
 include/asioext/unique_handler.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/asioext/unique_handler.hpp b/include/asioext/unique_handler.hpp
index 07445ca..89dba4b 100644
--- a/include/asioext/unique_handler.hpp
+++ b/include/asioext/unique_handler.hpp
@@ -139,12 +139,13 @@ public:
   template <typename Handler>
   unique_handler& operator=(Handler&& handler)
   {
-    if (storage_)
-      storage_->abort(storage_);
+    storage_base* storage =
+        new (detail::allocate_operation<storage_impl<std::decay_t<Handler>>,
+                                        std::decay_t<Handler>>(handler))
+            storage_impl<std::decay_t<Handler>>(handler);
 
-    storage_ = new (detail::allocate_operation<storage_impl<std::decay_t<Handler>>,
-                                               Handler>(handler))
-        storage_impl<std::decay_t<Handler>>(std::move(handler));
+    reset();
+    storage_ = storage;
     return *this;
   }
 
-- 
2.43.0


From 1c7e6e8230aa3a5aeb2d2c8ff05919d6d2e0b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 13/38] fix: don't leak memory when storing a handler in a
 unique_handler fails

---
 include/asioext/unique_handler.hpp | 34 ++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/asioext/unique_handler.hpp b/include/asioext/unique_handler.hpp
index 89dba4b..4239b7a 100644
--- a/include/asioext/unique_handler.hpp
+++ b/include/asioext/unique_handler.hpp
@@ -77,9 +77,7 @@ public:
   /// It is moved-constructed into @c unique_handler-owned storage.
   template <typename Handler>
   unique_handler(Handler&& handler)
-    : storage_(new (detail::allocate_operation<storage_impl<std::decay_t<Handler>>,
-                                                            std::decay_t<Handler>>(handler))
-        storage_impl<std::decay_t<Handler>>(handler))
+    : storage_(storage_impl<std::decay_t<Handler>>::create(handler))
   {}
 
   /// @brief Destroy a @c unique_handler.
@@ -140,9 +138,7 @@ public:
   unique_handler& operator=(Handler&& handler)
   {
     storage_base* storage =
-        new (detail::allocate_operation<storage_impl<std::decay_t<Handler>>,
-                                        std::decay_t<Handler>>(handler))
-            storage_impl<std::decay_t<Handler>>(handler);
+        storage_impl<std::decay_t<Handler>>::create(handler);
 
     reset();
     storage_ = storage;
@@ -200,6 +196,32 @@ private:
       this->complete = do_complete;
     }
 
+    static storage_impl* create(Handler& handler)
+    {
+      // Returns the memory if moving the handler throws.
+      struct allocation
+      {
+        explicit allocation(Handler& h)
+          : handler(h)
+          , ptr(detail::allocate_operation<storage_impl, Handler>(h))
+        {}
+
+        ~allocation()
+        {
+          if (ptr)
+            detail::deallocate_operation(ptr, handler);
+        }
+
+        Handler& handler;
+        storage_impl* ptr;
+      };
+
+      allocation a(handler);
+      storage_impl* self = new (a.ptr) storage_impl(handler);
+      a.ptr = nullptr;
+      return self;
+    }
+
     static void do_abort(storage_base* self)
     {
       storage_impl* self_impl = static_cast<storage_impl*>(self);
-- 
2.43.0


From c800adbe970deeb2b9e6d8bb97f4e9c884e7c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 14/38] fix: move the tail out of the way in
 linear_buffer::insert()

---
 include/asioext/impl/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 5153cf3..6492b11 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -88,8 +88,8 @@ void basic_linear_buffer<Allocator>::insert(std::size_t before_this,
                   size_ - before_this);
     });
   } else {
-    std::memmove(rep_.data_ + before_this,
-                 rep_.data_ + before_this + n,
+    std::memmove(rep_.data_ + before_this + n,
+                 rep_.data_ + before_this,
                  size_ - before_this);
     std::memcpy(rep_.data_ + before_this, data, n);
   }
-- 
2.43.0


From b530983c222a37e2fbdccf7990fdb09513803963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 15/38] fix: linear_buffer move assignment

It leaked the old storage if the allocator propagates, recursed endlessly
if the allocators are equal and otherwise didn't empty the source.
---
 include/asioext/impl/linear_buffer.hpp | 46 ++++++++++++++++++++------
 include/asioext/linear_buffer.hpp      | 18 ++++++----
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 6492b11..fb8bfe0 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -45,8 +45,14 @@ basic_linear_buffer<Allocator>& basic_linear_buffer<Allocator>::operator=(
 
 template <typename Allocator>
 basic_linear_buffer<Allocator>& basic_linear_buffer<Allocator>::operator=(
-    basic_linear_buffer&& other) ASIOEXT_NOEXCEPT
+    basic_linear_buffer&& other)
+  ASIOEXT_NOEXCEPT_IF(
+      allocator_traits_type::propagate_on_container_move_assignment::value ||
+      allocator_traits_type::is_always_equal::value)
 {
+  if (this == &other)
+    return *this;
+
   move_assign(other, std::integral_constant<bool,
       allocator_traits_type::propagate_on_container_move_assignment::value>());
   return *this;
@@ -148,31 +154,41 @@ void basic_linear_buffer<Allocator>::resize(std::size_t new_size)
 template <typename Allocator>
 void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
                                                  std::false_type)
-#if defined(ASIOEXT_HAS_ALLOCATOR_ALWAYS_EQUAL)
   ASIOEXT_NOEXCEPT_IF(allocator_traits_type::is_always_equal::value)
-#endif
 {
   if (static_cast<allocator_type&>(rep_) !=
       static_cast<allocator_type&>(other.rep_)) {
-    if (rep_.data_)
-      allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+    // We can't take over the storage, so we have to copy the data.
+    if (other.size_ > capacity_ || capacity_ > other.max_size_)
+      reallocate(other.size_, [] (uint8_t*) {});
+
+    if (other.size_ != 0)
+      std::memcpy(rep_.data_, other.rep_.data_, other.size_);
 
-    capacity_ = other.capacity_;
     size_ = other.size_;
-    rep_.data_ = allocator_traits_type::allocate(rep_, capacity_);
-    std::memcpy(rep_.data_, other.rep_.data_, size_);
+    max_size_ = other.max_size_;
+    other.release();
   } else {
-    move_assign(other, std::false_type());
+    take_storage(other);
   }
 }
 
 template <typename Allocator>
 void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
                                                  std::true_type)
-  ASIOEXT_NOEXCEPT_IF(std::is_nothrow_move_assignable<allocator_type>::value)
+  ASIOEXT_NOEXCEPT
 {
+  release();
   static_cast<allocator_type&>(rep_) =
       std::move(static_cast<allocator_type&>(other.rep_));
+  take_storage(other);
+}
+
+template <typename Allocator>
+void basic_linear_buffer<Allocator>::take_storage(
+    basic_linear_buffer& other) ASIOEXT_NOEXCEPT
+{
+  release();
   rep_.data_ = other.rep_.data_;
   capacity_ = other.capacity_;
   size_ = other.size_;
@@ -181,6 +197,16 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
   other.capacity_ = other.size_ = 0;
 }
 
+template <typename Allocator>
+void basic_linear_buffer<Allocator>::release() ASIOEXT_NOEXCEPT
+{
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+
+  rep_.data_ = nullptr;
+  capacity_ = size_ = 0;
+}
+
 template <typename Allocator>
 template <typename Function>
 void basic_linear_buffer<Allocator>::reallocate(std::size_t cap, Function&& fn)
diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 89139b2..43621ca 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -154,7 +154,10 @@ public:
   ///
   /// After the move, @c other is an empty buffer with no allocated memory
   /// (as-if just default-constructed).
-  basic_linear_buffer& operator=(basic_linear_buffer&& other) ASIOEXT_NOEXCEPT;
+  basic_linear_buffer& operator=(basic_linear_buffer&& other)
+    ASIOEXT_NOEXCEPT_IF(
+        allocator_traits_type::propagate_on_container_move_assignment::value ||
+        allocator_traits_type::is_always_equal::value);
 
   /// @brief Get the size of the input sequence.
   std::size_t size() const ASIOEXT_NOEXCEPT
@@ -396,13 +399,16 @@ private:
   };
 
   void move_assign(basic_linear_buffer& other, std::false_type)
-#if defined(ASIOEXT_HAS_ALLOCATOR_ALWAYS_EQUAL)
-    ASIOEXT_NOEXCEPT_IF(allocator_traits_type::is_always_equal::value)
-#endif
-    ;
+    ASIOEXT_NOEXCEPT_IF(allocator_traits_type::is_always_equal::value);
 
   void move_assign(basic_linear_buffer& other, std::true_type)
-    ASIOEXT_NOEXCEPT_IF(std::is_nothrow_move_assignable<allocator_type>::value);
+    ASIOEXT_NOEXCEPT;
+
+  // Take over the storage of other, whose allocator is equal to ours.
+  void take_storage(basic_linear_buffer& other) ASIOEXT_NOEXCEPT;
+
+  // Deallocate all memory.
+  void release() ASIOEXT_NOEXCEPT;
 
   template <typename Function>
   void reallocate(std::size_t cap, Function&& cb);
-- 
2.43.0


From 63085b36557f55d8905937698e621c58e263be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 16/38] fix: don't deallocate a null pointer in linear_buffer

---
 include/asioext/impl/linear_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index fb8bfe0..05f0d4c 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -213,7 +213,8 @@ void basic_linear_buffer<Allocator>::reallocate(std::size_t cap, Function&& fn)
 {
   uint8_t* new_buffer = allocator_traits_type::allocate(rep_, cap);
   fn(new_buffer);
-  allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
   rep_.data_ = new_buffer;
   capacity_ = cap;
 }
-- 
2.43.0


From 6079f08f2bb414b6c05bc09fa1c41400b6b5ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 17/38] fix: respect the maximum size in linear_buffer's
 constructors

---
 include/asioext/impl/linear_buffer.hpp | 9 +++++++++
 include/asioext/linear_buffer.hpp      | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 05f0d4c..f43dc65 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -184,6 +184,15 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
   take_storage(other);
 }
 
+template <typename Allocator>
+void basic_linear_buffer<Allocator>::check_initial_size() const
+{
+  if (size_ > max_size_) {
+    std::length_error ex("basic_linear_buffer too long");
+    detail::throw_exception(ex);
+  }
+}
+
 template <typename Allocator>
 void basic_linear_buffer<Allocator>::take_storage(
     basic_linear_buffer& other) ASIOEXT_NOEXCEPT
diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 43621ca..0c4fab8 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -93,6 +93,8 @@ public:
   ///
   /// @param initial_size The initial size that the buffer starts with.
   /// @param maximum_size Specifies a maximum size for the buffer, in bytes.
+  ///
+  /// @throws std::length_error If <tt>initial_size > maximum_size</tt>.
   basic_linear_buffer(std::size_t initial_size,
                         std::size_t maximum_size =
                             (std::numeric_limits<std::size_t>::max)())
@@ -102,6 +104,7 @@ public:
     , max_size_((std::min)(allocator_traits_type::max_size(rep_),
                            maximum_size))
   {
+    check_initial_size();
     rep_.data_ = allocator_traits_type::allocate(rep_, initial_size);
   }
 
@@ -110,6 +113,8 @@ public:
   /// @param a The allocator that shall be used to allocate the buffer's storage.
   /// @param initial_size The initial size that the buffer starts with.
   /// @param maximum_size Specifies a maximum size for the buffer, in bytes.
+  ///
+  /// @throws std::length_error If <tt>initial_size > maximum_size</tt>.
   basic_linear_buffer(const Allocator& a, std::size_t initial_size,
                         std::size_t maximum_size =
                             (std::numeric_limits<std::size_t>::max)())
@@ -119,6 +124,7 @@ public:
     , max_size_((std::min)(allocator_traits_type::max_size(rep_),
                            maximum_size))
   {
+    check_initial_size();
     rep_.data_ = allocator_traits_type::allocate(rep_, initial_size);
   }
 
@@ -404,6 +410,8 @@ private:
   void move_assign(basic_linear_buffer& other, std::true_type)
     ASIOEXT_NOEXCEPT;
 
+  void check_initial_size() const;
+
   // Take over the storage of other, whose allocator is equal to ours.
   void take_storage(basic_linear_buffer& other) ASIOEXT_NOEXCEPT;
 
-- 
2.43.0


From d19eddd86fb7eec1fd3b0d9bc2b975db16337ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 18/38] fix: dynamic_linear_buffer::data() before the first
 prepare()

---
 include/asioext/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 0c4fab8..abe1c96 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -536,7 +536,7 @@ public:
   /// member function that modifies the input sequence or output sequence.
   mutable_buffers_type data() ASIOEXT_NOEXCEPT
   {
-    return mutable_buffers_type(data_.data(), size_);
+    return mutable_buffers_type(data_.data(), size());
   }
 
   /// Get a list of buffers that represents the input sequence.
@@ -549,7 +549,7 @@ public:
   /// member function that modifies the input sequence or output sequence.
   const_buffers_type data() const ASIOEXT_NOEXCEPT
   {
-    return const_buffers_type(data_.data(), size_);
+    return const_buffers_type(data_.data(), size());
   }
 #endif
 
-- 
2.43.0


From f958273376e3387e961b16a03ed70fc6a0cfa58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 19/38] fix: clip dynamic_linear_buffer::data(pos, n) to the
 buffer's size

---
 include/asioext/linear_buffer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index abe1c96..30df004 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -569,10 +569,10 @@ public:
   ///
   mutable_buffers_type data(std::size_t pos, std::size_t n) ASIOEXT_NOEXCEPT
   {
-    const std::size_t siz = data_.size();
+    const std::size_t siz = (std::min)(data_.size(), max_size_);
     if (pos > siz)
       pos = siz;
-    if (pos + n > siz)
+    if (n > siz - pos)
       n = siz - pos;
     return mutable_buffers_type(data_.data() + pos, n);
   }
@@ -590,10 +590,10 @@ public:
    */
   const_buffers_type data(std::size_t pos, std::size_t n) const ASIOEXT_NOEXCEPT
   {
-    const std::size_t siz = data_.size();
+    const std::size_t siz = (std::min)(data_.size(), max_size_);
     if (pos > siz)
       pos = siz;
-    if (pos + n > siz)
+    if (n > siz - pos)
       n = siz - pos;
     return const_buffers_type(data_.data() + pos, n);
   }
-- 
2.43.0


From 3b2596e3563e4cb401a2e93d51c6b9ce069efa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 20/38] fix: clear the error_code when getting a standard
 stream succeeds

---
 include/asioext/detail/impl/posix_file_ops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 3a036df..9a3d6af 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -299,16 +299,19 @@ handle_type duplicate(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
 
 handle_type get_stdin(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDIN_FILENO;
 }
 
 handle_type get_stdout(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDOUT_FILENO;
 }
 
 handle_type get_stderr(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDERR_FILENO;
 }
 
-- 
2.43.0


From 970b68af3986a543db24933066b99d609d282479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 21/38] fix: reject invalid open_args without calling open()

---
 include/asioext/detail/impl/posix_file_ops.cpp | 5 +++++
 include/asioext/impl/open_args.hpp             | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 9a3d6af..bfd1ab8 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -240,6 +240,11 @@ int parse_open_flags(open_flags flags) ASIOEXT_NOEXCEPT
 handle_type open(const char* path, const open_args& args,
                  error_code& ec) ASIOEXT_NOEXCEPT
 {
+  if (!args.is_valid()) {
+    set_error(ec, EINVAL);
+    return -1;
+  }
+
   mode_t mode = static_cast<mode_t>(args.mode());
   while (true) {
     handle_type fd = ::open(path, O_CLOEXEC | args.native_flags(), mode);
diff --git a/include/asioext/impl/open_args.hpp b/include/asioext/impl/open_args.hpp
index fb6fd43..19fc783 100644
--- a/include/asioext/impl/open_args.hpp
+++ b/include/asioext/impl/open_args.hpp
@@ -45,6 +45,8 @@ inline open_args::open_args(open_flags flags, file_perms perms,
     creation_disposition_ = 0xffffffff;
 #else
     native_flags_ = -1;
+    mode_ = 0;
+    attrs_ = 0;
 #endif
   }
 }
-- 
2.43.0


From e037670fd814467ad853eb6d62245b43ca401e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 22/38] fix: don't leak the new handle when
 unique_file_handle::reset() fails

---
 include/asioext/impl/unique_file_handle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/unique_file_handle.cpp b/include/asioext/impl/unique_file_handle.cpp
index 2a53dae..2ef014b 100644
--- a/include/asioext/impl/unique_file_handle.cpp
+++ b/include/asioext/impl/unique_file_handle.cpp
@@ -67,9 +67,9 @@ void unique_file_handle::reset(file_handle handle)
 void unique_file_handle::reset(file_handle handle,
                                error_code& ec) ASIOEXT_NOEXCEPT
 {
+  // We own |handle| now, even if closing the previous one failed.
   close(ec);
-  if (!ec)
-    handle_ = handle;
+  handle_ = handle;
 }
 
 ASIOEXT_NS_END
-- 
2.43.0


From bf5d67596a85cd45ebf1a34769a1ffae5cce6a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 23/38] fix: don't terminate when the container passed to
 read_file() throws

---
 include/asioext/impl/read_file.hpp | 3 +--
 include/asioext/read_file.hpp      | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/asioext/impl/read_file.hpp b/include/asioext/impl/read_file.hpp
index 0b572fa..5e32555 100644
--- a/include/asioext/impl/read_file.hpp
+++ b/include/asioext/impl/read_file.hpp
@@ -99,8 +99,7 @@ ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
 
 template <class RawByteContainer>
 ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
-    read_file(file_handle file, RawByteContainer& c,
-              error_code& ec) ASIOEXT_NOEXCEPT
+    read_file(file_handle file, RawByteContainer& c, error_code& ec)
 {
   const uint64_t size = file.size(ec);
   if (ec) return;
diff --git a/include/asioext/read_file.hpp b/include/asioext/read_file.hpp
index 1e00625..9756022 100644
--- a/include/asioext/read_file.hpp
+++ b/include/asioext/read_file.hpp
@@ -151,8 +151,7 @@ ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
 /// the object is reset.
 template <class RawByteContainer>
 ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
-    read_file(file_handle file, RawByteContainer& c,
-              error_code& ec) ASIOEXT_NOEXCEPT;
+    read_file(file_handle file, RawByteContainer& c, error_code& ec);
 
 /// @}
 
-- 
2.43.0


From ecda48d70b34ef6e00ac88b7678beecadc35ebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 24/38] fix: report errors when closing the file in
 write_file()

---
 include/asioext/impl/write_file.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/asioext/impl/write_file.hpp b/include/asioext/impl/write_file.hpp
index e7adef3..d31d8b1 100644
--- a/include/asioext/impl/write_file.hpp
+++ b/include/asioext/impl/write_file.hpp
@@ -43,6 +43,10 @@ ASIOEXT_DETAIL_WRITEFILE_BUF_RET(ConstBufferSequence)
                                  open_flags::create_always, ec);
   if (!ec)
     asio::write(file, buffers, ec);
+
+  // The data might only be written when the file is closed.
+  if (!ec)
+    file.close(ec);
 }
 
 #if defined(ASIOEXT_WINDOWS)  || defined(ASIOEXT_IS_DOCUMENTATION)
@@ -65,6 +69,10 @@ ASIOEXT_DETAIL_WRITEFILE_BUF_RET(ConstBufferSequence)
                                  open_flags::create_always, ec);
   if (!ec)
     asio::write(file, buffers, ec);
+
+  // The data might only be written when the file is closed.
+  if (!ec)
+    file.close(ec);
 }
 #endif
 
@@ -90,6 +98,10 @@ ASIOEXT_DETAIL_WRITEFILE_BUF_RET(ConstBufferSequence)
                                  open_flags::create_always, ec);
   if (!ec)
     asio::write(file, buffers, ec);
+
+  // The data might only be written when the file is closed.
+  if (!ec)
+    file.close(ec);
 }
 #endif
 
-- 
2.43.0


From 36b09b02cbfaa5c108350fcf8e76d99377106c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 25/38] fix: make compose_time() accept times before the epoch

---
 include/asioext/detail/impl/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index ccd4d19..1ec1a35 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -161,7 +161,7 @@ bool compose_time(const FirstDuration& first, const SecondDuration& second,
       first.count() == values_type::min_first() - 1) {
     if (second.count() < values_type::min_second())
       return false;
-  } else if (first.count() < values_type::min_second()) {
+  } else if (first.count() < values_type::min_first()) {
     return false;
   }
 
-- 
2.43.0


From 3c13bf5f19db3ac5c6a1b2f625a5a1cc727e75da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 26/38] fix: socks: a SOCKS5 general failure or unknown status
 is an error

Status 1 (general SOCKS server failure) and the unassigned ones were
reported as success.
---
 include/asioext/socks/detail/client.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 2677119..03df7a4 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -358,6 +358,7 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
           case 6: ec = asio::error::timed_out; break;
           case 7: ec = error::command_not_supported; break;
           case 8: ec = asio::error::address_family_not_supported; break;
+          default: ec = error::generic; break;
         }
         self.complete(ec);
         return;
-- 
2.43.0


From 8643354df5eeb683b5674c4ec2f83f9e17fcb010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 27/38] fix: socks: reject SOCKS5 replies with an unknown
 address type

The size of the address cannot be known; a wrong number of bytes was read
from the stream and the exchange reported as successful.
---
 include/asioext/socks/detail/client.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 03df7a4..d7f684b 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -381,6 +381,9 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
         size = 16 - 1;
         break;
       }
+      default:
+        self.complete(error::generic);
+        return;
     }
 
     ASIOEXT_CORO_YIELD asio::async_read(socket_, buffer_.prepare(size + 2),
-- 
2.43.0


From 5909904a591c088c9226578267a773ce83aaeedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 28/38] fix: socks: an unknown SOCKS4 status is an error

---
 include/asioext/socks/detail/client.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index d7f684b..7d25b99 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -110,6 +110,7 @@ void v4_exec_op<Socket, DynamicBuffer>::operator()(
       case 0x5b: ec = error::generic; break;
       case 0x5c: ec = error::identd_not_reachable; break;
       case 0x5d: ec = error::login_failed; break;
+      default: ec = error::generic; break;
     }
 
     self.complete(ec);
-- 
2.43.0


From 0b8f872d5186334a0ba7bba1200448fdc4642f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 29/38] fix: socks: send a SOCKS4 request for SOCKS4 commands

The SOCKS5 encoder was called (writing past the prepared buffer), and the
port was always 0.
---
 include/asioext/socks/detail/client.hpp | 2 +-
 include/asioext/socks/impl/client.hpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 7d25b99..b022e38 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -52,7 +52,7 @@ public:
 
     if (0 != size) {
       asio::mutable_buffer buf = buffer_.prepare(size);
-      encode_exec_packet(cmd, remote, remote_host, port,
+      encode_exec_packet(cmd, remote, remote_host, port, user_id,
                          static_cast<uint8_t*>(buf.data()));
       buffer_.commit(size);
     }
diff --git a/include/asioext/socks/impl/client.hpp b/include/asioext/socks/impl/client.hpp
index ccc6d1b..db8966d 100644
--- a/include/asioext/socks/impl/client.hpp
+++ b/include/asioext/socks/impl/client.hpp
@@ -25,7 +25,7 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, remote, std::string(), 0, user_id, buffer),
+          socket, cmd, remote, std::string(), remote.port(), user_id, buffer),
       handler, socket
   );
 }
@@ -40,7 +40,7 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, asio::ip::tcp::endpoint(), remote, 0, user_id, buffer),
+          socket, cmd, asio::ip::tcp::endpoint(), remote, port, user_id, buffer),
       handler, socket
   );
 }
-- 
2.43.0


From 4d89c7258bb6134053951db10f83f5f1ce74e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 30/38] fix: socks: reject SOCKS4 user ids and hosts with
 embedded nulls

They end the string early, so that the rest of it was sent as another part
of the request.
---
 include/asioext/socks/detail/impl/protocol.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/socks/detail/impl/protocol.cpp b/include/asioext/socks/detail/impl/protocol.cpp
index 008834e..8017b7d 100644
--- a/include/asioext/socks/detail/impl/protocol.cpp
+++ b/include/asioext/socks/detail/impl/protocol.cpp
@@ -19,6 +19,11 @@ std::size_t get_exec_packet_size(const asio::ip::tcp::endpoint& remote,
   if (remote_host.empty() && remote.protocol() != asio::ip::tcp::v4())
     return 0;
 
+  // Both are sent as null-terminated strings.
+  if (user_id.find('\0') != std::string::npos ||
+      remote_host.find('\0') != std::string::npos)
+    return 0;
+
   std::size_t size = 1 + 1 + 2 + 4;
   size += user_id.size() + 1;
 
-- 
2.43.0


From b5f470657ec5629664b4f98e3597a33e5171a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 31/38] fix: buffered_stream: compile with standalone Asio

---
 include/asioext/experimental/buffered_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 5fc9ea8..d637651 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -325,7 +325,7 @@ buffered_stream<Stream, Allocator>::async_fill(ReadHandler&& handler)
 
 template <typename Stream, typename Allocator>
 typename buffered_stream<Stream, Allocator>::buffer_type*
-buffered_stream<Stream, Allocator>::lock_write_buffers(boost::system::error_code& ec)
+buffered_stream<Stream, Allocator>::lock_write_buffers(error_code& ec)
 {
   if (flush_pending_) {
     ec = asio::error::already_started;
-- 
2.43.0


From 3d9570bcc4d1e2a47b37c86f077bc0e0c1297659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 32/38] fix: buffered_stream: flush() ignores what the
 error_code held before

With an error in it nothing was flushed, and every later flush failed with
already_started.
---
 include/asioext/experimental/buffered_stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index d637651..0c1d9cc 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -343,6 +343,7 @@ buffered_stream<Stream, Allocator>::lock_write_buffers(error_code& ec)
   }
 
   flush_pending_ = true;
+  ec = error_code();
   return &write_buffer_locked_;
 }
 
-- 
2.43.0


From 364457d7b2fe4d68e41fc9f2ced22d1cf9206767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 33/38] fix: connect() reports not_found when there is no
 endpoint, as documented

---
 include/asioext/impl/connect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/impl/connect.cpp b/include/asioext/impl/connect.cpp
index 387eb97..f69f599 100644
--- a/include/asioext/impl/connect.cpp
+++ b/include/asioext/impl/connect.cpp
@@ -33,7 +33,7 @@ void connect(asio::ip::tcp::socket::lowest_layer_type& socket,
     return;
 
   // Try each endpoint until we successfully establish a connection.
-  ec = asio::error::host_not_found;
+  ec = asio::error::not_found;
   for (const auto& entry : results) {
     socket.close(ec);
     socket.connect(entry, ec);
-- 
2.43.0


From edba8725ba1beeb77f3e18bd690293edb15df969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 34/38] fix: buffered_stream: async_flush() that cannot be
 started leaves no flush pending

---
 include/asioext/experimental/buffered_stream.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 0c1d9cc..5061573 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -260,6 +260,17 @@ private:
   buffer_type* lock_write_buffers(error_code& ec);
   void unlock_write_buffers(std::size_t bytes_written);
 
+  struct unlock_guard
+  {
+    ~unlock_guard()
+    {
+      if (stream_)
+        stream_->unlock_write_buffers(0);
+    }
+
+    buffered_stream* stream_;
+  };
+
   Stream stream_;
 
   bool flush_pending_ = false;
@@ -298,9 +309,14 @@ buffered_stream<Stream, Allocator>::async_flush(WriteHandler&& handler)
       unlock_write_buffers(size);
       self.complete(ec, size);
     };
+
+    // If the write can't be started (e.g. because there's no memory for it)
+    // it won't ever complete.
+    unlock_guard guard = { this };
     asio::async_write(stream_, asio::dynamic_buffer(*buffer),
                       asioext::make_composed_operation(std::move(op),
                                                        std::move(handler)));
+    guard.stream_ = nullptr;
   };
   return asioext::async_initiate<WriteHandler, void (error_code, std::size_t)>(
     init, handler);
-- 
2.43.0


From c39f66c5597000c121bd7a09090bf72c2aac5c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:40 +0000
Subject: [PATCH 35/38] fix: buffered_stream: async_fill() that cannot be
 started leaves no bytes behind

---
 .../asioext/experimental/buffered_stream.hpp  | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 5061573..e8f02c2 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -271,6 +271,18 @@ private:
     buffered_stream* stream_;
   };
 
+  struct shrink_guard
+  {
+    ~shrink_guard()
+    {
+      if (buffer_)
+        buffer_->resize(size_);
+    }
+
+    buffer_type* buffer_;
+    std::size_t size_;
+  };
+
   Stream stream_;
 
   bool flush_pending_ = false;
@@ -334,9 +346,16 @@ template <typename ReadHandler>
 ASIOEXT_INITFN_RESULT_TYPE(ReadHandler, void(error_code, std::size_t))
 buffered_stream<Stream, Allocator>::async_fill(ReadHandler&& handler)
 {
-  return asio::async_read(stream_, asio::dynamic_buffer(read_buffer_),
-                          asio::transfer_at_least(1),
-                          std::forward<ReadHandler>(handler));
+  auto init = [this] (auto&& handler) {
+    // If the read can't be started (e.g. because there's no memory for it)
+    // the space reserved for it has to be removed again.
+    shrink_guard guard = { &read_buffer_, read_buffer_.size() };
+    asio::async_read(stream_, asio::dynamic_buffer(read_buffer_),
+                     asio::transfer_at_least(1), std::move(handler));
+    guard.buffer_ = nullptr;
+  };
+  return asioext::async_initiate<ReadHandler, void (error_code, std::size_t)>(
+    init, handler);
 }
 
 template <typename Stream, typename Allocator>
-- 
2.43.0


From 8004c6c6ed9b945cbcea29a9d8228d68fc0adac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:44 +0000
Subject: [PATCH 36/38] fix: SOCKS5 reply that is longer than the buffer's
 max_size()

---
 include/asioext/socks/detail/client.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index b022e38..d3ce447 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -27,6 +27,8 @@
 # include <asio/post.hpp>
 #endif
 
+#include <algorithm>
+
 ASIOEXT_NS_BEGIN
 
 namespace socks {
@@ -306,6 +308,7 @@ private:
   DynamicBuffer buffer_;
   uint8_t address_type_;
   uint8_t first_address_byte_;
+  std::size_t remaining_;
 };
 
 template <typename Socket, typename DynamicBuffer>
@@ -369,17 +372,17 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
     switch (address_type_) {
       // IPv4
       case 1: {
-        size = 4 - 1;
+        remaining_ = 4 - 1 + 2;
         break;
       }
       // Hostname
       case 3: {
-        size = first_address_byte_;
+        remaining_ = first_address_byte_ + 2;
         break;
       }
       // IPv6
       case 4: {
-        size = 16 - 1;
+        remaining_ = 16 - 1 + 2;
         break;
       }
       default:
@@ -387,12 +390,18 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
         return;
     }
 
-    ASIOEXT_CORO_YIELD asio::async_read(socket_, buffer_.prepare(size + 2),
-                                        std::move(self));
-
     // TODO: should we return the actual target endpoint to the user?
-    buffer_.commit(size);
-    buffer_.consume(size);
+    // It's the proxy that decides how long this is, so don't rely on the
+    // buffer's max_size() being large enough for all of it.
+    while (remaining_ != 0) {
+      ASIOEXT_CORO_YIELD asio::async_read(
+          socket_,
+          buffer_.prepare((std::min)(remaining_, buffer_.max_size())),
+          std::move(self));
+      buffer_.commit(size);
+      buffer_.consume(size);
+      remaining_ -= size;
+    }
 
     self.complete(ec);
   }
-- 
2.43.0


From 7041c1b4e4834914499b0bbb15bd45bef6490e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:50 +0000
Subject: [PATCH 37/38] fix: async_connect() keeps host and service until it's
 started

---
 include/asioext/connect.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/asioext/connect.hpp b/include/asioext/connect.hpp
index 2068a80..8f75039 100644
--- a/include/asioext/connect.hpp
+++ b/include/asioext/connect.hpp
@@ -27,6 +27,9 @@
 #  include <asio/connect.hpp>
 #endif
 
+#include <string>
+#include <string_view>
+
 ASIOEXT_NS_BEGIN
 
 namespace detail {
@@ -73,9 +76,10 @@ public:
 private:
   asio::basic_socket<Protocol, Executor>& socket_;
   asio::ip::basic_resolver<Protocol>& resolver_;
-  // These are only valid during the initial no-args operator() call!
-  std::string_view host_;
-  std::string_view service_;
+  // Copied because the operation might be started after the initiating function
+  // has returned (e.g. when using asio::use_awaitable).
+  std::string host_;
+  std::string service_;
   asio::ip::resolver_base::flags resolve_flags_;
 };
 
-- 
2.43.0


From 6b70acce7bdbab21d4999ecf7d4e8a29e78b70d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:19 +0000
Subject: [PATCH 38/38] fix: a unique_handler may be used or destroyed while
 its handler is overwritten

---
 include/asioext/unique_handler.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/asioext/unique_handler.hpp b/include/asioext/unique_handler.hpp
index 4239b7a..c3e1a94 100644
--- a/include/asioext/unique_handler.hpp
+++ b/include/asioext/unique_handler.hpp
@@ -117,9 +117,8 @@ public:
   /// constructed using the @c unique_handler() constructor.
   unique_handler& operator=(unique_handler&& other) ASIOEXT_NOEXCEPT
   {
-    if (storage_)
-      storage_->abort(storage_);
-
+    // Destroyed last, as this runs user-code that might use (or destroy) us.
+    unique_handler old(std::move(*this));
     storage_ = other.storage_;
     other.storage_ = nullptr;
     return *this;
@@ -140,7 +139,7 @@ public:
     storage_base* storage =
         storage_impl<std::decay_t<Handler>>::create(handler);
 
-    reset();
+    unique_handler old(std::move(*this));
     storage_ = storage;
     return *this;
   }
-- 
2.43.0

