From 0ac5df41610ed472b7b854f363bafe18028fb3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 1/6] fix: C++11 wrapper must not move from an lvalue
 coroutine-function

wrap() moved from both arguments even if they were passed as lvalues; a
named std::function or functor passed to a coroutine constructor was left
in a moved-from state when compiled as C++11.
---
 include/boost/coroutine2/detail/wrap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/coroutine2/detail/wrap.hpp b/include/boost/coroutine2/detail/wrap.hpp
index 9c32edf..bb0aef5 100644
--- a/include/boost/coroutine2/detail/wrap.hpp
+++ b/include/boost/coroutine2/detail/wrap.hpp
@@ -34,8 +34,8 @@ private:
 
 public:
     wrapper( Fn1 && fn1, Fn2 && fn2) :
-        fn1_( std::move( fn1) ),
-        fn2_( std::move( fn2) ) {
+        fn1_( std::forward< Fn1 >( fn1) ),
+        fn2_( std::forward< Fn2 >( fn2) ) {
     }
 
     wrapper( wrapper const&) = delete;
-- 
2.43.0


From 7e67852e6104b8d5e8f26a0a92d13b6e896f0f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 2/6] fix: move assignment destroys the target and empties the
 source

Move assignment only swapped both coroutines; the coroutine held by the
target stayed alive inside the source. As documented, the internal data of
*this is destroyed and other becomes not-a-coroutine.
---
 include/boost/coroutine2/detail/pull_coroutine.hpp |  9 ++++++---
 include/boost/coroutine2/detail/push_coroutine.hpp | 12 ++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/boost/coroutine2/detail/pull_coroutine.hpp b/include/boost/coroutine2/detail/pull_coroutine.hpp
index 767a388..89ec5b0 100644
--- a/include/boost/coroutine2/detail/pull_coroutine.hpp
+++ b/include/boost/coroutine2/detail/pull_coroutine.hpp
@@ -55,7 +55,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -166,7 +167,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -275,7 +277,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index 4b5ba5c..dd39f4f 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -53,8 +53,8 @@ public:
     push_coroutine( push_coroutine &&) noexcept;
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
-        if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -138,8 +138,8 @@ public:
     push_coroutine( push_coroutine &&) noexcept;
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
-        if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -221,8 +221,8 @@ public:
     push_coroutine( push_coroutine &&) noexcept;
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
-        if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
-- 
2.43.0


From 0c4e305e96fff718fc5642519e657a511aaf1063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 3/6] fix: begin() of a complete push_coroutine equals end()

As documented, the iterator obtained from begin() compares equal to end()
if operator bool() returns false.
---
 include/boost/coroutine2/detail/push_coroutine.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index dd39f4f..fd7e438 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -80,7 +80,7 @@ public:
         iterator() noexcept = default;
 
         explicit iterator( push_coroutine< T > * c) noexcept :
-            c_{ c } {
+            c_{ nullptr != c && * c ? c : nullptr } {
         }
 
         iterator & operator=( T t) {
@@ -163,7 +163,7 @@ public:
         iterator() noexcept = default;
 
         explicit iterator( push_coroutine< T & > * c) noexcept :
-            c_{ c } {
+            c_{ nullptr != c && * c ? c : nullptr } {
         }
 
         iterator & operator=( T & t) {
-- 
2.43.0


From a0bc1c5ee8f755cff0b458feffd230bc8d3307af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 4/6] fix: do not destroy the transferred value twice if its
 copy throws

set() destroyed the previous value and left bvalid set, if copying/moving
the next value threw, the already destroyed value was destroyed again.
---
 include/boost/coroutine2/detail/pull_control_block_cc.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/coroutine2/detail/pull_control_block_cc.ipp b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
index f511e29..3d0f775 100644
--- a/include/boost/coroutine2/detail/pull_control_block_cc.ipp
+++ b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
@@ -155,6 +155,7 @@ void
 pull_coroutine< T >::control_block::set( T const& t) {
     // destroy data if set
     if ( bvalid) {
+        bvalid = false;
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
     }
     ::new ( static_cast< void * >( std::addressof( storage) ) ) T( t);
@@ -166,6 +167,7 @@ void
 pull_coroutine< T >::control_block::set( T && t) {
     // destroy data if set
     if ( bvalid) {
+        bvalid = false;
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
     }
     ::new ( static_cast< void * >( std::addressof( storage) ) ) T( std::move( t) );
-- 
2.43.0


From 845c1f08d0d6a02594a7b735fb5e664f48598ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 5/6] fix: respect alignment of over-aligned control blocks

The control block contains the transferred value; for types with an
alignment greater than 64 it was placed at a misaligned address.
---
 include/boost/coroutine2/detail/create_control_block.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index 127ea84..fd047d4 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -35,7 +35,7 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
     void * sp = static_cast< char * >( sctx.sp) - sizeof( ControlBlock);
     const std::size_t size = sctx.size - sizeof( ControlBlock);
 #else
-    constexpr std::size_t func_alignment = 64; // alignof( ControlBlock);
+    constexpr std::size_t func_alignment = alignof( ControlBlock) > 64 ? alignof( ControlBlock) : 64;
     constexpr std::size_t func_size = sizeof( ControlBlock);
     // reserve space on stack
     void * sp = static_cast< char * >( sctx.sp) - func_size - func_alignment;
-- 
2.43.0


From 277f6dd332a93848956d3b97a8158e44462263df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 6/6] fix: stack leaked if copying the coroutine-function
 throws

The stack was allocated before the coroutine-function was copied; if the
copy threw nobody deallocated the stack.
---
 include/boost/coroutine2/detail/create_control_block.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index fd047d4..0b97672 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -18,6 +18,7 @@
 #include <boost/context/stack_context.hpp>
 
 #include <boost/coroutine2/detail/config.hpp>
+#include <boost/coroutine2/detail/decay_copy.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
 #  include BOOST_ABI_PREFIX
@@ -29,6 +30,8 @@ namespace detail {
 
 template< typename ControlBlock, typename StackAllocator, typename Fn >
 ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
+    // copy coroutine-fn before the stack is allocated, the copy might throw
+    auto fn_ = detail::decay_copy( std::forward< Fn >( fn) );
     auto sctx = salloc.allocate();
     // reserve space for control structure
 #if defined(BOOST_NO_CXX11_CONSTEXPR) || defined(BOOST_NO_CXX11_STD_ALIGN)
@@ -48,7 +51,7 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
 #endif
     // placment new for control structure on coroutine stack
     return new ( sp) ControlBlock{ context::preallocated( sp, size, sctx),
-                                   std::forward< StackAllocator >( salloc), std::forward< Fn >( fn) };
+                                   std::forward< StackAllocator >( salloc), std::move( fn_) };
 }
 
 }}}
-- 
2.43.0

