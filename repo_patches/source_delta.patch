From 234d54233f97fdd3c30e9c0331dbe6a96f5da9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 01/18] fix: test is_always_equal in polymorphic_cxx14's
 allocator-extended move constructor

The fast path that takes over the source's storage tested
propagate_on_container_copy_assignment, so an allocator that propagates on
copy assignment had storage taken over by an unequal allocator.
---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 0849204..4e7c83e 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -333,7 +333,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_arg_t, const A& alloc,
       polymorphic&& other) noexcept(allocator_traits::is_always_equal::value)
       : alloc_base(alloc) {
-    if (allocator_traits::propagate_on_container_copy_assignment::value) {
+    if (allocator_traits::is_always_equal::value) {
       cb_ = other.cb_;
       other.cb_ = nullptr;
     } else {
-- 
2.43.0


From e2fecfc3ddfcf25466bd38f726ab1d553b378b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 02/18] fix: construct U, not T, in polymorphic_cxx14's
 initializer_list constructor

The allocator-extended in_place_type_t<U> constructor taking an
initializer_list built an object of the base type T.
---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 4e7c83e..73afc47 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -237,7 +237,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
-    cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
+    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
 
   template <
-- 
2.43.0


From 2f915799f51922b38f3e49e9aca62677802a7f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 03/18] fix: exclude lvalue indirects from indirect_cxx14's
 converting assignment

The constraint compared remove_cv_t<U> with indirect, so a non-const lvalue
of type indirect was not excluded and, for a T constructible from anything
(std::any), was wrapped in a new T instead of being copied from.
---
 indirect_cxx14.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index c45aeb7..8ebb5c3 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -303,7 +303,10 @@ class indirect : private detail::empty_base_optimization<A> {
   template <class U, typename std::enable_if<
                          (std::is_constructible<T, U>::value &&
                           std::is_assignable<T&, U>::value &&
-                          !std::is_same<std::remove_cv_t<U>, indirect>::value),
+                          !std::is_same<typename std::remove_cv<
+                                            typename std::remove_reference<
+                                                U>::type>::type,
+                                        indirect>::value),
                          int>::type = 0>
   constexpr indirect& operator=(U&& u) {
     if (valueless_after_move()) {
-- 
2.43.0


From 003007cce4491ec5fd8c844329f393ffe402ef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 04/18] fix: make assignment from a subobject of the
 assigned-to object's own value work

Move assignment from a handle owned (directly or indirectly) by the target's
own value swapped the two and then reset the source, which by then owned
itself: unbounded recursion.  Assignment also read the source's allocator after
the source had been destroyed along with the old value.
---
 indirect.h          | 25 +++++++++++++++++--------
 indirect_cxx14.h    | 27 +++++++++++++++++----------
 polymorphic.h       | 23 +++++++++++++++++------
 polymorphic_cxx14.h | 25 +++++++++++++++++--------
 4 files changed, 68 insertions(+), 32 deletions(-)

diff --git a/indirect.h b/indirect.h
index 7869cc4..bfd16b8 100644
--- a/indirect.h
+++ b/indirect.h
@@ -236,6 +236,11 @@ class indirect {
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
+    // `other` may be owned, directly or indirectly, by the object owned by
+    // *this and then ends its lifetime along with it: take what is needed from
+    // `other` before that.
+    auto new_alloc = update_alloc ? other.alloc_ : alloc_;
+
     if (other.valueless_after_move()) {
       reset();
     } else {
@@ -245,14 +250,13 @@ class indirect {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp =
-            construct_from(update_alloc ? other.alloc_ : alloc_, *other.p_);
+        auto tmp = construct_from(new_alloc, *other.p_);
         reset();
         p_ = tmp;
       }
     }
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
@@ -270,23 +274,28 @@ class indirect {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
+    // `other` may be owned, directly or indirectly, by the object owned by
+    // *this and then ends its lifetime along with it: take what is needed from
+    // `other` before that.
+    auto new_alloc = update_alloc ? other.alloc_ : alloc_;
+
     if (other.valueless_after_move()) {
       reset();
     } else {
       if (alloc_ == other.alloc_) {
-        std::swap(p_, other.p_);
-        other.reset();
+        auto tmp = std::exchange(other.p_, nullptr);
+        reset();
+        p_ = tmp;
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(update_alloc ? other.alloc_ : alloc_,
-                                  std::move(*other.p_));
+        auto tmp = construct_from(new_alloc, std::move(*other.p_));
         reset();
         p_ = tmp;
       }
     }
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 8ebb5c3..d45245c 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -245,6 +245,11 @@ class indirect : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
+    // `other` may be owned, directly or indirectly, by the object owned by
+    // *this and then ends its lifetime along with it: take what is needed from
+    // `other` before that.
+    auto new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
+
     if (other.valueless_after_move()) {
       reset();
     } else {
@@ -254,15 +259,13 @@ class indirect : private detail::empty_base_optimization<A> {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(
-            update_alloc ? other.alloc_base::get() : alloc_base::get(),
-            *other.p_);
+        auto tmp = construct_from(new_alloc, *other.p_);
         reset();
         p_ = tmp;
       }
     }
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
@@ -278,24 +281,28 @@ class indirect : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
+    // `other` may be owned, directly or indirectly, by the object owned by
+    // *this and then ends its lifetime along with it: take what is needed from
+    // `other` before that.
+    auto new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
+
     if (other.valueless_after_move()) {
       reset();
     } else {
       if (alloc_base::get() == other.alloc_base::get()) {
-        std::swap(p_, other.p_);
-        other.reset();
+        auto tmp = std::exchange(other.p_, nullptr);
+        reset();
+        p_ = tmp;
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(
-            update_alloc ? other.alloc_base::get() : alloc_base::get(),
-            std::move(*other.p_));
+        auto tmp = construct_from(new_alloc, std::move(*other.p_));
         reset();
         p_ = tmp;
       }
     }
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
diff --git a/polymorphic.h b/polymorphic.h
index a32be6d..61e4bd3 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -285,6 +285,11 @@ class polymorphic {
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
+    // `other` may be owned, directly or indirectly, by the object owned by
+    // *this and then ends its lifetime along with it: take what is needed from
+    // `other` before that.
+    auto new_alloc = update_alloc ? other.alloc_ : alloc_;
+
     if (other.valueless_after_move()) {
       reset();
     } else {
@@ -292,12 +297,12 @@ class polymorphic {
       // resetting or updating allocators until this is done.
 
       // Inlining the allocator into the construct_from call confuses LCOV.
-      auto tmp = other.cb_->clone(update_alloc ? other.alloc_ : alloc_);
+      auto tmp = other.cb_->clone(new_alloc);
       reset();
       cb_ = tmp;
     }
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
@@ -313,25 +318,31 @@ class polymorphic {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
+    // `other` may be owned, directly or indirectly, by the object owned by
+    // *this and then ends its lifetime along with it: take what is needed from
+    // `other` before that.
+    auto new_alloc = update_alloc ? other.alloc_ : alloc_;
+
     if (other.valueless_after_move()) {
       reset();
     } else {
       if (alloc_ == other.alloc_) {
-        std::swap(cb_, other.cb_);
-        other.reset();
+        auto tmp = std::exchange(other.cb_, nullptr);
+        reset();
+        cb_ = tmp;
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
 
         // Inlining the allocator into the construct_from call confuses LCOV.
-        auto tmp = other.cb_->move(update_alloc ? other.alloc_ : alloc_);
+        auto tmp = other.cb_->move(new_alloc);
         reset();
         cb_ = tmp;
       }
     }
 
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 73afc47..98eb558 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -365,18 +365,22 @@ class polymorphic : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
+    // `other` may be owned, directly or indirectly, by the object owned by
+    // *this and then ends its lifetime along with it: take what is needed from
+    // `other` before that.
+    auto new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
+
     if (other.valueless_after_move()) {
       reset();
     } else {
       // Constructing a new control block could throw so we need to defer
       // resetting or updating allocators until this is done.
-      auto tmp = other.cb_->clone(update_alloc ? other.alloc_base::get()
-                                               : alloc_base::get());
+      auto tmp = other.cb_->clone(new_alloc);
       reset();
       cb_ = tmp;
     }
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
@@ -392,24 +396,29 @@ class polymorphic : private detail::empty_base_optimization<A> {
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
+    // `other` may be owned, directly or indirectly, by the object owned by
+    // *this and then ends its lifetime along with it: take what is needed from
+    // `other` before that.
+    auto new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
+
     if (other.valueless_after_move()) {
       reset();
     } else {
       if (alloc_base::get() == other.alloc_base::get()) {
-        std::swap(cb_, other.cb_);
-        other.reset();
+        auto tmp = std::exchange(other.cb_, nullptr);
+        reset();
+        cb_ = tmp;
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
-        auto tmp = other.cb_->move(update_alloc ? other.alloc_base::get()
-                                                : alloc_base::get());
+        auto tmp = other.cb_->move(new_alloc);
         reset();
         cb_ = tmp;
       }
     }
 
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
-- 
2.43.0


From c4e89ede26b31f0e485741c4bb8d58a288daf034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 05/18] fix: accept allocators that are not assignable

Assignment (all headers) and swap (C++14 headers) instantiated assignment and
swap of the allocator even when it does not propagate, so that they did not
compile for std::pmr::polymorphic_allocator.
---
 indirect.h          |  8 ++++----
 indirect_cxx14.h    | 41 ++++++++++++++++++++++++++++-------------
 polymorphic.h       |  8 ++++----
 polymorphic_cxx14.h | 39 ++++++++++++++++++++++++++-------------
 4 files changed, 62 insertions(+), 34 deletions(-)

diff --git a/indirect.h b/indirect.h
index bfd16b8..2b38b08 100644
--- a/indirect.h
+++ b/indirect.h
@@ -233,7 +233,7 @@ class indirect {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
     // `other` may be owned, directly or indirectly, by the object owned by
@@ -255,7 +255,7 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = new_alloc;
     }
     return *this;
@@ -271,7 +271,7 @@ class indirect {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
     // `other` may be owned, directly or indirectly, by the object owned by
@@ -294,7 +294,7 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = new_alloc;
     }
     return *this;
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index d45245c..44786fb 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -242,13 +242,15 @@ class indirect : private detail::empty_base_optimization<A> {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
-        allocator_traits::propagate_on_container_copy_assignment::value;
+    using update_alloc = std::integral_constant<
+        bool,
+        allocator_traits::propagate_on_container_copy_assignment::value>;
 
     // `other` may be owned, directly or indirectly, by the object owned by
     // *this and then ends its lifetime along with it: take what is needed from
     // `other` before that.
-    auto new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
+    auto new_alloc =
+        update_alloc::value ? other.alloc_base::get() : alloc_base::get();
 
     if (other.valueless_after_move()) {
       reset();
@@ -264,9 +266,7 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_alloc(alloc_base::get(), new_alloc, update_alloc{});
     return *this;
   }
 
@@ -278,13 +278,15 @@ class indirect : private detail::empty_base_optimization<A> {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
-        allocator_traits::propagate_on_container_move_assignment::value;
+    using update_alloc = std::integral_constant<
+        bool,
+        allocator_traits::propagate_on_container_move_assignment::value>;
 
     // `other` may be owned, directly or indirectly, by the object owned by
     // *this and then ends its lifetime along with it: take what is needed from
     // `other` before that.
-    auto new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
+    auto new_alloc =
+        update_alloc::value ? other.alloc_base::get() : alloc_base::get();
 
     if (other.valueless_after_move()) {
       reset();
@@ -301,9 +303,7 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_alloc(alloc_base::get(), new_alloc, update_alloc{});
     return *this;
   }
 
@@ -365,7 +365,10 @@ class indirect : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_alloc(alloc_base::get(), other.alloc_base::get(),
+                 std::integral_constant<
+                     bool,
+                     allocator_traits::propagate_on_container_swap::value>{});
       std::swap(p_, other.p_);
       return;
     } else /*  */ {
@@ -554,6 +557,18 @@ class indirect : private detail::empty_base_optimization<A> {
   }
 
  private:
+  // An allocator type need be neither assignable nor swappable if it does not
+  // propagate.
+  static void assign_alloc(A& to, const A& from, std::true_type) { to = from; }
+
+  static void assign_alloc(A&, const A&, std::false_type) {}
+
+  static void swap_alloc(A& lhs, A& rhs, std::true_type) {
+    std::swap(lhs, rhs);
+  }
+
+  static void swap_alloc(A&, A&, std::false_type) {}
+
   pointer p_;
 
   void reset() noexcept {
diff --git a/polymorphic.h b/polymorphic.h
index 61e4bd3..ddad12d 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -282,7 +282,7 @@ class polymorphic {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
     // `other` may be owned, directly or indirectly, by the object owned by
@@ -301,7 +301,7 @@ class polymorphic {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = new_alloc;
     }
     return *this;
@@ -315,7 +315,7 @@ class polymorphic {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
     // `other` may be owned, directly or indirectly, by the object owned by
@@ -341,7 +341,7 @@ class polymorphic {
       }
     }
 
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = new_alloc;
     }
     return *this;
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 98eb558..683a02d 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -362,13 +362,14 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
-        allocator_traits::propagate_on_container_copy_assignment::value;
+    using update_alloc = std::integral_constant<
+        bool, allocator_traits::propagate_on_container_copy_assignment::value>;
 
     // `other` may be owned, directly or indirectly, by the object owned by
     // *this and then ends its lifetime along with it: take what is needed from
     // `other` before that.
-    auto new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
+    auto new_alloc =
+        update_alloc::value ? other.alloc_base::get() : alloc_base::get();
 
     if (other.valueless_after_move()) {
       reset();
@@ -379,9 +380,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_alloc(alloc_base::get(), new_alloc, update_alloc{});
     return *this;
   }
 
@@ -393,13 +392,14 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
-        allocator_traits::propagate_on_container_move_assignment::value;
+    using update_alloc = std::integral_constant<
+        bool, allocator_traits::propagate_on_container_move_assignment::value>;
 
     // `other` may be owned, directly or indirectly, by the object owned by
     // *this and then ends its lifetime along with it: take what is needed from
     // `other` before that.
-    auto new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
+    auto new_alloc =
+        update_alloc::value ? other.alloc_base::get() : alloc_base::get();
 
     if (other.valueless_after_move()) {
       reset();
@@ -417,9 +417,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       }
     }
 
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_alloc(alloc_base::get(), new_alloc, update_alloc{});
     return *this;
   }
 
@@ -454,7 +452,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_alloc(
+          alloc_base::get(), other.alloc_base::get(),
+          std::integral_constant<
+              bool, allocator_traits::propagate_on_container_swap::value>{});
       std::swap(cb_, other.cb_);
       return;
     } else /*  */ {
@@ -472,6 +473,18 @@ class polymorphic : private detail::empty_base_optimization<A> {
   }
 
  private:
+  // An allocator type need be neither assignable nor swappable if it does not
+  // propagate.
+  static void assign_alloc(A& to, const A& from, std::true_type) { to = from; }
+
+  static void assign_alloc(A&, const A&, std::false_type) {}
+
+  static void swap_alloc(A& lhs, A& rhs, std::true_type) {
+    std::swap(lhs, rhs);
+  }
+
+  static void swap_alloc(A&, A&, std::false_type) {}
+
   void reset() noexcept {
     if (cb_ != nullptr) {
       cb_->destroy(alloc_base::get());
-- 
2.43.0


From 120c1f01b1a0c31179608281a81d6ced352dae2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 06/18] fix: exchange allocators with the allocator's own swap

swap() called std::swap qualified, bypassing a swap found by argument-dependent
lookup and requiring move assignment where the specification only requires
Cpp17Swappable.
---
 indirect.h          | 3 ++-
 indirect_cxx14.h    | 3 ++-
 polymorphic.h       | 3 ++-
 polymorphic_cxx14.h | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/indirect.h b/indirect.h
index 2b38b08..af53b4e 100644
--- a/indirect.h
+++ b/indirect.h
@@ -362,7 +362,8 @@ class indirect {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(p_, other.p_);
       return;
     } else /* constexpr */ {
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 44786fb..3b596f4 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -564,7 +564,8 @@ class indirect : private detail::empty_base_optimization<A> {
   static void assign_alloc(A&, const A&, std::false_type) {}
 
   static void swap_alloc(A& lhs, A& rhs, std::true_type) {
-    std::swap(lhs, rhs);
+    using std::swap;
+    swap(lhs, rhs);
   }
 
   static void swap_alloc(A&, A&, std::false_type) {}
diff --git a/polymorphic.h b/polymorphic.h
index ddad12d..2825e63 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -386,7 +386,8 @@ class polymorphic {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(cb_, other.cb_);
       return;
     } else /* constexpr */ {
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 683a02d..336454e 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -480,7 +480,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
   static void assign_alloc(A&, const A&, std::false_type) {}
 
   static void swap_alloc(A& lhs, A& rhs, std::true_type) {
-    std::swap(lhs, rhs);
+    using std::swap;
+    swap(lhs, rhs);
   }
 
   static void swap_alloc(A&, A&, std::false_type) {}
-- 
2.43.0


From 9fe5100fc55d787ee7fac7ea42c2984c6ba3c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 07/18] fix: make the move constructors noexcept as specified

DRAFT.md specifies indirect(indirect&&) and polymorphic(polymorphic&&) as
noexcept, which polymorphic_cxx14.h already does; with a stateful allocator the
others were not, so that a growing std::vector copied its elements instead of
moving them.
---
 indirect.h       | 3 +--
 indirect_cxx14.h | 2 +-
 polymorphic.h    | 3 +--
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/indirect.h b/indirect.h
index af53b4e..d9beac7 100644
--- a/indirect.h
+++ b/indirect.h
@@ -134,8 +134,7 @@ class indirect {
     static_assert(std::copy_constructible<T>);
   }
 
-  constexpr indirect(indirect&& other) noexcept(
-      allocator_traits::is_always_equal::value)
+  constexpr indirect(indirect&& other) noexcept
       : indirect(std::allocator_arg, other.alloc_, std::move(other)) {}
 
   //
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 3b596f4..01b3b8c 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -230,7 +230,7 @@ class indirect : private detail::empty_base_optimization<A> {
     }
   }
 
-  indirect(indirect&& other) noexcept(allocator_traits::is_always_equal::value)
+  indirect(indirect&& other) noexcept
       : indirect(std::allocator_arg, other.alloc_base::get(),
                  std::move(other)) {}
 
diff --git a/polymorphic.h b/polymorphic.h
index 2825e63..0d9486b 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -192,8 +192,7 @@ class polymorphic {
                         other.alloc_),
                     other) {}
 
-  constexpr polymorphic(polymorphic&& other) noexcept(
-      allocator_traits::is_always_equal::value)
+  constexpr polymorphic(polymorphic&& other) noexcept
       : polymorphic(std::allocator_arg_t{}, other.alloc_, std::move(other)) {}
 
   //
-- 
2.43.0


From a22782505f4511b8c2a7d7e1ff086069a236f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 08/18] fix: keep the first compile command of a file in
 reduce_compile_commands.py

The duplicate test looked the file up in the list of commands, where it never
is, so that the last command for a file was kept rather than, as documented,
the first.
---
 scripts/reduce_compile_commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/reduce_compile_commands.py b/scripts/reduce_compile_commands.py
index 8f375a2..9c16008 100644
--- a/scripts/reduce_compile_commands.py
+++ b/scripts/reduce_compile_commands.py
@@ -44,7 +44,7 @@ def main(argv: list[str] | None = None) -> None:
         file: str = compile_command["file"]
         if any(file.startswith(d) for d in args.exclude_dirs):
             continue
-        if file in compile_commands:
+        if file in compile_commands_by_file:
             continue
         compile_commands_by_file[file] = compile_command
 
-- 
2.43.0


From b9b1927d8ffb0dc6defdf36314630cdd9df96ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 09/18] fix: exclude only the named directories in
 reduce_compile_commands.py

Excluded directories were matched as string prefixes, so that excluding one
directory also excluded every sibling file or directory whose name starts with
its name.
---
 scripts/reduce_compile_commands.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/reduce_compile_commands.py b/scripts/reduce_compile_commands.py
index 9c16008..aff9f7d 100644
--- a/scripts/reduce_compile_commands.py
+++ b/scripts/reduce_compile_commands.py
@@ -34,7 +34,10 @@ def main(argv: list[str] | None = None) -> None:
 
     args = parser.parse_args(argv)
     args.exclude_dirs = args.exclude_dirs or []
-    args.exclude_dirs = [os.path.join(_ROOT, d) for d in args.exclude_dirs]
+    args.exclude_dirs = [
+        os.path.join(os.path.normpath(os.path.join(_ROOT, d)), "")
+        for d in args.exclude_dirs
+    ]
 
     with open(args.input, "r") as f:
         compile_commands = json.load(f)
-- 
2.43.0


From fc8fd61217f532835b88aaf799542b754ba250ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 10/18] fix: give the exploration wrappers a deep copy
 assignment

The implicit copy assignment copied the pointer: the assigned-to object leaked
and the other was deleted twice.
---
 exploration/wrapper.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/exploration/wrapper.h b/exploration/wrapper.h
index 51c4a85..e339ad9 100644
--- a/exploration/wrapper.h
+++ b/exploration/wrapper.h
@@ -1,4 +1,5 @@
 #include <concepts>
+#include <utility>
 
 namespace xyz {
 
@@ -12,6 +13,12 @@ class wrapper {
 
   wrapper(const wrapper& other) : t_(new T(*other.t_)) {}
 
+  wrapper& operator=(const wrapper& other) {
+    wrapper tmp(other);
+    std::swap(t_, tmp.t_);
+    return *this;
+  }
+
   ~wrapper() { delete t_; }
 
   template <typename U>
@@ -39,6 +46,18 @@ class constrained_wrapper {
     requires std::copy_constructible<TT>
       : t_(new T(*other.t_)) {}
 
+  constrained_wrapper& operator=(const constrained_wrapper& other)
+    requires false;
+
+  template <typename TT = T>
+  constrained_wrapper& operator=(const constrained_wrapper& other)
+    requires std::copy_constructible<TT>
+  {
+    constrained_wrapper tmp(other);
+    std::swap(t_, tmp.t_);
+    return *this;
+  }
+
   ~constrained_wrapper() { delete t_; }
 
   template <typename U>
-- 
2.43.0


From 4546a9c3ef1773854d1d94c5611a6fe54bb71026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 11/18] fix: constrain indirect's assignments by is_assignable
 as specified

std::assignable_from also asks for a common reference type and a particular
return type, so that assigning a value was rejected for types that are
assignable from it, and copy assignment did not assign through.
---
 indirect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indirect.h b/indirect.h
index d9beac7..6161cfc 100644
--- a/indirect.h
+++ b/indirect.h
@@ -243,7 +243,7 @@ class indirect {
     if (other.valueless_after_move()) {
       reset();
     } else {
-      if (std::assignable_from<T&, T> && !valueless_after_move() &&
+      if (std::is_copy_assignable_v<T> && !valueless_after_move() &&
           alloc_ == other.alloc_) {
         *p_ = *other;
       } else {
@@ -302,7 +302,7 @@ class indirect {
   template <class U>
   constexpr indirect& operator=(U&& u)
     requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
-             std::constructible_from<T, U> && std::assignable_from<T&, U>)
+             std::constructible_from<T, U> && std::is_assignable_v<T&, U>)
   {
     if (valueless_after_move()) {
       p_ = construct_from(alloc_, std::forward<U>(u));
-- 
2.43.0


From 415988c1e287583d46a6e9ebc5b95798d87db70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 12/18] fix: let clang construct a polymorphic with a minimal
 allocator

Whether direct_control_block<U> is constructible from U& was asked while the
same question was being answered, as clang instantiates its constexpr virtual
functions when the class is completed: polymorphic<T, A>(u) did not compile
for an allocator without construct().
---
 polymorphic.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polymorphic.h b/polymorphic.h
index 0d9486b..33139d5 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -130,6 +130,10 @@ class polymorphic {
       Ts&&... ts) const {
     using cb_allocator = typename std::allocator_traits<
         A>::template rebind_alloc<direct_control_block<U>>;
+    // Complete the type before std::allocator_traits asks whether it is
+    // constructible: its virtual functions, which ask the same, may be
+    // instantiated along with it.
+    static_assert(sizeof(direct_control_block<U>) > 0);
     cb_allocator cb_alloc(alloc_);
     using cb_alloc_traits = std::allocator_traits<cb_allocator>;
     auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
-- 
2.43.0


From e75682dc726a3c98a5d3eb79bdb633b6c6cde6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 13/18] fix: let wrappers of different types be compared

The comparison operators of wrapper and constrained_wrapper take a wrapper of
another type, whose pointer is private to them.
---
 exploration/wrapper.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exploration/wrapper.h b/exploration/wrapper.h
index e339ad9..2576ea5 100644
--- a/exploration/wrapper.h
+++ b/exploration/wrapper.h
@@ -8,6 +8,9 @@ template <typename T>
 class wrapper {
   T* t_;
 
+  template <typename U>
+  friend class wrapper;
+
  public:
   wrapper() : t_(new T()) {}
 
@@ -32,6 +35,9 @@ template <typename T>
 class constrained_wrapper {
   T* t_;
 
+  template <typename U>
+  friend class constrained_wrapper;
+
  public:
   template <typename TT = T>
   constrained_wrapper()
-- 
2.43.0


From 9239f59bb10f6ecb6c26c38d122ff89466beabba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 14/18] fix: let indirects of values that do not move be moved

---
 indirect.h       | 6 +++---
 indirect_cxx14.h | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/indirect.h b/indirect.h
index 6161cfc..383449e 100644
--- a/indirect.h
+++ b/indirect.h
@@ -135,7 +135,7 @@ class indirect {
   }
 
   constexpr indirect(indirect&& other) noexcept
-      : indirect(std::allocator_arg, other.alloc_, std::move(other)) {}
+      : p_(std::exchange(other.p_, nullptr)), alloc_(other.alloc_) {}
 
   //
   // Allocator-extended constructors.
@@ -197,11 +197,11 @@ class indirect {
       std::allocator_arg_t, const A& alloc,
       indirect&& other) noexcept(allocator_traits::is_always_equal::value)
       : p_(nullptr), alloc_(alloc) {
-    static_assert(std::move_constructible<T>);
-
     if constexpr (allocator_traits::is_always_equal::value) {
       std::swap(p_, other.p_);
     } else {
+      static_assert(std::move_constructible<T>);
+
       if (alloc_ == other.alloc_) {
         std::swap(p_, other.p_);
       } else {
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 01b3b8c..5765344 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -231,8 +231,8 @@ class indirect : private detail::empty_base_optimization<A> {
   }
 
   indirect(indirect&& other) noexcept
-      : indirect(std::allocator_arg, other.alloc_base::get(),
-                 std::move(other)) {}
+      : alloc_base(other.alloc_base::get()),
+        p_(std::exchange(other.p_, nullptr)) {}
 
   ~indirect() { reset(); }
 
-- 
2.43.0


From a090b2ba820e76e1e2d645c645ce0cb6a3d5b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 15/18] fix: reject the value types and allocators the
 specification rules out

---
 indirect.h          | 12 ++++++++++++
 indirect_cxx14.h    |  8 ++++++++
 polymorphic.h       | 14 ++++++++++++++
 polymorphic_cxx14.h | 15 +++++++++++++++
 4 files changed, 49 insertions(+)

diff --git a/indirect.h b/indirect.h
index 383449e..8c7bc14 100644
--- a/indirect.h
+++ b/indirect.h
@@ -83,6 +83,18 @@ template <class T, class A = std::allocator<T>>
 class indirect {
   using allocator_traits = std::allocator_traits<A>;
 
+  template <class>
+  struct is_in_place_type : std::false_type {};
+
+  template <class U>
+  struct is_in_place_type<std::in_place_type_t<U>> : std::true_type {};
+
+  static_assert(std::is_object_v<T> && !std::is_array_v<T> &&
+                std::is_same_v<T, std::remove_cv_t<T>> &&
+                !std::is_same_v<T, std::in_place_t> &&
+                !is_in_place_type<T>::value);
+  static_assert(std::is_same_v<T, typename allocator_traits::value_type>);
+
  public:
   using value_type = T;
   using allocator_type = A;
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 5765344..177c910 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -107,6 +107,14 @@ class indirect : private detail::empty_base_optimization<A> {
   using allocator_traits = std::allocator_traits<A>;
   using alloc_base = detail::empty_base_optimization<A>;
 
+  static_assert(std::is_object<T>::value && !std::is_array<T>::value &&
+                    std::is_same<T, typename std::remove_cv<T>::type>::value &&
+                    !std::is_same<T, xyz::in_place_t>::value,
+                "T must be a cv-unqualified object type other than an array or "
+                "in_place_t");
+  static_assert(std::is_same<T, typename allocator_traits::value_type>::value,
+                "the allocator's value_type must be T");
+
  public:
   using value_type = T;
   using allocator_type = A;
diff --git a/polymorphic.h b/polymorphic.h
index 33139d5..b265455 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -25,6 +25,7 @@ CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include <concepts>
 #include <initializer_list>
 #include <memory>
+#include <type_traits>
 #include <utility>
 
 #ifndef XYZ_POLYMORPHIC_HAS_EXTENDED_CONSTRUCTORS
@@ -49,6 +50,19 @@ namespace xyz {
 
 template <class T, class A = std::allocator<T>>
 class polymorphic {
+  template <class>
+  struct is_in_place_type : std::false_type {};
+
+  template <class U>
+  struct is_in_place_type<std::in_place_type_t<U>> : std::true_type {};
+
+  static_assert(std::is_object_v<T> && !std::is_array_v<T> &&
+                std::is_same_v<T, std::remove_cv_t<T>> &&
+                !std::is_same_v<T, std::in_place_t> &&
+                !is_in_place_type<T>::value);
+  static_assert(
+      std::is_same_v<T, typename std::allocator_traits<A>::value_type>);
+
   struct control_block {
     using allocator_traits = std::allocator_traits<A>;
     typename allocator_traits::pointer p_;
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 336454e..f62e5ec 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -104,6 +104,21 @@ namespace xyz {
 
 template <class T, class A = std::allocator<T>>
 class polymorphic : private detail::empty_base_optimization<A> {
+  template <class>
+  struct is_in_place_type : std::false_type {};
+
+  template <class U>
+  struct is_in_place_type<in_place_type_t<U>> : std::true_type {};
+
+  static_assert(std::is_object<T>::value && !std::is_array<T>::value &&
+                    std::is_same<T, typename std::remove_cv<T>::type>::value &&
+                    !is_in_place_type<T>::value,
+                "T must be a cv-unqualified object type other than an array or "
+                "in_place_type_t");
+  static_assert(
+      std::is_same<T, typename std::allocator_traits<A>::value_type>::value,
+      "the allocator's value_type must be T");
+
   struct control_block {
     using allocator_traits = std::allocator_traits<A>;
     typename allocator_traits::pointer p_;
-- 
2.43.0


From e6a4894ee163bceaf05e46752714c4d1ad41468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 16/18] fix: do not ask whether an incomplete type can be
 copied

The constraint on constrained_wrapper's copy assignment was evaluated for a
type still incomplete, and incomplete_types.cc did not compile with clang.
---
 exploration/wrapper.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/exploration/wrapper.h b/exploration/wrapper.h
index 2576ea5..7797aa3 100644
--- a/exploration/wrapper.h
+++ b/exploration/wrapper.h
@@ -52,13 +52,9 @@ class constrained_wrapper {
     requires std::copy_constructible<TT>
       : t_(new T(*other.t_)) {}
 
-  constrained_wrapper& operator=(const constrained_wrapper& other)
-    requires false;
-
-  template <typename TT = T>
-  constrained_wrapper& operator=(const constrained_wrapper& other)
-    requires std::copy_constructible<TT>
-  {
+  // Not constrained: whether a member can be assigned is asked while T is still
+  // incomplete.
+  constrained_wrapper& operator=(const constrained_wrapper& other) {
     constrained_wrapper tmp(other);
     std::swap(t_, tmp.t_);
     return *this;
-- 
2.43.0


From fd0634eb8af4570082e3d2352052a5e8d07e6fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:17 +0000
Subject: [PATCH 17/18] fix: name bash in the scripts that need it

They use set -o pipefail and source, which sh need not have: with dash they
fail before the first command.
---
 scripts/bazel.sh           | 2 +-
 scripts/cmake.sh           | 2 +-
 scripts/setup-git-hooks.sh | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/bazel.sh b/scripts/bazel.sh
index 7b51b4d..ed053a8 100755
--- a/scripts/bazel.sh
+++ b/scripts/bazel.sh
@@ -1,4 +1,4 @@
-#!/bin/sh
+#!/usr/bin/env bash
 
 set -eux -o pipefail
 
diff --git a/scripts/cmake.sh b/scripts/cmake.sh
index e02093b..9978d8e 100755
--- a/scripts/cmake.sh
+++ b/scripts/cmake.sh
@@ -1,4 +1,4 @@
-#!/bin/sh
+#!/usr/bin/env bash
 
 set -eux -o pipefail
 
diff --git a/scripts/setup-git-hooks.sh b/scripts/setup-git-hooks.sh
index 6e9f5cb..b1cb26c 100755
--- a/scripts/setup-git-hooks.sh
+++ b/scripts/setup-git-hooks.sh
@@ -1,4 +1,4 @@
-#!/bin/sh
+#!/usr/bin/env bash
 
 set -eux -o pipefail
 
-- 
2.43.0


From dba1b832b2c3fc84b5b35b3a5444b1cf5141bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:27 +0000
Subject: [PATCH 18/18] fix: add each file as a line of its own in
 ignore_edits_to.sh

echo interprets or swallows some names (-n), and a last line without newline
was joined with the first file's name.
---
 scripts/ignore_edits_to.sh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scripts/ignore_edits_to.sh b/scripts/ignore_edits_to.sh
index feea938..3fcf5b7 100755
--- a/scripts/ignore_edits_to.sh
+++ b/scripts/ignore_edits_to.sh
@@ -2,7 +2,14 @@
 # A script to allow edits to files to be ignored without them being part of .gitignore.
 # Useful for maintaining local-only config such as vscode settings.
 
+EXCLUDE=.git/info/exclude
+
+# The last line may lack its newline.
+if [ -n "$(tail -c 1 "$EXCLUDE" 2> /dev/null)" ] ; then
+    echo >> "$EXCLUDE"
+fi
+
 for x in "$@" ; do
     echo Ignoring local edits to "$x"
-    echo "$x" >> .git/info/exclude
+    printf '%s\n' "$x" >> "$EXCLUDE"
 done
-- 
2.43.0

