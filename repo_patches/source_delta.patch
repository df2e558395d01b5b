From 52aac9c070a63ff437809676d1a0b987587351de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:58 +0000
Subject: [PATCH 1/6] fix: transform() must let an exception thrown by the
 callback propagate

ConstructPayloadFromFunction() was noexcept whenever the result type was
nothrow constructible, ignoring that the callback itself may throw. So a
throwing callback returning e.g. an int called std::terminate().
---
 include/tiny/optional.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 7b5a9b6..a2cae18 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -1082,7 +1082,8 @@ namespace impl
 
     template <class FuncT, class ArgT>
     void ConstructPayloadFromFunction(FuncT && func, ArgT && arg) noexcept(
-        std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
+        std::is_nothrow_invocable_v<FuncT, ArgT>
+        && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
     {
       assert(!has_value());
       FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
@@ -1092,7 +1093,9 @@ namespace impl
       // NOLINTBEGIN(clang-analyzer-core.uninitialized.Assign)
 
       // In analogy to ConstructPayload().
-      if constexpr (std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
+      if constexpr (
+          std::is_nothrow_invocable_v<FuncT, ArgT>
+          && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
         ::new (const_cast<void *>(static_cast<void volatile const *>(std::addressof(GetPayload()))))
             PayloadType(std::invoke(std::forward<FuncT>(func), std::forward<ArgT>(arg)));
       }
-- 
2.43.0


From a780b7b137df9363fb8e485bfd74bacd7fb278db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:26 +0000
Subject: [PATCH 2/6] fix: Destroy the empty-flag object when an empty optional
 is destroyed

The destructor of an empty optional never called invalidate_empty_flag(), and
neither did a throwing in-place constructor, contrary to the documentation of
the flag manipulators. So a flag object with a non-trivial destructor leaked.
---
 include/tiny/optional.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index a2cae18..bd7c828 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -960,17 +960,18 @@ namespace impl
 
     template <class... ArgsT>
     explicit StorageBase(std::in_place_t, ArgsT &&... args)
+      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it. Moreover, due to the
+      // delegation, the destructor destroys the flag again if the construction of the payload throws.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayload(std::forward<ArgsT>(args)...);
     }
 
     template <class FuncT, class ArgT>
     StorageBase(DirectInitializationFromFunctionTag, FuncT && func, ArgT && arg)
+      // See the constructor taking a std::in_place_t regarding the delegation.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayloadFromFunction(std::forward<FuncT>(func), std::forward<ArgT>(arg));
     }
 
@@ -980,6 +981,10 @@ namespace impl
       if (has_value()) {
         DestroyPayload();
       }
+      else {
+        // Destroy the flag object that was created by init_empty_flag().
+        FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
+      }
     }
 
     // The proper implemention of the following are defined in the derived classes.
-- 
2.43.0


From 0ffac6fd014dcf0b8d94075619e15747b072d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:50 +0000
Subject: [PATCH 3/6] fix: Do not use an overloaded operator& of the payload

The sentinel flag manipulators took the address of the flag via operator&
rather than std::addressof(), so payloads overloading operator& (which
std::optional supports) were rejected or written to the wrong address.
---
 include/tiny/optional.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index bd7c828..f4aa16d 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -237,7 +237,7 @@ struct sentinel_flag_manipulator
 
   static void init_empty_flag(PayloadType & uninitializedPayloadMemory) noexcept
   {
-    ::new (&uninitializedPayloadMemory) PayloadType(SentinelValue);
+    ::new (static_cast<void *>(std::addressof(uninitializedPayloadMemory))) PayloadType(SentinelValue);
   }
 
   static void invalidate_empty_flag(PayloadType & emptyPayload) noexcept
@@ -834,7 +834,9 @@ namespace impl
       // static_assert: Because tiny::optional requires init_empty_flag() to be noexcept; otherwise, it could not
       // give the same noexcept guarantees as std::optional.
       static_assert(
-          noexcept(*const_cast<std::remove_cv_t<FlagType> *>(&uninitializedIsEmptyFlagMemory) = valueToIndicateEmpty),
+          noexcept(
+              *const_cast<std::remove_cv_t<FlagType> *>(std::addressof(uninitializedIsEmptyFlagMemory))
+              = valueToIndicateEmpty),
           "The assignment operator of the flag type must be noexcept.");
       // Regarding the cast: https://stackoverflow.com/q/63325244/3740047
       ::new (const_cast<void *>(static_cast<void volatile const *>(std::addressof(uninitializedIsEmptyFlagMemory))))
-- 
2.43.0


From 09ce646bd53768cd9f6b7e67e89d59c675d5be83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:43 +0000
Subject: [PATCH 4/6] fix: Allow ordering std::optional<tiny::optional<T>> in
 C++20

The operator<=> overload for a plain value also considered std::optional as
value, although there is an overload for std::optional. Its constraint then
depends on itself when a std::optional of a tiny::optional is compared.
---
 include/tiny/optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index f4aa16d..d17ceda 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2763,7 +2763,7 @@ namespace impl
   }
 
   template <class D1, class F1, class U>
-    requires(!is_tiny_optional_v<U> && std::three_way_comparable_with<typename TinyOptionalImpl<D1, F1>::value_type, U>)
+    requires(!IsSomeOptional<U> && std::three_way_comparable_with<typename TinyOptionalImpl<D1, F1>::value_type, U>)
   [[nodiscard]] std::compare_three_way_result_t<typename TinyOptionalImpl<D1, F1>::value_type, U> operator<=>(
       TinyOptionalImpl<D1, F1> const & lhs,
       U const & rhs)
-- 
2.43.0


From 7c3363fdd580fca00b7a4119137fac4e87dfeed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 5/6] fix: Make the usual two-step swap() of tiny::optional use
 its own swap

For 'using std::swap; swap(o1, o2);' the generic std::swap() was chosen, because
the existing overload takes the base class. So the payload's swap() was
ignored and payloads that are not assignable could not be swapped.
---
 include/tiny/optional.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index d17ceda..e640419 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2286,6 +2286,21 @@ template <class T>
 optional(T) -> optional<T, UseDefaultValue, UseDefaultValue>;
 
 
+// The swap() for TinyOptionalImpl is not sufficient: Since optional is a derived class, the generic std::swap() would be
+// the better match in the usual "using std::swap; swap(o1, o2);".
+template <
+    class PayloadType,
+    auto sentinelOrMemPtr,
+    auto irrelevantOrSentinel,
+    std::enable_if_t<std::is_move_constructible_v<PayloadType> && std::is_swappable_v<PayloadType>, int> = 0>
+void swap(
+    optional<PayloadType, sentinelOrMemPtr, irrelevantOrSentinel> & lhs,
+    optional<PayloadType, sentinelOrMemPtr, irrelevantOrSentinel> & rhs) noexcept(noexcept(lhs.swap(rhs)))
+{
+  lhs.swap(rhs);
+}
+
+
 template <class PayloadType, auto sentinelOrMemPtr = UseDefaultValue, auto irrelevantOrSentinel = UseDefaultValue>
 [[nodiscard]] optional<std::decay_t<PayloadType>, sentinelOrMemPtr, irrelevantOrSentinel> make_optional(
     PayloadType && v)
-- 
2.43.0


From c74fb522ac71418161684552ed0d11298c9d6357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:46 +0000
Subject: [PATCH 6/6] fix: std::optional <=>
 optional_sentinel_via_type/optional_inplace with gcc

The workaround for the missing CWG 2445 in gcc did not cover optionals that are
no tiny::optional, so that std's operator<=> for values was chosen: comparing two
empty optionals gave 'less'.
---
 include/tiny/optional.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index e640419..be2e420 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2749,6 +2749,17 @@ namespace impl
   {
     return (lhs && rhs) ? (*lhs <=> *rhs) : (lhs.has_value() <=> rhs.has_value());
   }
+
+  #ifdef TINY_OPTIONAL_GCC_WORKAROUND_CWG2445
+  template <class U, class D2, class F2>
+    requires(std::three_way_comparable_with<U, typename TinyOptionalImpl<D2, F2>::value_type>)
+  [[nodiscard]] std::compare_three_way_result_t<U, typename TinyOptionalImpl<D2, F2>::value_type> operator<=>(
+      std::optional<U> const & lhs,
+      TinyOptionalImpl<D2, F2> const & rhs)
+  {
+    return (lhs && rhs) ? (*lhs <=> *rhs) : (lhs.has_value() <=> rhs.has_value());
+  }
+  #endif
 } // namespace impl
 
 template <class P, auto e, auto i, std::three_way_comparable_with<P> U>
-- 
2.43.0

