From 50cbfdd001b7861201105ebf9f9cfefb8406e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 01/20] fix: construct the contained object in place unless its
 destruction is trivial

In C++17, construct_at assigned a temporary when T is trivially move assignable, even if T has
a non-trivial destructor: the temporary's destructor ran, and no object was constructed in the option.
---
 include/opt/option.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d9bd0f0..450a330 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -651,7 +651,8 @@ namespace impl {
 #else
     template<class T, class... Args>
     constexpr void construct_at(T* ptr, Args&&... args) {
-        if constexpr (impl::is_trivially_move_assignable_v<T>) {
+        // The assignment of a temporary is only the same as construction if the destruction of that temporary has no effect
+        if constexpr (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>) {
             if constexpr (std::is_aggregate_v<T>) {
                 *ptr = T{static_cast<Args&&>(args)...};
             } else {
-- 
2.43.0


From 2028662e250f6a8a3a84ccf80c42fa3941abb6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 02/20] fix: keep the option empty if the constructor of a
 contained object with option traits throws

The constructor could have overwritten the bytes with the empty state, so has_value() returned true and
a never constructed object was destroyed.
---
 include/opt/option.hpp | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 450a330..3eb653c 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -509,6 +509,12 @@ OPTION_STD_NAMESPACE_END
     #define OPTION_ADDRESSOF(x) ::std::addressof(x)
 #endif
 
+#if OPTION_HAS_BUILTIN(__builtin_is_constant_evaluated) || (OPTION_GCC && __GNUC__ >= 9) || (OPTION_MSVC && _MSC_VER >= 1925)
+    #define OPTION_IS_CONSTANT_EVALUATED() __builtin_is_constant_evaluated()
+#else
+    #define OPTION_IS_CONSTANT_EVALUATED() false
+#endif
+
 namespace opt {
 
 namespace impl {
@@ -668,6 +674,35 @@ namespace impl {
     }
 #endif
 
+    template<class T, class Traits>
+    struct empty_state_guard {
+        T* ptr;
+
+        ~empty_state_guard() {
+            if (ptr != nullptr) { Traits::set_level(ptr, 0); }
+        }
+    };
+    template<class T, class Traits, class... Args>
+    void construct_at_guarded(T* ptr, Args&&... args) {
+        empty_state_guard<T, Traits> guard{ptr};
+        impl::construct_at(ptr, static_cast<Args&&>(args)...);
+        guard.ptr = nullptr;
+    }
+    // The empty state is stored inside the bytes of 'T', and the constructor of 'T' can overwrite these bytes before it throws an exception.
+    // So in that case, the empty state is restored
+    template<class T, class Traits, class... Args>
+    constexpr void construct_at_or_set_empty(T* ptr, Args&&... args) {
+        if constexpr (std::is_nothrow_constructible_v<T, Args...> || std::is_scalar_v<T>) {
+            impl::construct_at(ptr, static_cast<Args&&>(args)...);
+        } else {
+            if (OPTION_IS_CONSTANT_EVALUATED()) {
+                impl::construct_at(ptr, static_cast<Args&&>(args)...);
+            } else {
+                impl::construct_at_guarded<T, Traits>(ptr, static_cast<Args&&>(args)...);
+            }
+        }
+    }
+
     template<class T, class Traits, class = std::uintmax_t>
     inline constexpr bool has_get_level_method = false;
     template<class T, class Traits>
@@ -2044,7 +2079,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_at_or_set_empty<std::remove_const_t<T>, traits>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
@@ -2102,7 +2137,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_at_or_set_empty<std::remove_const_t<T>, traits>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
-- 
2.43.0


From be0f2093f041ac478ca9efae8a24c4de5f7e7444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 03/20] fix: assignment to option of reference from const
 lvalue option of convertible reference

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 3eb653c..2197122 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2970,7 +2970,7 @@ public:
     constexpr option& operator=(const option<U>& other) {
         if constexpr (std::is_reference_v<T>) {
             if (other.has_value()) {
-                base::value = base::ref_to_ptr(static_cast<option<U>&&>(other.get()));
+                base::value = base::ref_to_ptr(other.get());
             } else {
                 reset();
             }
-- 
2.43.0


From ab7f5dc692ce5af37c819e972d57a2a1619a5007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 04/20] fix: opt::get<T> of rvalue option

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 2197122..1b66622 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3511,9 +3511,9 @@ template<class T, class OptT>
 template<class T, class OptT>
 [[nodiscard]] constexpr auto get(const opt::option<OptT>& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(x); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<OptT>&&>(x)); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<OptT>&&>(x)); }
 
 namespace impl {
     template<std::size_t I, class Variant>
-- 
2.43.0


From 9497b38eaa749838a7044c22d5f4fae6ec8efd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 05/20] fix: opt::sentinel_f with several sentinel values

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 1b66622..15520c1 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -4013,7 +4013,7 @@ namespace impl {
         if (Compare{}(value, Value)) { return I; }
 
         if constexpr (sizeof...(Values) > 0) {
-            return sentinel_get_level_impl<T, Compare, I + 1, Values...>(value);
+            return sentinel_f_get_level_impl<T, Compare, I + 1, Values...>(value);
         } else {
             return std::uintmax_t(-1);
         }
@@ -4023,7 +4023,7 @@ namespace impl {
         if (level == I) { Set{}(value, Value); return; }
 
         if constexpr (sizeof...(Values) > 0) {
-            sentinel_set_level_impl<T, Set, I + 1, Values...>(value, level);
+            sentinel_f_set_level_impl<T, Set, I + 1, Values...>(value, level);
         } else {
             OPTION_VERIFY(false, "Level is out of range");
         }
-- 
2.43.0


From 7e422d47021d8dbc2bf0ccbc82471ed11ca95b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 06/20] fix: max_level of types with PADDING member narrower
 than int

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 15520c1..d0a4299 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1536,7 +1536,7 @@ namespace impl {
         using member_type = decltype(std::declval<T&>().PADDING);
         static_assert(std::is_unsigned_v<member_type>, ".PADDING member must be an unsigned integer");
     public:
-        static constexpr std::uintmax_t max_level = std::uintmax_t(~member_type(0));
+        static constexpr std::uintmax_t max_level = std::uintmax_t(member_type(~member_type(0)));
 
         static std::uintmax_t get_level(const T* const value) noexcept {
             return std::uintmax_t(std::uintmax_t(value->PADDING) - 1);
-- 
2.43.0


From 0c0135e98c9e0261464343465ae33f5a30fa4232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 07/20] fix: opt::flatten of const lvalue option

---
 include/opt/option.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d0a4299..99018d3 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3439,10 +3439,23 @@ constexpr impl::option::enable_swap<T, U> swap(option<T>& left, option<U>& right
     left.swap(right);
 }
 
+namespace impl {
+    template<class T, class Option>
+    struct flatten_result {
+        using type = impl::copy_lvalue_reference_t<T, Option>;
+    };
+    template<class T, class Option>
+    struct flatten_result<T, const Option&> {
+        using type = impl::copy_lvalue_reference_t<const T, const Option&>;
+    };
+    template<class T, class Option>
+    using flatten_result_t = typename flatten_result<T, Option>::type;
+}
+
 template<class Option>
 [[nodiscard]] constexpr auto flatten(Option&& opt) {
     if constexpr (!opt::is_option_v<typename impl::remove_cvref<Option>::value_type>) {
-        using result_type = impl::copy_lvalue_reference_t<typename impl::remove_cvref<Option>::value_type, Option>;
+        using result_type = impl::flatten_result_t<typename impl::remove_cvref<Option>::value_type, Option>;
         return opt.has_value() ? opt::option<result_type>{static_cast<Option&&>(opt).get()} : opt::none;
     } else {
         return opt.has_value() ? flatten(static_cast<Option&&>(opt).get()) : opt::none;
-- 
2.43.0


From e5387fd7ce0f66e5e9013e17d3dbd6921b37e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:36 +0000
Subject: [PATCH 08/20] fix: relational comparison and zero seek of the
 iterators of an empty option

---
 include/opt/option.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 99018d3..911adc0 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2489,25 +2489,25 @@ namespace impl {
             return tmp;
         }
         constexpr option_iterator& operator+=(const difference_type offset) noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             ptr += offset;
             return *this;
         }
         [[nodiscard]] constexpr option_iterator operator+(const difference_type offset) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{ptr + offset};
         }
         [[nodiscard]] friend constexpr option_iterator operator+(const difference_type offset, const option_iterator& it) noexcept {
-            OPTION_VERIFY(it.ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(it.ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{it.ptr + offset};
         }
         constexpr option_iterator& operator-=(const difference_type offset) noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             ptr -= offset;
             return *this;
         }
         [[nodiscard]] constexpr option_iterator operator-(const difference_type offset) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{ptr - offset};
         }
         [[nodiscard]] constexpr difference_type operator-(const option_iterator& right) const noexcept {
@@ -2524,13 +2524,9 @@ namespace impl {
             return ptr != right.ptr;
         }
         [[nodiscard]] constexpr bool operator<(const option_iterator& right) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot compare value-initialized option iterator");
-            OPTION_VERIFY(right.ptr != nullptr, "Cannot compare value-initialized option iterator");
             return ptr < right.ptr;
         }
         [[nodiscard]] constexpr bool operator>(const option_iterator& right) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot compare value-initialized option iterator");
-            OPTION_VERIFY(right.ptr != nullptr, "Cannot compare value-initialized option iterator");
             return ptr > right.ptr;
         }
         [[nodiscard]] constexpr bool operator<=(const option_iterator& right) const noexcept {
-- 
2.43.0


From 462971429248cc6f6dd07412d107daa7a65c0b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:44 +0000
Subject: [PATCH 09/20] fix: option of std::unique_ptr to an array

---
 include/opt/option.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 911adc0..d742fff 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1443,7 +1443,8 @@ namespace impl {
         }
         static void set_level(std::unique_ptr<Elem, std::default_delete<Elem>>* const value, const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-            impl::construct_at(value, reinterpret_cast<Elem*>(sentinel_ptr + level));
+            using pointer = typename std::unique_ptr<Elem, std::default_delete<Elem>>::pointer;
+            impl::construct_at(value, reinterpret_cast<pointer>(sentinel_ptr + level));
         }
     };
 
-- 
2.43.0


From c06067846e4f724ee58dad207b49321c9ab5bfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:48 +0000
Subject: [PATCH 10/20] fix: signed overflow in the level of enumerations with
 sentinels

---
 include/opt/option.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d742fff..85b2ba8 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1586,7 +1586,7 @@ namespace impl {
         static constexpr std::uintmax_t max_level = 1;
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
-            return std::uintmax_t(underlying(*value) - underlying(sentinel_value));
+            return std::uintmax_t(underlying(*value)) - std::uintmax_t(underlying(sentinel_value));
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level == 0, "Level is out of range");
@@ -1604,7 +1604,7 @@ namespace impl {
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
@@ -1622,7 +1622,7 @@ namespace impl {
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-- 
2.43.0


From 596da1bb1111a912b87c7b3efe66726e775b681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:40 +0000
Subject: [PATCH 11/20] fix: value_or of rvalue option of const type

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 85b2ba8..4e76246 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3210,7 +3210,7 @@ public:
     template<class U = std::remove_cv_t<T>>
     [[nodiscard]] constexpr std::remove_cv_t<T> value_or(U&& default_value) && {
         if (has_value()) {
-            return static_cast<std::remove_cv_t<T>&&>(get());
+            return static_cast<T&&>(get());
         } else {
             return static_cast<std::remove_cv_t<T>>(static_cast<U&&>(default_value));
         }
-- 
2.43.0


From 61c6f6725c45f444c86c4a69022e84938aae25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:46 +0000
Subject: [PATCH 12/20] fix: swap of options of different types did not compile

---
 include/opt/option.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 4e76246..6c5a0ed 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3285,20 +3285,21 @@ public:
     template<class U>
     constexpr void swap(option<U>& other) noexcept(impl::option::nothrow_swap<T, U>) {
         using std::swap;
+        auto& other_base = static_cast<typename option<U>::base&>(other);
         if (!has_value() && !other.has_value()) {
             return;
         }
         if (has_value() && other.has_value()) {
-            swap(base::value, other.base::value);
+            swap(base::value, other_base.value);
             return;
         }
         if (has_value()) {
-            other.base::construct(static_cast<T&&>(get()));
+            other_base.construct(static_cast<T&&>(get()));
             base::reset();
             return;
         }
         base::construct(static_cast<U&&>(other.get()));
-        other.base::reset();
+        other_base.reset();
     }
 };
 
-- 
2.43.0


From 3fd2f795a9f374c8ad92a08f845ec6530d816f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:31 +0000
Subject: [PATCH 13/20] fix: opt::swap was never viable for options of objects
 and ambiguous with std::swap for options of references

---
 include/opt/option.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 6c5a0ed..fa71f2a 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2665,16 +2665,16 @@ namespace impl::option {
     template<class T, class U>
     using enable_swap = std::enable_if_t<
         and_v<
-            std::is_move_constructible<T>,
-            std::is_move_constructible<U>,
-            std::is_swappable_with<T, U>
+            std::is_constructible<T, U>,
+            std::is_constructible<U, T>,
+            std::is_swappable_with<T&, U&>
         >
     >;
     template<class T, class U>
     inline constexpr bool nothrow_swap =
-        std::is_nothrow_move_constructible_v<T>
-        && std::is_nothrow_move_constructible_v<U>
-        && std::is_nothrow_swappable_with_v<T, U>;
+        std::is_nothrow_constructible_v<T, U>
+        && std::is_nothrow_constructible_v<U, T>
+        && std::is_nothrow_swappable_with_v<T&, U&>;
 }
 
 namespace impl {
@@ -3432,6 +3432,11 @@ template<class T>
     return result;
 }
 
+// Without this overload the call would be ambiguous with 'std::swap' after 'using std::swap;'
+template<class T>
+constexpr impl::option::enable_swap<T, T> swap(option<T>& left, option<T>& right) noexcept(impl::option::nothrow_swap<T, T>) {
+    left.swap(right);
+}
 template<class T, class U>
 constexpr impl::option::enable_swap<T, U> swap(option<T>& left, option<U>& right) noexcept(impl::option::nothrow_swap<T, U>) {
     left.swap(right);
-- 
2.43.0


From b811623510d01a597e3290f1aee0abd71700c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:24 +0000
Subject: [PATCH 14/20] fix: converting constructors of options of references
 were never viable

The checks for option<T> from option<U> ask for constructor_is_explicit,
which always_non_explicit did not have, so that option<const R&> could be
assigned from, but not be constructed from, option<R&>.
---
 include/opt/option.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index fa71f2a..418c685 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2681,6 +2681,8 @@ namespace impl {
     struct always_non_explicit {
         template<bool Condition>
         using is_explicit = std::enable_if<!Condition, int>;
+        template<bool Condition>
+        using constructor_is_explicit = std::enable_if<!Condition, int>;
     };
     template<class T, class U>
     struct check_from_value_ctor {
-- 
2.43.0


From 05a65932949f429c1e498bc7c1519646ee742d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:42 +0000
Subject: [PATCH 15/20] fix: levels of enumerations of underlying type bool
 were not distinct

Every value from 1 on becomes true, so that all levels of such an
enumeration with no enumerator for true were the same.
---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 418c685..a9bc186 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1156,7 +1156,7 @@ namespace impl {
                 }
             } else
 #if OPTION_CAN_REFLECT_ENUM
-            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>>) {
+            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>> && !std::is_same_v<std::underlying_type_t<T>, bool>) {
                 return st::enumeration;    
             } else
 #endif
-- 
2.43.0


From 3e8a5b09b9e0d3b0fe48d0917a40b4ce38edfb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:32 +0000
Subject: [PATCH 16/20] fix: enumerations without a fixed underlying type did
 not compile with clang 16 and later

The values that are probed to reflect the enumerators are outside of the range
of values of such an enumeration, which clang diagnoses as an error by default.
---
 include/opt/option.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index a9bc186..0e73923 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -944,10 +944,18 @@ namespace impl {
         return current;
     }
 
+#if OPTION_CLANG && __clang_major__ >= 16
+    // Probed values of an enumeration without a fixed underlying type can be outside of the range of its values
+    #pragma clang diagnostic push
+    #pragma clang diagnostic ignored "-Wenum-constexpr-conversion"
+#endif
     template<class E, std::uintmax_t Max, class T, T... Vals>
     constexpr std::uintmax_t max_enum_value_impl1(std::integer_sequence<T, Vals...>) {
         return max_enum_value_impl2<static_cast<E>(Max - 1 - Vals)...>(Max);
     }
+#if OPTION_CLANG && __clang_major__ >= 16
+    #pragma clang diagnostic pop
+#endif
     template<class E, std::uintmax_t Max>
     constexpr std::uintmax_t max_enum_value() {
         return max_enum_value_impl1<E, Max>(
-- 
2.43.0


From 9467e8a4292f8e4f43178793a14b0b7c8fae3ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:27 +0000
Subject: [PATCH 17/20] fix: OPTION_USE_QUIET_NAN had no effect

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 0e73923..e6ad5c6 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1131,14 +1131,14 @@ namespace impl {
                 return st::none;
             } else
             if constexpr (sizeof(T) == 8) {
-                if constexpr (sizeof(std::uintptr_t) == 4) {
+                if constexpr (OPTION_USE_QUIET_NAN || sizeof(std::uintptr_t) == 4) {
                     return st::float64_qNaN;
                 } else {
                     return limits::has_signaling_NaN ? st::float64_sNaN : st::float64_qNaN;
                 }
             } else
             if constexpr (sizeof(T) == 4) {
-                if constexpr (sizeof(std::uintptr_t) == 4) {
+                if constexpr (OPTION_USE_QUIET_NAN || sizeof(std::uintptr_t) == 4) {
                     return st::float32_qNaN;
                 } else {
                     return limits::has_signaling_NaN ? st::float32_sNaN : st::float32_qNaN;
-- 
2.43.0


From cd2435be619da5d270b7a95c8f2e710da4e2a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:35 +0000
Subject: [PATCH 18/20] fix: inspect of an rvalue option did not compile in
 C++23

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index e6ad5c6..d00d462 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2659,7 +2659,7 @@ namespace impl::option {
         if (self.has_value()) {
             impl::invoke(static_cast<F&&>(f), static_cast<Self&&>(self).get());
         }
-        return self;
+        return static_cast<Self&>(self);
     }
 
     template<class Self, class F>
-- 
2.43.0


From a70e633dc30e48f31c23e1df630ebe76c3b57caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:22 +0000
Subject: [PATCH 19/20] fix: an option of an option of a const type did not
 compile

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d00d462..e3c2272 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1042,7 +1042,7 @@ namespace impl {
     template<class T>
     struct dispatch_specializations<opt::option<T>> {
         static constexpr option_strategy value
-            = opt::option_traits<T>::max_level >= 1
+            = opt::option_traits<std::remove_cv_t<T>>::max_level >= 1
                 ? option_strategy::avaliable_option
                 : option_strategy::unavaliable_option;
     };
@@ -3321,7 +3321,7 @@ namespace impl {
     template<class T>
     struct internal_option_traits<opt::option<T>, option_strategy::avaliable_option> {
         using base = typename opt::option<T>::base;
-        using traits = opt::option_traits<T>;
+        using traits = opt::option_traits<std::remove_cv_t<T>>;
 
         static constexpr std::uintmax_t max_level = traits::max_level - 1;
 
-- 
2.43.0


From 845f72a1f22ba7bfe60b86bf9ff0f8c1525d043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:22 +0000
Subject: [PATCH 20/20] fix: options of pairs, tuples and aggregates with const
 elements did not compile

---
 include/opt/option.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index e3c2272..b260e4e 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1104,6 +1104,9 @@ namespace impl {
         using st = option_strategy;
         constexpr st dispatch_st = dispatch_specializations<T>::value;
 
+        if constexpr (std::is_const_v<T> || std::is_volatile_v<T>) {
+            return st::none;
+        } else
         if constexpr (dispatch_st != st::other) {
             return dispatch_st;
         } else
-- 
2.43.0

