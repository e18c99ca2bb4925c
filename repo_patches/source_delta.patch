From 4e1b7ad392b3538c644d4632ebc7736d9d99c720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 01/22] fix: overrider selection must not depend on
 registration order

---
 include/boost/openmethod/initialize.hpp | 29 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index b9d5672..00e6e97 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1423,18 +1423,31 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
     pick = 0;
     remaining = 0;
 
+    // 'is_more_specific' is not transitive: compare each overrider with all the
+    // others *before* removing any of them, otherwise the result depends on the
+    // order in which the overriders were registered.
+    bitvec dominated(candidates.size());
+    bool all_dominated = true;
+
     for (size_t i = 0; i < candidates.size(); ++i) {
         if (candidates[i]) {
-            for (size_t j = i + 1; j < candidates.size(); ++j) {
-                if (candidates[j]) {
-                    if (is_more_specific(candidates[i], candidates[j])) {
-                        candidates[j] = nullptr;
-                    } else if (is_more_specific(candidates[j], candidates[i])) {
-                        candidates[i] = nullptr;
-                        break; // this one is dead
-                    }
+            for (size_t j = 0; j < candidates.size(); ++j) {
+                if (candidates[j] &&
+                    is_more_specific(candidates[j], candidates[i])) {
+                    dominated[i] = true;
+                    break;
                 }
             }
+
+            all_dominated = all_dominated && dominated[i];
+        }
+    }
+
+    for (size_t i = 0; i < candidates.size(); ++i) {
+        // If each candidate is dominated by another, none is the best: keep
+        // them all, the call is ambiguous.
+        if (dominated[i] && !all_dominated) {
+            candidates[i] = nullptr;
         }
 
         if (candidates[i]) {
-- 
2.43.0


From f685ff96896b4dd6b5f95a8dbe5db7b1f29d10ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 02/22] fix: collect indirect bases registered after the
 derived class

---
 include/boost/openmethod/initialize.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 00e6e97..420aaea 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -598,23 +598,19 @@ void registry<Policies...>::compiler<Options...>::augment_classes() {
         }
     }
 
-    // At this point bases may contain duplicates, and also indirect
-    // bases. Clean that up.
+    // At this point bases may contain duplicates, and lack the indirect bases
+    // that were registered after the class. Clean that up.
 
     std::size_t mark = ++class_mark;
 
     for (auto& rtc : classes) {
         decltype(rtc.transitive_bases) bases;
+        bases.swap(rtc.transitive_bases);
         mark = ++class_mark;
 
-        for (auto rtb : rtc.transitive_bases) {
-            if (rtb->mark != mark) {
-                bases.push_back(rtb);
-                rtb->mark = mark;
-            }
+        for (auto rtb : bases) {
+            collect_transitive_bases(&rtc, rtb);
         }
-
-        rtc.transitive_bases.swap(bases);
     }
 
     for (auto& rtc : classes) {
-- 
2.43.0


From 70bfd6b357acf57ec83384aec32be16cab70c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 03/22] fix: skip non-virtual parameters between virtual
 parameters

A method with a non-virtual parameter between two virtual parameters
dispatched on the first virtual arguments only.
---
 include/boost/openmethod/core.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 7c2d383..a42f079 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2547,13 +2547,17 @@ method<Id, ReturnType(Parameters...), Registry>::resolve_multi_next(
         std::size_t slot = this->slots_strides[VirtualArg];
         std::size_t stride = this->slots_strides[Arity + VirtualArg - 1];
         dispatch = dispatch + vtbl[slot].i * stride;
-    }
 
-    if constexpr (VirtualArg + 1 == Arity) {
-        return *dispatch;
+        if constexpr (VirtualArg + 1 == Arity) {
+            return *dispatch;
+        } else {
+            return resolve_multi_next<
+                VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+                dispatch, more_args...);
+        }
     } else {
         return resolve_multi_next<
-            VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+            VirtualArg, mp_rest<MethodArgList>, MoreArgTypes...>(
             dispatch, more_args...);
     }
 }
-- 
2.43.0


From 7b999de1be4d5f96e9d2041fde16e73d3b958517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 04/22] fix: bad_call describes the virtual arguments only

bad_call::arity is documented as the number of virtual arguments, but the
non-virtual arguments were counted, and their types reported, as well.
---
 include/boost/openmethod/core.hpp | 51 +++++++++++++++----------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index a42f079..b39ad11 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1967,35 +1967,32 @@ using overrider_virtual_types = boost::mp11::mp_remove<
         MethodParameters, OverriderParameters>,
     void>;
 
-template<class Method, class Rtti, std::size_t Index>
-struct init_bad_call {
-    template<typename Arg, typename... Args>
-    static auto fn(bad_call& error, const Arg& arg, const Args&... args) {
-        if constexpr (Index == 0u) {
-            error.method = Rtti::template static_type<Method>();
-            error.arity = sizeof...(args) + 1;
-        }
-
-        type_id arg_type_id;
-
-        if constexpr (is_virtual_ptr<Arg>) {
-            arg_type_id = Rtti::dynamic_type(*arg);
-        } else {
-            arg_type_id = Rtti::dynamic_type(arg);
-        }
-
-        error.types[Index] = arg_type_id;
+template<class Method, class Rtti, class MethodArgList>
+struct init_bad_call;
 
-        init_bad_call<Method, Rtti, Index + 1>::fn(error, args...);
+template<class Method, class Rtti, typename... Parameters>
+struct init_bad_call<Method, Rtti, mp11::mp_list<Parameters...>> {
+    template<typename... Args>
+    static auto fn(bad_call& error, const Args&... args) {
+        error.method = Rtti::template static_type<Method>();
+        error.arity = 0;
+        (..., add_type<is_virtual<Parameters>::value>(error, args));
     }
 
-    static auto fn(bad_call&) {
-    }
-};
+    template<bool IsVirtual, typename Arg>
+    static auto
+    add_type([[maybe_unused]] bad_call& error, [[maybe_unused]] const Arg& arg) {
+        if constexpr (IsVirtual) {
+            if (error.arity < bad_call::max_types) {
+                if constexpr (is_virtual_ptr<Arg>) {
+                    error.types[error.arity] = Rtti::dynamic_type(*arg);
+                } else {
+                    error.types[error.arity] = Rtti::dynamic_type(arg);
+                }
+            }
 
-template<class Method, class Rtti>
-struct init_bad_call<Method, Rtti, bad_call::max_types> {
-    static auto fn(bad_call&) {
+            ++error.arity;
+        }
     }
 };
 
@@ -2590,7 +2587,7 @@ method<Id, ReturnType(Parameters...), Registry>::fn_not_implemented(
 
     if constexpr (Registry::has_error_handler) {
         no_overrider error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<method, rtti, DeclaredParameters>::fn(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
@@ -2608,7 +2605,7 @@ method<Id, ReturnType(Parameters...), Registry>::fn_ambiguous(
 
     if constexpr (Registry::has_error_handler) {
         ambiguous_call error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<method, rtti, DeclaredParameters>::fn(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
-- 
2.43.0


From 64a177f54224ccac729e6fb43cdea34aa9665fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 05/22] fix: honor options passed to initialize as lvalues

The options were looked up by their deduced type, i.e. a reference when
passed as a lvalue, and silently ignored.
---
 include/boost/openmethod/initialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 420aaea..9f711d7 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1630,7 +1630,7 @@ inline auto initialize(Options&&... options) {
         std::abort();
     }
 
-    typename Registry::template compiler<Options...> comp(
+    typename Registry::template compiler<std::decay_t<Options>...> comp(
         std::forward<Options>(options)...);
     comp.initialize();
 
-- 
2.43.0


From 92eb84c5f8d254d5735d1ce03d5eb5a3a033c86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 06/22] fix: n2216: stop examining an overrider once it is
 eliminated

A null pointer was dereferenced when an overrider was eliminated by its
return type and at least one more candidate followed.
---
 include/boost/openmethod/initialize.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 9f711d7..2c3b675 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1472,6 +1472,7 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
                         if (candidates[i]->covariant_return_type->is_base_of(
                                 candidates[j]->covariant_return_type)) {
                             candidates[i] = nullptr;
+                            break;
                         } else if (candidates[j]
                                        ->covariant_return_type->is_base_of(
                                            candidates[i]
-- 
2.43.0


From ef8ec3a0b65bfa92e0824ffebc371690805e049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 07/22] fix: missing_base: base and derived were swapped

---
 include/boost/openmethod/initialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 2c3b675..cdf4773 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -838,8 +838,8 @@ void registry<Policies...>::compiler<Options...>::augment_methods() {
 
                 if (!vp->is_base_of(overrider.vp[param_index])) {
                     missing_base error;
-                    error.base = overrider.vp[param_index]->type_ids[0];
-                    error.derived = vp->type_ids[0];
+                    error.base = vp->type_ids[0];
+                    error.derived = overrider.vp[param_index]->type_ids[0];
 
                     if constexpr (has_error_handler) {
                         error_handler::error(error);
-- 
2.43.0


From 3f64b7cbc48bad1951695e7d77511afdcff160ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:22 +0000
Subject: [PATCH 08/22] fix: assigning a null smart pointer to a virtual_ptr

The null pointer was dereferenced to acquire the v-table pointer.
---
 include/boost/openmethod/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index b39ad11..bf87e1e 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1518,9 +1518,9 @@ class virtual_ptr<
             BOOST_OPENMETHOD_DETAIL_UNLESS_MRDOCS
                 IsPolymorphic<typename Other::element_type, Registry>>>
     virtual_ptr& operator=(const Other& other) {
-        obj = other;
         vp = detail::box_vptr<use_indirect_vptrs>(
-            detail::acquire_vptr<Registry>(*other));
+            other ? detail::acquire_vptr<Registry>(*other) : detail::null_vptr);
+        obj = other;
         return *this;
     }
 
-- 
2.43.0


From 54137f95dcc2bccead722e9c40d9434ace8b233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:22 +0000
Subject: [PATCH 09/22] fix: virtual_ptr assignment: do not change the object
 if it is rejected

If the v-table pointer cannot be acquired and the error handler throws, the
virtual_ptr was left with the new object and the v-table of the old one.
---
 include/boost/openmethod/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index bf87e1e..4e869ed 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -928,9 +928,9 @@ class virtual_ptr {
                 IsPolymorphic<Class, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other& other) {
-        obj = &other;
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(other));
+        obj = &other;
         return *this;
     }
 
@@ -978,9 +978,9 @@ class virtual_ptr {
                 IsPolymorphic<Class, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other* other) {
-        obj = other;
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(*other));
+        obj = other;
         return *this;
     }
 
-- 
2.43.0


From c860377b6d982a36b09128b4f6c3d0381cfe7e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:52 +0000
Subject: [PATCH 10/22] fix: inplace_vptr: do not copy the v-table pointer of
 another object

---
 include/boost/openmethod/inplace_vptr.hpp | 34 +++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/include/boost/openmethod/inplace_vptr.hpp b/include/boost/openmethod/inplace_vptr.hpp
index 0ddf534..ee3b849 100644
--- a/include/boost/openmethod/inplace_vptr.hpp
+++ b/include/boost/openmethod/inplace_vptr.hpp
@@ -150,6 +150,18 @@ class inplace_vptr_base : protected detail::inplace_vptr_base_tag {
         detail::boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    //!
+    //! The vptr of the source is not copied: the source may be an instance of
+    //! a class derived from `Class`.
+    inplace_vptr_base(const inplace_vptr_base&) noexcept : inplace_vptr_base() {
+    }
+
+    //! Leave the vptr unchanged.
+    auto operator=(const inplace_vptr_base&) noexcept -> inplace_vptr_base& {
+        return *this;
+    }
+
     //! Set the vptr to `nullptr`.
     ~inplace_vptr_base() noexcept {
         boost_openmethod_vptr = nullptr;
@@ -224,6 +236,17 @@ class inplace_vptr_derived<Class, Base> {
         boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept
+        : inplace_vptr_derived() {
+    }
+
+    //! Leave the vptr unchanged.
+    auto
+    operator=(const inplace_vptr_derived&) noexcept -> inplace_vptr_derived& {
+        return *this;
+    }
+
     //! Set the vptr in base class.
     ~inplace_vptr_derived() noexcept {
         detail::boost_openmethod_update_vptr<Base>(
@@ -260,6 +283,17 @@ class inplace_vptr_derived<Class, Base1, Base2, MoreBases...> {
         detail::boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept
+        : inplace_vptr_derived() {
+    }
+
+    //! Leave the vptr unchanged.
+    auto
+    operator=(const inplace_vptr_derived&) noexcept -> inplace_vptr_derived& {
+        return *this;
+    }
+
     //! Set the vptr in each base class.
     //!
     //! For each base, set its vptr to the base's v-table.
-- 
2.43.0


From cabddba700b70205dd5c8285ec151034eac2c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 11/22] fix: inplace_vptr with indirect_vptr: do not take the
 address of a temporary

---
 include/boost/openmethod/core.hpp         |  4 ++--
 include/boost/openmethod/inplace_vptr.hpp | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 4e869ed..c66af8a 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -521,8 +521,8 @@ constexpr bool is_virtual_ptr = detail::is_virtual_ptr_aux<T>::value;
 
 template<class Class, class Registry>
 constexpr bool has_vptr_fn = std::is_same_v<
-    decltype(boost_openmethod_vptr(
-        std::declval<const Class&>(), std::declval<Registry*>())),
+    std::decay_t<decltype(boost_openmethod_vptr(
+        std::declval<const Class&>(), std::declval<Registry*>()))>,
     vptr_type>;
 
 template<class Registry, class ArgType>
diff --git a/include/boost/openmethod/inplace_vptr.hpp b/include/boost/openmethod/inplace_vptr.hpp
index ee3b849..79bd515 100644
--- a/include/boost/openmethod/inplace_vptr.hpp
+++ b/include/boost/openmethod/inplace_vptr.hpp
@@ -134,8 +134,11 @@ class inplace_vptr_base : protected detail::inplace_vptr_base_tag {
     std::conditional_t<Registry::has_indirect_vptr, const vptr_type*, vptr_type>
         boost_openmethod_vptr = nullptr;
 
-    friend auto
-    boost_openmethod_vptr(const Class& obj, Registry*) noexcept -> vptr_type {
+    // With indirect vptrs, return a reference to the static variable, because
+    // its address may be stored in a virtual_ptr.
+    friend auto boost_openmethod_vptr(const Class& obj, Registry*) noexcept
+        -> std::conditional_t<
+            Registry::has_indirect_vptr, const vptr_type&, vptr_type> {
         if constexpr (Registry::has_indirect_vptr) {
             return *obj.boost_openmethod_vptr;
         } else {
@@ -269,8 +272,10 @@ class inplace_vptr_derived<Class, Base1, Base2, MoreBases...> {
     friend auto
     boost_openmethod_bases(Class*) -> mp11::mp_list<Base1, Base2, MoreBases...>;
     friend auto boost_openmethod_vptr(
-        const Class& obj,
-        detail::inplace_vptr_registry<Base1>* registry) -> vptr_type {
+        const Class& obj, detail::inplace_vptr_registry<Base1>* registry)
+        -> std::conditional_t<
+            detail::inplace_vptr_registry<Base1>::has_indirect_vptr,
+            const vptr_type&, vptr_type> {
         return boost_openmethod_vptr(static_cast<const Base1&>(obj), registry);
     }
 
-- 
2.43.0


From 4dd18caf8d0602c75ef333a858acdb3bc93b9b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 12/22] fix: virtual_ptr::cast: reset the v-table pointer of a
 moved-from virtual_ptr

---
 include/boost/openmethod/core.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index c66af8a..8a07c87 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1762,8 +1762,16 @@ class virtual_ptr<
 
         using other_smart_ptr = typename traits::template rebind<Other>;
 
+        auto other_obj = traits::template cast<other_smart_ptr>(std::move(obj));
+        auto other_vp = vp;
+
+        // The cast may have copied (e.g. std::shared_ptr before C++20).
+        if (!obj) {
+            vp = detail::box_vptr<use_indirect_vptrs>(detail::null_vptr);
+        }
+
         return virtual_ptr<other_smart_ptr, Registry>(
-            traits::template cast<other_smart_ptr>(std::move(obj)), vp);
+            std::move(other_obj), other_vp);
     }
 
     //! Construct a `virtual_ptr` from a smart pointer to an object
-- 
2.43.0


From d02a358172879e63fd7baba22dfb9464d4a2319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 13/22] fix: fast_perfect_hash: do not trace when trace is off

---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index e91f8f8..a272933 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -170,8 +170,8 @@ void fast_perfect_hash::fn<Registry>::initialize(
 
     const auto N = std::distance(ctx.classes_begin(), ctx.classes_end());
 
-    if constexpr (mp11::mp_contains<mp11::mp_list<Options...>, trace>::value) {
-        Registry::output::os << "Finding hash factor for " << N << " types\n";
+    if constexpr (InitializeContext::template has_option<trace>) {
+        ctx.tr << "Finding hash factor for " << N << " types\n";
     }
 
     std::default_random_engine rnd(13081963);
-- 
2.43.0


From 68635cbcfdb58ec37d1d7b904b91903e44425181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 14/22] fix: fast_perfect_hash: report the number of buckets of
 the last attempt

---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index a272933..e869208 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -237,7 +237,7 @@ void fast_perfect_hash::fn<Registry>::initialize(
 
     search_error error;
     error.attempts = total_attempts;
-    error.buckets = std::size_t(1) << M;
+    error.buckets = std::size_t(1) << (M - 1); // M was incremented
 
     if constexpr (Registry::has_error_handler) {
         Registry::error_handler::error(error);
-- 
2.43.0


From 47c95cdecfb91702613fb3989077e919f2b4ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:48 +0000
Subject: [PATCH 15/22] fix: accept 'const virtual_ptr&' for identical method
 and overrider parameters

validate_overrider_parameter had a specialization for identical
'virtual_ptr' parameters, and one for two 'const virtual_ptr&' parameters
of possibly different types that makes the overrider's type convertible
check; with identical 'const virtual_ptr<T>&' types the generic
specialization for identical types was ambiguous with the latter.
---
 include/boost/openmethod/core.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 8a07c87..d605d12 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2676,6 +2676,11 @@ template<class T, class R>
 struct validate_overrider_parameter<virtual_ptr<T, R>, virtual_ptr<T, R>, void>
     : std::true_type {};
 
+template<class T, class R>
+struct validate_overrider_parameter<
+    const virtual_ptr<T, R>&, const virtual_ptr<T, R>&, void>
+    : std::true_type {};
+
 template<class T1, class R, class T2, class R2>
 struct validate_overrider_parameter<
     virtual_ptr<T1, R>, virtual_ptr<T2, R2>, void> : std::true_type {
-- 
2.43.0


From 8ddea20f6ce99577a6dcd6f66815da2a1dd318e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 16/22] fix: unique_ptr: use static_cast whenever possible

The cast compared a reference to the class with a reference to the smart
pointer, thus always used dynamic_cast_ref, contrary to its documentation.
Methods taking unique_ptrs to non-polymorphic classes did not compile.
---
 include/boost/openmethod/interop/std_unique_ptr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/interop/std_unique_ptr.hpp b/include/boost/openmethod/interop/std_unique_ptr.hpp
index bcda19f..bc0be82 100644
--- a/include/boost/openmethod/interop/std_unique_ptr.hpp
+++ b/include/boost/openmethod/interop/std_unique_ptr.hpp
@@ -40,7 +40,8 @@ struct virtual_traits<std::unique_ptr<Class>, Registry> {
     //! @return A `std::unique_ptr<Derived::element_type>`.
     template<typename Derived>
     static auto cast(std::unique_ptr<Class>&& ptr) {
-        if constexpr (detail::requires_dynamic_cast<Class&, Derived&>) {
+        if constexpr (detail::requires_dynamic_cast<
+                          Class&, typename Derived::element_type&>) {
             auto p = &Registry::rtti::template dynamic_cast_ref<
                 typename Derived::element_type&>(*ptr);
             // coverity[alloc_fn]
-- 
2.43.0


From 27253314a05690a62187fae13420cbbf3cea156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 17/22] fix: const shared_ptr&: use static_pointer_cast
 whenever possible

The cast compared a pointer to the class with a reference to the smart
pointer, thus always used dynamic_pointer_cast for downcasts, contrary to its
documentation. Methods taking const shared_ptr& to non-polymorphic classes did
not compile.
---
 include/boost/openmethod/interop/std_shared_ptr.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/interop/std_shared_ptr.hpp b/include/boost/openmethod/interop/std_shared_ptr.hpp
index d0ac4f9..6411d5f 100644
--- a/include/boost/openmethod/interop/std_shared_ptr.hpp
+++ b/include/boost/openmethod/interop/std_shared_ptr.hpp
@@ -174,7 +174,9 @@ struct virtual_traits<const std::shared_ptr<Class>&, Registry> {
         } else {
             using namespace boost::openmethod::detail;
 
-            if constexpr (requires_dynamic_cast<Class*, Other>) {
+            if constexpr (requires_dynamic_cast<
+                              Class*, typename shared_ptr_cast_traits<
+                                          Other>::virtual_type*>) {
                 return std::dynamic_pointer_cast<
                     typename shared_ptr_cast_traits<Other>::virtual_type>(obj);
             } else {
-- 
2.43.0


From 9a9823b33ed16e34881ff14ee4e6ea905a59aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 18/22] fix: pointer parameters: cast using the registry's rtti
 policy

As documented, and like the other virtual_traits. virtual_<Class*> parameters
did not work with custom rtti and virtual inheritance.
---
 include/boost/openmethod/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index d605d12..a311af7 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -331,7 +331,8 @@ struct virtual_traits<Class*, Registry> {
         static_assert(std::is_pointer_v<Derived>);
 
         if constexpr (detail::requires_dynamic_cast<Class*, Derived>) {
-            return dynamic_cast<Derived>(ptr);
+            return &Registry::rtti::template dynamic_cast_ref<
+                std::remove_pointer_t<Derived>&>(*ptr);
         } else {
             return static_cast<Derived>(ptr);
         }
-- 
2.43.0


From 90ce3b6ba987c4a37013c11f76ec1fda06f11681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 19/22] fix: forward non-virtual arguments passed by rvalue
 reference

Overriders of methods with a non-virtual parameter of rvalue reference type did
not compile, because the argument was forwarded to them as a lvalue.
---
 include/boost/openmethod/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index a311af7..bf59a76 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2017,7 +2017,7 @@ struct parameter_traits {
 
     template<typename>
     static auto cast(T value) -> T {
-        return value;
+        return std::forward<T>(value);
     }
 };
 
-- 
2.43.0


From 059e3349e951c39c54b878053995bbded55893bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:23 +0000
Subject: [PATCH 20/22] fix: with<> does not add a policy that is already in
 the registry

with<P> on a registry that already contains P produced a registry that
contains P twice: it did not distinguish 'nothing to replace' from 'replaced
by itself'.
---
 include/boost/openmethod/preamble.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/boost/openmethod/preamble.hpp b/include/boost/openmethod/preamble.hpp
index 39b82c6..97beac4 100644
--- a/include/boost/openmethod/preamble.hpp
+++ b/include/boost/openmethod/preamble.hpp
@@ -831,14 +831,12 @@ struct with_aux<Policies> {
 
 template<class Policies, class Policy, class... MorePolicies>
 struct with_aux<Policies, Policy, MorePolicies...> {
-    using replace = mp11::mp_replace_if_q<
-        Policies,
-        mp11::mp_bind_front_q<
-            mp11::mp_quote_trait<std::is_base_of>, typename Policy::category>,
-        Policy>;
+    using in_category = mp11::mp_bind_front_q<
+        mp11::mp_quote_trait<std::is_base_of>, typename Policy::category>;
+    using replace = mp11::mp_replace_if_q<Policies, in_category, Policy>;
     using replace_or_add = std::conditional_t<
-        std::is_same_v<replace, Policies>, mp11::mp_push_back<Policies, Policy>,
-        replace>;
+        mp11::mp_any_of_q<Policies, in_category>::value, replace,
+        mp11::mp_push_back<Policies, Policy>>;
     using type = typename with_aux<replace_or_add, MorePolicies...>::type;
 };
 
-- 
2.43.0


From 326e61f718350835973f68f6a89c93c6e60e35df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:40 +0000
Subject: [PATCH 21/22] fix: trace does not require output streams to write
 pointers to functions

A LightweightOutputStream has to write C strings, string views, pointers to
void, and sizes. The trace also inserted pointers to functions, thus tracing did
not compile with a user-supplied output policy that provides just that.
---
 include/boost/openmethod/initialize.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index cdf4773..e3bd300 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -328,6 +328,12 @@ auto operator<<(trace_stream<Compiler>& tr, const T& value) -> auto& {
     return tr;
 }
 
+template<class Compiler>
+auto operator<<(trace_stream<Compiler>& tr, void (*value)()) -> auto& {
+    // A LightweightOutputStream is not required to write pointers to functions.
+    return tr << reinterpret_cast<const void*>(value);
+}
+
 template<class Compiler>
 auto operator<<(trace_stream<Compiler>& tr, const rflush& rf) -> auto& {
     if constexpr (Compiler::has_trace) {
-- 
2.43.0


From 6b19ed1d1faf22a5588f85f7adae3d6147b8b325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:01 +0000
Subject: [PATCH 22/22] fix: virtual_ptr from pointer: the pointed class must
 be polymorphic, as documented

The constructor and the assignment operators tested the class of the
virtual_ptr instead, and rejected pointers to polymorphic classes derived
from the non-polymorphic class of the virtual_ptr.
---
 include/boost/openmethod/core.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index bf59a76..c931a2f 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -814,7 +814,7 @@ class virtual_ptr {
         class Other,
         typename = std::enable_if_t<
             BOOST_OPENMETHOD_DETAIL_UNLESS_MRDOCS
-                IsPolymorphic<Class, Registry> &&
+                IsPolymorphic<Other, Registry> &&
             std::is_constructible_v<Class*, Other*>>>
     virtual_ptr(Other* other)
         : vp(detail::box_vptr<use_indirect_vptrs>(
@@ -926,7 +926,7 @@ class virtual_ptr {
         class Other,
         typename = std::enable_if_t<
             BOOST_OPENMETHOD_DETAIL_UNLESS_MRDOCS
-                IsPolymorphic<Class, Registry> &&
+                IsPolymorphic<Other, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other& other) {
         vp = detail::box_vptr<use_indirect_vptrs>(
@@ -976,7 +976,7 @@ class virtual_ptr {
         class Other,
         typename = std::enable_if_t<
             BOOST_OPENMETHOD_DETAIL_UNLESS_MRDOCS
-                IsPolymorphic<Class, Registry> &&
+                IsPolymorphic<Other, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other* other) {
         vp = detail::box_vptr<use_indirect_vptrs>(
-- 
2.43.0

