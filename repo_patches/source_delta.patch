From 74f635a1a5585bdbad8dbafacd309dab45980dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 01/25] fix: dispatch on virtual parameters that follow an
 ordinary parameter

When a parameter that is not virtual appeared between two virtual
parameters, resolve_multi_next counted it as a virtual one: the remaining
virtual arguments were ignored, or used with the wrong slot and stride.
---
 include/boost/openmethod/core.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 7c2d383..a42f079 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2547,13 +2547,17 @@ method<Id, ReturnType(Parameters...), Registry>::resolve_multi_next(
         std::size_t slot = this->slots_strides[VirtualArg];
         std::size_t stride = this->slots_strides[Arity + VirtualArg - 1];
         dispatch = dispatch + vtbl[slot].i * stride;
-    }
 
-    if constexpr (VirtualArg + 1 == Arity) {
-        return *dispatch;
+        if constexpr (VirtualArg + 1 == Arity) {
+            return *dispatch;
+        } else {
+            return resolve_multi_next<
+                VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+                dispatch, more_args...);
+        }
     } else {
         return resolve_multi_next<
-            VirtualArg + 1, mp_rest<MethodArgList>, MoreArgTypes...>(
+            VirtualArg, mp_rest<MethodArgList>, MoreArgTypes...>(
             dispatch, more_args...);
     }
 }
-- 
2.43.0


From faa6d3d7554db83b9682447dfd6357520fc1e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 02/25] fix: complete the transitive bases of classes
 registered before their bases

---
 include/boost/openmethod/initialize.hpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index b9d5672..da8f103 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -598,25 +598,22 @@ void registry<Policies...>::compiler<Options...>::augment_classes() {
         }
     }
 
-    // At this point bases may contain duplicates, and also indirect
+    // At this point bases may contain duplicates, and also indirect bases. They
+    // may also lack indirect bases, if a class was registered before one of its
     // bases. Clean that up.
 
-    std::size_t mark = ++class_mark;
-
     for (auto& rtc : classes) {
         decltype(rtc.transitive_bases) bases;
-        mark = ++class_mark;
+        bases.swap(rtc.transitive_bases);
+        ++class_mark;
 
-        for (auto rtb : rtc.transitive_bases) {
-            if (rtb->mark != mark) {
-                bases.push_back(rtb);
-                rtb->mark = mark;
-            }
+        for (auto rtb : bases) {
+            collect_transitive_bases(&rtc, rtb);
         }
-
-        rtc.transitive_bases.swap(bases);
     }
 
+    std::size_t mark = ++class_mark;
+
     for (auto& rtc : classes) {
         // Sort base classes by number of transitive bases. This ensures that a
         // base class is never preceded by one if its own base classes.
-- 
2.43.0


From db4476d4e7753e9725e6b6ae90d72c753fefc0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 03/25] fix: report only the virtual arguments of a bad call

bad_call::arity and bad_call::types are documented as describing the virtual
arguments; ordinary arguments were counted and recorded as well.
---
 include/boost/openmethod/core.hpp | 49 +++++++++++++------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index a42f079..c544426 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1967,35 +1967,28 @@ using overrider_virtual_types = boost::mp11::mp_remove<
         MethodParameters, OverriderParameters>,
     void>;
 
-template<class Method, class Rtti, std::size_t Index>
+template<class Method, class Rtti, typename... Parameters>
 struct init_bad_call {
-    template<typename Arg, typename... Args>
-    static auto fn(bad_call& error, const Arg& arg, const Args&... args) {
-        if constexpr (Index == 0u) {
-            error.method = Rtti::template static_type<Method>();
-            error.arity = sizeof...(args) + 1;
-        }
-
-        type_id arg_type_id;
+    template<typename... Args>
+    static auto fn(bad_call& error, const Args&... args) {
+        error.method = Rtti::template static_type<Method>();
+        error.arity = 0;
+        (add_arg<Parameters>(error, args), ...);
+    }
+
+    template<typename Parameter, typename Arg>
+    static auto add_arg(bad_call& error, [[maybe_unused]] const Arg& arg) {
+        if constexpr (is_virtual<Parameter>::value) {
+            if (error.arity < bad_call::max_types) {
+                if constexpr (is_virtual_ptr<Arg>) {
+                    error.types[error.arity] = Rtti::dynamic_type(*arg);
+                } else {
+                    error.types[error.arity] = Rtti::dynamic_type(arg);
+                }
+            }
 
-        if constexpr (is_virtual_ptr<Arg>) {
-            arg_type_id = Rtti::dynamic_type(*arg);
-        } else {
-            arg_type_id = Rtti::dynamic_type(arg);
+            ++error.arity;
         }
-
-        error.types[Index] = arg_type_id;
-
-        init_bad_call<Method, Rtti, Index + 1>::fn(error, args...);
-    }
-
-    static auto fn(bad_call&) {
-    }
-};
-
-template<class Method, class Rtti>
-struct init_bad_call<Method, Rtti, bad_call::max_types> {
-    static auto fn(bad_call&) {
     }
 };
 
@@ -2590,7 +2583,7 @@ method<Id, ReturnType(Parameters...), Registry>::fn_not_implemented(
 
     if constexpr (Registry::has_error_handler) {
         no_overrider error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<method, rtti, Parameters...>::fn(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
@@ -2608,7 +2601,7 @@ method<Id, ReturnType(Parameters...), Registry>::fn_ambiguous(
 
     if constexpr (Registry::has_error_handler) {
         ambiguous_call error;
-        detail::init_bad_call<method, rtti, 0u>::fn(
+        detail::init_bad_call<method, rtti, Parameters...>::fn(
             error,
             detail::parameter_traits<Parameters, Registry>::peek(args)...);
         Registry::error_handler::error(error);
-- 
2.43.0


From 59d46e438004cd26f3c2b7af25891e012a5ce0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 04/25] fix: select the dominant overriders independently of
 their order

Dominance is not transitive. Eliminating a candidate before comparing it with
the remaining ones made the selection depend on the order in which overriders
are registered.
---
 include/boost/openmethod/initialize.hpp | 37 ++++++++++++++++---------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index da8f103..2cc016f 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1420,26 +1420,37 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
     pick = 0;
     remaining = 0;
 
-    for (size_t i = 0; i < candidates.size(); ++i) {
-        if (candidates[i]) {
-            for (size_t j = i + 1; j < candidates.size(); ++j) {
-                if (candidates[j]) {
-                    if (is_more_specific(candidates[i], candidates[j])) {
-                        candidates[j] = nullptr;
-                    } else if (is_more_specific(candidates[j], candidates[i])) {
-                        candidates[i] = nullptr;
-                        break; // this one is dead
-                    }
-                }
-            }
+    // Compare with all the initial candidates, including those already
+    // eliminated: dominance is not transitive.
+    const auto all = candidates;
+
+    for (size_t i = 0; i < all.size(); ++i) {
+        if (!all[i]) {
+            continue;
         }
 
-        if (candidates[i]) {
+        if (std::any_of(all.begin(), all.end(), [&](auto other) {
+                return other && is_more_specific(other, all[i]);
+            })) {
+            candidates[i] = nullptr;
+        } else {
             pick = i;
             ++remaining;
         }
     }
 
+    if (remaining == 0) {
+        // The candidates (if any) dominate each other in a circle.
+        candidates = all;
+
+        for (size_t i = 0; i < all.size(); ++i) {
+            if (all[i]) {
+                pick = i;
+                ++remaining;
+            }
+        }
+    }
+
     if (remaining <= 1) {
         return;
     }
-- 
2.43.0


From 3b2ac88e5354f47f0bfb726bcdada2752c9f82ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 05/25] fix: n2216: keep overriders with the same return type,
 stop at eliminated ones

With three or more ambiguous overriders, an eliminated candidate was
dereferenced. Equal return types are not more specialized than each other.
---
 include/boost/openmethod/initialize.hpp | 34 ++++++++++++-------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 2cc016f..8027f22 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1462,26 +1462,24 @@ void registry<Policies...>::compiler<Options...>::select_dominant_overriders(
 
         remaining = 0;
 
-        for (size_t i = 0; i < candidates.size(); ++i) {
-            if (candidates[i]) {
-                for (size_t j = i + 1; j < candidates.size(); ++j) {
-                    if (candidates[j]) {
-                        BOOST_ASSERT(candidates[i] != candidates[j]);
-
-                        if (candidates[i]->covariant_return_type->is_base_of(
-                                candidates[j]->covariant_return_type)) {
-                            candidates[i] = nullptr;
-                        } else if (candidates[j]
-                                       ->covariant_return_type->is_base_of(
-                                           candidates[i]
-                                               ->covariant_return_type)) {
-                            candidates[j] = nullptr;
-                        }
-                    }
-                }
+        const auto dominants = candidates;
+
+        for (size_t i = 0; i < dominants.size(); ++i) {
+            if (!dominants[i]) {
+                continue;
             }
 
-            if (candidates[i]) {
+            auto return_type = dominants[i]->covariant_return_type;
+
+            if (std::any_of(
+                    dominants.begin(), dominants.end(), [&](auto other) {
+                        return other &&
+                            other->covariant_return_type != return_type &&
+                            return_type->is_base_of(
+                                other->covariant_return_type);
+                    })) {
+                candidates[i] = nullptr;
+            } else {
                 pick = i;
                 ++remaining;
             }
-- 
2.43.0


From 88242d1ae447194d04b259bb0009e5fccfc0407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 06/25] fix: set next to an overrider that accepts the same
 arguments

next was chosen among the overriders applicable to the last v-table group in
which the overrider is selected. With multiple inheritance, it could be an
overrider that is not applicable to the arguments of the call.
---
 include/boost/openmethod/initialize.hpp | 104 +++++++++++-------------
 1 file changed, 47 insertions(+), 57 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 8027f22..c447df9 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -420,6 +420,7 @@ struct registry<Policies...>::compiler : detail::generic_compiler {
         method& m, std::size_t dim,
         std::vector<group_map>::const_iterator group, const bitvec& candidates,
         bool concrete);
+    void set_next_overriders(method& m);
     void write_global_data();
     void print(const method_report& report) const;
     static void select_dominant_overriders(
@@ -1127,6 +1128,8 @@ void registry<Policies...>::compiler<Options...>::build_dispatch_tables() {
             print(m.report);
             accumulate(m.report, report);
         }
+
+        set_next_overriders(m);
     }
 }
 
@@ -1208,74 +1211,61 @@ void registry<Policies...>::compiler<Options...>::build_dispatch_table(
                 }
 
                 tr << "\n";
+            }
+        } else {
+            build_dispatch_table(
+                m, dim - 1, group_iter - 1, mask,
+                concrete && group.has_concrete_classes);
+        }
 
-                // -------------------------------------------------------------
-                // next
-
-                // First remove the dominant overriders from the overriders.
-                // Note that the dominants appear in the overriders in the same
-                // relative order.
-                auto candidate = overriders.begin();
-                remaining = 0;
-
-                for (auto dominant : dominants) {
-                    if (*candidate == dominant) {
-                        *candidate = nullptr;
-                    } else {
-                        ++remaining;
-                    }
-
-                    ++candidate;
-                }
+        ++group_index;
+    }
+}
 
-                if (remaining == 0) {
-                    ++tr << "no 'next'\n";
-                    overrider->next = &m.not_implemented;
-                } else {
-                    if constexpr (has_trace) {
-                        ++tr << "for 'next', select best of:\n";
-                        indent _(tr);
-
-                        for (auto& app : overriders) {
-                            if (app) {
-                                ++tr << "#" << app->spec_index << " "
-                                     << type_name(app->info->type) << "\n";
-                            }
-                        }
-                    }
+template<class... Policies>
+template<class... Options>
+void registry<Policies...>::compiler<Options...>::set_next_overriders(
+    method& m) {
+    using namespace detail;
 
-                    select_dominant_overriders(overriders, pick, remaining);
+    for (auto& spec : m.overriders) {
+        ++tr << "select 'next' of #" << spec.spec_index << " "
+             << type_name(spec.info->type) << "\n";
+        indent _(tr);
 
-                    if constexpr (!has_option<n2216>) {
-                        if (remaining > 1) {
-                            ++tr << "ambiguous 'next'\n";
-                            overrider->next = &m.ambiguous;
-                            continue;
-                        }
-                    }
+        // Only the overriders that accept all the arguments accepted by this
+        // one are candidates, whatever the arguments of the call.
+        std::vector<overrider*> candidates;
 
-                    auto next_overrider = overriders[pick];
-                    overrider->next = next_overrider;
+        for (auto& other : m.overriders) {
+            if (is_base(&other, &spec)) {
+                candidates.push_back(&other);
+            }
+        }
 
-                    ++tr << "-> #" << next_overrider->spec_index << " "
-                         << type_name(next_overrider->info->type)
-                         << " pf = " << next_overrider->info->pf;
+        std::size_t pick, remaining;
+        select_dominant_overriders(candidates, pick, remaining);
 
-                    if (remaining > 1) {
-                        tr << " (ambiguous)";
-                        // do not increment m.report.ambiguous, for same reason
-                    }
+        if (remaining == 0) {
+            ++tr << "no 'next'\n";
+            spec.next = &m.not_implemented;
+            continue;
+        }
 
-                    tr << "\n";
-                }
+        if constexpr (!has_option<n2216>) {
+            if (remaining > 1) {
+                ++tr << "ambiguous 'next'\n";
+                spec.next = &m.ambiguous;
+                continue;
             }
-        } else {
-            build_dispatch_table(
-                m, dim - 1, group_iter - 1, mask,
-                concrete && group.has_concrete_classes);
         }
 
-        ++group_index;
+        spec.next = candidates[pick];
+
+        ++tr << "-> #" << spec.next->spec_index << " "
+             << type_name(spec.next->info->type)
+             << " pf = " << spec.next->info->pf
+             << (remaining > 1 ? " (ambiguous)" : "") << "\n";
     }
 }
 
-- 
2.43.0


From d40437692949227308f35590569920ca345c9527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 07/25] fix: report base and derived classes of missing_base in
 their documented order

---
 include/boost/openmethod/initialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index c447df9..5600815 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -840,8 +840,8 @@ void registry<Policies...>::compiler<Options...>::augment_methods() {
 
                 if (!vp->is_base_of(overrider.vp[param_index])) {
                     missing_base error;
-                    error.base = overrider.vp[param_index]->type_ids[0];
-                    error.derived = vp->type_ids[0];
+                    error.base = vp->type_ids[0];
+                    error.derived = overrider.vp[param_index]->type_ids[0];
 
                     if constexpr (has_error_handler) {
                         error_handler::error(error);
-- 
2.43.0


From 7dd71ca7aa66942613c87ea575dc1c8a657d9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 08/25] fix: print hash search trace only when tracing is on

---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index e91f8f8..c0ee3ab 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -170,8 +170,8 @@ void fast_perfect_hash::fn<Registry>::initialize(
 
     const auto N = std::distance(ctx.classes_begin(), ctx.classes_end());
 
-    if constexpr (mp11::mp_contains<mp11::mp_list<Options...>, trace>::value) {
-        Registry::output::os << "Finding hash factor for " << N << " types\n";
+    if constexpr (InitializeContext::template has_option<trace>) {
+        ++ctx.tr << "Finding hash factor for " << N << " types\n";
     }
 
     std::default_random_engine rnd(13081963);
-- 
2.43.0


From 63f8285e82a363eaa1c421b7e4be5b81f42c662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 09/25] fix: report the number of buckets used by the last hash
 factors search

---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index c0ee3ab..4748bc3 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -237,7 +237,7 @@ void fast_perfect_hash::fn<Registry>::initialize(
 
     search_error error;
     error.attempts = total_attempts;
-    error.buckets = std::size_t(1) << M;
+    error.buckets = buckets.size();
 
     if constexpr (Registry::has_error_handler) {
         Registry::error_handler::error(error);
-- 
2.43.0


From 384a4875903f5e6d5682e38b94af5a2a1b93459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 10/25] fix: compute the range of hash values for the factors
 found

min_value and max_value included the values obtained with the factors that
were tried before, and rejected.
---
 include/boost/openmethod/policies/fast_perfect_hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/policies/fast_perfect_hash.hpp b/include/boost/openmethod/policies/fast_perfect_hash.hpp
index 4748bc3..211a933 100644
--- a/include/boost/openmethod/policies/fast_perfect_hash.hpp
+++ b/include/boost/openmethod/policies/fast_perfect_hash.hpp
@@ -187,8 +187,6 @@ void fast_perfect_hash::fn<Registry>::initialize(
     for (std::size_t pass = 0; pass < 4; ++pass, ++M) {
         shift = 8 * sizeof(type_id) - M;
         auto hash_size = 1 << M;
-        min_value = (std::numeric_limits<std::size_t>::max)();
-        max_value = (std::numeric_limits<std::size_t>::min)();
 
         if constexpr (InitializeContext::template has_option<trace>) {
             ctx.tr << "  trying with M = " << M << ", " << hash_size
@@ -204,6 +202,8 @@ void fast_perfect_hash::fn<Registry>::initialize(
             ++attempts;
             ++total_attempts;
             mult = uniform_dist(rnd) | 1;
+            min_value = (std::numeric_limits<std::size_t>::max)();
+            max_value = (std::numeric_limits<std::size_t>::min)();
 
             for (auto iter = ctx.classes_begin(); iter != ctx.classes_end();
                  ++iter) {
-- 
2.43.0


From a08a7bd0f0c481a4b08c790ba1913f005a384bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 11/25] fix: reject calls after an initialize that failed in a
 policy

If a policy's initialize reports an error by throwing, the v-table pointers
referred to tables already destroyed, in a registry still considered
initialized.
---
 include/boost/openmethod/initialize.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 5600815..6893f00 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -473,6 +473,8 @@ template<class... Policies>
 template<class... Options>
 void registry<Policies...>::compiler<Options...>::initialize() {
     compile();
+    // If a policy reports an error, the tables are left in an unusable state.
+    registry<Policies...>::initialized = false;
     install_global_tables();
     registry<Policies...>::initialized = true;
 }
-- 
2.43.0


From eb9d655e758e87925f4b3fc7b5c95da56a091aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 12/25] fix: assign null smart pointers to virtual_ptr

Copy assignment from a smart pointer dereferenced it without checking that it
is not null, unlike construction and move assignment.
---
 include/boost/openmethod/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index c544426..18581f8 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1518,9 +1518,9 @@ class virtual_ptr<
             BOOST_OPENMETHOD_DETAIL_UNLESS_MRDOCS
                 IsPolymorphic<typename Other::element_type, Registry>>>
     virtual_ptr& operator=(const Other& other) {
-        obj = other;
         vp = detail::box_vptr<use_indirect_vptrs>(
-            detail::acquire_vptr<Registry>(*other));
+            other ? detail::acquire_vptr<Registry>(*other) : detail::null_vptr);
+        obj = other;
         return *this;
     }
 
-- 
2.43.0


From 71b2f8a718050c8de3b5b763f158231c297cab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 13/25] fix: do not change a virtual_ptr if the assigned object
 is rejected

The object pointer was assigned before looking up the v-table pointer. If the
error handler threw, the virtual_ptr was left pointing to the new object, with
the v-table pointer of the previous one.
---
 include/boost/openmethod/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 18581f8..3c067cf 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -928,9 +928,9 @@ class virtual_ptr {
                 IsPolymorphic<Class, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other& other) {
-        obj = &other;
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(other));
+        obj = &other;
         return *this;
     }
 
@@ -978,9 +978,9 @@ class virtual_ptr {
                 IsPolymorphic<Class, Registry> &&
             std::is_assignable_v<Class*&, Other*>>>
     virtual_ptr& operator=(Other* other) {
-        obj = other;
         vp = detail::box_vptr<use_indirect_vptrs>(
             detail::acquire_vptr<Registry>(*other));
+        obj = other;
         return *this;
     }
 
-- 
2.43.0


From e12b3bfda0ee9ef6f5731e76b4f8396b2369ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 14/25] fix: keep the address of the v-table pointer with
 inplace_vptr and indirect_vptr

boost_openmethod_vptr returned the v-table pointer by value. A virtual_ptr
constructed from an object with an embedded indirect v-table pointer stored the
address of the temporary.
---
 include/boost/openmethod/core.hpp         | 4 ++--
 include/boost/openmethod/inplace_vptr.hpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 3c067cf..51a1a59 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -521,8 +521,8 @@ constexpr bool is_virtual_ptr = detail::is_virtual_ptr_aux<T>::value;
 
 template<class Class, class Registry>
 constexpr bool has_vptr_fn = std::is_same_v<
-    decltype(boost_openmethod_vptr(
-        std::declval<const Class&>(), std::declval<Registry*>())),
+    std::decay_t<decltype(boost_openmethod_vptr(
+        std::declval<const Class&>(), std::declval<Registry*>()))>,
     vptr_type>;
 
 template<class Registry, class ArgType>
diff --git a/include/boost/openmethod/inplace_vptr.hpp b/include/boost/openmethod/inplace_vptr.hpp
index 0ddf534..989c2d3 100644
--- a/include/boost/openmethod/inplace_vptr.hpp
+++ b/include/boost/openmethod/inplace_vptr.hpp
@@ -134,8 +134,8 @@ class inplace_vptr_base : protected detail::inplace_vptr_base_tag {
     std::conditional_t<Registry::has_indirect_vptr, const vptr_type*, vptr_type>
         boost_openmethod_vptr = nullptr;
 
-    friend auto
-    boost_openmethod_vptr(const Class& obj, Registry*) noexcept -> vptr_type {
+    friend auto boost_openmethod_vptr(
+        const Class& obj, Registry*) noexcept -> const vptr_type& {
         if constexpr (Registry::has_indirect_vptr) {
             return *obj.boost_openmethod_vptr;
         } else {
@@ -247,7 +247,7 @@ class inplace_vptr_derived<Class, Base1, Base2, MoreBases...> {
     boost_openmethod_bases(Class*) -> mp11::mp_list<Base1, Base2, MoreBases...>;
     friend auto boost_openmethod_vptr(
         const Class& obj,
-        detail::inplace_vptr_registry<Base1>* registry) -> vptr_type {
+        detail::inplace_vptr_registry<Base1>* registry) -> const vptr_type& {
         return boost_openmethod_vptr(static_cast<const Base1&>(obj), registry);
     }
 
-- 
2.43.0


From 0603f02895f727e3406a50210da84e3ffda892ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 15/25] fix: compare type_index of types in final_virtual_ptr

Distinct type ids may denote the same class, e.g. in presence of shared
libraries; this is what the rtti policy's type_index is for.
---
 include/boost/openmethod/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 51a1a59..a4357c5 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -601,7 +601,8 @@ inline auto final_virtual_ptr(Arg&& obj) {
         auto static_type = Registry::rtti::template static_type<Class>();
         auto dynamic_type = Registry::rtti::dynamic_type(Traits::peek(obj));
 
-        if (dynamic_type != static_type) {
+        if (Registry::rtti::type_index(dynamic_type) !=
+            Registry::rtti::type_index(static_type)) {
             if constexpr (is_not_void<typename Registry::error_handler>) {
                 final_error error;
                 error.static_type = static_type;
-- 
2.43.0


From 56a1df9bdcac6ac6f02b95d579cc27a87167ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 16/25] fix: v-table pointers are not null in a registry
 without methods

final_virtual_ptr and make_*_virtual asserted if no method used the registry
yet, e.g. because they are all in libraries not loaded yet.
---
 include/boost/openmethod/initialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 6893f00..00402e2 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1294,7 +1294,9 @@ void registry<Policies...>::compiler<Options...>::write_global_data() {
         classes.begin(), classes.end(), dispatch_data_size,
         [](auto sum, const auto& cls) { return sum + cls.vtbl.size(); });
 
-    std::vector<detail::word> new_dispatch_data(dispatch_data_size);
+    // Allocate at least one word, so v-table pointers are never null.
+    std::vector<detail::word> new_dispatch_data(
+        (std::max)(dispatch_data_size, std::size_t(1)));
     auto gv_first = new_dispatch_data.data();
     [[maybe_unused]] auto gv_last = gv_first + dispatch_data_size;
     auto gv_iter = gv_first;
-- 
2.43.0


From 783eb0e70ae4c5678fe97927a7db9b04a0ae51d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:55 +0000
Subject: [PATCH 17/25] fix: accept overriders with the same virtual_ptr
 reference parameter as the method

The parameter validation was ambiguous for an overrider that takes the same
'const virtual_ptr<T>&' or 'virtual_ptr<T>&&' as the method, i.e. the overrider
for the method's own class could not be defined.
---
 include/boost/openmethod/core.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index a4357c5..70341ae 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2665,6 +2665,15 @@ template<class T, class R>
 struct validate_overrider_parameter<virtual_ptr<T, R>, virtual_ptr<T, R>, void>
     : std::true_type {};
 
+template<class T, class R>
+struct validate_overrider_parameter<
+    const virtual_ptr<T, R>&, const virtual_ptr<T, R>&, void> : std::true_type {
+};
+
+template<class T, class R>
+struct validate_overrider_parameter<
+    virtual_ptr<T, R>&&, virtual_ptr<T, R>&&, void> : std::true_type {};
+
 template<class T1, class R, class T2, class R2>
 struct validate_overrider_parameter<
     virtual_ptr<T1, R>, virtual_ptr<T2, R2>, void> : std::true_type {
-- 
2.43.0


From 730890bae03b9e29f8296fbf4b19463dd1104a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 18/25] fix: pass rvalue reference arguments to overriders in
 C++17

---
 include/boost/openmethod/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index 70341ae..d1de463 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -2005,7 +2005,7 @@ struct parameter_traits {
 
     template<typename>
     static auto cast(T value) -> T {
-        return value;
+        return std::forward<T>(value);
     }
 };
 
-- 
2.43.0


From c77dd0dbad547f968c4000fcc440c43b6894b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 19/25] fix: cast unique_ptr arguments statically when possible

Custom rtti policies need to provide dynamic_cast_ref only in presence of
virtual inheritance.
---
 include/boost/openmethod/interop/std_unique_ptr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/interop/std_unique_ptr.hpp b/include/boost/openmethod/interop/std_unique_ptr.hpp
index bcda19f..bc0be82 100644
--- a/include/boost/openmethod/interop/std_unique_ptr.hpp
+++ b/include/boost/openmethod/interop/std_unique_ptr.hpp
@@ -40,7 +40,8 @@ struct virtual_traits<std::unique_ptr<Class>, Registry> {
     //! @return A `std::unique_ptr<Derived::element_type>`.
     template<typename Derived>
     static auto cast(std::unique_ptr<Class>&& ptr) {
-        if constexpr (detail::requires_dynamic_cast<Class&, Derived&>) {
+        if constexpr (detail::requires_dynamic_cast<
+                          Class&, typename Derived::element_type&>) {
             auto p = &Registry::rtti::template dynamic_cast_ref<
                 typename Derived::element_type&>(*ptr);
             // coverity[alloc_fn]
-- 
2.43.0


From 1e76894b3d673991391ad38e5c9e5bcb0513d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 20/25] fix: cast const shared_ptr& arguments statically when
 possible

The classes need to be polymorphic only in presence of virtual inheritance.
---
 include/boost/openmethod/interop/std_shared_ptr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/interop/std_shared_ptr.hpp b/include/boost/openmethod/interop/std_shared_ptr.hpp
index d0ac4f9..d2ffa10 100644
--- a/include/boost/openmethod/interop/std_shared_ptr.hpp
+++ b/include/boost/openmethod/interop/std_shared_ptr.hpp
@@ -174,7 +174,10 @@ struct virtual_traits<const std::shared_ptr<Class>&, Registry> {
         } else {
             using namespace boost::openmethod::detail;
 
-            if constexpr (requires_dynamic_cast<Class*, Other>) {
+            using element_type =
+                typename std::remove_reference_t<Other>::element_type;
+
+            if constexpr (requires_dynamic_cast<Class*, element_type*>) {
                 return std::dynamic_pointer_cast<
                     typename shared_ptr_cast_traits<Other>::virtual_type>(obj);
             } else {
-- 
2.43.0


From 90668e96033acd55eb317830d8ef0b4a923eb90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 21/25] fix: cast pointers to derived from virtual bases using
 the rtti policy

---
 include/boost/openmethod/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index d1de463..b76e172 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -331,7 +331,8 @@ struct virtual_traits<Class*, Registry> {
         static_assert(std::is_pointer_v<Derived>);
 
         if constexpr (detail::requires_dynamic_cast<Class*, Derived>) {
-            return dynamic_cast<Derived>(ptr);
+            return &Registry::rtti::template dynamic_cast_ref<
+                std::remove_pointer_t<Derived>&>(*ptr);
         } else {
             return static_cast<Derived>(ptr);
         }
-- 
2.43.0


From 64de112fdf39e6035c7be87189c6d26ada359dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 22/25] fix: report bad calls with rtti policies that have no
 dynamic_type

---
 include/boost/openmethod/core.hpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/boost/openmethod/core.hpp b/include/boost/openmethod/core.hpp
index b76e172..9394d1c 100644
--- a/include/boost/openmethod/core.hpp
+++ b/include/boost/openmethod/core.hpp
@@ -1969,6 +1969,16 @@ using overrider_virtual_types = boost::mp11::mp_remove<
         MethodParameters, OverriderParameters>,
     void>;
 
+// 'dynamic_type' may be omitted in rtti policies.
+template<class Rtti, class Class, typename = void>
+struct has_dynamic_type : std::false_type {};
+
+template<class Rtti, class Class>
+struct has_dynamic_type<
+    Rtti, Class,
+    std::void_t<decltype(Rtti::dynamic_type(std::declval<const Class&>()))>>
+    : std::true_type {};
+
 template<class Method, class Rtti, typename... Parameters>
 struct init_bad_call {
     template<typename... Args>
@@ -1983,15 +1993,25 @@ struct init_bad_call {
         if constexpr (is_virtual<Parameter>::value) {
             if (error.arity < bad_call::max_types) {
                 if constexpr (is_virtual_ptr<Arg>) {
-                    error.types[error.arity] = Rtti::dynamic_type(*arg);
+                    error.types[error.arity] = type_of(*arg);
                 } else {
-                    error.types[error.arity] = Rtti::dynamic_type(arg);
+                    error.types[error.arity] = type_of(arg);
                 }
             }
 
             ++error.arity;
         }
     }
+
+    template<class Class>
+    static auto type_of(const Class& obj) -> type_id {
+        if constexpr (has_dynamic_type<Rtti, Class>::value) {
+            return Rtti::dynamic_type(obj);
+        } else {
+            (void)obj;
+            return Rtti::template static_type<Class>();
+        }
+    }
 };
 
 template<class Registry>
-- 
2.43.0


From 5334b1d74de27b7726b1e02e0d7274ca43687cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 23/25] fix: do not copy v-table pointers when copying
 inplace_vptr objects

A sliced copy, or an assignment through a reference to a base class, gave
an object the v-table pointer of another class.
---
 include/boost/openmethod/inplace_vptr.hpp | 33 +++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/include/boost/openmethod/inplace_vptr.hpp b/include/boost/openmethod/inplace_vptr.hpp
index 989c2d3..cb92b95 100644
--- a/include/boost/openmethod/inplace_vptr.hpp
+++ b/include/boost/openmethod/inplace_vptr.hpp
@@ -150,6 +150,18 @@ class inplace_vptr_base : protected detail::inplace_vptr_base_tag {
         detail::boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    //!
+    //! The vptr of the other object is _not_ copied: it may be an instance of
+    //! a derived class.
+    inplace_vptr_base(const inplace_vptr_base&) noexcept : inplace_vptr_base() {
+    }
+
+    //! Leave the vptr unchanged.
+    auto operator=(const inplace_vptr_base&) noexcept -> inplace_vptr_base& {
+        return *this;
+    }
+
     //! Set the vptr to `nullptr`.
     ~inplace_vptr_base() noexcept {
         boost_openmethod_vptr = nullptr;
@@ -186,6 +198,9 @@ class inplace_vptr_derived {
     //! Set the vptr to `Class`\'s v-table.
     inplace_vptr_derived() noexcept;
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept;
+
     //! Set the vptr in each base class.
     //!
     //! For each base, set its vptr to the base's v-table.
@@ -224,6 +239,15 @@ class inplace_vptr_derived<Class, Base> {
         boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept
+        : inplace_vptr_derived() {
+    }
+
+    //! Leave the vptr unchanged.
+    auto operator=(const inplace_vptr_derived&)
+        -> inplace_vptr_derived& = default;
+
     //! Set the vptr in base class.
     ~inplace_vptr_derived() noexcept {
         detail::boost_openmethod_update_vptr<Base>(
@@ -260,6 +284,15 @@ class inplace_vptr_derived<Class, Base1, Base2, MoreBases...> {
         detail::boost_openmethod_update_vptr<Class>(static_cast<Class*>(this));
     }
 
+    //! Set the vptr to `Class`\'s v-table.
+    inplace_vptr_derived(const inplace_vptr_derived&) noexcept
+        : inplace_vptr_derived() {
+    }
+
+    //! Leave the vptr unchanged.
+    auto operator=(const inplace_vptr_derived&)
+        -> inplace_vptr_derived& = default;
+
     //! Set the vptr in each base class.
     //!
     //! For each base, set its vptr to the base's v-table.
-- 
2.43.0


From 5d4f00a6d47f1836b8a0e6cf5382f066406c291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 24/25] fix: take into account options passed to initialize as
 lvalues

---
 include/boost/openmethod/initialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/openmethod/initialize.hpp b/include/boost/openmethod/initialize.hpp
index 00402e2..878dd28 100644
--- a/include/boost/openmethod/initialize.hpp
+++ b/include/boost/openmethod/initialize.hpp
@@ -1621,7 +1621,7 @@ inline auto initialize(Options&&... options) {
         std::abort();
     }
 
-    typename Registry::template compiler<Options...> comp(
+    typename Registry::template compiler<std::decay_t<Options>...> comp(
         std::forward<Options>(options)...);
     comp.initialize();
 
-- 
2.43.0


From f694c256b0c52f4dca978e2e2e55d7b04b208cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 25/25] fix: replace a policy that is already present when
 passed to registry::with

with appended the policy to the list when it was already there, resulting in a
registry that contains several policies of the same category.
---
 include/boost/openmethod/preamble.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/boost/openmethod/preamble.hpp b/include/boost/openmethod/preamble.hpp
index 39b82c6..9c22d08 100644
--- a/include/boost/openmethod/preamble.hpp
+++ b/include/boost/openmethod/preamble.hpp
@@ -831,14 +831,12 @@ struct with_aux<Policies> {
 
 template<class Policies, class Policy, class... MorePolicies>
 struct with_aux<Policies, Policy, MorePolicies...> {
-    using replace = mp11::mp_replace_if_q<
-        Policies,
-        mp11::mp_bind_front_q<
-            mp11::mp_quote_trait<std::is_base_of>, typename Policy::category>,
-        Policy>;
+    using same_category = mp11::mp_bind_front_q<
+        mp11::mp_quote_trait<std::is_base_of>, typename Policy::category>;
     using replace_or_add = std::conditional_t<
-        std::is_same_v<replace, Policies>, mp11::mp_push_back<Policies, Policy>,
-        replace>;
+        mp11::mp_any_of_q<Policies, same_category>::value,
+        mp11::mp_replace_if_q<Policies, same_category, Policy>,
+        mp11::mp_push_back<Policies, Policy>>;
     using type = typename with_aux<replace_or_add, MorePolicies...>::type;
 };
 
-- 
2.43.0

