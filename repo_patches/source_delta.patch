From 61d7f72a397f31a89c316021e3f902e76d8b913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:29 +0000
Subject: [PATCH 01/26] fix: compare string views with the same begin by length

dnmx_sv_cmp and dnmx_sv_eq reported views which begin at the same address
as equal, even when one is a proper prefix of the other.
---
 code/dnmx/bits/sv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dnmx/bits/sv.h b/code/dnmx/bits/sv.h
index 6d5d449..0f54064 100644
--- a/code/dnmx/bits/sv.h
+++ b/code/dnmx/bits/sv.h
@@ -81,7 +81,7 @@ static inline size_t dnmx_sv_len(dnmx_sv sv) { return sv.end - sv.begin; }
 
 static inline int dnmx_sv_cmp(dnmx_sv a, dnmx_sv b) {
     // avoid memcmp with null
-    if (a.begin == b.begin) return 0;
+    if (a.begin == b.begin && a.end == b.end) return 0;
     size_t alen = dnmx_sv_len(a);
     if (!b.begin) return !!alen;
     size_t blen = dnmx_sv_len(b);
-- 
2.43.0


From 3b8dc3d9ba1548bcca776cb3178dbaca48500f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:38 +0000
Subject: [PATCH 02/26] fix: don't truncate sizes above 4 GB in the fallback
 memory resource

next_multiple works with the 32-bit byte_size_t, so default_resource allocated
less than the requested number of bytes instead of failing or succeeding.
---
 code/dynamix/compat/pmr/memory_resource.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/dynamix/compat/pmr/memory_resource.cpp b/code/dynamix/compat/pmr/memory_resource.cpp
index a70b082..7e50a3e 100644
--- a/code/dynamix/compat/pmr/memory_resource.cpp
+++ b/code/dynamix/compat/pmr/memory_resource.cpp
@@ -22,7 +22,9 @@ class default_resource final : public memory_resource {
         if (alignment < sizeof_ptr) alignment = sizeof_ptr;
 #endif
         // aligned_alloc requires size to be a multiple of alignment
-        auto size = dynamix::util::next_multiple(bytes, alignment);
+        // don't use util::next_multiple here: it works with byte_size_t, which doesn't fit all sizes
+        const std::size_t size = (bytes + alignment - 1) / alignment * alignment;
+        if (size < bytes) throw std::bad_alloc{}; // overflow
         void* ret = aligned_alloc(alignment, size);
 #endif
         if (!ret) throw std::bad_alloc{};
-- 
2.43.0


From 46f853a3ca217c4028e288865b69e4fe9cb3c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:48 +0000
Subject: [PATCH 03/26] fix: reuse the free slot when registering a type class

The address of a local copy was taken, so after an unregistration the new
type class was written through a dangling pointer and lost.
---
 code/dynamix/domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index d17587e..4bd27bb 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -343,7 +343,7 @@ public:
         // search in reverse order while also checking for name clashes
         const type_class** free_slot = nullptr;
         for (auto i = reg->sparse_type_classes.rbegin(); i != reg->sparse_type_classes.rend(); ++i) {
-            auto tc = *i;
+            auto& tc = *i;
             if (tc) {
                 if (tc->name == new_tc.name) throw_exception::duplicate_name(m_domain, new_tc);
             }
-- 
2.43.0


From 434d6913bf0005b19730eeef34b1a28ebfe777f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:10 +0000
Subject: [PATCH 04/26] fix: check that a mixin is the domain's own before
 dropping its types

---
 code/dynamix/domain.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 4bd27bb..6f2fc36 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -285,6 +285,12 @@ public:
     }
 
     void unregister_mixin(mixin_info& info) {
+        {
+            // mixin is not our own?
+            // check before dropping anything: ids of foreign mixins may match the ones of our own
+            auto reg = m_element_registry.shared_lock();
+            if (basic_get_by_id_l(info.id, reg->sparse_mixins) != &info) throw_exception::unreg_foreign(m_domain, info);
+        }
         {
             auto treg = m_type_registry.unique_lock();
             // since this mixin is no longer valid
-- 
2.43.0


From faf482ff7e7ae96e2bf8ebb0fcd29fca419f95d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:55 +0000
Subject: [PATCH 05/26] fix: settle mutation rules on what is left after
 dropping dependencies

The list before dropping dependency mixins was taken for the result of a
round of rules. Without rules a request with a dependency failed with a
cyclic error, and rules which added the dependency back were not run again.
---
 code/dynamix/domain.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 6f2fc36..d15fd9f 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -458,15 +458,17 @@ public:
         // instead we give this arbitrary limit and say: "users must take care to sort rules with
         // deeper dependencies by order_priority": a much laxer restriction than the initial one
 
-        type_query original_query(m_allocator); // store original query here to return
-        type_query last_result(m_allocator); // store last rule application result here
-
         auto& nt_mixins = mutation.mixins;
-        last_result = nt_mixins;
+
+        type_query original_query(m_allocator); // store original query here to return
+        original_query = nt_mixins;
 
         // first erase all deps from mixins
         itlib::erase_all_if(nt_mixins, [](const mixin_info* m) { return m->dependency; });
 
+        type_query last_result(m_allocator); // store last rule application result here
+        last_result = nt_mixins;
+
         for (int i = 0; ; ++i) {
             // apply rules
             for (auto& r : rules) {
@@ -477,17 +479,12 @@ public:
             }
             if (last_result == nt_mixins) {
                 // rules changed nothing, so no need to apply them again
-                if (i == 0) return last_result; // first application changed nothing
                 return original_query;
             }
             if (i == max_depenency_depth || i == int(rules.size())) {
                 // again: this is not necessarily a real cycle but we treat it as such
                 throw_exception::cyclic_rule_deps(mutation);
             }
-            if (i == 0) {
-                // first time running the loop and rules made changes, store original query to return
-                original_query.swap(last_result);
-            }
             last_result = nt_mixins;
         }
     }
-- 
2.43.0


From bcd5c27404a5d022172c5375c7692d87af41a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:59 +0000
Subject: [PATCH 06/26] fix: make mutations to the empty type complete

A mutation to a type without mixins never counted as complete, so it
asserted (or leaked and did nothing) unless done through reset_type.
---
 code/dynamix/object_mutation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index e978afe..7b20bcc 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -30,6 +30,7 @@ object_mutation::object_mutation(object& obj, const type& type, int) noexcept
     , m_target_mixin_data(nullptr)
     , m_allocated_upto(0)
     , m_updated_upto(0)
+    , m_complete(type.num_mixins() == 0) // a type with no mixins has nothing to update
 {
     // mixin data is allocated at this point by the delagator constructor
 }
@@ -96,6 +97,8 @@ void object_mutation::allocate_mixin_data() {
         return;
     }
 
+    if (m_complete) return; // mutating to the empty type: there's nothing to allocate
+
     // * allocate using object allocator
     // * fill object pointer appropriately to newly allocated mixins
     // * attach common external mixins to mixin_data elements
-- 
2.43.0


From e0049e682e7af5db9f91a5c8542c48cd74e9df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:32 +0000
Subject: [PATCH 07/26] fix: don't give up mutations made while the stack is
 being unwound

Mutations compared std::uncaught_exceptions() with zero, so one performed
by a destructor during unwinding was silently rolled back, and a copy made
there had no type.
---
 code/dynamix/mutate.hpp          | 5 ++++-
 code/dynamix/object_mutation.cpp | 5 ++++-
 code/dynamix/object_mutation.hpp | 4 ++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/mutate.hpp b/code/dynamix/mutate.hpp
index fea31fb..83c953b 100644
--- a/code/dynamix/mutate.hpp
+++ b/code/dynamix/mutate.hpp
@@ -6,6 +6,8 @@
 #include "mutate_to.hpp"
 #include "domain.hpp"
 
+#include <exception>
+
 namespace dynamix {
 // regular mutate with ops as arguments
 template <typename... Ops>
@@ -25,13 +27,14 @@ class gradual_mutation {
     type_mutation m_type_mut;
     object& m_obj;
     bool m_applied = false;
+    int m_uncaught_exceptions = std::uncaught_exceptions();
 public:
     gradual_mutation(object& obj)
         : m_type_mut(obj.get_type())
         , m_obj(obj)
     {}
     ~gradual_mutation() noexcept(false) {
-        if (std::uncaught_exceptions()) return;
+        if (std::uncaught_exceptions() > m_uncaught_exceptions) return; // something threw since the mutation was started
         if (m_applied) return;
         apply();
     }
diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index 7b20bcc..ff055d8 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -8,6 +8,7 @@
 #include "throw_exception.hpp"
 
 #include <cassert>
+#include <exception>
 
 namespace dynamix {
 
@@ -31,6 +32,7 @@ object_mutation::object_mutation(object& obj, const type& type, int) noexcept
     , m_allocated_upto(0)
     , m_updated_upto(0)
     , m_complete(type.num_mixins() == 0) // a type with no mixins has nothing to update
+    , m_uncaught_exceptions(std::uncaught_exceptions())
 {
     // mixin data is allocated at this point by the delagator constructor
 }
@@ -44,12 +46,13 @@ object_mutation::object_mutation(std::nullptr_t, object& obj) noexcept
     , m_target_mixin_data(obj.m_mixin_data)
     , m_allocated_upto(obj.get_type().num_mixins())
     , m_updated_upto(obj.get_type().num_mixins())
+    , m_uncaught_exceptions(std::uncaught_exceptions())
 {}
 
 object_mutation::~object_mutation() noexcept(false) {
     if (m_moved_out_from) return;
 
-    if (std::uncaught_exceptions()) {
+    if (std::uncaught_exceptions() > m_uncaught_exceptions) {
         rollback();
         return;
     }
diff --git a/code/dynamix/object_mutation.hpp b/code/dynamix/object_mutation.hpp
index 2ae8e55..adb112c 100644
--- a/code/dynamix/object_mutation.hpp
+++ b/code/dynamix/object_mutation.hpp
@@ -159,6 +159,10 @@ private:
 
     bool m_complete = false;
 
+    // exceptions in flight when the mutation was started
+    // (mutations may be performed while the stack is being unwound: in destructors)
+    int m_uncaught_exceptions;
+
     // rust-style bool to help us support moving mutations
     bool m_moved_out_from = false;
 };
-- 
2.43.0


From 7bf1049392368f18e5f0b932d5d124155a07be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:51 +0000
Subject: [PATCH 08/26] fix: transfer the seal when moving an object

The source of a move kept its seal, so it could never be used again.
---
 code/dynamix/object.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/object.cpp b/code/dynamix/object.cpp
index df3c647..578b923 100644
--- a/code/dynamix/object.cpp
+++ b/code/dynamix/object.cpp
@@ -313,6 +313,7 @@ void object::usurp(object& other) noexcept {
     // clear other object
     other.m_type = &get_domain().get_empty_type();
     other.m_mixin_data = nullptr;
+    other.m_sealed = false; // transferred with the mixins: the source must remain usable
 }
 
 }
-- 
2.43.0


From 75a3bc904eebf112760592ad382724c2b7ea9105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:56 +0000
Subject: [PATCH 09/26] fix: make the add operation by name with a function
 usable

---
 code/dynamix/mutate_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/mutate_ops.hpp b/code/dynamix/mutate_ops.hpp
index c30c5d0..d00fe95 100644
--- a/code/dynamix/mutate_ops.hpp
+++ b/code/dynamix/mutate_ops.hpp
@@ -58,7 +58,7 @@ struct add_mixin_op_with_func_by_name final : public mutate_op_by_name, public o
         : mutate_op_by_name(name)
         , object_mutate_op_with_func<ConstructNew_Func>(std::forward<ConstructNew_Func>(func))
     {}
-    void apply_to_type_mutation(type_mutation& mut) { this->info_to_add = &mut.add(name); }
+    void apply_to_type_mutation(type_mutation& mut) { this->affected_info = &mut.add(name); }
 };
 
 template <typename ConstructNew_Func>
-- 
2.43.0


From 27bfdb6f3d84de12b7eb729e1ef61d282caf988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:56 +0000
Subject: [PATCH 10/26] fix: ignore construct operations for names the domain
 doesn't know

---
 code/dynamix/mutate_to.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/mutate_to.hpp b/code/dynamix/mutate_to.hpp
index 09481eb..480f04f 100644
--- a/code/dynamix/mutate_to.hpp
+++ b/code/dynamix/mutate_to.hpp
@@ -33,6 +33,7 @@ void mutate_to(object& obj, const type& type, Ops&&... ops) {
     obj_mutates_end = std::remove_if(obj_mutates, obj_mutates_end, [&type](object_mutate_op* op) {
         if (!op) return true; // null (non add-mixin op)
         if (!op->overrides_init()) return true; // valid op, which doesn't override init, so we don't need it
+        if (!op->affected_info) return true; // op for a name which is not a mixin of the domain
         auto index = type.index_of(op->affected_info->id);
         if (index == invalid_mixin_index) return true; // mixin which was removed by rules
         op->mixin_index = index; // assign index
-- 
2.43.0


From 099fc83a5d7d7fc977d592f9017a03926da66c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:56 +0000
Subject: [PATCH 11/26] fix: run a single operation per mixin when mutating

---
 code/dynamix/mutate_to.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/dynamix/mutate_to.hpp b/code/dynamix/mutate_to.hpp
index 480f04f..5172c34 100644
--- a/code/dynamix/mutate_to.hpp
+++ b/code/dynamix/mutate_to.hpp
@@ -45,6 +45,11 @@ void mutate_to(object& obj, const type& type, Ops&&... ops) {
         return a->mixin_index < b->mixin_index;
     });
 
+    // a mixin is only initialized once, so leave a single op for it
+    obj_mutates_end = std::unique(obj_mutates, obj_mutates_end, [](const object_mutate_op* a, const object_mutate_op* b) {
+        return a->mixin_index == b->mixin_index;
+    });
+
     // when overriding ops are sorted, we can do a piecewise mutation
     object_mutation obj_mut(obj, type);
     for (auto i = obj_mutates; i != obj_mutates_end; ++i) {
-- 
2.43.0


From fbcd84c8579460f01fc4bc86051051665091ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:44 +0000
Subject: [PATCH 12/26] fix: don't terminate when there's no memory for a
 mutation of a type

---
 code/dynamix/type_mutation.cpp | 2 +-
 code/dynamix/type_mutation.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/type_mutation.cpp b/code/dynamix/type_mutation.cpp
index 7cf6ccd..e66f4aa 100644
--- a/code/dynamix/type_mutation.cpp
+++ b/code/dynamix/type_mutation.cpp
@@ -22,7 +22,7 @@ type_mutation::type_mutation(domain& d, const allocator& alloc) noexcept
     , mixins(alloc)
 {}
 
-type_mutation::type_mutation(const type& base, const allocator& alloc) noexcept
+type_mutation::type_mutation(const type& base, const allocator& alloc)
     : type_mutation(base.dom, alloc)
 {
     mixins.assign(base.mixins.begin(), base.mixins.end());
diff --git a/code/dynamix/type_mutation.hpp b/code/dynamix/type_mutation.hpp
index c82d647..5c78418 100644
--- a/code/dynamix/type_mutation.hpp
+++ b/code/dynamix/type_mutation.hpp
@@ -30,7 +30,7 @@ public:
 
     // start a mutation with a specific base
     // optionally provide an allocator for the type template
-    explicit type_mutation(const type& base, const allocator& alloc = {}) noexcept;
+    explicit type_mutation(const type& base, const allocator& alloc = {});
 
     // add mixin
     void add(const mixin_info& info) { mixins.push_back(&info); }
-- 
2.43.0


From ffb162bb41eef85f946a83492cabf586729f251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:44 +0000
Subject: [PATCH 13/26] fix: don't leave the rules of a mixin whose
 registration failed in the domain

---
 code/dynamix/mixin_info_data.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/code/dynamix/mixin_info_data.cpp b/code/dynamix/mixin_info_data.cpp
index 7b7729a..2a73078 100644
--- a/code/dynamix/mixin_info_data.cpp
+++ b/code/dynamix/mixin_info_data.cpp
@@ -7,10 +7,19 @@
 namespace dynamix::util {
 
 void mixin_info_data::register_in(domain& dom) {
-    for (auto* r : mutation_rule_infos) {
-        dom.add_mutation_rule(*r);
+    size_t num_added = 0;
+    try {
+        for (auto* r : mutation_rule_infos) {
+            dom.add_mutation_rule(*r);
+            ++num_added;
+        }
+        dom.register_mixin(info);
+    }
+    catch (...) {
+        // don't leave rules of a mixin which is not there
+        while (num_added) dom.remove_mutation_rule(*mutation_rule_infos[--num_added]);
+        throw;
     }
-    dom.register_mixin(info);
 }
 
 void mixin_info_data::unregister_from(domain& dom) noexcept {
-- 
2.43.0


From 0e78c8218d7134651ac24d7b7e4e8c44a5c52059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:44 +0000
Subject: [PATCH 14/26] fix: v1: substitute a mixin in types which have the
 replacement

---
 v1compat/code/dynamix/v1compat/common_mutation_rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp b/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp
index c2bfe67..5bdc05e 100644
--- a/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp
+++ b/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp
@@ -68,7 +68,7 @@ class substitute_mixin : public mutation_rule {
     virtual void apply_to(type_mutation& mut) override {
         if (mut.has<SourceMixin>()) {
             mut.remove<SourceMixin>();
-            mut.add<TargetMixin>();
+            mut.add_if_lacking<TargetMixin>();
         }
     }
 };
-- 
2.43.0


From f308773aaf8f25679c6e1519b6f8e5ad526a433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:44 +0000
Subject: [PATCH 15/26] fix: v1: define adding mixins by name to the lists of
 rules

---
 v1compat/code/dynamix/v1compat/mutation_rules.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v1compat/code/dynamix/v1compat/mutation_rules.cpp b/v1compat/code/dynamix/v1compat/mutation_rules.cpp
index 1aa29ad..ec8728f 100644
--- a/v1compat/code/dynamix/v1compat/mutation_rules.cpp
+++ b/v1compat/code/dynamix/v1compat/mutation_rules.cpp
@@ -67,6 +67,11 @@ std::shared_ptr<mutation_rule> remove_mutation_rule(mutation_rule_id id) {
     return r;
 }
 
+void impl::mixin_list::add(std::string_view name) {
+    type_mutation mut(domain::instance()); // find by name with the relevant error if missing
+    infos.push_back(&mut.add(name));
+}
+
 void dependent_mixins_oneshot::apply_to(type_mutation& mut) {
     if (!mut.has(*master)) return;
     for (auto i : infos) {
-- 
2.43.0


From 48974dd251f0b2d49a06a763d1ee817f38566cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:23 +0000
Subject: [PATCH 16/26] fix: C interface: report a failure to create a domain,
 don't throw when unregistering foreign infos

---
 code/dynamix/domain-c.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/code/dynamix/domain-c.cpp b/code/dynamix/domain-c.cpp
index eb801d1..fed3e87 100644
--- a/code/dynamix/domain-c.cpp
+++ b/code/dynamix/domain-c.cpp
@@ -15,8 +15,13 @@ extern "C" {
 #define self domain::from_c_handle(hd)
 
 dnmx_domain_handle dnmx_create_domain(dnmx_sv name, dnmx_domain_settings settings, uintptr_t user_data, void* context) {
-    auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
-    return new_dom->to_c_hanlde();
+    try {
+        auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
+        return new_dom->to_c_hanlde();
+    }
+    catch (...) {
+        return nullptr;
+    }
 }
 void dnmx_destroy_domain(dnmx_domain_handle hd) {
     delete self;
@@ -39,7 +44,10 @@ dnmx_error_return_t dnmx_register_feature(dnmx_domain_handle hd, dnmx_feature_in
     }
 }
 void dnmx_unregister_feature(dnmx_domain_handle hd, dnmx_feature_info* info) {
-    self->unregister_feature(*info);
+    try {
+        self->unregister_feature(*info);
+    }
+    catch (...) {} // not ours: there's nothing to unregister
 }
 
 dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
@@ -52,7 +60,10 @@ dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info*
     }
 }
 void dnmx_unregister_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
-    self->unregister_mixin(*info);
+    try {
+        self->unregister_mixin(*info);
+    }
+    catch (...) {} // not ours: there's nothing to unregister
 }
 
 const dnmx_feature_info* dnmx_get_feature_info_by_id(dnmx_domain_handle hd, dnmx_feature_id id) {
-- 
2.43.0


From 34eeca24bdfe682d7721d5573ade04bf9ea8403e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:23 +0000
Subject: [PATCH 17/26] fix: C interface: report a failure to create a mixin
 allocator

---
 code/dynamix/mixin_allocator-c.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/dynamix/mixin_allocator-c.cpp b/code/dynamix/mixin_allocator-c.cpp
index 5eeb4fe..4d64a1b 100644
--- a/code/dynamix/mixin_allocator-c.cpp
+++ b/code/dynamix/mixin_allocator-c.cpp
@@ -34,7 +34,8 @@ using namespace dynamix;
 
 extern "C" {
 dnmx_mixin_allocator_handle dnmx_create_mixin_allocator(dnmx_alloc_mixin_func alloc, dnmx_dealloc_mixin_func dealloc) {
-    auto ret = new c_mixin_allocator(alloc, dealloc);
+    auto ret = new (std::nothrow) c_mixin_allocator(alloc, dealloc);
+    if (!ret) return nullptr;
     return ret->to_c_hanlde();
 }
 void dnmx_destroy_mixin_allocator(dnmx_mixin_allocator_handle ha) {
-- 
2.43.0


From 90226a0fc548eee261df40cfe19bdcdbe6c45706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:23 +0000
Subject: [PATCH 18/26] fix: C interface: don't throw when clearing the type of
 a sealed object, define what was only declared

---
 code/dynamix/object-c.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 2fc40c0..3df423f 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -80,6 +80,13 @@ bool dnmx_object_has_by_name(dnmx_const_object_handle ho, dnmx_sv name) {
     return self->has(name.to_std());
 }
 
+bool dnmx_object_implements_strong(dnmx_const_object_handle ho, const dnmx_feature_info* info) {
+    return self->get_type().implements_strong(*info);
+}
+bool dnmx_object_implements_strong_by_name(dnmx_const_object_handle ho, dnmx_sv name) {
+    return self->get_type().implements_strong(name.to_std());
+}
+
 const void* dnmx_object_get(dnmx_const_object_handle ho, const dnmx_mixin_info* info) {
     return self->get(*info);
 }
@@ -105,19 +112,18 @@ bool dnmx_object_clear(dnmx_object_handle ho) {
     return true;
 }
 dnmx_error_return_t dnmx_object_reset_type(dnmx_object_handle ho, dnmx_type_handle ht) {
-    if (ht) {
-        try {
+    try {
+        if (ht) {
             self->reset_type(*type::from_c_handle(ht));
         }
-        catch (std::exception&) {
-            return -1;
+        else {
+            self->clear();
         }
+        return dnmx_result_success;
     }
-    else {
-        self->clear();
+    catch (...) {
+        return -1;
     }
-
-    return dnmx_result_success;
 }
 
 bool dnmx_object_is_empty(dnmx_const_object_handle ho) {
@@ -137,7 +143,7 @@ bool dnmx_object_equals(dnmx_const_object_handle ho, dnmx_const_object_handle b)
 }
 
 dnmx_int_result dnmx_object_compare(dnmx_const_object_handle ho, dnmx_const_object_handle b) {
-    dnmx_int_result ret;
+    dnmx_int_result ret = {};
     try {
         ret.result = self->compare(*object::from_c_handle(b));
         ret.error = dnmx_result_success;
-- 
2.43.0


From 95ac692f0fd789f5181a26bcd3aac56956905441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:23 +0000
Subject: [PATCH 19/26] fix: C interface: don't let through exceptions which
 are not std::exception

---
 code/dynamix/domain-c.cpp        | 12 ++++++------
 code/dynamix/mutate-c.cpp        |  4 ++--
 code/dynamix/object-c.cpp        | 12 ++++++------
 code/dynamix/type-c.cpp          |  2 +-
 code/dynamix/type_mutation-c.cpp | 14 +++++++-------
 5 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/code/dynamix/domain-c.cpp b/code/dynamix/domain-c.cpp
index fed3e87..9188143 100644
--- a/code/dynamix/domain-c.cpp
+++ b/code/dynamix/domain-c.cpp
@@ -39,7 +39,7 @@ dnmx_error_return_t dnmx_register_feature(dnmx_domain_handle hd, dnmx_feature_in
         self->register_feature(*info);
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -55,7 +55,7 @@ dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info*
         self->register_mixin(*info);
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -87,7 +87,7 @@ dnmx_error_return_t dnmx_register_type_class(dnmx_domain_handle hd, const dnmx_t
         self->register_type_class(*tc);
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -105,7 +105,7 @@ dnmx_error_return_t dnmx_add_mutation_rule(dnmx_domain_handle hd, const dnmx_mut
         self->add_mutation_rule(*info);
         return 0;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -117,7 +117,7 @@ dnmx_type_handle dnmx_get_type_from_infos(dnmx_domain_handle hd, const dnmx_mixi
     try {
         return &self->get_type({mixins, num_mixins});
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -128,7 +128,7 @@ dnmx_type_handle dnmx_get_type(dnmx_domain_handle hd, dnmx_type_mutation_handle*
         *hmut = nullptr;
         return &self->get_type(std::move(*pmut));
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
diff --git a/code/dynamix/mutate-c.cpp b/code/dynamix/mutate-c.cpp
index 94ef437..5c1cf75 100644
--- a/code/dynamix/mutate-c.cpp
+++ b/code/dynamix/mutate-c.cpp
@@ -62,7 +62,7 @@ dnmx_error_return_t dnmx_mutate_to(dnmx_object_handle obj, dnmx_type_handle ht,
 
         return result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -120,7 +120,7 @@ DYNAMIX_API dnmx_error_return_t dnmx_mutate(dnmx_object_handle ho, const dnmx_mu
 
         return result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 3df423f..df6b999 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -17,7 +17,7 @@ dnmx_object_handle dnmx_create_object_empty(dnmx_domain_handle hd) {
         auto obj = new object(*domain::from_c_handle(hd));
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -26,7 +26,7 @@ dnmx_object_handle dnmx_create_object_default(dnmx_type_handle ht) {
         auto obj = new object(*type::from_c_handle(ht));
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -35,7 +35,7 @@ dnmx_object_handle dnmx_create_object_copy(dnmx_const_object_handle ho) {
         auto obj = new object(object::from_c_handle(ho)->copy());
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -44,7 +44,7 @@ dnmx_object_handle dnmx_create_object_usurp(dnmx_object_handle ho) {
         auto obj = new object(std::move(*object::from_c_handle(ho)));
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -57,7 +57,7 @@ dnmx_error_return_t dnmx_object_copy_from(dnmx_object_handle ho, dnmx_const_obje
         self->copy_from(*object::from_c_handle(source));
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -148,7 +148,7 @@ dnmx_int_result dnmx_object_compare(dnmx_const_object_handle ho, dnmx_const_obje
         ret.result = self->compare(*object::from_c_handle(b));
         ret.error = dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         ret.error = -1;
     }
     return ret;
diff --git a/code/dynamix/type-c.cpp b/code/dynamix/type-c.cpp
index 2c937a7..8d34112 100644
--- a/code/dynamix/type-c.cpp
+++ b/code/dynamix/type-c.cpp
@@ -55,7 +55,7 @@ bool dnmx_type_is_of_name(dnmx_type_handle ht, dnmx_sv name) {
     try {
         return self->is_of(name.to_std());
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
diff --git a/code/dynamix/type_mutation-c.cpp b/code/dynamix/type_mutation-c.cpp
index 588bdd0..d5862a0 100644
--- a/code/dynamix/type_mutation-c.cpp
+++ b/code/dynamix/type_mutation-c.cpp
@@ -17,7 +17,7 @@ dnmx_type_mutation_handle dnmx_create_type_mutation_empty(dnmx_domain_handle hd)
         auto mut = new type_mutation(*domain::from_c_handle(hd));
         return mut->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -27,7 +27,7 @@ dnmx_type_mutation_handle dnmx_create_type_mutation_from_type(dnmx_type_handle h
         auto mut = new type_mutation(*type::from_c_handle(ht));
         return mut->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -61,7 +61,7 @@ bool dnmx_type_mutation_add(dnmx_type_mutation_handle hmut, const dnmx_mixin_inf
         self->add(*info);
         return true;
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
@@ -69,7 +69,7 @@ bool dnmx_type_mutation_add_if_lacking(dnmx_type_mutation_handle hmut, const dnm
     try {
         return self->add_if_lacking(*info);
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
@@ -84,7 +84,7 @@ bool dnmx_type_mutation_to_back(dnmx_type_mutation_handle hmut, const dnmx_mixin
         self->to_back(*info);
         return true;
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
@@ -92,7 +92,7 @@ const dnmx_mixin_info* dnmx_type_mutation_to_back_by_name(dnmx_type_mutation_han
     try {
         return &self->to_back(name.to_std());
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -111,7 +111,7 @@ bool dnmx_type_mutation_set_mixins(dnmx_type_mutation_handle hmut, const dnmx_mi
         self->mixins.assign(mixins, mixins + num_mixins);
         return true;
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
-- 
2.43.0


From 741c65f92e3b0395ecb074735ec6c6ad24b5bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 20/26] fix: don't keep answers to type requests which went out
 of date while no lock was held

---
 code/dynamix/domain.cpp | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index d15fd9f..29545f5 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -166,6 +166,11 @@ public:
         // stored type queries
         // with them we avoid applying mutation rules for the same type query
         type_query_map type_queries;
+
+        // changes whenever existing rules or types are dropped or new rules are added
+        // with it requests which are not answered within a single lock can tell
+        // whether what they found while holding the first one is still valid
+        uint64_t generation = 0;
     };
     data_mutex<type_registry> m_type_registry;
 
@@ -293,6 +298,7 @@ public:
         }
         {
             auto treg = m_type_registry.unique_lock();
+            ++treg->generation;
             // since this mixin is no longer valid
             // remove all queries which contain it either as key or as value
             auto& queries = treg->type_queries;
@@ -420,6 +426,7 @@ public:
         // first time registered
         // we need to invalidate stored type queries
         // we can't tell which ones the rule affects, so we have to invalidate them all
+        ++reg->generation;
         reg->type_queries.clear();
     }
     void remove_mutation_rule(const mutation_rule_info& info) noexcept {
@@ -432,6 +439,7 @@ public:
 
         // refs are zero, so remove rule and invalidate stored type queries
         reg->mutation_rules.erase(f);
+        ++reg->generation;
         // we can't tell which ones the rule affects, so we have to invalidate them all
         reg->type_queries.clear();
     }
@@ -493,16 +501,30 @@ public:
         if (&mutation.dom != &m_domain) throw_exception::foreign_mutation(m_domain, mutation);
 
         type_query original_query(m_allocator); // prepare original query with our allocator
+
+        while (true) {
+            if (auto t = try_get_type(mutation, original_query)) return *t;
+
+            // start over with the original query
+            mutation.mixins.assign(original_query.begin(), original_query.end());
+        }
+    }
+
+    // return nullptr if the rules we applied changed or the type we found was dropped while we weren't holding a lock
+    const type* try_get_type(type_mutation& mutation, type_query& original_query) {
         const type* found = nullptr;
+        uint64_t generation = 0;
 
         {
             // search for stored query for this combo
             auto reg = m_type_registry.shared_lock();
             {
                 auto f = reg->type_queries.find(mutation.mixins);
-                if (f != reg->type_queries.end()) return *f->second;
+                if (f != reg->type_queries.end()) return f->second;
             }
 
+            generation = reg->generation;
+
             // query is not available, so we need to apply mutation rules
             // we can do it while holding the shared lock
             original_query = apply_mutation_rules_l(mutation, reg->mutation_rules);
@@ -526,11 +548,12 @@ public:
             // worst (and extremely rare) case we wasted cpu applying the same rules twice
 
             auto reg = m_type_registry.unique_lock();
+            if (reg->generation != generation) return nullptr;
             reg->type_queries[std::move(original_query)] = found;
-            return *found;
+            return found;
         }
 
-        return create_type(mutation, std::move(original_query));
+        return create_type(mutation, original_query, generation);
     }
 
     const type& get_type(itlib::span<const mixin_info* const> mixins) {
@@ -689,7 +712,8 @@ public:
     };
 
     // create type for a given mutation requested by a given query
-    const type& create_type(type_mutation& mutation, type_query&& query) {
+    // return nullptr (and leave the query as it is) if the registry is not of the given generation any more
+    const type* create_type(type_mutation& mutation, type_query& query, uint64_t generation) {
         mixin_info_span mixins(mutation.mixins);
 
         // first check validity
@@ -819,6 +843,7 @@ public:
 
         // finally add new type to types and return it
         auto reg = m_type_registry.unique_lock();
+        if (reg->generation != generation) return nullptr;
         auto res = reg->types.emplace(std::move(new_type));
 
         // note that the type may already be added
@@ -835,11 +860,12 @@ public:
 
         const type* reg_type = res.first->get();
         reg->type_queries[std::move(query)] = reg_type;
-        return *reg_type;
+        return reg_type;
     }
 
     void garbage_collect_types() noexcept {
         auto l = m_type_registry.unique_lock();
+        ++l->generation;
         auto& types = l->types;
         auto& queries = l->type_queries;
         for (auto it = types.begin(); it != types.end(); ) {
-- 
2.43.0


From 92ec25cc3b58ffab382787e65ffd5ae0c0111f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 21/26] fix: order dropping a type after the destruction of its
 last object in another thread

---
 code/dynamix/type.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/type.hpp b/code/dynamix/type.hpp
index 751d8e7..31e9b79 100644
--- a/code/dynamix/type.hpp
+++ b/code/dynamix/type.hpp
@@ -18,8 +18,8 @@
 #include "globals.hpp"
 
 #include <itlib/span.hpp>
-#include <itlib/atomic.hpp>
 
+#include <atomic>
 #include <cstdint>
 #include <string_view>
 
@@ -171,7 +171,9 @@ public:
     // this is the buffer size (it's used when deallocating)
     byte_size_t buf_size;
 private:
-    mutable itlib::atomic_relaxed_counter<size_t> m_num_objects = {};
+    // not relaxed: whoever sees that the last object is gone (and drops the type)
+    // must also see that its thread is done with the type
+    mutable std::atomic<size_t> m_num_objects = {};
 };
 
 }
-- 
2.43.0


From bf62a104cac4d4a88ae33fc492559ed900191700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:25 +0000
Subject: [PATCH 22/26] fix: domain dumps lock once, close quotes and show
 types of classes

A dump took the type registry's shared lock a second time in the same
thread, missed a quote, ignored dnmx_tc_dmp_matching_types in domain
dumps, and the dump of an object was declared but not defined.
---
 code/dynamix/dbg_dmp.cpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/code/dynamix/dbg_dmp.cpp b/code/dynamix/dbg_dmp.cpp
index c8e386d..d8b433b 100644
--- a/code/dynamix/dbg_dmp.cpp
+++ b/code/dynamix/dbg_dmp.cpp
@@ -102,12 +102,12 @@ void dbg_dmp_l(std::ostream& out, const type& t, uint32_t flags, domain_traverse
 }
 
 void dbg_dmp_l(std::ostream& out, const type_class& tc, uint32_t flags, domain_traverse* tr) {
-    out << "type class: '" << tc.name.to_std() << ", match: " << p(tc.matches);
+    out << "type class: '" << tc.name.to_std() << "', match: " << p(tc.matches);
     if (tc.matches && tr && (flags & dnmx_tc_dmp_matching_types)) {
         tr->traverse_types([&](const type& t) {
             if (!tc.matches(&t)) return;
-            out << "match ";
-            dbg_dmp(out, t, 0);
+            out << NIND "match ";
+            dbg_dmp_l(out, t, 0, nullptr);
         });
     }
 }
@@ -178,14 +178,22 @@ void dbg_dmp(std::ostream& out, const domain& d, uint32_t flags) {
         });
     }
     if (flags & dnmx_dom_dmp_mutation_rules) {
-        out << "## " << d.num_mutation_rules() << " Mutation Rules\n";
+        // not from the domain: the traversal already holds the lock
+        int count = 0;
+        tr.traverse_mutation_rules([&](const mutation_rule_info&, uint32_t) { ++count; });
+
+        out << "## " << count << " Mutation Rules\n";
         tr.traverse_mutation_rules([&](const mutation_rule_info& mri, uint32_t refs) {
             dbg_dmp(out, mri, flags);
             out << ", " << refs << " refs\n";
         });
     }
     if (flags & dnmx_dom_dmp_types) {
-        out << "## " << d.num_types() << " Types\n";
+        // not from the domain: the traversal already holds the lock
+        int count = 0;
+        tr.traverse_types([&](const type&) { ++count; });
+
+        out << "## " << count << " Types\n";
         tr.traverse_types([&](const type& t) {
             dbg_dmp_l(out, t, flags, &tr);
             out << '\n';
@@ -197,12 +205,16 @@ void dbg_dmp(std::ostream& out, const domain& d, uint32_t flags) {
 
         out << "## " << count << " Type Classes\n";
         tr.traverse_type_classes([&](const type_class& tc) {
-            dbg_dmp(out, tc, flags);
+            dbg_dmp_l(out, tc, flags, &tr);
             out << '\n';
         });
     }
     if (flags & dnmx_dom_dmp_type_queries) {
-        out << "## " << d.num_type_queries() << " Type Queries\n";
+        // not from the domain: the traversal already holds the lock
+        int count = 0;
+        tr.traverse_type_queries([&](itlib::span<const mixin_info* const>, const type&) { ++count; });
+
+        out << "## " << count << " Type Queries\n";
         tr.traverse_type_queries([&](itlib::span<const mixin_info* const> mixins, const type& qt) {
             out << "tq: ";
             output_mixins(out, mixins);
@@ -294,4 +306,9 @@ void dbg_dmp(std::ostream& out, const type& t, uint32_t flags) {
 void dbg_dmp(std::ostream& out, const type_class& tc, uint32_t flags) {
     dbg_dmp_l(out, tc, flags, nullptr);
 }
+
+void dbg_dmp(std::ostream& out, const object& o) {
+    out << "object: (" << &o << ") ";
+    dbg_dmp_l(out, o.get_type(), 0, nullptr);
+}
 }
-- 
2.43.0


From b6070daa8d6527ea29a423507503a36d51338fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:25 +0000
Subject: [PATCH 23/26] fix: v1 messages with a default are registered under
 their own name

---
 v1compat/gen/arity_message_macros_template | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1compat/gen/arity_message_macros_template b/v1compat/gen/arity_message_macros_template
index 3d12434..4149fba 100644
--- a/v1compat/gen/arity_message_macros_template
+++ b/v1compat/gen/arity_message_macros_template
@@ -58,7 +58,7 @@
 #define DYNAMIX_V1_DEFINE_MESSAGE_%{arity}_WITH_DEFAULT_IMPL(return_type, message_name %{args_coma}) \
     static return_type I_DYNAMIX_V1_DEFAULT_IMPL_FUNC_NAME(message_name)(I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::traits::obj_t& %{coma_args_signature}); \
     const ::dynamix::common_feature_info& I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::get_info_safe() { \
-        static ::dynamix::common_feature_info the_info(dnmx_make_sv_lit(I_DNMX_PP_STRINGIZE(I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name))), multicast, (void*) \
+        static ::dynamix::common_feature_info the_info(dnmx_make_sv_lit(I_DNMX_PP_STRINGIZE(message_name)), multicast, (void*) \
             (static_cast<I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::traits::sig_t*>(I_DYNAMIX_V1_DEFAULT_IMPL_FUNC_NAME(message_name)))); \
         return the_info; \
     } \
-- 
2.43.0


From 6f5770d199655ccf3f950acc5a781f2c36452dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:22 +0000
Subject: [PATCH 24/26] fix: matching an object with itself leaves it as it is

move_matching_from(o) with o being *this and fallback allowed destroyed the
mixins and then moved from them.
---
 code/dynamix/object.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/dynamix/object.cpp b/code/dynamix/object.cpp
index 578b923..62dd4c0 100644
--- a/code/dynamix/object.cpp
+++ b/code/dynamix/object.cpp
@@ -150,6 +150,8 @@ void object::copy_matching_from(const object& o) {
 }
 
 void object::move_matching_from(object& o, bool fallback_to_init) {
+    if (&o == this) return; // self-move: the fallback would move from what it has just destroyed
+
     auto& otype = o.get_type();
     auto& mtype = get_type();
 
-- 
2.43.0


From e2792bab9c7148dcf3c0657d008227f72ea96e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:38 +0000
Subject: [PATCH 25/26] fix: the error about unregistering a foreign mixin
 calls it a mixin

---
 code/dynamix/throw_exception.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/throw_exception.cpp b/code/dynamix/throw_exception.cpp
index e35c019..43fca36 100644
--- a/code/dynamix/throw_exception.cpp
+++ b/code/dynamix/throw_exception.cpp
@@ -131,7 +131,7 @@ void unreg_foreign(const domain& dom, const feature_info& info) {
 }
 void unreg_foreign(const domain& dom, const mixin_info& info) {
     e<domain_error> out(dom);
-    out << "unregister foreign feature " << info << ", id = " << info.iid() << ", domain = ";
+    out << "unregister foreign mixin " << info << ", id = " << info.iid() << ", domain = ";
     if (info.dom) {
         out << *domain::from_c_handle(info.dom);
     }
-- 
2.43.0


From 47d4e537e32fb8bdcfd97defd36df68c5694288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:38 +0000
Subject: [PATCH 26/26] fix: an object mutation which was finalized by hand is
 not undone by its destructor

An exception after finalize() rolled back: it destroyed and freed the mixins
which the object already owned.
---
 code/dynamix/object_mutation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index ff055d8..add34b0 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -203,6 +203,7 @@ void object_mutation::rollback() noexcept {
 
 void object_mutation::finalize() noexcept {
     if (!m_complete) return;
+    m_moved_out_from = true; // applied: nothing is left for the destructor to do or undo
 
     if (&m_target_type == m_old_type) {
         // tag: same_type_shortcut
-- 
2.43.0

