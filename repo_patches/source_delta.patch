From df3c03d47d041b2067921e0c8deb89ec8c139745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:06 +0000
Subject: [PATCH 1/6] fix: assign from a variant whose content is in a heap
 backup

After a failed assignment without a fallback type the content lives in a
backup_holder. assigner and move_assigner did not unwrap it when such a
variant was the source of a type-changing assignment (or took part in a
swap), so the backup_holder itself was copied into the target: an
assertion failure, or with NDEBUG a target holding garbage.
---
 include/boost/variant/variant.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 33bdcb7..c9c404b 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -1797,6 +1797,12 @@ private: // helpers, for modifiers (below)
                 );
         }
 
+        template <typename T>
+        void internal_visit(const detail::variant::backup_holder<T>& rhs_content, long) const
+        {
+            internal_visit( rhs_content.get(), 1L );
+        }
+
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
     private:
         // silence MSVC warning C4512: assignment operator could not be generated
@@ -1915,6 +1921,12 @@ private: // helpers, for modifiers (below)
                 );
         }
 
+        template <typename T>
+        void internal_visit(detail::variant::backup_holder<T>& rhs_content, long) const
+        {
+            internal_visit( rhs_content.get(), 1L );
+        }
+
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
     private:
         // silence MSVC warning C4512: assignment operator could not be generated
-- 
2.43.0


From 9f06c92b1a83496cdb58487e70d63d77bbde0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:08 +0000
Subject: [PATCH 2/6] fix: never put content with a nothrow copy into a heap
 backup

backup_assigner chose a heap backup for every type whose move may throw,
but visitation assumes that a type with a nothrow copy constructor is
always held in place and then read the backup pointer as the content.
Back such content up on the stack by (nothrow) copy instead.
---
 include/boost/variant/variant.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index c9c404b..4a2bb7c 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -16,6 +16,7 @@
 #define BOOST_VARIANT_VARIANT_HPP
 
 #include <cstddef> // for std::size_t
+#include <utility> // for std::move_if_noexcept
 #include <new> // for placement new
 
 #include <boost/type_index.hpp>
@@ -755,13 +756,13 @@ private: // helpers, for visitor interface (below)
     template <typename LhsT>
     void backup_assign_impl(
           LhsT& lhs_content
-        , mpl::true_ // is_nothrow_move_constructible
+        , mpl::true_ // is_nothrow_move_constructible or has_nothrow_copy
         , int
         )
     {
-        // Move lhs content to backup...
+        // Move (or copy, if only that is nothrow) lhs content to backup...
         LhsT backup_lhs_content(
-              ::boost::detail::variant::move(lhs_content)
+              std::move_if_noexcept(lhs_content)
             ); // nothrow
 
         // ...destroy lhs content...
@@ -777,7 +778,7 @@ private: // helpers, for visitor interface (below)
             // In case of failure, restore backup content to lhs storage...
             new(lhs_.storage_.address())
                 LhsT(
-                      ::boost::detail::variant::move(backup_lhs_content)
+                      std::move_if_noexcept(backup_lhs_content)
                     ); // nothrow
 
             // ...and rethrow:
@@ -833,10 +834,14 @@ public: // visitor interface
     template <typename LhsT>
     void internal_visit(LhsT& lhs_content, int)
     {
-        typedef typename is_nothrow_move_constructible<LhsT>::type
-            nothrow_move;
+        // [Content with a nothrow copy never uses heap backup, even if its
+        //  move may throw: visitation relies on it (see visitation_impl).]
+        typedef typename mpl::or_<
+              is_nothrow_move_constructible<LhsT>
+            , has_nothrow_copy<LhsT>
+            >::type nothrow_backup;
 
-        backup_assign_impl( lhs_content, nothrow_move(), 1L);
+        backup_assign_impl( lhs_content, nothrow_backup(), 1L);
     }
 
 #if BOOST_WORKAROUND(BOOST_MSVC, BOOST_TESTED_AT(1600))
-- 
2.43.0


From 55fdb7e7556fbc6c46cc61472dee30a9dbc078c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:46 +0000
Subject: [PATCH 3/6] fix: construct the fallback type, not an MPL iterator,
 after a failed assignment

find_fallback_type returned the iterator found by the search instead of the
type it points to, so after a failed assignment the storage received an
(empty) MPL iterator object: the fallback content was never constructed,
yet it was visited and destroyed later. Return the type, and
value-initialise it so that scalar fallbacks have a definite value.
---
 include/boost/variant/variant.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 4a2bb7c..61640ed 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -182,6 +182,15 @@ struct find_fallback_type
 {
 private: // helpers, for metafunction result (below)
 
+    template <typename Result>
+    struct deref_result
+    {
+        typedef mpl::pair<
+              typename Result::first
+            , typename mpl::deref< typename Result::second >::type
+            > type;
+    };
+
     typedef typename mpl::end<Types>::type end_it;
 
     // [Find the first suitable fallback type...]
@@ -207,15 +216,15 @@ private: // helpers, for metafunction result (below)
 
 public: // metafunction result
 
-    // [...and return the results of the search:]
+    // [...and return the results of the search (index and type):]
     typedef typename mpl::eval_if<
           is_same< second_result_it,end_it >
-        , mpl::if_<
+        , mpl::eval_if<
               is_same< first_result_it,end_it >
-            , mpl::pair< no_fallback_type,no_fallback_type >
-            , first_result_
+            , mpl::identity< mpl::pair< no_fallback_type,no_fallback_type > >
+            , deref_result< first_result_ >
             >
-        , mpl::identity< second_result_ >
+        , deref_result< second_result_ >
         >::type type;
 
 };
@@ -1731,7 +1740,7 @@ private: // helpers, for modifiers (below)
         void construct_fallback() const BOOST_NOEXCEPT {
             // In case of failure, default-construct fallback type in lhs's storage...
             new (lhs_.storage_.address())
-                fallback_type_; // nothrow
+                fallback_type_(); // nothrow
 
             // ...indicate construction of fallback type...
             lhs_.indicate_which(
-- 
2.43.0


From 1fa7ef81f97c52bee8f25d118ecf6cd4f3d56b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:05 +0000
Subject: [PATCH 4/6] fix: prefer boost::blank as fallback, as documented

The search for boost::blank compared the MPL iterator, not the type it
points to, with boost::blank, so it never succeeded and the first nothrow
default-constructible type was used instead.
---
 include/boost/variant/variant.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index 61640ed..f97aefa 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -177,6 +177,19 @@ struct find_fallback_type_pred
     };
 };
 
+struct find_blank_pred
+{
+    template <typename Iterator>
+    struct apply
+    {
+    private:
+        typedef typename mpl::deref<Iterator>::type t_;
+
+    public:
+        typedef mpl::not_< is_same< t_,boost::blank > > type;
+    };
+};
+
 template <typename Types>
 struct find_fallback_type
 {
@@ -209,7 +222,7 @@ private: // helpers, for metafunction result (below)
     typedef typename mpl::iter_fold_if<
           mpl::iterator_range< first_result_it,end_it >
         , first_result_index, mpl::protect< mpl::next<> >
-        , mpl::protect< mpl::not_same_as<boost::blank> >
+        , mpl::protect< find_blank_pred >
         >::type second_result_;
 
     typedef typename second_result_::second second_result_it;
-- 
2.43.0


From 8fb6d6a5070a15d406e2478b92098254c70c9e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:17 +0000
Subject: [PATCH 5/6] fix: let result-deducing visitors take four and more
 variants

The enable_if function parameter after the pack TN made TN non-deducible,
hence empty, so apply_visitor(visitor, v1, v2, v3, v4) did not compile for
a visitor without result_type, contrary to the reference.
---
 .../variant/detail/multivisitors_cpp14_based.hpp   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/boost/variant/detail/multivisitors_cpp14_based.hpp b/include/boost/variant/detail/multivisitors_cpp14_based.hpp
index 214fdc0..e11a6f9 100644
--- a/include/boost/variant/detail/multivisitors_cpp14_based.hpp
+++ b/include/boost/variant/detail/multivisitors_cpp14_based.hpp
@@ -103,12 +103,13 @@ namespace detail { namespace variant {
 
 }} // namespace detail::variant
 
-    template <class Visitor, class T1, class T2, class T3, class... TN>
-    inline decltype(auto) apply_visitor(const Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn,
+    // The constraint is a template parameter: a function parameter after the pack would make TN empty.
+    template <class Visitor, class T1, class T2, class T3, class... TN,
         typename boost::disable_if<
             boost::detail::variant::has_result_type<Visitor>,
             bool
-        >::type = true)
+        >::type = true>
+    inline decltype(auto) apply_visitor(const Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn)
     {
         return boost::apply_visitor(
             ::boost::detail::variant::make_one_by_one_visitor_and_value_referer_cpp14(
@@ -125,12 +126,13 @@ namespace detail { namespace variant {
     }
 
 
-    template <class Visitor, class T1, class T2, class T3, class... TN>
-    inline decltype(auto) apply_visitor(Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn,
+    // The constraint is a template parameter: a function parameter after the pack would make TN empty.
+    template <class Visitor, class T1, class T2, class T3, class... TN,
         typename boost::disable_if<
             boost::detail::variant::has_result_type<Visitor>,
             bool
-        >::type = true)
+        >::type = true>
+    inline decltype(auto) apply_visitor(Visitor& visitor, T1&& v1, T2&& v2, T3&& v3, TN&&... vn)
     {
         return ::boost::apply_visitor(
             ::boost::detail::variant::make_one_by_one_visitor_and_value_referer_cpp14(
-- 
2.43.0


From 41040eec4001750eef1ef3049d74acbd898d845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:13 +0000
Subject: [PATCH 6/6] fix: take the address of assigned content with
 boost::addressof

backup_assigner used the content's own operator&, so assigning content
with an overloaded operator& read through whatever that returned.
---
 include/boost/variant/variant.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/variant/variant.hpp b/include/boost/variant/variant.hpp
index f97aefa..1b59be4 100644
--- a/include/boost/variant/variant.hpp
+++ b/include/boost/variant/variant.hpp
@@ -54,6 +54,7 @@
 #include <boost/type_traits/is_constructible.hpp>
 #include <boost/type_traits/add_lvalue_reference.hpp>
 #include <boost/type_traits/declval.hpp>
+#include <boost/core/addressof.hpp>
 #include <boost/core/no_exceptions_support.hpp>
 #include <boost/core/enable_if.hpp>
 #include <boost/variant/recursive_wrapper_fwd.hpp>
@@ -725,7 +726,7 @@ public: // structors
     backup_assigner(Variant& lhs, int rhs_which, const RhsT& rhs_content)
         : lhs_(lhs)
         , rhs_which_(rhs_which)
-        , rhs_content_(&rhs_content)
+        , rhs_content_(boost::addressof(rhs_content))
         , copy_rhs_content_(&construct_impl<RhsT>)
     {
     }
-- 
2.43.0

