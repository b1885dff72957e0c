From 1083e34a6437e1f920145d976129fefecee39955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:56 +0000
Subject: [PATCH 1/6] fix: size of a C++98 string of the maximal length

---
 include/boost/metaparse/v1/cpp98/impl/size.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/boost/metaparse/v1/cpp98/impl/size.hpp b/include/boost/metaparse/v1/cpp98/impl/size.hpp
index 7de1241..c787d97 100644
--- a/include/boost/metaparse/v1/cpp98/impl/size.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/size.hpp
@@ -54,6 +54,17 @@ namespace boost
         )
   
         #undef BOOST_METAPARSE_STRING_CASE
+
+        // The string uses all of the BOOST_METAPARSE_LIMIT_STRING_SIZE arguments
+        template <
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, int C)
+        >
+        struct
+          size<
+            string<BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, C)>
+          > :
+          boost::mpl::int_<BOOST_METAPARSE_LIMIT_STRING_SIZE>
+        {};
       }
     }
   }
-- 
2.43.0


From c8180d90ade7f9de989be5b18a74a523b4eecfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:03 +0000
Subject: [PATCH 2/6] fix: the C++98 string treats the character '\xff' as the
 end of the string

---
 include/boost/metaparse/v1/impl/no_char.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/metaparse/v1/impl/no_char.hpp b/include/boost/metaparse/v1/impl/no_char.hpp
index c6b91f0..2fec853 100644
--- a/include/boost/metaparse/v1/impl/no_char.hpp
+++ b/include/boost/metaparse/v1/impl/no_char.hpp
@@ -6,12 +6,13 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          http://www.boost.org/LICENSE_1_0.txt)
 
-#include <cstdio>
+#include <climits>
 
 #ifdef BOOST_NO_CHAR
 #  error BOOST_NO_CHAR already defined
 #endif
-#define BOOST_NO_CHAR EOF
+// Outside of the range of char: EOF would be the same as the character '\xff'
+#define BOOST_NO_CHAR (UCHAR_MAX + 1)
 
 #endif
 
-- 
2.43.0


From a6fdc6ca86dd9ff039041b04bc4b508a228972c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:12 +0000
Subject: [PATCH 3/6] fix: C++98 sequences refuse as many parsers as
 BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE

---
 include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp | 3 ++-
 include/boost/metaparse/v1/cpp98/impl/sequence.hpp | 3 ++-
 include/boost/metaparse/v1/cpp98/last_of.hpp       | 7 ++++++-
 include/boost/metaparse/v1/cpp98/nth_of_c.hpp      | 7 ++++++-
 include/boost/metaparse/v1/cpp98/sequence.hpp      | 6 +++++-
 5 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp b/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
index f71728c..fa65df9 100644
--- a/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
@@ -13,6 +13,7 @@
 
 #include <boost/mpl/list.hpp>
 
+#include <boost/preprocessor/arithmetic/inc.hpp>
 #include <boost/preprocessor/repetition/repeat.hpp>
 #include <boost/preprocessor/punctuation/comma_if.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
@@ -46,7 +47,7 @@ namespace boost
           {};
         
         BOOST_PP_REPEAT(
-          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE),
           BOOST_METAPARSE_NTH_OF_CASE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/impl/sequence.hpp b/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
index 7f28766..3d0955a 100644
--- a/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
@@ -11,6 +11,7 @@
 
 #include <boost/mpl/vector.hpp>
 
+#include <boost/preprocessor/arithmetic/inc.hpp>
 #include <boost/preprocessor/repetition/repeat_from_to.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
 #include <boost/preprocessor/cat.hpp>
@@ -44,7 +45,7 @@ namespace boost
         
         BOOST_PP_REPEAT_FROM_TO(
           1,
-          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE),
           BOOST_METAPARSE_SEQUENCE_CASE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/last_of.hpp b/include/boost/metaparse/v1/cpp98/last_of.hpp
index 4e5e475..2f22a5c 100644
--- a/include/boost/metaparse/v1/cpp98/last_of.hpp
+++ b/include/boost/metaparse/v1/cpp98/last_of.hpp
@@ -30,7 +30,12 @@ namespace boost
           boost::mpl::na
         )
       >
-      struct last_of;
+      struct last_of :
+        impl::BOOST_PP_CAT(nth_of_c, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE - 1,
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
 
       #ifdef BOOST_METAPARSE_LAST_OF_N
       #  error BOOST_METAPARSE_LAST_OF_N already defined
diff --git a/include/boost/metaparse/v1/cpp98/nth_of_c.hpp b/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
index ae86d31..a734390 100644
--- a/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
@@ -32,7 +32,12 @@ namespace boost
           boost::mpl::na
         )
       >
-      struct nth_of_c;
+      struct nth_of_c :
+        impl::BOOST_PP_CAT(nth_of_c, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          N,
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
 
       #ifdef BOOST_METAPARSE_NTH_OF_N
       #  error BOOST_METAPARSE_NTH_OF_N already defined
diff --git a/include/boost/metaparse/v1/cpp98/sequence.hpp b/include/boost/metaparse/v1/cpp98/sequence.hpp
index 6aae835..75f30ea 100644
--- a/include/boost/metaparse/v1/cpp98/sequence.hpp
+++ b/include/boost/metaparse/v1/cpp98/sequence.hpp
@@ -30,7 +30,11 @@ namespace boost
           boost::mpl::na
         )
       >
-      struct sequence;
+      struct sequence :
+        impl::BOOST_PP_CAT(sequence, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
 
       #ifdef BOOST_METAPARSE_SEQUENCE_N
       #  error BOOST_METAPARSE_SEQUENCE_N already defined
-- 
2.43.0


From 34a14d77fcd98d4489352d15e87bb83317d1579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:12 +0000
Subject: [PATCH 4/6] fix: C++98 one_char_except refuses as many characters as
 BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE

---
 .../boost/metaparse/v1/cpp98/impl/is_none.hpp |  3 ++-
 .../metaparse/v1/cpp98/one_char_except.hpp    | 15 ++++++++---
 .../metaparse/v1/cpp98/one_char_except_c.hpp  | 27 ++++++++++++-------
 3 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/include/boost/metaparse/v1/cpp98/impl/is_none.hpp b/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
index 7586586..309e183 100644
--- a/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
@@ -11,6 +11,7 @@
 #include <boost/mpl/eval_if.hpp>
 #include <boost/mpl/bool.hpp>
 
+#include <boost/preprocessor/arithmetic/inc.hpp>
 #include <boost/preprocessor/cat.hpp>
 #include <boost/preprocessor/arithmetic/dec.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
@@ -55,7 +56,7 @@ namespace boost
 
         BOOST_PP_REPEAT_FROM_TO(
           1,
-          BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE),
           BOOST_METAPARSE_DEFINE_IS_NONE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/one_char_except.hpp b/include/boost/metaparse/v1/cpp98/one_char_except.hpp
index 330b593..d6a282f 100644
--- a/include/boost/metaparse/v1/cpp98/one_char_except.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_char_except.hpp
@@ -14,7 +14,6 @@
 #include <boost/metaparse/limit_one_char_except_size.hpp>
 
 #include <boost/preprocessor/cat.hpp>
-#include <boost/preprocessor/arithmetic/dec.hpp>
 #include <boost/preprocessor/arithmetic/mul.hpp>
 #include <boost/preprocessor/repetition/enum_params_with_a_default.hpp>
 #include <boost/preprocessor/repetition/repeat.hpp>
@@ -35,7 +34,15 @@ namespace boost
           impl::one_char_except_not_used
         )
       >
-      struct one_char_except;
+      struct one_char_except :
+        accept_when<
+          one_char,
+          impl::BOOST_PP_CAT(is_none, BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE)<
+            BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, C)
+          >,
+          error::unexpected_character
+        >
+      {};
 
       #ifdef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE
       #  error MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE already defined
@@ -48,14 +55,14 @@ namespace boost
             BOOST_PP_MUL( \
               n, \
               BOOST_PP_SUB( \
-                BOOST_PP_DEC(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE), \
+                BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, \
                 n \
               ) \
             ) \
           ) \
           BOOST_PP_ENUM( \
             BOOST_PP_SUB( \
-              BOOST_PP_DEC(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE), \
+              BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, \
               n \
             ), \
             impl::one_char_except_not_used BOOST_PP_TUPLE_EAT(3), \
diff --git a/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp b/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
index 5556039..509bd28 100644
--- a/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
@@ -17,7 +17,6 @@
 #include <boost/preprocessor/cat.hpp>
 #include <boost/preprocessor/arithmetic/sub.hpp>
 #include <boost/preprocessor/arithmetic/mul.hpp>
-#include <boost/preprocessor/arithmetic/dec.hpp>
 #include <boost/preprocessor/repetition/repeat.hpp>
 #include <boost/preprocessor/repetition/enum.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
@@ -31,6 +30,12 @@ namespace boost
   {
     namespace v1
     {
+      #ifdef BOOST_METAPARSE_WRAP
+      #  error BOOST_METAPARSE_WRAP already defined
+      #endif
+      #define BOOST_METAPARSE_WRAP(z, n, unused) \
+        boost::mpl::char_<BOOST_PP_CAT(C, n)>
+
       template <
         BOOST_PP_ENUM_PARAMS_WITH_A_DEFAULT(
           BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
@@ -38,13 +43,15 @@ namespace boost
           1024
         )
       >
-      struct one_char_except_c;
-
-      #ifdef BOOST_METAPARSE_WRAP
-      #  error BOOST_METAPARSE_WRAP already defined
-      #endif
-      #define BOOST_METAPARSE_WRAP(z, n, unused) \
-        boost::mpl::char_<BOOST_PP_CAT(C, n)>
+      struct one_char_except_c :
+        accept_when<
+          one_char,
+          impl::BOOST_PP_CAT(is_none, BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE)<
+            BOOST_PP_ENUM(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, BOOST_METAPARSE_WRAP, ~)
+          >,
+          error::unexpected_character
+        >
+      {};
 
       #ifdef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE
       #  error MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE already defined
@@ -57,14 +64,14 @@ namespace boost
             BOOST_PP_MUL( \
               n, \
               BOOST_PP_SUB( \
-                BOOST_PP_DEC(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE), \
+                BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, \
                 n \
               )\
             ) \
           ) \
           BOOST_PP_ENUM( \
             BOOST_PP_SUB( \
-              BOOST_PP_DEC(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE), \
+              BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, \
               n \
             ), \
             1024 BOOST_PP_TUPLE_EAT(3), \
-- 
2.43.0


From 4f4549084b72d24c8e7be33d2b8842b27ef51393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:12 +0000
Subject: [PATCH 5/6] fix: C++98 one_of_c refuses as many characters as
 BOOST_METAPARSE_LIMIT_ONE_OF_SIZE

---
 include/boost/metaparse/v1/cpp98/one_of_c.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/boost/metaparse/v1/cpp98/one_of_c.hpp b/include/boost/metaparse/v1/cpp98/one_of_c.hpp
index 9a13a33..704d975 100644
--- a/include/boost/metaparse/v1/cpp98/one_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_of_c.hpp
@@ -32,6 +32,11 @@ namespace boost
       #endif
       #define BOOST_NO_SCALAR_VALUE LONG_MAX
 
+      #ifdef BOOST_METAPARSE_ONE_OF_C_LIT
+      #  error BOOST_METAPARSE_ONE_OF_C_LIT already defined
+      #endif
+      #define BOOST_METAPARSE_ONE_OF_C_LIT(z, n, unused) lit_c<BOOST_PP_CAT(C, n)>
+
       template <
         BOOST_PP_ENUM_PARAMS_WITH_A_DEFAULT(
           BOOST_METAPARSE_LIMIT_ONE_OF_SIZE,
@@ -39,12 +44,11 @@ namespace boost
           BOOST_NO_SCALAR_VALUE
         )
       >
-      struct one_of_c;
-
-      #ifdef BOOST_METAPARSE_ONE_OF_C_LIT
-      #  error BOOST_METAPARSE_ONE_OF_C_LIT already defined
-      #endif
-      #define BOOST_METAPARSE_ONE_OF_C_LIT(z, n, unused) lit_c<BOOST_PP_CAT(C, n)>
+      struct one_of_c :
+        one_of<
+          BOOST_PP_ENUM(BOOST_METAPARSE_LIMIT_ONE_OF_SIZE, BOOST_METAPARSE_ONE_OF_C_LIT, ~)
+        >
+      {};
 
       #ifdef BOOST_METAPARSE_ONE_OF_C_CASE
       #  error BOOST_METAPARSE_ONE_OF_C_CASE already defined
-- 
2.43.0


From 978bf35bd28ab087b2a545fdab89053f616012b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:00 +0000
Subject: [PATCH 6/6] fix: one_of applies the alternatives after the one that
 accepts the text

The inner eval_if got typename is_error<...>::type, which instantiates the
remaining alternatives even when the current one accepts. A text an
alternative accepts was refused when a later alternative does not compile
for it.
---
 include/boost/metaparse/v1/cpp11/one_of.hpp             | 4 +---
 include/boost/metaparse/v1/cpp98/impl/one_of_fwd_op.hpp | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/boost/metaparse/v1/cpp11/one_of.hpp b/include/boost/metaparse/v1/cpp11/one_of.hpp
index d68eee1..30feb39 100644
--- a/include/boost/metaparse/v1/cpp11/one_of.hpp
+++ b/include/boost/metaparse/v1/cpp11/one_of.hpp
@@ -32,9 +32,7 @@ namespace boost
           boost::mpl::eval_if<
             typename is_error<typename P::template apply<S, Pos>>::type,
             boost::mpl::eval_if<
-              typename is_error<
-                typename one_of<Ps...>::template apply<S, Pos>
-              >::type,
+              is_error<typename one_of<Ps...>::template apply<S, Pos>>,
               impl::eval_later_result<
                 typename P::template apply<S, Pos>,
                 typename one_of<Ps...>::template apply<S, Pos>
diff --git a/include/boost/metaparse/v1/cpp98/impl/one_of_fwd_op.hpp b/include/boost/metaparse/v1/cpp98/impl/one_of_fwd_op.hpp
index a52ec11..6f9ebca 100644
--- a/include/boost/metaparse/v1/cpp98/impl/one_of_fwd_op.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/one_of_fwd_op.hpp
@@ -29,7 +29,7 @@ namespace boost
             boost::mpl::eval_if<
               typename is_error<State>::type,
               boost::mpl::eval_if<
-                typename is_error<typename P::template apply<S, Pos> >::type,
+                is_error<typename P::template apply<S, Pos> >,
                 later_result<State, typename P::template apply<S, Pos> >,
                 typename P::template apply<S, Pos>
               >,
-- 
2.43.0

