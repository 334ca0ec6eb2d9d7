From f578ee2e79493fffefde4c6d73fad98e5b82fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:22 +0000
Subject: [PATCH 1/5] fix: sequence, nth_of_c and last_of accept
 LIMIT_SEQUENCE_SIZE parsers in C++98

---
 include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp | 3 ++-
 include/boost/metaparse/v1/cpp98/impl/sequence.hpp | 3 ++-
 include/boost/metaparse/v1/cpp98/last_of.hpp       | 7 ++++++-
 include/boost/metaparse/v1/cpp98/nth_of_c.hpp      | 7 ++++++-
 include/boost/metaparse/v1/cpp98/sequence.hpp      | 6 +++++-
 5 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp b/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
index f71728c..f9f2779 100644
--- a/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
@@ -16,6 +16,7 @@
 #include <boost/preprocessor/repetition/repeat.hpp>
 #include <boost/preprocessor/punctuation/comma_if.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
+#include <boost/preprocessor/arithmetic/inc.hpp>
 #include <boost/preprocessor/cat.hpp>
 
 namespace boost
@@ -46,7 +47,7 @@ namespace boost
           {};
         
         BOOST_PP_REPEAT(
-          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE),
           BOOST_METAPARSE_NTH_OF_CASE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/impl/sequence.hpp b/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
index 7f28766..1dc6482 100644
--- a/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
@@ -13,6 +13,7 @@
 
 #include <boost/preprocessor/repetition/repeat_from_to.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
+#include <boost/preprocessor/arithmetic/inc.hpp>
 #include <boost/preprocessor/cat.hpp>
 
 namespace boost
@@ -44,7 +45,7 @@ namespace boost
         
         BOOST_PP_REPEAT_FROM_TO(
           1,
-          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE),
           BOOST_METAPARSE_SEQUENCE_CASE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/last_of.hpp b/include/boost/metaparse/v1/cpp98/last_of.hpp
index 4e5e475..2f22a5c 100644
--- a/include/boost/metaparse/v1/cpp98/last_of.hpp
+++ b/include/boost/metaparse/v1/cpp98/last_of.hpp
@@ -30,7 +30,12 @@ namespace boost
           boost::mpl::na
         )
       >
-      struct last_of;
+      struct last_of :
+        impl::BOOST_PP_CAT(nth_of_c, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE - 1,
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
 
       #ifdef BOOST_METAPARSE_LAST_OF_N
       #  error BOOST_METAPARSE_LAST_OF_N already defined
diff --git a/include/boost/metaparse/v1/cpp98/nth_of_c.hpp b/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
index ae86d31..a734390 100644
--- a/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
@@ -32,7 +32,12 @@ namespace boost
           boost::mpl::na
         )
       >
-      struct nth_of_c;
+      struct nth_of_c :
+        impl::BOOST_PP_CAT(nth_of_c, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          N,
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
 
       #ifdef BOOST_METAPARSE_NTH_OF_N
       #  error BOOST_METAPARSE_NTH_OF_N already defined
diff --git a/include/boost/metaparse/v1/cpp98/sequence.hpp b/include/boost/metaparse/v1/cpp98/sequence.hpp
index 6aae835..75f30ea 100644
--- a/include/boost/metaparse/v1/cpp98/sequence.hpp
+++ b/include/boost/metaparse/v1/cpp98/sequence.hpp
@@ -30,7 +30,11 @@ namespace boost
           boost::mpl::na
         )
       >
-      struct sequence;
+      struct sequence :
+        impl::BOOST_PP_CAT(sequence, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
 
       #ifdef BOOST_METAPARSE_SEQUENCE_N
       #  error BOOST_METAPARSE_SEQUENCE_N already defined
-- 
2.43.0


From 826a1e60aa99e14348405cc099ea02db4b5b30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:45 +0000
Subject: [PATCH 2/5] fix: one_char_except and one_char_except_c accept
 LIMIT_ONE_CHAR_EXCEPT_SIZE characters in C++98

---
 .../boost/metaparse/v1/cpp98/impl/is_none.hpp |  3 ++-
 .../metaparse/v1/cpp98/one_char_except.hpp    | 13 +++++++++++-
 .../metaparse/v1/cpp98/one_char_except_c.hpp  | 21 +++++++++++++++++++
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/include/boost/metaparse/v1/cpp98/impl/is_none.hpp b/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
index 7586586..54e7eb9 100644
--- a/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
@@ -13,6 +13,7 @@
 
 #include <boost/preprocessor/cat.hpp>
 #include <boost/preprocessor/arithmetic/dec.hpp>
+#include <boost/preprocessor/arithmetic/inc.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
 #include <boost/preprocessor/repetition/repeat_from_to.hpp>
 
@@ -55,7 +56,7 @@ namespace boost
 
         BOOST_PP_REPEAT_FROM_TO(
           1,
-          BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE),
           BOOST_METAPARSE_DEFINE_IS_NONE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/one_char_except.hpp b/include/boost/metaparse/v1/cpp98/one_char_except.hpp
index 330b593..a7e161c 100644
--- a/include/boost/metaparse/v1/cpp98/one_char_except.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_char_except.hpp
@@ -35,7 +35,18 @@ namespace boost
           impl::one_char_except_not_used
         )
       >
-      struct one_char_except;
+      struct one_char_except :
+        accept_when<
+          one_char,
+          impl::BOOST_PP_CAT(
+            is_none,
+            BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE
+          )<
+            BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, C)
+          >,
+          error::unexpected_character
+        >
+      {};
 
       #ifdef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE
       #  error MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE already defined
diff --git a/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp b/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
index 5556039..133f97b 100644
--- a/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
@@ -46,6 +46,27 @@ namespace boost
       #define BOOST_METAPARSE_WRAP(z, n, unused) \
         boost::mpl::char_<BOOST_PP_CAT(C, n)>
 
+      template <BOOST_PP_ENUM_PARAMS(
+        BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
+        int C
+      )>
+      struct one_char_except_c :
+        accept_when<
+          one_char,
+          impl::BOOST_PP_CAT(
+            is_none,
+            BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE
+          )<
+            BOOST_PP_ENUM(
+              BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
+              BOOST_METAPARSE_WRAP,
+              ~
+            )
+          >,
+          error::unexpected_character
+        >
+      {};
+
       #ifdef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE
       #  error MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE already defined
       #endif
-- 
2.43.0


From 8ebfccb371a2bc5617f1e8ae09146fbec7f07639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:50 +0000
Subject: [PATCH 3/5] fix: one_of_c accepts LIMIT_ONE_OF_SIZE characters in
 C++98

---
 include/boost/metaparse/v1/cpp98/one_of_c.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/boost/metaparse/v1/cpp98/one_of_c.hpp b/include/boost/metaparse/v1/cpp98/one_of_c.hpp
index 9a13a33..9dffbd6 100644
--- a/include/boost/metaparse/v1/cpp98/one_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_of_c.hpp
@@ -46,6 +46,17 @@ namespace boost
       #endif
       #define BOOST_METAPARSE_ONE_OF_C_LIT(z, n, unused) lit_c<BOOST_PP_CAT(C, n)>
 
+      template <BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_ONE_OF_SIZE, long C)>
+      struct one_of_c :
+        one_of<
+          BOOST_PP_ENUM(
+            BOOST_METAPARSE_LIMIT_ONE_OF_SIZE,
+            BOOST_METAPARSE_ONE_OF_C_LIT,
+            ~
+          )
+        >
+      {};
+
       #ifdef BOOST_METAPARSE_ONE_OF_C_CASE
       #  error BOOST_METAPARSE_ONE_OF_C_CASE already defined
       #endif
-- 
2.43.0


From b14f9bce63c4c364b4219ae75e16f167f3d34116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:55 +0000
Subject: [PATCH 4/5] fix: string of LIMIT_STRING_SIZE characters is usable in
 C++98

---
 include/boost/metaparse/v1/cpp98/impl/size.hpp     | 10 ++++++++++
 include/boost/metaparse/v1/cpp98/impl/update_c.hpp |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/metaparse/v1/cpp98/impl/size.hpp b/include/boost/metaparse/v1/cpp98/impl/size.hpp
index 7de1241..4c6240b 100644
--- a/include/boost/metaparse/v1/cpp98/impl/size.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/size.hpp
@@ -28,6 +28,16 @@ namespace boost
         template <class S>
         struct size;
 
+        template <
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, int C)
+        >
+        struct
+          size<
+            string<BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, C)>
+          > :
+          boost::mpl::int_<BOOST_METAPARSE_LIMIT_STRING_SIZE>
+        {};
+
         #ifdef BOOST_METAPARSE_STRING_CASE
         #  error BOOST_METAPARSE_STRING_CASE
         #endif
diff --git a/include/boost/metaparse/v1/cpp98/impl/update_c.hpp b/include/boost/metaparse/v1/cpp98/impl/update_c.hpp
index 367f79d..fc0864a 100644
--- a/include/boost/metaparse/v1/cpp98/impl/update_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/update_c.hpp
@@ -50,7 +50,7 @@ namespace boost
               Ch \
               BOOST_PP_REPEAT_FROM_TO( \
                 BOOST_PP_INC(n), \
-                BOOST_PP_DEC(BOOST_METAPARSE_LIMIT_STRING_SIZE), \
+                BOOST_METAPARSE_LIMIT_STRING_SIZE, \
                 BOOST_METAPARSE_ARGN, \
                 ~ \
               ) \
-- 
2.43.0


From eec153d10254ff22f1752e0c5b0c1670f0c444b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:11 +0000
Subject: [PATCH 5/5] fix: the character 0xff does not end a string in C++98

---
 include/boost/metaparse/v1/impl/no_char.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/metaparse/v1/impl/no_char.hpp b/include/boost/metaparse/v1/impl/no_char.hpp
index c6b91f0..1605273 100644
--- a/include/boost/metaparse/v1/impl/no_char.hpp
+++ b/include/boost/metaparse/v1/impl/no_char.hpp
@@ -6,12 +6,12 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          http://www.boost.org/LICENSE_1_0.txt)
 
-#include <cstdio>
+#include <climits>
 
 #ifdef BOOST_NO_CHAR
 #  error BOOST_NO_CHAR already defined
 #endif
-#define BOOST_NO_CHAR EOF
+#define BOOST_NO_CHAR (CHAR_MAX + 1)
 
 #endif
 
-- 
2.43.0

