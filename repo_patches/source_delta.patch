From e3ec2f496ab0c97ccef3f8b82195804736897fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:13 +0000
Subject: [PATCH 1/4] fix: C++98 string of exactly
 BOOST_METAPARSE_LIMIT_STRING_SIZE characters has a size

impl::size was only specialised for 0..LIMIT-1 characters, so a string filling
all template arguments (documented maximum length) could not be measured,
iterated or parsed.
---
 include/boost/metaparse/v1/cpp98/impl/size.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/boost/metaparse/v1/cpp98/impl/size.hpp b/include/boost/metaparse/v1/cpp98/impl/size.hpp
index 7de1241..1f87f4e 100644
--- a/include/boost/metaparse/v1/cpp98/impl/size.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/size.hpp
@@ -54,6 +54,16 @@ namespace boost
         )
   
         #undef BOOST_METAPARSE_STRING_CASE
+
+        template <
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, int C)
+        >
+        struct
+          size<
+            string<BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, C)>
+          > :
+          boost::mpl::int_<BOOST_METAPARSE_LIMIT_STRING_SIZE>
+        {};
       }
     }
   }
-- 
2.43.0


From 1793137398d068c3cd7ad0259e21389e26851599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:13 +0000
Subject: [PATCH 2/4] fix: provide the documented
 <boost/metaparse/error/expected_to_fail.hpp>

---
 include/boost/metaparse.hpp                   |  1 +
 .../metaparse/error/expected_to_fail.hpp      | 23 +++++++++++++++++++
 2 files changed, 24 insertions(+)
 create mode 100644 include/boost/metaparse/error/expected_to_fail.hpp

diff --git a/include/boost/metaparse.hpp b/include/boost/metaparse.hpp
index d6efecc..1d2ffdc 100644
--- a/include/boost/metaparse.hpp
+++ b/include/boost/metaparse.hpp
@@ -26,6 +26,7 @@
 #include <boost/metaparse/entire_input.hpp>
 #include <boost/metaparse/error/digit_expected.hpp>
 #include <boost/metaparse/error/end_of_input_expected.hpp>
+#include <boost/metaparse/error/expected_to_fail.hpp>
 #include <boost/metaparse/error/index_out_of_range.hpp>
 #include <boost/metaparse/error/letter_expected.hpp>
 #include <boost/metaparse/error/literal_expected.hpp>
diff --git a/include/boost/metaparse/error/expected_to_fail.hpp b/include/boost/metaparse/error/expected_to_fail.hpp
new file mode 100644
index 0000000..bc7cc88
--- /dev/null
+++ b/include/boost/metaparse/error/expected_to_fail.hpp
@@ -0,0 +1,23 @@
+#ifndef BOOST_METAPARSE_ERROR_EXPECTED_TO_FAIL_HPP
+#define BOOST_METAPARSE_ERROR_EXPECTED_TO_FAIL_HPP
+
+// Copyright Abel Sinkovics (abel@sinkovics.hu)  2015.
+// Distributed under the Boost Software License, Version 1.0.
+//    (See accompanying file LICENSE_1_0.txt or copy at
+//          http://www.boost.org/LICENSE_1_0.txt)
+
+#include <boost/metaparse/v1/error/expected_to_fail.hpp>
+
+namespace boost
+{
+  namespace metaparse
+  {
+    namespace error
+    {
+      using v1::error::expected_to_fail;
+    }
+  }
+}
+
+#endif
+
-- 
2.43.0


From f7147d853b3cf028edd5665381b50e48db9bee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 3/4] fix: tools/string_headers.py runs with Python 3

The documented way of extending the length limit of BOOST_METAPARSE_STRING
ended with a syntax error: the script relied on tuple parameters, xrange and
writing str to a binary file.
---
 tools/string_headers.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tools/string_headers.py b/tools/string_headers.py
index 43ef052..d981531 100755
--- a/tools/string_headers.py
+++ b/tools/string_headers.py
@@ -32,7 +32,7 @@ class Namespace(object):
 
     def end(self):
         """Generate the closing part"""
-        for depth in xrange(len(self.names) - 1, -1, -1):
+        for depth in range(len(self.names) - 1, -1, -1):
             self.out_f.write('{0}}}\n'.format(self.prefix(depth)))
 
     def prefix(self, depth=None):
@@ -89,8 +89,9 @@ def macro_name(name):
     return 'BOOST_METAPARSE_V{0}_{1}'.format(VERSION, name)
 
 
-def define_macro(out_f, (name, args, body), undefine=False, check=True):
+def define_macro(out_f, macro, undefine=False, check=True):
     """Generate a macro definition or undefinition"""
+    (name, args, body) = macro
     if undefine:
         out_f.write(
             '#undef {0}\n'
@@ -129,7 +130,7 @@ def length_limits(max_length_limit, length_limit_step):
     string_len = len(str(max_length_limit))
     return [
         str(i).zfill(string_len) for i in
-        xrange(
+        range(
             length_limit_step,
             max_length_limit + length_limit_step - 1,
             length_limit_step
@@ -139,7 +140,7 @@ def length_limits(max_length_limit, length_limit_step):
 
 def unique_names(count):
     """Generate count unique variable name"""
-    return ('C{0}'.format(i) for i in xrange(0, count))
+    return ('C{0}'.format(i) for i in range(0, count))
 
 
 def generate_take(out_f, steps, line_prefix):
@@ -159,7 +160,7 @@ def generate_take(out_f, steps, line_prefix):
 
 def generate_make_string(out_f, max_step):
     """Generate the make_string template"""
-    steps = [2 ** n for n in xrange(int(math.log(max_step, 2)), -1, -1)]
+    steps = [2 ** n for n in range(int(math.log(max_step, 2)), -1, -1)]
 
     with Namespace(
         out_f,
@@ -203,7 +204,7 @@ def generate_string(out_dir, limits):
     """Generate string.hpp"""
     max_limit = max((int(v) for v in limits))
 
-    with open(filename(out_dir, 'string'), 'wb') as out_f:
+    with open(filename(out_dir, 'string'), 'w') as out_f:
         with IncludeGuard(out_f):
             out_f.write(
                 '\n'
@@ -243,7 +244,7 @@ def generate_string(out_dir, limits):
             ))
 
             out_f.write('\n')
-            for limit in xrange(0, max_limit + 1):
+            for limit in range(0, max_limit + 1):
                 out_f.write(
                     '#define {0} {1}\n'
                     .format(
@@ -267,7 +268,7 @@ def generate_string(out_dir, limits):
                         ','.join(
                             '{0}((s), {1})'
                             .format(macro_name('STRING_AT'), i)
-                            for i in xrange(prev_limit, length_limit)
+                            for i in range(prev_limit, length_limit)
                         )
                     )
                 )
-- 
2.43.0


From 5e452730ce29805fbbff71c2c4d80e9abe9312c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:24 +0000
Subject: [PATCH 4/4] fix: tools/string_headers.py supports the requested
 maximum length

The requested maximum was left out when it is one more than a multiple of the
step (and nothing could be generated for a maximum of 1).
---
 tools/string_headers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/string_headers.py b/tools/string_headers.py
index d981531..3ae14bf 100755
--- a/tools/string_headers.py
+++ b/tools/string_headers.py
@@ -132,7 +132,7 @@ def length_limits(max_length_limit, length_limit_step):
         str(i).zfill(string_len) for i in
         range(
             length_limit_step,
-            max_length_limit + length_limit_step - 1,
+            max_length_limit + length_limit_step,
             length_limit_step
         )
     ]
-- 
2.43.0

