From 4504f5fb49d3370c688241221d541bae12abd3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:46 +0000
Subject: [PATCH 01/33] fix: accept lower-case hexadecimal digits

---
 include/boost/url/detail/char_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index 7366d3b..f09e86d 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -59,7 +59,7 @@ hex_digit(char c) noexcept
         "\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\xff\xff\xff\xff\xff\xff" //  48...63
         "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  64...79
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  80...95
-        "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
+        "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 112..127
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 128..143
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 144..159
-- 
2.43.0


From c5cc8e78f4a30cd0d6bd7497233f38b3ff0a72e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:46 +0000
Subject: [PATCH 02/33] fix: allow digits in schemes

---
 include/boost/url/detail/char_type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index f09e86d..cfc288b 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -78,10 +78,10 @@ bool
 is_scheme_char(
     char c) noexcept
 {
-    // [A-Za-z.+-]
+    // [A-Za-z0-9.+-]
     static constexpr char tab[] =
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //   0...31
-        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //  32...63
+        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0\0" //  32...63
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  64...95
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  96..127
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" // 128..159
-- 
2.43.0


From 8b502a765f9f42bfb4850ae04812c44a3c557391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:46 +0000
Subject: [PATCH 03/33] fix: validate the first character of path-absolute

---
 include/boost/url/detail/parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index b0894d8..e6d5e9b 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -657,7 +657,7 @@ struct parser
                 pchar_pct_set();
             // segment-nz
             p_ = e.parse(
-                p_ + 1, end_, ec);
+                p_, end_, ec);
             if(ec)
                 return;
             while(p_ < end_)
-- 
2.43.0


From e08d3ba46e42a00241315b0de0860d2a31f686c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 04/33] fix: stop query parameter iteration at the fragment

---
 include/boost/url/impl/url_base.ipp | 2 +-
 include/boost/url/impl/url_view.ipp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 7218e8c..f6898c7 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1640,7 +1640,7 @@ parse() noexcept
     BOOST_ASSERT(v_->pt_.nparam > 0);
     auto const end =
         v_->s_ + v_->pt_.offset[
-            detail::id_end];
+            detail::id_frag];
     char const* p = v_->s_ + off_;
     BOOST_ASSERT(
         ( off_ == v_->pt_.offset[
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 659dea3..b14ea1a 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -649,7 +649,7 @@ parse() noexcept
     BOOST_ASSERT(pt_->nparam > 0);
     auto const end =
         s_ + pt_->offset[
-            detail::id_end];
+            detail::id_frag];
     auto p = s_ + off_;
     BOOST_ASSERT(
         ( off_ == pt_->offset[
-- 
2.43.0


From ef684dbd3f12c63e25dc7101006daf1892be61b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 05/33] fix: refresh the parameter when decrementing to the
 first one

---
 include/boost/url/impl/url_base.ipp | 1 +
 include/boost/url/impl/url_view.ipp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index f6898c7..4576e4f 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1627,6 +1627,7 @@ operator--() noexcept ->
     }
     BOOST_ASSERT(*p == '?');
     off_ = p - v_->s_;
+    parse();
     return *this;
 }
 
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index b14ea1a..f762eea 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -636,6 +636,7 @@ operator--() noexcept ->
     }
     BOOST_ASSERT(*p == '?');
     off_ = p - s_;
+    parse();
     return *this;
 }
 
-- 
2.43.0


From 87ddea2045f10eea0ad6e58505998cd44e21117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 06/33] fix: split query parameters at every '&'

---
 include/boost/url/detail/parse.hpp  | 14 +-------------
 include/boost/url/impl/url_base.ipp | 25 +++++++++----------------
 include/boost/url/impl/url_view.ipp | 25 +++++++++----------------
 3 files changed, 19 insertions(+), 45 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index e6d5e9b..8c86076 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -754,25 +754,13 @@ struct parser
             return;
         if(*p_ != '?')
             return;
-        auto const ek =
-            qkey_pct_set();
+        // params are separated by '&'
         auto const ev =
             qval_pct_set();
         std::size_t n = 0;
         for(;;)
         {
             ++n;
-            p_ = ek.parse(
-                p_, end_, ec);
-            if(ec)
-                return;
-            if(p_ >= end_)
-                break;
-            if(*p_ != '=')
-                break;
-            ++p_;
-            if(p_ >= end_)
-                break;
             p_ = ev.parse(
                 p_, end_, ec);
             if(ec)
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 4576e4f..7305c2c 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1650,25 +1650,18 @@ parse() noexcept
         ( off_ != v_->pt_.offset[
             detail::id_query] &&
             *p == '&' ));
-    auto p0 = p++;
-    auto const ek =
-        detail::qkey_pct_set();
-    error_code ec;
-    p = ek.parse(p, end, ec);
-    BOOST_ASSERT(! ec);
-    nk_ = p - p0;
-    if(p == end)
-    {
-        nv_ = 0;
-        return;
-    }
+    auto const p0 = p++;
     auto const ev =
         detail::qval_pct_set();
-    BOOST_ASSERT(*p == '=');
-    p0 = p++;
-    p = ev.parse(p, end, ec);
+    error_code ec;
+    auto const last =
+        ev.parse(p, end, ec);
     BOOST_ASSERT(! ec);
-    nv_ = p - p0;
+    // key ends at the first '='
+    while(p < last && *p != '=')
+        ++p;
+    nk_ = p - p0;
+    nv_ = last - p;
 }
 
 //----------------------------------------------------------
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index f762eea..407e295 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -659,25 +659,18 @@ parse() noexcept
         ( off_ != pt_->offset[
             detail::id_query] &&
             *p == '&' ));
-    auto p0 = p++;
-    auto const ek =
-        detail::qkey_pct_set();
-    error_code ec;
-    p = ek.parse(p, end, ec);
-    BOOST_ASSERT(! ec);
-    nk_ = p - p0;
-    if(p == end)
-    {
-        nv_ = 0;
-        return;
-    }
+    auto const p0 = p++;
     auto const ev =
         detail::qval_pct_set();
-    BOOST_ASSERT(*p == '=');
-    p0 = p++;
-    p = ev.parse(p, end, ec);
+    error_code ec;
+    auto const last =
+        ev.parse(p, end, ec);
     BOOST_ASSERT(! ec);
-    nv_ = p - p0;
+    // key ends at the first '='
+    while(p < last && *p != '=')
+        ++p;
+    nk_ = p - p0;
+    nv_ = last - p;
 }
 
 //----------------------------------------------------------
-- 
2.43.0


From 5e79ae4c17c5ffe9a24c932c92e575b0d5ff6a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 07/33] fix: stop path segment iteration at the query

---
 include/boost/url/impl/url_base.ipp | 6 +++---
 include/boost/url/impl/url_view.ipp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 7305c2c..f936f10 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1245,10 +1245,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != v_->pt_.offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == v_->pt_.offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -1299,7 +1299,7 @@ parse() noexcept
 {
     BOOST_ASSERT(off_ !=
         v_->pt_.offset[
-            detail::id_frag]);
+            detail::id_query]);
     auto const end =
         v_->s_ + v_->pt_.offset[
             detail::id_query];
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 407e295..a5f01e6 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -414,10 +414,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == pt_->offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -468,10 +468,10 @@ parse() noexcept
 {
     BOOST_ASSERT(off_ !=
         pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     auto const end =
         s_ + pt_->offset[
-            detail::id_frag];
+            detail::id_query];
     auto const p0 = s_ + off_;
     auto p = p0;
     if(*p == '/')
-- 
2.43.0


From 18d246fda95b189e4f3eb6aa43e46c206adb2ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 08/33] fix: keep the storage size in step when the URL shrinks

---
 include/boost/url/impl/url_base.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index f936f10..9bca89e 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1764,6 +1764,7 @@ resize(
         for(auto i = id + 1;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[id];
     }
 
@@ -1818,6 +1819,7 @@ resize(
         for(auto i = last;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[first];
     }
 
-- 
2.43.0


From d941d135c28af05a6dc009d66cc8b861a7c646fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 09/33] fix: null-terminate newly allocated storage

---
 include/boost/url/detail/storage.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/url/detail/storage.hpp b/include/boost/url/detail/storage.hpp
index 225d801..f9ddc2c 100644
--- a/include/boost/url/detail/storage.hpp
+++ b/include/boost/url/detail/storage.hpp
@@ -86,6 +86,10 @@ public:
                 p_, cap_ + 1);
             p[size_] = 0;
         }
+        else
+        {
+            p[0] = 0;
+        }
         p_ = p;
         cap_ = cap;
         return p_;
-- 
2.43.0


From 8edfc11f110618152d0a6960679f169bbdbbc576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 10/33] fix: reset the cached parts when the URL is cleared

---
 include/boost/url/impl/url_base.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 9bca89e..76cff80 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -69,6 +69,7 @@ set_encoded_url(
             resize(
                 detail::id_scheme,
                 detail::id_end, 0);
+        pt_ = {};
         return *this;
     }
     error_code ec;
-- 
2.43.0


From d92d1d365485edd7b0df6b9ad0b0eb7da0e56a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 11/33] fix: update the segment count when setting the path

---
 include/boost/url/detail/parse.hpp  | 16 ++++++++++++----
 include/boost/url/impl/url_base.ipp | 11 +++++++----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 8c86076..c102d7b 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -1000,8 +1000,9 @@ match_port(string_view s)
         invalid_part::raise();
 }
 
+// returns the number of segments
 inline
-void
+std::size_t
 match_path_abempty(string_view s)
 {
     parts pt;
@@ -1012,10 +1013,12 @@ match_path_abempty(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
+// returns the number of segments
 inline
-void
+std::size_t
 match_path_absolute(string_view s)
 {
     parts pt;
@@ -1026,10 +1029,12 @@ match_path_absolute(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
+// returns the number of segments
 inline
-void
+std::size_t
 match_path_noscheme(string_view s)
 {
     parts pt;
@@ -1040,10 +1045,12 @@ match_path_noscheme(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
+// returns the number of segments
 inline
-void
+std::size_t
 match_path_rootless(string_view s)
 {
     parts pt;
@@ -1054,6 +1061,7 @@ match_path_rootless(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
 } // detail
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 76cff80..d7db298 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -919,32 +919,35 @@ set_encoded_path(
     {
         resize(
             detail::id_path, 0);
+        pt_.nseg = 0;
         return *this;
     }
+    std::size_t nseg;
     if(has_authority())
     {
         // path-abempty
-        detail::match_path_abempty(s);
+        nseg = detail::match_path_abempty(s);
     }
     else if(s.front() == '/')
     {
         // path-absolute
-        detail::match_path_absolute(s);
+        nseg = detail::match_path_absolute(s);
     }
     else if(pt_.length(
         detail::id_scheme) == 0)
     {
         // path-noscheme
-        detail::match_path_noscheme(s);
+        nseg = detail::match_path_noscheme(s);
     }
     else
     {
         // path-rootless
-        detail::match_path_rootless(s);
+        nseg = detail::match_path_rootless(s);
     }
     auto const dest = resize(
         detail::id_path, s.size());
     s.copy(dest, s.size());
+    pt_.nseg = nseg;
     return *this;
 }
 
-- 
2.43.0


From f6cbdda8f29031e5b9aeecaf75b83241a39050f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 12/33] fix: update the parameter count when setting the query

---
 include/boost/url/detail/parse.hpp  | 13 +++++++++++++
 include/boost/url/impl/url_base.ipp |  9 +++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index c102d7b..3dea79f 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -989,6 +989,19 @@ parse_plain_hostname(
     pt.host = host_type::name;
 }
 
+// returns the number of params in a query-part
+inline
+std::size_t
+count_params(string_view s) noexcept
+{
+    if(s.empty())
+        return 0;
+    std::size_t n = 1;
+    for(auto c : s)
+        n += (c == '&');
+    return n;
+}
+
 inline
 void
 match_port(string_view s)
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index d7db298..36522af 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -991,6 +991,7 @@ set_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -1002,6 +1003,8 @@ set_query(
         1 + n);
     dest[0] = '?';
     e.encode(dest + 1, s);
+    pt_.nparam = detail::count_params(
+        query_part());
     return *this;
 }
 
@@ -1013,6 +1016,7 @@ set_encoded_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -1023,6 +1027,8 @@ set_encoded_query(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam = detail::count_params(
+        query_part());
     return *this;
 }
 
@@ -1034,6 +1040,7 @@ set_query_part(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     if(s.front() != '?')
@@ -1047,6 +1054,8 @@ set_query_part(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam = detail::count_params(
+        query_part());
     return *this;
 }
 
-- 
2.43.0


From cd9c3ecacc16947c745b355bfb7a0db6a4881b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 13/33] fix: keep host_type in step with the host

---
 include/boost/url/impl/url_base.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 36522af..526ba15 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -211,6 +211,7 @@ set_encoded_authority(
         resize(
             detail::id_user,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -236,6 +237,7 @@ set_encoded_authority(
     BOOST_ASSERT(
         pt_.length(detail::id_port) ==
             pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
@@ -694,6 +696,7 @@ set_host(
         {
             resize(detail::id_host, 0);
         }
+        pt_.host = urls::host_type::none;
         return *this;
     }
     detail::parts pt;
-- 
2.43.0


From aa3d8048a7c574152b1802d97197c5749c35abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 14/33] fix: account for the leading slashes when splitting the
 userinfo

---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 526ba15..26fe467 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -350,7 +350,7 @@ set_encoded_userinfo(
     s.copy(dest, s.size());
     pt_.split(
         detail::id_user,
-        pt.length(detail::id_user));
+        2 + pt.length(detail::id_user));
     dest[s.size()] = '@';
     return *this;
 }
-- 
2.43.0


From 8d7f15e70c017aea7e272f4875044b288a9842d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 15/33] fix: allow clearing the user when there is no userinfo

---
 include/boost/url/impl/url_base.ipp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 26fe467..1679621 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -393,8 +393,7 @@ set_user(
 {
     if(s.empty())
     {
-        if(pt_.length(
-            detail::id_user) == 0)
+        if(! has_userinfo())
             return *this;
         BOOST_ASSERT(pt_.get(
             detail::id_password, s_).back() == '@');
-- 
2.43.0


From 400a0f2357b0b708f353a093b7275984ba68197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 16/33] fix: correct the assertion in password_part

---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 1679621..b5b7cb2 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -511,7 +511,7 @@ password_part() const noexcept
         detail::id_password, s_);
     if(! s.empty())
     {
-        BOOST_ASSERT(s.front() == '@');
+        BOOST_ASSERT(s.back() == '@');
         s.remove_suffix(1);
     }
     return s;
-- 
2.43.0


From bb37714e5d6a6c7fc8306afb5f364e6929f80961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 17/33] fix: set_password_part with an empty password or no
 colon

---
 include/boost/url/impl/url_base.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index b5b7cb2..ce97c24 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -639,7 +639,10 @@ set_password_part(
         dest[3] = '@';
         pt_.split(
             detail::id_user, 2);
+        return *this;
     }
+    if(s.front() != ':')
+        invalid_part::raise();
     set_encoded_password(
         s.substr(1));
     return *this;
-- 
2.43.0


From 32116b4f206199a262fe2fd9425bfe2538f3ff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 18/33] fix: set_port_part adds the authority when needed

---
 include/boost/url/impl/url_base.ipp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index ce97c24..e010e82 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -894,6 +894,22 @@ set_port_part(string_view s)
         invalid_part::raise();
     if(s.size() > 1)
         return set_port(s.substr(1));
+    if(! has_authority())
+    {
+        // add authority
+        auto const dest = resize(
+            detail::id_user, 3);
+        dest[0] = '/';
+        dest[1] = '/';
+        dest[2] = ':';
+        pt_.split(
+            detail::id_user, 2);
+        pt_.split(
+            detail::id_password, 0);
+        pt_.split(
+            detail::id_host, 0);
+        return *this;
+    }
     resize(
         detail::id_port, 1)[0] = ':';
     return *this;
-- 
2.43.0


From 8bd11e1d92b2ad4f316a871f040cbd3d737199b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:16 +0000
Subject: [PATCH 19/33] fix: segment edits may return the end iterator

---
 include/boost/url/impl/url_base.ipp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index e010e82..4b886d9 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1331,9 +1331,14 @@ segments_type::
 iterator::
 parse() noexcept
 {
-    BOOST_ASSERT(off_ !=
+    if(off_ ==
         v_->pt_.offset[
-            detail::id_query]);
+            detail::id_query])
+    {
+        // end
+        n_ = 0;
+        return;
+    }
     auto const end =
         v_->s_ + v_->pt_.offset[
             detail::id_query];
-- 
2.43.0


From 43334e2278b343ce449f580bdd318bda1126943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:16 +0000
Subject: [PATCH 20/33] fix: validate the IPv4 part of an IPv6 address

---
 include/boost/url/detail/parse.hpp | 67 +++++-------------------------
 1 file changed, 10 insertions(+), 57 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 3dea79f..613686a 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -429,21 +429,6 @@ struct parser
         return v;
     }
 
-    // return `true` if the hex
-    // word could be 0..255 if
-    // interpreted as decimal
-    bool
-    maybe_octet(long word)
-    {
-        if(word > 0x255)
-            return false;
-        if(((word >>  4) & 0xf) > 9)
-            return false;
-        if((word & 0xf) > 9)
-            return false;
-        return true;
-    }
-
     void
     parse_ip_v6(
         error_code& ec) noexcept
@@ -456,7 +441,7 @@ struct parser
         int n = 8; // words needed
         bool b = false; // got '::'
         bool c = false; // need colon
-        long word = 0;
+        auto w = p_; // start of last word
         for(;;)
         {
             if(p_ == end_)
@@ -493,7 +478,8 @@ struct parser
                 }
                 else if(c)
                 {
-                    word = parse_word(ec);
+                    w = p_;
+                    parse_word(ec);
                     if(ec)
                         return;
                     --n;
@@ -515,49 +501,15 @@ struct parser
                     ec = error::syntax;
                     return;
                 }
-                if(! maybe_octet(word))
-                {
-                    // invalid octet
-                    ec = error::syntax;
-                    return;
-                }
-                ++p_;
-                auto m = match_octet();
-                if( m == -1)
+                if(! c)
                 {
+                    // '.' must follow a word
                     ec = error::syntax;
                     return;
                 }
-                if(p_ >= end_)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(*p_ != '.')
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                ++p_;
-                m = match_octet();
-                if( m == -1)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(p_ >= end_)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(*p_ != '.')
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                ++p_;
-                m = match_octet();
-                if(m == -1)
+                // the word was the first octet
+                p_ = w;
+                if(! match_ip_v4())
                 {
                     ec = error::syntax;
                     return;
@@ -571,7 +523,8 @@ struct parser
             }
             else if(! c)
             {
-                word = parse_word(ec);
+                w = p_;
+                parse_word(ec);
                 if(ec)
                     return;
                 --n;
-- 
2.43.0


From 077268ffec442cb71646d126137da6cf267b2ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:16 +0000
Subject: [PATCH 21/33] fix: support IPvFuture hosts

---
 include/boost/url/detail/parse.hpp | 43 ++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 613686a..9b95dce 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -280,7 +280,17 @@ struct parser
             return;
         }
         ++p_;
-        parse_ip_v6(ec);
+        auto host = host_type::ipv6;
+        if( p_ != end_ && (
+            *p_ == 'v' || *p_ == 'V'))
+        {
+            parse_ip_vfuture(ec);
+            host = host_type::ipvfuture;
+        }
+        else
+        {
+            parse_ip_v6(ec);
+        }
         if(ec)
             return;
         if(p_ == end_)
@@ -294,7 +304,7 @@ struct parser
             return;
         }
         ++p_;
-        pt.host = host_type::ipv6;
+        pt.host = host;
     }
 
     void
@@ -541,6 +551,35 @@ struct parser
         }
     }
 
+    // "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
+    void
+    parse_ip_vfuture(
+        error_code& ec) noexcept
+    {
+        ++p_; // 'v'
+        auto p0 = p_;
+        while(
+            p_ < end_ &&
+            hex_digit(*p_) != -1)
+            ++p_;
+        if( p_ == p0 ||
+            p_ >= end_ ||
+            *p_ != '.')
+        {
+            ec = error::syntax;
+            return;
+        }
+        p0 = ++p_;
+        auto const e =
+            userinfo_pct_set();
+        while(
+            p_ < end_ &&
+            ! e.is_special(*p_))
+            ++p_;
+        if(p_ == p0)
+            ec = error::syntax;
+    }
+
     // port = *DIGIT
     void
     match_port() noexcept
-- 
2.43.0


From 5550b5049a5aba591c3a19e23f8b0ce412ad21c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:16 +0000
Subject: [PATCH 22/33] fix: detect static_pool exhaustion after alignment and
 size overflow

---
 include/boost/url/static_pool.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/static_pool.hpp b/include/boost/url/static_pool.hpp
index 57ebcb5..55659c7 100644
--- a/include/boost/url/static_pool.hpp
+++ b/include/boost/url/static_pool.hpp
@@ -35,8 +35,10 @@ class basic_static_pool
             (u0 + align - 1) / align);
         auto const p =
             reinterpret_cast<char*>(u);
-        if( u < u0 || bytes >
-            capacity_ - (p - base_))
+        if( u < u0 ||
+            static_cast<std::size_t>(
+                p - base_) > capacity_ ||
+            bytes > capacity_ - (p - base_))
             BOOST_THROW_EXCEPTION(
                 std::bad_alloc());
         top_ = reinterpret_cast<
@@ -103,6 +105,10 @@ public:
         pointer
         allocate(size_type n)
         {
+            if(n > static_cast<
+                std::size_t>(-1) / sizeof(T))
+                BOOST_THROW_EXCEPTION(
+                    std::bad_alloc());
             return reinterpret_cast<T*>(
                 pool_->allocate(
                     n * sizeof(T),
-- 
2.43.0


From 244aa60185991d4fc4d9738de5389576004f88b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:16 +0000
Subject: [PATCH 23/33] fix: basic_url copy assignment assigns

---
 include/boost/url/basic_url.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/url/basic_url.hpp b/include/boost/url/basic_url.hpp
index 0219765..a6a28b5 100644
--- a/include/boost/url/basic_url.hpp
+++ b/include/boost/url/basic_url.hpp
@@ -65,8 +65,11 @@ public:
 
     basic_url&
     operator=(
-        basic_url const&)
+        basic_url const& other)
     {
+        if(this != &other)
+            set_encoded_url(
+                other.encoded_url());
         return *this;
     }
 };
-- 
2.43.0


From 808a4ec6e273fdb4949660c63a5a23c5343f260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:16 +0000
Subject: [PATCH 24/33] fix: make basic_url copy and move constructors usable

---
 include/boost/url/basic_url.hpp      | 17 +++++++++++++++--
 include/boost/url/detail/storage.hpp | 26 ++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/basic_url.hpp b/include/boost/url/basic_url.hpp
index a6a28b5..4730966 100644
--- a/include/boost/url/basic_url.hpp
+++ b/include/boost/url/basic_url.hpp
@@ -54,12 +54,25 @@ public:
     }
 
     basic_url(
-        basic_url&&) noexcept
+        basic_url&& other) noexcept
+        : detail::storage_member<
+            Allocator>(std::move(other.st_))
+        , url_base(this->st_)
     {
+        std::swap(pt_, other.pt_);
+        std::swap(s_, other.s_);
     }
 
     basic_url(
-        basic_url const&)
+        basic_url const& other)
+        : detail::storage_member<
+            Allocator>(std::allocator_traits<
+                Allocator>::
+                select_on_container_copy_construction(
+                    other.st_.get_allocator()))
+        , url_base(
+            this->st_,
+            other.encoded_url())
     {
     }
 
diff --git a/include/boost/url/detail/storage.hpp b/include/boost/url/detail/storage.hpp
index f9ddc2c..813843c 100644
--- a/include/boost/url/detail/storage.hpp
+++ b/include/boost/url/detail/storage.hpp
@@ -14,6 +14,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <memory>
+#include <utility>
 
 namespace boost {
 namespace urls {
@@ -49,6 +50,24 @@ public:
     {
     }
 
+    alloc_storage(
+        alloc_storage&& other) noexcept
+        : a_(other.a_)
+        , p_(other.p_)
+        , size_(other.size_)
+        , cap_(other.cap_)
+    {
+        other.p_ = nullptr;
+        other.size_ = 0;
+        other.cap_ = 0;
+    }
+
+    Allocator const&
+    get_allocator() const noexcept
+    {
+        return a_;
+    }
+
     ~alloc_storage()
     {
         if(p_)
@@ -127,6 +146,13 @@ struct storage_member
         : st_(alloc)
     {
     }
+
+    explicit
+    storage_member(
+        alloc_storage<Allocator>&& st) noexcept
+        : st_(std::move(st))
+    {
+    }
 };
 
 } // detail
-- 
2.43.0


From a2e5953b3590429ffd28a245056e51348abf3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 25/33] fix: set_encoded_origin accepts only an origin and
 updates host_type

---
 include/boost/url/detail/parse.hpp  | 19 +++++++++++--------
 include/boost/url/impl/url_base.ipp |  4 ++++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 9b95dce..49dc026 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -872,16 +872,19 @@ parse_origin(
         return;
     }
     pr.mark(pt, id_scheme);
-    pr.parse_hier_part(pt, ec);
 
     // authority
-    if(! pr.match_literal("//"))
-        return;
-    pr.parse_authority(pt, ec);
-    if(ec)
-        return;
-    pt.resize(id_user,
-        pt.length(id_user) + 1);
+    if(pr.match_literal("//"))
+    {
+        pr.parse_authority(pt, ec);
+        if(ec)
+            return;
+        // a path is allowed, but is
+        // not part of the origin
+        pr.parse_path_abempty(pt, ec);
+        if(ec)
+            return;
+    }
 
     if(! pr.done())
         ec = error::syntax;
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 4b886d9..ab99f8f 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -96,6 +96,7 @@ set_encoded_origin(
         resize(
             detail::id_scheme,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -104,6 +105,8 @@ set_encoded_origin(
     detail::parse_origin(pt, s, ec);
     if(ec)
         invalid_part::raise();
+    s = s.substr(
+        0, pt.offset[detail::id_path]);
     auto const dest =
         resize(
             detail::id_scheme,
@@ -124,6 +127,7 @@ set_encoded_origin(
         pt.length(detail::id_host));
     pt_.split(
         detail::id_port, pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
-- 
2.43.0


From f086651acdf6ffef5ea918a983391425f6ad911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 26/33] fix: refuse setters that would make the URL ambiguous

---
 include/boost/url/impl/url_base.ipp | 64 +++++++++++++++++++++++++++++
 include/boost/url/url_base.hpp      |  3 ++
 2 files changed, 67 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index ab99f8f..1385e6c 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -93,6 +93,8 @@ set_encoded_origin(
 {
     if(s.empty())
     {
+        check_remove_authority();
+        check_remove_scheme();
         resize(
             detail::id_scheme,
             detail::id_path, 0);
@@ -107,6 +109,12 @@ set_encoded_origin(
         invalid_part::raise();
     s = s.substr(
         0, pt.offset[detail::id_path]);
+    if(pt.length(
+        detail::id_user,
+        detail::id_path) != 0)
+        check_add_authority();
+    else
+        check_remove_authority();
     auto const dest =
         resize(
             detail::id_scheme,
@@ -158,6 +166,7 @@ set_scheme(
 {
     if(s.empty())
     {
+        check_remove_scheme();
         resize(detail::id_scheme, 0);
         return *this;
     }
@@ -212,6 +221,7 @@ set_encoded_authority(
 {
     if(s.empty())
     {
+        check_remove_authority();
         resize(
             detail::id_user,
             detail::id_path, 0);
@@ -219,6 +229,7 @@ set_encoded_authority(
         return *this;
     }
 
+    check_add_authority();
     detail::parts pt;
     detail::parse_authority(pt, s);
     auto const dest = resize(
@@ -330,6 +341,7 @@ set_encoded_userinfo(
             detail::id_path) == 0)
         {
             // no authority
+            check_remove_authority();
             resize(
                 detail::id_user,
                 detail::id_host, 0);
@@ -342,6 +354,7 @@ set_encoded_userinfo(
         return *this;
     }
 
+    check_add_authority();
     detail::parts pt;
     detail::parse_userinfo(pt, s);
     auto dest = resize(
@@ -422,6 +435,7 @@ set_user(
         return *this;
     }
 
+    check_add_authority();
     auto const e =
         detail::userinfo_nc_pct_set();
     if(pt_.length(
@@ -457,6 +471,7 @@ set_encoded_user(
     if(s.empty())
         return set_user(s);
 
+    check_add_authority();
     auto const e =
         detail::userinfo_nc_pct_set();
     e.validate(s);
@@ -551,6 +566,7 @@ set_password(
         return *this;
     }
 
+    check_add_authority();
     auto const e =
         detail::userinfo_pct_set();
     auto const n =
@@ -585,6 +601,7 @@ set_encoded_password(
     if(s.empty())
         return set_password(s);
 
+    check_add_authority();
     auto const e =
         detail::userinfo_pct_set();
     if(s[0] == ':')
@@ -625,6 +642,7 @@ set_password_part(
     {
         if(s.front() != ':')
             invalid_part::raise();
+        check_add_authority();
         if(pt_.length(
             detail::id_user) != 0)
         {
@@ -694,6 +712,7 @@ set_host(
                 detail::id_user, s_
                     ) == "//");
             // remove authority
+            check_remove_authority();
             resize(
                 detail::id_user,
                 detail::id_path, 0);
@@ -705,6 +724,7 @@ set_host(
         pt_.host = urls::host_type::none;
         return *this;
     }
+    check_add_authority();
     detail::parts pt;
     detail::parse_plain_hostname(pt, s);
     BOOST_ASSERT(
@@ -770,6 +790,7 @@ set_encoded_host(
 {
     if(s.empty())
         return set_host(s);
+    check_add_authority();
     detail::parts pt;
     detail::parse_hostname(pt, s);
     if(! has_authority())
@@ -846,6 +867,7 @@ set_port(string_view s)
             BOOST_ASSERT(pt_.get(
                 detail::id_user, s_).substr(
                     0, 2) == "//");
+            check_remove_authority();
             resize(
                 detail::id_user,
                 detail::id_path, 0);
@@ -857,6 +879,7 @@ set_port(string_view s)
         return *this;
     }
     detail::match_port(s);
+    check_add_authority();
     if(! has_authority())
     {
         // add authority
@@ -898,6 +921,7 @@ set_port_part(string_view s)
         invalid_part::raise();
     if(s.size() > 1)
         return set_port(s.substr(1));
+    check_add_authority();
     if(! has_authority())
     {
         // add authority
@@ -1783,6 +1807,46 @@ operator[](string_view key) const
 
 //----------------------------------------------------------
 
+// Throws if adding an authority
+// would make the path ambiguous.
+void
+url_base::
+check_add_authority() const
+{
+    auto const s = encoded_path();
+    if( ! has_authority() &&
+        ! s.empty() &&
+        s.front() != '/')
+        invalid_part::raise();
+}
+
+// Throws if removing the authority
+// would make the path ambiguous.
+void
+url_base::
+check_remove_authority() const
+{
+    if(encoded_path().substr(0, 2) == "//")
+        invalid_part::raise();
+}
+
+// Throws if removing the scheme
+// would make the path ambiguous.
+void
+url_base::
+check_remove_scheme() const
+{
+    if(has_authority())
+        return;
+    for(auto c : encoded_path())
+    {
+        if(c == '/')
+            break;
+        if(c == ':')
+            invalid_part::raise();
+    }
+}
+
 char*
 url_base::
 resize(
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 5728f60..6a31f92 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1609,6 +1609,9 @@ public:
     normalize_scheme() noexcept;
 
 private:
+    inline void check_add_authority() const;
+    inline void check_remove_authority() const;
+    inline void check_remove_scheme() const;
     inline char* resize(int id, std::size_t new_size);
     inline char* resize(int first, int last, std::size_t new_size);
 };
-- 
2.43.0


From b6abc44332443410b50d6043202b6b299eb52588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:47 +0000
Subject: [PATCH 27/33] fix: edit segments of paths which do not start with a
 slash

---
 include/boost/url/impl/url_base.ipp | 104 ++++++++++++++++++----------
 include/boost/url/url_base.hpp      |   8 +++
 2 files changed, 76 insertions(+), 36 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 1385e6c..c44a6cf 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1404,6 +1404,20 @@ end() const noexcept ->
     return iterator(v_, true);
 }
 
+// Returns true if pos is the first segment of
+// a non-empty path which does not start with '/'
+bool
+url_base::
+segments_type::
+is_rootless_begin( iterator const& pos ) const noexcept
+{
+    auto const& pt = v_->pt_;
+    return
+        pos.off_ == pt.offset[detail::id_path] &&
+        pt.length(detail::id_path) != 0 &&
+        v_->s_[pos.off_] != '/';
+}
+
 auto
 url_base::
 segments_type::
@@ -1429,13 +1443,18 @@ erase( iterator first, iterator last ) noexcept ->
     BOOST_ASSERT(last.off_ >= v.pt_.offset[detail::id_path]);
     BOOST_ASSERT(first.off_ <= v.pt_.offset[detail::id_query]);
     BOOST_ASSERT(last.off_ <= v.pt_.offset[detail::id_query]);
-    auto const d = last.off_ - first.off_;
-    if( d == 0 )
+    if( first.off_ == last.off_ )
         return first;
-    BOOST_ASSERT(d > 0);
-    int c = 0;
+    std::size_t c = 0;
     for( auto i = v.s_ + first.off_, e = v.s_ + last.off_; i != e; ++i )
         c += (*i == '/'); // Count the number of segments in the range
+    if( is_rootless_begin(first) )
+    {
+        ++c; // The first segment has no '/'
+        if( last.off_ != v.pt_.offset[detail::id_query] )
+            ++last.off_; // The new first segment must not have one either
+    }
+    auto const d = last.off_ - first.off_;
     BOOST_ASSERT(c > 0);
     BOOST_ASSERT(v.pt_.nseg >= c);
     v.pt_.nseg -= c;
@@ -1464,14 +1483,16 @@ insert_encoded_impl( iterator pos, string_view s ) ->
     BOOST_ASSERT(pos.off_ <= v.pt_.offset[detail::id_query]);
     auto const n0 = v.pt_.offset[detail::id_end];
     auto const n = s.size() + 1;
+    auto const rootless = is_rootless_begin(pos);
     v.s_ = v.a_.resize(v.size() + n);
     v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
     std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
-    v.s_[pos.off_] = '/';
-    std::memcpy(v.s_ + pos.off_ + 1, s.data(), s.size());
+    auto const lead = rootless ? 0 : 1;
+    v.s_[pos.off_ + (rootless ? s.size() : 0)] = '/';
+    s.copy(v.s_ + pos.off_ + lead, s.size());
     ++v.pt_.nseg;
-    pos.off_ += n;
+    pos.off_ += lead + s.size();
     pos.parse();
     return pos;
 }
@@ -1492,18 +1513,46 @@ insert_impl( iterator pos, string_view s, std::size_t const ns ) ->
     BOOST_ASSERT(pct.encoded_size(s) == ns);
     auto const n0 = v.pt_.offset[detail::id_end];
     auto const n = ns + 1;
+    auto const rootless = is_rootless_begin(pos);
     v.s_ = v.a_.resize(v.size() + n);
     v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
     std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
-    v.s_[pos.off_] = '/';
-    pct.encode(v.s_ + pos.off_ + 1, s);
+    auto const lead = rootless ? 0 : 1;
+    v.s_[pos.off_ + (rootless ? ns : 0)] = '/';
+    pct.encode(v.s_ + pos.off_ + lead, s);
     ++v.pt_.nseg;
-    pos.off_ += n;
+    pos.off_ += lead + ns;
     pos.parse();
     return pos;
 }
 
+// Makes room for a segment of size ns in place of
+// the one at pos, and moves pos to the segment after it.
+char*
+url_base::
+segments_type::
+replace_prepare( iterator& pos, std::size_t ns )
+{
+    BOOST_ASSERT(v_ != nullptr);
+    url_base& v = *v_;
+    BOOST_ASSERT(v.size() == v.a_.size());
+    BOOST_ASSERT(pos.v_ == &v);
+    BOOST_ASSERT(pos.off_ < v.pt_.offset[detail::id_query]);
+    auto const off = pos.off_ + (is_rootless_begin(pos) ? 0 : 1);
+    auto const last = pos.off_ + pos.n_;
+    auto const n0 = v.pt_.offset[detail::id_end];
+    auto const n = n0 - (last - off) + ns;
+    if( n > n0 )
+        v.s_ = v.a_.resize(n);
+    std::memmove(v.s_ + off + ns, v.s_ + last, n0 - last + 1);
+    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path) + n - n0);
+    if( n < n0 )
+        v.s_ = v.a_.resize(n);
+    pos.off_ = off + ns;
+    return v.s_ + off;
+}
+
 auto
 url_base::
 segments_type::
@@ -1529,19 +1578,10 @@ replace_encoded( iterator pos, string_view s ) ->
     iterator
 {
     detail::pchar_pct_set().validate(s);
-    BOOST_ASSERT(v_ != nullptr);
-    url_base& v = *v_;
-    BOOST_ASSERT(v.size() == v.a_.size());
-    auto const ns = s.size();
-    auto const n0 = pos.n_;
-    auto const n = ns + 1;
-    if( n0 < n )
-        v.s_ = v.a_.reserve(v.a_.size() + n - n0);
-    auto const cap = v.a_.capacity();
-    auto r = insert_encoded_impl(erase(pos), s);
-    BOOST_ASSERT(v.a_.capacity() == cap); // Strong guarantee violation
-    (void) cap;
-    return r;
+    auto const dest = replace_prepare(pos, s.size());
+    s.copy(dest, s.size());
+    pos.parse();
+    return pos;
 }
 
 auto
@@ -1550,19 +1590,11 @@ segments_type::
 replace( iterator pos, string_view s ) ->
     iterator
 {
-    BOOST_ASSERT(v_ != nullptr);
-    url_base& v = *v_;
-    BOOST_ASSERT(v.size() == v.a_.size());
-    auto const ns = detail::pchar_pct_set().encoded_size(s);
-    auto const n0 = pos.n_;
-    auto const n = ns + 1;
-    if( n0 < n )
-        v.s_ = v.a_.reserve(v.a_.size() + n - n0);
-    auto const cap = v.a_.capacity();
-    auto r = insert_impl(erase(pos), s, ns);
-    BOOST_ASSERT(v.a_.capacity() == cap); // Strong guarantee violation
-    (void) cap;
-    return r;
+    auto const pct = detail::pchar_pct_set();
+    auto const dest = replace_prepare(pos, pct.encoded_size(s));
+    pct.encode(dest, s);
+    pos.parse();
+    return pos;
 }
 
 //----------------------------------------------------------
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 6a31f92..76b8f22 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1632,6 +1632,14 @@ public:
 
 private:
 
+    inline
+    bool
+    is_rootless_begin( iterator const& pos ) const noexcept;
+
+    inline
+    char*
+    replace_prepare( iterator& pos, std::size_t ns );
+
     BOOST_URL_DECL
     iterator
     insert_encoded_impl( iterator pos, string_view s );
-- 
2.43.0


From 99b791d15adddb6f56da16234c29c20a5f532e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:47 +0000
Subject: [PATCH 28/33] fix: refuse segment inserts and replacements that would
 make the URL ambiguous

---
 include/boost/url/impl/url_base.ipp | 63 ++++++++++++++++++++++++++++-
 include/boost/url/url_base.hpp      |  8 ++++
 2 files changed, 70 insertions(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index c44a6cf..b468600 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1527,6 +1527,62 @@ insert_impl( iterator pos, string_view s, std::size_t const ns ) ->
     return pos;
 }
 
+// Throws if inserting s before pos
+// would make the path ambiguous.
+void
+url_base::
+segments_type::
+check_insert( iterator const& pos, string_view s ) const
+{
+    BOOST_ASSERT(v_ != nullptr);
+    url_base const& v = *v_;
+    if( is_rootless_begin(pos) )
+    {
+        // segment-nz / segment-nz-nc
+        if( s.empty() || ( v.scheme().empty() &&
+            s.find(':') != string_view::npos ) )
+            invalid_part::raise();
+        return;
+    }
+    if( v.has_authority() )
+        return;
+    // begins with "/" but not "//"
+    auto const path = v.encoded_path();
+    if( pos.off_ == v.pt_.offset[detail::id_path] )
+    {
+        if( s.empty() && ! path.empty() )
+            invalid_part::raise();
+    }
+    else if( path == "/" )
+    {
+        invalid_part::raise();
+    }
+}
+
+// Throws if replacing the segment at pos
+// with s would make the path ambiguous.
+void
+url_base::
+segments_type::
+check_replace( iterator const& pos, string_view s ) const
+{
+    BOOST_ASSERT(v_ != nullptr);
+    url_base const& v = *v_;
+    if( is_rootless_begin(pos) )
+    {
+        // segment-nz / segment-nz-nc
+        if( s.empty() || ( v.scheme().empty() &&
+            s.find(':') != string_view::npos ) )
+            invalid_part::raise();
+        return;
+    }
+    // begins with "/" but not "//"
+    if( s.empty() && ! v.has_authority() &&
+        pos.off_ == v.pt_.offset[detail::id_path] &&
+        v.pt_.nseg > 1 )
+        invalid_part::raise();
+}
+
 // Makes room for a segment of size ns in place of
 // the one at pos, and moves pos to the segment after it.
 char*
@@ -1559,7 +1615,9 @@ segments_type::
 insert_encoded( iterator pos, string_view s ) ->
     iterator
 {
-    return insert_encoded_impl(pos, detail::pchar_pct_set().validate(s));
+    detail::pchar_pct_set().validate(s);
+    check_insert(pos, s);
+    return insert_encoded_impl(pos, s);
 }
 
 auto
@@ -1568,6 +1626,7 @@ segments_type::
 insert( iterator pos, string_view s ) ->
     iterator
 {
+    check_insert(pos, s);
     return insert_impl(pos, s, detail::pchar_pct_set().encoded_size(s));
 }
 
@@ -1578,6 +1637,7 @@ replace_encoded( iterator pos, string_view s ) ->
     iterator
 {
     detail::pchar_pct_set().validate(s);
+    check_replace(pos, s);
     auto const dest = replace_prepare(pos, s.size());
     s.copy(dest, s.size());
     pos.parse();
@@ -1590,6 +1650,7 @@ segments_type::
 replace( iterator pos, string_view s ) ->
     iterator
 {
+    check_replace(pos, s);
     auto const pct = detail::pchar_pct_set();
     auto const dest = replace_prepare(pos, pct.encoded_size(s));
     pct.encode(dest, s);
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 76b8f22..fe7d094 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1636,6 +1636,14 @@ private:
     bool
     is_rootless_begin( iterator const& pos ) const noexcept;
 
+    inline
+    void
+    check_insert( iterator const& pos, string_view s ) const;
+
+    inline
+    void
+    check_replace( iterator const& pos, string_view s ) const;
+
     inline
     char*
     replace_prepare( iterator& pos, std::size_t ns );
-- 
2.43.0


From 179b70c27536dc7d4b0af7129a3c71cee68be989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:47 +0000
Subject: [PATCH 29/33] fix: leave a '.' segment when erasing would make the
 URL ambiguous

---
 include/boost/url/impl/url_base.ipp | 30 ++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index b468600..aeb3ea7 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1454,10 +1454,38 @@ erase( iterator first, iterator last ) noexcept ->
         if( last.off_ != v.pt_.offset[detail::id_query] )
             ++last.off_; // The new first segment must not have one either
     }
-    auto const d = last.off_ - first.off_;
     BOOST_ASSERT(c > 0);
     BOOST_ASSERT(v.pt_.nseg >= c);
     v.pt_.nseg -= c;
+    if( first.off_ == v.pt_.offset[detail::id_path] )
+    {
+        // Leave a "." segment if the rest of
+        // the path would otherwise be ambiguous
+        string_view const rest(v.s_ + last.off_,
+            v.pt_.offset[detail::id_query] - last.off_);
+        if( is_rootless_begin(first) )
+        {
+            auto const seg = rest.substr(0, rest.find('/'));
+            if( v.pt_.nseg > 0 && ( seg.empty() || (
+                v.scheme().empty() &&
+                seg.find(':') != string_view::npos ) ) )
+            {
+                v.s_[first.off_] = '.';
+                v.s_[last.off_ - 1] = '/';
+                ++first.off_;
+                --last.off_;
+                ++v.pt_.nseg;
+            }
+        }
+        else if( ! v.has_authority() &&
+            rest.substr(0, 2) == "//" )
+        {
+            v.s_[first.off_ + 1] = '.';
+            first.off_ += 2;
+            ++v.pt_.nseg;
+        }
+    }
+    auto const d = last.off_ - first.off_;
     std::memmove(v.s_ + first.off_, v.s_ + last.off_, v.pt_.offset[detail::id_end] - last.off_ + 1);
     v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) - d);
     BOOST_ASSERT(v.size() + d == v.a_.size());
-- 
2.43.0


From 2e2692d34f1d419f32718033dc5f82ff75875818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:17 +0000
Subject: [PATCH 30/33] fix: hex_digit must be signed where char is unsigned

The table marks a non-digit with 0xff and every caller compares the
result to -1, which never matches where plain char is unsigned (ARM,
-funsigned-char): invalid escapes and words were accepted.
---
 include/boost/url/detail/char_type.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index cfc288b..d14fb5f 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -49,7 +49,7 @@ is_alpha(
 }
 
 inline
-char
+signed char
 hex_digit(char c) noexcept
 {
     static constexpr char tab[] =
@@ -70,7 +70,8 @@ hex_digit(char c) noexcept
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 224..239
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 240..255
         ;
-    return tab[static_cast<unsigned char>(c)];
+    return static_cast<signed char>(
+        tab[static_cast<unsigned char>(c)]);
 }
 
 inline
-- 
2.43.0


From 0235465f785172be7f38c0bb21b9a706bef41e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:02 +0000
Subject: [PATCH 31/33] fix: compare scheme names without the locale's tolower

string_to_scheme passed plain char to tolower, which is undefined for bytes
above 127 and depends on the locale (in a Turkish locale "FILE" was not
recognised). Use detail::to_lower, which itself returned the wrong letter.
---
 include/boost/url/detail/char_type.hpp |  2 +-
 include/boost/url/impl/scheme.ipp      | 38 +++++++++++++-------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index d14fb5f..1c3f1fd 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -26,7 +26,7 @@ to_lower(char c) noexcept
         static_cast<unsigned char>(c - 65);
     if(u > 25)
         return c;
-    return 'a' + c;
+    return static_cast<char>('a' + u);
 }
 
 inline
diff --git a/include/boost/url/impl/scheme.ipp b/include/boost/url/impl/scheme.ipp
index 1885550..bd43813 100644
--- a/include/boost/url/impl/scheme.ipp
+++ b/include/boost/url/impl/scheme.ipp
@@ -25,23 +25,23 @@ string_to_scheme(
     switch(s.size())
     {
     case 2: // ws
-        if( tolower(s[0]) == 'w' &&
-            tolower(s[1]) == 's')
+        if( to_lower(s[0]) == 'w' &&
+            to_lower(s[1]) == 's')
             return scheme::ws;
         break;
 
     case 3:
-        switch(tolower(s[0]))
+        switch(to_lower(s[0]))
         {
         case 'w': // wss
-            if( tolower(s[1]) == 's' &&
-                tolower(s[2]) == 's')
+            if( to_lower(s[1]) == 's' &&
+                to_lower(s[2]) == 's')
                 return scheme::wss;
             break;
 
         case 'f': // ftp
-            if( tolower(s[1]) == 't' &&
-                tolower(s[2]) == 'p')
+            if( to_lower(s[1]) == 't' &&
+                to_lower(s[2]) == 'p')
                 return scheme::ftp;
             break;
 
@@ -51,19 +51,19 @@ string_to_scheme(
         break;
 
     case 4:
-        switch(tolower(s[0]))
+        switch(to_lower(s[0]))
         {
         case 'f': // file
-            if( tolower(s[1]) == 'i' &&
-                tolower(s[2]) == 'l' &&
-                tolower(s[3]) == 'e')
+            if( to_lower(s[1]) == 'i' &&
+                to_lower(s[2]) == 'l' &&
+                to_lower(s[3]) == 'e')
                 return scheme::file;
             break;
 
         case 'h': // http
-            if( tolower(s[1]) == 't' &&
-                tolower(s[2]) == 't' &&
-                tolower(s[3]) == 'p')
+            if( to_lower(s[1]) == 't' &&
+                to_lower(s[2]) == 't' &&
+                to_lower(s[3]) == 'p')
                 return scheme::http;
             break;
 
@@ -73,11 +73,11 @@ string_to_scheme(
         break;
 
     case 5: // https
-        if( tolower(s[0]) == 'h' &&
-            tolower(s[1]) == 't' &&
-            tolower(s[2]) == 't' &&
-            tolower(s[3]) == 'p' &&
-            tolower(s[4]) == 's')
+        if( to_lower(s[0]) == 'h' &&
+            to_lower(s[1]) == 't' &&
+            to_lower(s[2]) == 't' &&
+            to_lower(s[3]) == 'p' &&
+            to_lower(s[4]) == 's')
             return scheme::https;
         break;
 
-- 
2.43.0


From e300793e1d16d15022338485dd02bea8169018c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:29 +0000
Subject: [PATCH 32/33] fix: never outgrow the allocator's max_size

reserve() fell back to max_size() without checking that it is enough, so a
URL whose capacity was past half of max_size() could be given a block
smaller than the string written to it.
---
 include/boost/url/detail/storage.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/url/detail/storage.hpp b/include/boost/url/detail/storage.hpp
index 813843c..0c268c2 100644
--- a/include/boost/url/detail/storage.hpp
+++ b/include/boost/url/detail/storage.hpp
@@ -11,6 +11,7 @@
 #define BOOST_URL_DETAIL_STORAGE_HPP
 
 #include <boost/url/config.hpp>
+#include <boost/url/error.hpp>
 #include <cstdlib>
 #include <cstring>
 #include <memory>
@@ -88,8 +89,12 @@ public:
         if(n <= cap_)
             return p_;
 
+        // one character is for the null
         std::size_t cap =
             traits::max_size(a_);
+        if(cap <= n)
+            too_large::raise();
+        --cap;
         if(cap_ < cap - cap_)
         {
             cap = 2 * cap_;
-- 
2.43.0


From d442835fccdaa0c18622d6bfcf0759cc96f621ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:11 +0000
Subject: [PATCH 33/33] fix: static_pool.hpp includes what it uses

std::uintptr_t and std::bad_alloc were declared only by accident, so the
header could not be included on its own in the stand-alone build.
---
 include/boost/url/static_pool.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/url/static_pool.hpp b/include/boost/url/static_pool.hpp
index 55659c7..bee91da 100644
--- a/include/boost/url/static_pool.hpp
+++ b/include/boost/url/static_pool.hpp
@@ -11,7 +11,9 @@
 #define BOOST_URL_STATIC_POOL_HPP
 
 #include <boost/url/config.hpp>
+#include <cstdint>
 #include <cstdlib>
+#include <new>
 
 namespace boost {
 namespace urls {
-- 
2.43.0

