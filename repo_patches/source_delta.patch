From fb312a4630907f5d2fab4466c4254c89b47201f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 01/53] fix: make generated headers self-contained
 (std::numeric_limits needs <limits>)

---
 source/cpp/protogen.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index c330d97..bfec041 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -29,6 +29,7 @@
 #include <memory>
 #include <algorithm>
 #include <cmath>
+#include <limits>
 
 namespace protogen_X_Y_Z {
 
-- 
2.43.0


From d355e8da90763029e7d446aa01763e08f88f2ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 02/53] fix: deserialize_array from a pointer and length uses
 the const iterator

---
 source/cpp/json-array.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 005acd2..a15479c 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -107,9 +107,9 @@ bool deserialize_array( T& container, const std::string &in, Parameters *params
 template<typename T, typename std::enable_if<is_container<T>::value, int>::type = 0>
 bool deserialize_array( T& container, const char *in, size_t len, Parameters *params = nullptr )
 {
-    auto begin = mem_iterator<char>(in, len);
-    auto end = mem_iterator<char>(in + len, 0);
-    iterator_istream<mem_iterator<char>> is(begin, end);
+    auto begin = mem_const_iterator<char>(in, len);
+    auto end = mem_const_iterator<char>(in + len, 0);
+    iterator_istream<mem_const_iterator<char>> is(begin, end);
     return deserialize_array(container, is, params);
 }
 
-- 
2.43.0


From 7c3e5bc4eadd209d3280526991e2ef684ce0ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 03/53] fix: write the first byte at the start of a character
 buffer

---
 source/cpp/protogen.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index bfec041..c507f06 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -124,18 +124,20 @@ class iterator_ostream : public ostream
         }
         ostream & operator<<( char value ) override
         {
-            *++beg_ = value;
+            *beg_ = value;
+            ++beg_;
             return *this;
         }
         ostream & operator<<( const std::string &value ) override
         {
-            for (auto it = value.begin(); it != value.end(); ++it)
-                *++beg_ = *it;
+            for (auto it = value.begin(); it != value.end(); ++it, ++beg_)
+                *beg_ = *it;
             return *this;
         }
         ostream & operator<<( const char *value ) override
         {
-            while (*value != 0) *++beg_ = *value++;
+            for (; *value != 0; ++value, ++beg_)
+                *beg_ = *value;
             return *this;
         }
         ostream & operator<<( char *value ) override { return *this << (const char*) value; }
-- 
2.43.0


From 7846d09ee37c334d23396c91ba9b2b53714708bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 04/53] fix: emit the base64 support for bytes fields and keep
 the elements of repeated bytes apart

---
 source/cpp/cppgen.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 74fb78b..9e002a2 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -131,7 +131,10 @@ static std::string fieldNativeType( const Field &field, bool useLists )
         valueType += "::string_field";
     }
     else
-    if (field.type.id >= protogen::TYPE_DOUBLE && field.type.id <= protogen::TYPE_BYTES)
+    if (field.type.id == protogen::TYPE_BYTES)
+        valueType = "std::vector<uint8_t>";
+    else
+    if (field.type.id >= protogen::TYPE_DOUBLE && field.type.id < protogen::TYPE_BYTES)
     {
         int index = (int)field.type.id - (int)protogen::TYPE_DOUBLE;
         valueType = TYPE_MAPPING[index].nativeType;
@@ -142,10 +145,10 @@ static std::string fieldNativeType( const Field &field, bool useLists )
     else
         throw protogen::exception("Invalid field type");
 
-    if (field.type.repeated || field.type.id == protogen::TYPE_BYTES)
+    if (field.type.repeated)
     {
         std::string output = "std::";
-        if (field.type.id == protogen::TYPE_BYTES || !useLists)
+        if (!useLists)
             output += "vector<";
         else
             output += "list<";
@@ -153,7 +156,8 @@ static std::string fieldNativeType( const Field &field, bool useLists )
         output += '>';
         return output;
     }
-    if (field.type.id == protogen::TYPE_MESSAGE || field.type.id == protogen::TYPE_STRING)
+    if (field.type.id == protogen::TYPE_MESSAGE || field.type.id == protogen::TYPE_STRING ||
+        field.type.id == protogen::TYPE_BYTES)
         return valueType;
     else
     {
@@ -547,11 +551,10 @@ static void generateInclusions( GeneratorContext &ctx )
         for (const auto &field : message->fields)
         {
             if (field.type.repeated)
-            {
-                if (field.type.id == protogen::TYPE_BYTES)
-                    has_base64 = true;
                 has_array = true;
-            }
+            if (field.type.id == protogen::TYPE_BYTES)
+                has_base64 = true;
+            else
             if (field.type.id == protogen::TYPE_STRING)
                 has_string = true;
             else
-- 
2.43.0


From 1ce0ba0a25c7c3d6035b9477c40db7fc9d5ff8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 05/53] fix: reject invalid base64 data and locate the error at
 the offending string

---
 source/cpp/json-base64.hh | 41 +++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/source/cpp/json-base64.hh b/source/cpp/json-base64.hh
index 78226c3..a1ef60d 100644
--- a/source/cpp/json-base64.hh
+++ b/source/cpp/json-base64.hh
@@ -19,7 +19,7 @@ struct json< std::vector<uint8_t> >
         if (ch >= 'A' && ch <= 'Z') return ch - 'A';
         if (ch >= 'a' && ch <= 'z') return (ch - 'a') + 26;
         if (ch == '=') return 64;
-        return 0;
+        return -1;
     }
     static int write( json_context &ctx, const std::vector<uint8_t> &value )
     {
@@ -63,41 +63,36 @@ struct json< std::vector<uint8_t> >
         if (ctx.tok->peek().id != token_id::STRING)
             return ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid string");
 
-        size_t k = 0;
         int s[4];
-        std::string text = ctx.tok->peek().value;
-        ctx.tok->next();
-        const char *ptr = text.c_str();
+        const std::string &text = ctx.tok->peek().value;
+        std::vector<uint8_t> data;
+
+        if (text.size() % 4 != 0)
+            return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "invalid base64 data");
 
-        while (true)
+        for (size_t i = 0; i < text.size(); i += 4)
         {
             // read 4 characters
             for (size_t j = 0; j < 4; ++j)
             {
-                int ch = *ptr++;
-                if (ch == 0)
-                {
-                    if (j != 0) ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
-                    return PGR_OK;
-                }
-                s[j] = b64_int(ch);
+                s[j] = b64_int(text[i + j]);
+                // padding is allowed only in the last two characters
+                bool padding = s[j] == 64 && i + 4 == text.size() && j >= 2;
+                if (s[j] < 0 || (s[j] == 64 && !padding) || (j == 3 && s[2] == 64 && s[3] != 64))
+                    return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "invalid base64 data");
             }
             // decode base64 tuple
-            value.push_back( (uint8_t) (((s[0] & 0xFF) << 2 ) | ((s[1] & 0x30) >> 4)) );
+            data.push_back( (uint8_t) (((s[0] & 0xFF) << 2 ) | ((s[1] & 0x30) >> 4)) );
             if (s[2] != 64)
             {
-                value.push_back( (uint8_t) (((s[1] & 0x0F) << 4) | ((s[2] & 0x3C) >> 2)) );
+                data.push_back( (uint8_t) (((s[1] & 0x0F) << 4) | ((s[2] & 0x3C) >> 2)) );
                 if ((s[3]!=64))
-                {
-                    value.push_back( (uint8_t) (((s[2] & 0x03) << 6) | s[3]) );
-                    k+=3;
-                }
-                else
-                    k+=2;
+                    data.push_back( (uint8_t) (((s[2] & 0x03) << 6) | s[3]) );
             }
-            else
-                k+=1;
         }
+        value.swap(data);
+        ctx.tok->next();
+        return PGR_OK;
     }
     static bool empty( const std::vector<uint8_t> &value ) { return value.empty(); }
     static void clear( std::vector<uint8_t> &value ) { value.clear(); }
-- 
2.43.0


From 422fc97ccef74ad46833a9d9961f340ffc98d457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 06/53] fix: a null string member leaves the field absent

---
 source/cpp/json-string.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 7d21daa..b5c13d0 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -159,8 +159,11 @@ struct json<string_field, void>
         std::string temp;
         temp.clear();
         int result = json<std::string, void>::read(ctx, temp);
-        value.empty(result == PGR_NIL);
-        value = temp;
+        if (result == PGR_NIL)
+            value.clear();
+        else
+        if (result == PGR_OK)
+            value = temp;
         return result;
     }
     static int write( json_context &ctx, const string_field &value )
-- 
2.43.0


From 645fd3b636572d25bfa3e7984824119523cdb242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 07/53] fix: assigning an absent field leaves no stale value
 and string comparisons see values set by reference

---
 source/cpp/json-number.hh |  2 +-
 source/cpp/json-string.hh | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index b03d57e..5ae3c5d 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -20,7 +20,7 @@ template<typename T> class field
         void swap( T &that ) { std::swap(this->value_, that); empty_ = false; }
         bool empty() const { return empty_; }
         void clear() { value_ = (T) 0; empty_ = true; }
-        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; if (!empty_) this->value_ = that.value_; return *this; }
+        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; this->value_ = that.value_; return *this; }
         field<T> &operator=( const T &that ) { this->empty_ = false; this->value_ = that; return *this; }
         bool operator==( const T &that ) const { return !this->empty_ && this->value_ == that; }
         bool operator!=( const T &that ) const { return !this->empty_ && this->value_ != that; }
diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index b5c13d0..5b236b7 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -22,15 +22,15 @@ class string_field
         bool empty() const { return null_ && value_.empty(); }
         void empty(bool state) { null_ = state; if (state) value_.clear(); }
         void clear() { value_.clear(); null_ = true; }
-        string_field &operator=( const string_field &that ) { this->null_ = that.null_; if (!null_) this->value_ = that.value_; return *this; }
+        string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
-        bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const char *that ) const { return !this->null_ && this->value_ != that; }
-        bool operator==( const value_type &that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const value_type &that ) const { return !this->null_ && this->value_ != that; }
-        bool operator==( const string_field &that ) const { return this->null_ == that.null_ && this->value_ == that.value_;  }
-        bool operator!=( const string_field &that ) const { return this->null_ != that.null_ || this->value_ != that.value_;  }
+        bool operator==( const char *that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const char *that ) const { return !this->empty() && this->value_ != that; }
+        bool operator==( const value_type &that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const value_type &that ) const { return !this->empty() && this->value_ != that; }
+        bool operator==( const string_field &that ) const { return this->empty() == that.empty() && this->value_ == that.value_;  }
+        bool operator!=( const string_field &that ) const { return this->empty() != that.empty() || this->value_ != that.value_;  }
         operator value_type&() { return this->value_; }
         operator const value_type&() const { return this->value_; }
         value_type &operator *() { return this->value_; }
-- 
2.43.0


From bb016aea602b9d5fbb9e12eb09e80ee9d65f4e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 08/53] fix: escape control characters in strings and decode
 the escapes of ASCII characters

---
 source/cpp/json-string.hh | 6 +++++-
 source/cpp/protogen.hh    | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 5b236b7..f018138 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -76,7 +76,11 @@ struct json<std::string, void>
                     case '\r': (*ctx.os) <<  "\\r"; break;
                     case '\n': (*ctx.os) <<  "\\n"; break;
                     case '\t': (*ctx.os) <<  "\\t"; break;
-                    default:   (*ctx.os) << (char) byte1;
+                    default:
+                        if (byte1 < 0x20)
+                            write_escaped_utf8(ctx.os, byte1);
+                        else
+                            (*ctx.os) << (char) byte1;
                 }
                 i++;
             }
diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index c507f06..d705a11 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -489,6 +489,10 @@ class tokenizer
                 value += (char) (0x80 | (codepoint & 0x3F));
             }
             else
+            // 1-byte UTF-8 = 0xxxxxxx
+            if (codepoint <= 0x7F)
+                value += (char) codepoint;
+            else
             // 2-byte UTF-8 = 110xxxxx 10xxxxxx
             if (codepoint >= 0x80 && codepoint <= 0x7FF)
             {
-- 
2.43.0


From c0794c74cba2f2469b18203ac013a8f84205fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:24 +0000
Subject: [PATCH 09/53] fix: reject unpaired surrogate escapes instead of
 dropping them

---
 source/cpp/protogen.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index d705a11..9787182 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -414,6 +414,9 @@ class tokenizer
             {
                 input_.next();
                 int c = input_.peek();
+                // a lead surrogate must be followed by the escape of a trail surrogate
+                if (lead != 0 && c != '\\')
+                    goto ESCAPE;
                 if (c == '"')
                 {
                     input_.next();
@@ -423,6 +426,8 @@ class tokenizer
                 {
                     input_.next();
                     c = input_.peek();
+                    if (lead != 0 && c != 'u')
+                        goto ESCAPE;
                     switch (c)
                     {
                         case '"':  value += '"'; break;
@@ -465,6 +470,10 @@ class tokenizer
             }
             int32_t codepoint = (int32_t) strtol(temp, nullptr, 16);
 
+            // lead surrogates can be followed only by trail surrogates
+            if (lead != 0 && (codepoint < 0xDC00 || codepoint > 0xDFFF))
+                return false;
+
             // first value in UTF-16 surrogate pair
             if (codepoint >= 0xD800 && codepoint <= 0xDBFF)
             {
-- 
2.43.0


From 4b4d2dcd465b8637944f77f13c16cde294c6ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 10/53] fix: string tokens carry their position so that errors
 at strings are located

---
 source/cpp/protogen.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 9787182..d996089 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -420,7 +420,7 @@ class tokenizer
                 if (c == '"')
                 {
                     input_.next();
-                    return token(token_id::STRING, value);
+                    return token(token_id::STRING, value, line, column);
                 }
                 if (c == '\\')
                 {
-- 
2.43.0


From 619f012ccab46e2a6f3e2fd90990690631e69d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 11/53] fix: line breaks separate tokens and control characters
 are not part of strings

---
 source/cpp/protogen.hh | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index d996089..7b8092f 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -164,7 +164,6 @@ class iterator_istream : public istream
         iterator_istream( const I& first, const I& last ) : beg_(first), end_(last), line_(1),
             column_(1)
         {
-            skip();
         }
         int peek() override
         {
@@ -174,9 +173,14 @@ class iterator_istream : public istream
         void next() override
         {
             if (beg_ == end_) return;
+            if (*beg_ == '\n')
+            {
+                ++line_;
+                column_ = 1;
+            }
+            else
+                ++column_;
             ++beg_;
-            ++column_;
-            skip();
         }
         bool eof() const override { return beg_ == end_; }
         int line() const override { return line_; }
@@ -184,15 +188,6 @@ class iterator_istream : public istream
     protected:
         I beg_, end_;
         int line_, column_;
-        void skip()
-        {
-            while (!(beg_ == end_) && *beg_ == '\n')
-            {
-                ++line_;
-                column_ = 1;
-                ++beg_;
-            }
-        }
 };
 
 template<class T>
@@ -447,7 +442,8 @@ class tokenizer
                 }
                 else
                 {
-                    if (c == 0)
+                    // control characters must be escaped
+                    if (c >= 0 && c < 0x20)
                         goto ESCAPE;
                     value += (char) c;
                 }
-- 
2.43.0


From 115ba4a25c94159447981977cf9f4d469cd162ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 12/53] fix: reject malformed numbers

---
 source/cpp/protogen.hh | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 7b8092f..cfe567a 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -531,7 +531,31 @@ class tokenizer
             return true;
         }
 
-        token parse_number() // TODO ensure number syntax according to RFC-4627 section 2.4
+        static bool valid_number( const std::string &value )
+        {
+            // number syntax according to RFC-8259 section 6
+            const char *ptr = value.c_str();
+            if (*ptr == '-') ++ptr;
+            if (*ptr < '0' || *ptr > '9') return false;
+            if (*ptr == '0' && ptr[1] >= '0' && ptr[1] <= '9') return false;
+            while (*ptr >= '0' && *ptr <= '9') ++ptr;
+            if (*ptr == '.')
+            {
+                ++ptr;
+                if (*ptr < '0' || *ptr > '9') return false;
+                while (*ptr >= '0' && *ptr <= '9') ++ptr;
+            }
+            if (*ptr == 'e' || *ptr == 'E')
+            {
+                ++ptr;
+                if (*ptr == '+' || *ptr == '-') ++ptr;
+                if (*ptr < '0' || *ptr > '9') return false;
+                while (*ptr >= '0' && *ptr <= '9') ++ptr;
+            }
+            return *ptr == 0;
+        }
+
+        token parse_number()
         {
             std::string value;
             int line = input_.line();
@@ -547,6 +571,8 @@ class tokenizer
                 else
                     break;
             }
+            if (!valid_number(value))
+                return token(token_id::NONE, "", line, column);
             return token(token_id::NUMBER, value, line, column);
         }
 
-- 
2.43.0


From be32258e8fa7d34f01c125b935757ce58bbba2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 13/53] fix: skip unknown values without recursion and reject
 trailing commas in them

---
 source/cpp/protogen.hh | 102 ++++++++++++++++++++---------------------
 1 file changed, 51 insertions(+), 51 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index cfe567a..cd32d5f 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -576,66 +576,66 @@ class tokenizer
             return token(token_id::NUMBER, value, line, column);
         }
 
-        int ignore_array()
+        int ignore_name()
         {
-            if (!expect(token_id::ARRS))
-                return error(error_code::PGERR_IGNORE_FAILED, "invalid array");
-
-            while (peek().id != token_id::ARRE)
-            {
-                int result = ignore_value();
-                if (result != PGERR_OK) return result;
-                if (!expect(token_id::COMMA)) break;
-            }
-            if (!expect(token_id::ARRE))
-                return error(error_code::PGERR_IGNORE_FAILED, "invalid array");
-            return PGR_OK;
-        }
-
-        int ignore_object()
-        {
-            if (!expect(token_id::OBJS))
-                return error(error_code::PGERR_IGNORE_FAILED, "invalid object");
-
-            while (peek().id != token_id::OBJE)
-            {
-                if (!expect(token_id::STRING))
-                    return error(error_code::PGERR_IGNORE_FAILED, "expected field name");
-                if (!expect(token_id::COLON))
-                    return error(error_code::PGERR_IGNORE_FAILED, "expected colon");
-                int result = ignore_value();
-                if (result != PGERR_OK) return result;
-                if (!expect(token_id::COMMA)) break;
-            }
-            if (!expect(token_id::OBJE))
-                return error(error_code::PGERR_IGNORE_FAILED, "invalid object");
+            if (!expect(token_id::STRING))
+                return error(error_code::PGERR_IGNORE_FAILED, "expected field name");
+            if (!expect(token_id::COLON))
+                return error(error_code::PGERR_IGNORE_FAILED, "expected colon");
             return PGR_OK;
         }
 
         int ignore_value()
         {
-            switch (peek().id)
+            // tokens that close the current containers (there is no limit for nesting, so recursion
+            // is not an option)
+            std::vector<token_id> closing;
+            while (true)
             {
-                case token_id::NONE:
-                case token_id::EOS:
-                    return error(error_code::PGERR_IGNORE_FAILED, "end of stream");
-                case token_id::OBJS:
-                    return ignore_object();
-                case token_id::ARRS:
-                    return ignore_array();
-                case token_id::STRING:
-                case token_id::NUMBER:
-                case token_id::NIL:
-                case token_id::BTRUE:
-                case token_id::BFALSE:
+                switch (peek().id)
                 {
-                    auto tt = next();
-                    if (tt.id == token_id::NONE || tt.id == token_id::EOS)
-                        return error(PGERR_IGNORE_FAILED, "end of stream");
-                    return PGERR_OK;
+                    case token_id::NONE:
+                    case token_id::EOS:
+                        return error(error_code::PGERR_IGNORE_FAILED, "end of stream");
+                    case token_id::OBJS:
+                        if (next().id == token_id::OBJE)
+                        {
+                            next();
+                            break;
+                        }
+                        closing.push_back(token_id::OBJE);
+                        if (ignore_name() != PGR_OK) return PGR_ERROR;
+                        continue;
+                    case token_id::ARRS:
+                        if (next().id == token_id::ARRE)
+                        {
+                            next();
+                            break;
+                        }
+                        closing.push_back(token_id::ARRE);
+                        continue;
+                    case token_id::STRING:
+                    case token_id::NUMBER:
+                    case token_id::NIL:
+                    case token_id::BTRUE:
+                    case token_id::BFALSE:
+                    {
+                        auto tt = next();
+                        if (tt.id == token_id::NONE || tt.id == token_id::EOS)
+                            return error(PGERR_IGNORE_FAILED, "end of stream");
+                        break;
+                    }
+                    default:
+                        return error(error_code::PGERR_IGNORE_FAILED, "invalid value");
                 }
-                default:
-                    return error(error_code::PGERR_IGNORE_FAILED, "invalid value");
+                // leave the containers that end here
+                while (!closing.empty() && expect(closing.back()))
+                    closing.pop_back();
+                if (closing.empty()) return PGR_OK;
+                bool is_object = closing.back() == token_id::OBJE;
+                if (!expect(token_id::COMMA))
+                    return error(error_code::PGERR_IGNORE_FAILED, is_object ? "invalid object" : "invalid array");
+                if (is_object && ignore_name() != PGR_OK) return PGR_ERROR;
             }
         }
 };
-- 
2.43.0


From 2a30d05b3425a4fec70b4a659c951263d4e65677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 14/53] fix: report an error when the whole document is null

---
 source/cpp/json-array.hh | 2 ++
 source/cpp/json.hh       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index a15479c..6488852 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -93,6 +93,8 @@ bool deserialize_array( T& container, protogen_X_Y_Z::istream& in, protogen_X_Y_
     ctx.tok = &tok;
     int result = json<T>::read(ctx, container);
     if (result == protogen_X_Y_Z::PGR_OK) return true;
+    if (result == protogen_X_Y_Z::PGR_NIL)
+        tok.error(error_code::PGERR_INVALID_ARRAY, "invalid array");
     if (params != nullptr) params->error = std::move(ctx.params.error);
     return false;
 }
diff --git a/source/cpp/json.hh b/source/cpp/json.hh
index 194155e..90f86dd 100644
--- a/source/cpp/json.hh
+++ b/source/cpp/json.hh
@@ -82,6 +82,8 @@ static int read_object( json_context &ctx, T &object )
             ctx.tok = &tok; \
             int result = S::read(ctx, *this); \
             if (result == protogen_X_Y_Z::PGR_OK) return true; \
+            if (result == protogen_X_Y_Z::PGR_NIL) \
+                tok.error(protogen_X_Y_Z::error_code::PGERR_INVALID_OBJECT, "objects must start with '{'"); \
             if (params != nullptr) params->error = std::move(ctx.params.error); \
             return false; \
         } \
-- 
2.43.0


From ca078b1c5108c911f1de96c197619ed007d5ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 15/53] fix: read back the absent elements of repeated fields

---
 source/cpp/json-array.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 6488852..342f463 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -44,9 +44,15 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
         {
             while (true)
             {
-                typename T::value_type temp;
+                typename T::value_type temp = typename T::value_type();
                 int result = json<typename T::value_type>::read(ctx, temp);
                 if (result == PGR_ERROR) return result;
+                // absent elements (there is no absent arithmetic value)
+                if (result == PGR_NIL && !std::is_arithmetic<typename T::value_type>::value)
+                {
+                    ctx.tok->next();
+                    result = PGR_OK;
+                }
                 if (result == PGR_OK) value.push_back(temp);
 
                 if (!ctx.tok->expect(token_id::COMMA))
-- 
2.43.0


From b8b189a804db01d1f2ecdb4300a3aa55f27b61d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 16/53] fix: propagate serialisation errors to the caller

---
 source/cpp/code.txt      | 2 +-
 source/cpp/json-array.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index ec525ea..dd92e98 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -102,7 +102,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__WRITE__ITEM
-        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; json<decltype(value.$1$)>::write(ctx, value.$1$); f=false; }
+        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; if (json<decltype(value.$1$)>::write(ctx, value.$1$) != PGR_OK) return PGR_ERROR; f=false; }
 ------
 
 --- CODE_JSON__WRITE__FOOTER
diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 342f463..23c8ea3 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -71,7 +71,7 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
         size_t i = 0, t = value.size();
         for (auto it = value.begin(); it != value.end(); ++it, ++i)
         {
-            json<typename T::value_type>::write(ctx, *it);
+            if (json<typename T::value_type>::write(ctx, *it) != PGR_OK) return PGR_ERROR;
             if (i + 1 < t) (*ctx.os) <<  ',';
         }
         (*ctx.os) <<  ']';
-- 
2.43.0


From e1c6c12a6d9cd5233b3afae7d013dffc472c5d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 17/53] fix: write floating-point numbers with enough digits to
 preserve their value

---
 source/cpp/json-number.hh | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 5ae3c5d..2333bc3 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -75,17 +75,27 @@ T string_to_number( const std::string &text )
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
 std::string number_to_string( const T &value )
 {
-    char tmp[320] = {0};
+    char tmp[64] = {0};
 #if defined(_WIN32) || defined(_WIN64)
     static _locale_t loc = _create_locale(LC_NUMERIC, "C");
     if (loc == nullptr) return "0";
-    _snprintf_l(tmp, sizeof(tmp) - 1, "%f", loc, value);
+    // use the smallest number of digits that preserves the value
+    for (int digits = std::numeric_limits<T>::digits10; digits <= std::numeric_limits<T>::max_digits10; ++digits)
+    {
+        _snprintf_l(tmp, sizeof(tmp) - 1, "%.*g", loc, digits, value);
+        if (string_to_number<T>(tmp) == value) break;
+    }
 #else
     static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
     if (loc == 0) return "0";
     locale_t old = uselocale(loc);
     if (old == 0) return "0";
-    snprintf(tmp, sizeof(tmp) - 1, "%f", value);
+    // use the smallest number of digits that preserves the value
+    for (int digits = std::numeric_limits<T>::digits10; digits <= std::numeric_limits<T>::max_digits10; ++digits)
+    {
+        snprintf(tmp, sizeof(tmp) - 1, "%.*g", digits, value);
+        if (string_to_number<T>(tmp) == value) break;
+    }
     uselocale(old);
 #endif
     tmp[sizeof(tmp) - 1] = 0;
-- 
2.43.0


From 5d3600189fd0fc89e2b7b30b698efe12df6aabff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 18/53] fix: refuse to serialise numbers that JSON can not
 represent

---
 source/cpp/json-number.hh | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 2333bc3..d90cec4 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -108,6 +108,18 @@ std::string number_to_string( const T &value )
     return std::to_string(value);
 }
 
+template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
+bool is_finite_number( const T &value )
+{
+    return std::isfinite(value);
+}
+
+template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
+bool is_finite_number( const T & )
+{
+    return true;
+}
+
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
 int equal_number( const T &value1, const T &value2 )
 {
@@ -164,6 +176,8 @@ struct json<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
     }
     static int write( json_context &ctx, const T &value )
     {
+        if (!is_finite_number(value))
+            return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "number has no JSON representation");
         (*ctx.os) << number_to_string(value);
         return PGR_OK;
     }
-- 
2.43.0


From 864177e39376515b994c8061f3aba9e0c4850bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 19/53] fix: reject numbers that the field type can not hold
 exactly

---
 source/cpp/json-number.hh | 71 ++++++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index d90cec4..67d1e0b 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -52,24 +52,64 @@ static T string_to_number( const std::string &text )
     return static_cast<T>(value);
 }
 
-template<typename T, typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value, int>::type = 0>
-T string_to_number( const std::string &text )
+template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
+static bool parse_number( const std::string &text, T &value )
 {
-#if defined(_WIN32) || defined(_WIN64)
-    return static_cast<T>( _strtoi64(text.c_str(), nullptr, 10) );
-#else
-    return static_cast<T>( strtol(text.c_str(), nullptr, 10) );
-#endif
+    value = string_to_number<T>(text);
+    return std::isfinite(value);
 }
 
-template<typename T, typename std::enable_if<std::is_integral<T>::value && !std::is_signed<T>::value, int>::type = 0>
-T string_to_number( const std::string &text )
+// Converts a JSON number to integer if (and only if) the type can hold it exactly.
+template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
+static bool parse_number( const std::string &text, T &value )
 {
-#if defined(_WIN32) || defined(_WIN64)
-    return static_cast<T>( _strtoui64(text.c_str(), nullptr, 10) );
-#else
-    return static_cast<T>( strtoul(text.c_str(), nullptr, 10) );
-#endif
+    // split the number in significant digits and exponent
+    bool negative = false;
+    std::string digits;
+    long long exponent = 0;
+    size_t i = 0;
+    if (text[i] == '-')
+    {
+        negative = true;
+        ++i;
+    }
+    for (bool fraction = false; i < text.size() && text[i] != 'e' && text[i] != 'E'; ++i)
+    {
+        if (text[i] == '.')
+        {
+            fraction = true;
+            continue;
+        }
+        if (fraction) --exponent;
+        if (text[i] != '0' || !digits.empty()) digits += text[i];
+    }
+    if (i < text.size())
+    {
+        long long temp = strtoll(text.c_str() + i + 1, nullptr, 10);
+        exponent += (std::max)(-1000000000LL, (std::min)(temp, 1000000000LL));
+    }
+    value = (T) 0;
+    if (digits.empty()) return true;
+    while (digits.back() == '0')
+    {
+        digits.pop_back();
+        ++exponent;
+    }
+    // neither fractions nor numbers with more than 20 digits (i.e. 2^64 or greater)
+    if (exponent < 0 || exponent > 20 || digits.size() + (size_t) exponent > 20) return false;
+    digits.append((size_t) exponent, '0');
+
+    uint64_t limit = (uint64_t) (std::numeric_limits<T>::max)();
+    if (negative) limit = (std::is_signed<T>::value) ? limit + 1 : 0;
+    uint64_t result = 0;
+    for (auto c : digits)
+    {
+        uint64_t digit = (uint64_t) (c - '0');
+        if (result > (limit - digit) / 10 || digit > limit) return false;
+        result = result * 10 + digit;
+    }
+    value = (negative) ? (T) (0 - result) : (T) result;
+    return true;
 }
 
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
@@ -170,7 +210,8 @@ struct json<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
         if (tt.id == token_id::NIL) return PGR_NIL;
         if (tt.id != token_id::NUMBER)
             return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "invalid numeric value");
-        value = string_to_number<T>(tt.value);
+        if (!parse_number(tt.value, value))
+            return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "number out of range");
         ctx.tok->next();
         return PGR_OK;
     }
-- 
2.43.0


From e986d35788a2c25e63d893f503249d27214f5910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 20/53] fix: ensure_ascii rejects overlong sequences,
 surrogates and values beyond Unicode

---
 source/cpp/json-string.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index f018138..2ab9ec3 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -100,7 +100,7 @@ struct json<std::string, void>
                     return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
 
                 uint8_t byte2 = value[i + 1];
-                if (byte1 >= 0xC0 && byte1 <= 0xDF && (byte2 & 0xC0) == 0x80)
+                if (byte1 >= 0xC2 && byte1 <= 0xDF && (byte2 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x1F) << 6) | (byte2 & 0x3F);
                     write_escaped_utf8(ctx.os, codepoint);
@@ -117,6 +117,8 @@ struct json<std::string, void>
                 if (byte1 >= 0xE0 && byte1 <= 0xEF && i + 2 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x0F) << 12) | ((byte2 & 0x3F) << 6) | (byte3 & 0x3F);
+                    if (codepoint < 0x800 || (codepoint >= 0xD800 && codepoint <= 0xDFFF))
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
                     write_escaped_utf8(ctx.os, codepoint);
                     i += 3;
                     continue;
@@ -131,6 +133,8 @@ struct json<std::string, void>
                 if (byte1 >= 0xF0 && byte1 <= 0xF4 && i + 3 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80 && (byte4 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x07) << 18) | ((byte2 & 0x3F) << 12) | ((byte3 & 0x3F) << 6) | (byte4 & 0x3F);
+                    if (codepoint < 0x10000 || codepoint > 0x10FFFF)
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
 
                     // break the codepoint into UTF-16 surrogate pair
                     static const uint32_t LEAD_OFFSET = 0xD800 - (0x10000 >> 10);
-- 
2.43.0


From ed439e5df94caf6c7514f018d5f106b19f0696d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 21/53] fix: report output that does not fit the buffer or that
 the stream refuses

---
 source/cpp/protogen.hh | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index cd32d5f..7c29c92 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -141,6 +141,7 @@ class iterator_ostream : public ostream
             return *this;
         }
         ostream & operator<<( char *value ) override { return *this << (const char*) value; }
+        const I &position() const { return beg_; }
 
     protected:
         I beg_;
@@ -223,14 +224,19 @@ class mem_iterator
 {
     static_assert(std::is_arithmetic<T>::value, "invalid template parameters");
     public:
-        mem_iterator( T *begin, size_t count ) : cursor(begin), end(begin + count), empty(0)
+        mem_iterator( T *begin, size_t count ) : cursor(begin), end(begin + count), empty(0), overflow_(false)
         {
         }
         mem_iterator &operator++()
         {
-            if (cursor < end) cursor++;
+            if (cursor < end)
+                cursor++;
+            else
+                overflow_ = true;
             return *this;
         }
+        // whether there was an attempt to go beyond the end
+        bool overflow() const { return overflow_; }
         T &operator*()
         {
             if (cursor >= end) return empty;
@@ -244,6 +250,7 @@ class mem_iterator
         T *cursor;
         const T *end;
         T empty;
+        bool overflow_;
 };
 
 namespace internal {
@@ -717,14 +724,22 @@ struct message
         typedef std::ostream_iterator<char> ittype;
         ittype begin(out);
         iterator_ostream<ittype> os(begin);
-        return serialize(os, params);
+        if (!serialize(os, params)) return false;
+        if (!out.fail()) return true;
+        if (params != nullptr)
+            params->error = ErrorInfo(error_code::PGERR_INVALID_VALUE, "unable to write to the stream", 0, 0);
+        return false;
     }
 
     virtual bool serialize( char *in, size_t len, Parameters *params = nullptr )
     {
         auto begin = mem_iterator<char>(in, len);
         iterator_ostream<mem_iterator<char>> os(begin);
-        return serialize(os, params);
+        if (!serialize(os, params)) return false;
+        if (!os.position().overflow()) return true;
+        if (params != nullptr)
+            params->error = ErrorInfo(error_code::PGERR_INVALID_VALUE, "the buffer is too small", 0, 0);
+        return false;
     }
 
     virtual bool serialize( std::vector<char> &out, Parameters *params = nullptr ) const
-- 
2.43.0


From 93ca68a2edfccee1669cdc5810697056c02d4e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 22/53] fix: obfuscated names may contain NUL characters

---
 source/cpp/code.txt  | 2 +-
 source/cpp/cppgen.cc | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index dd92e98..0180c06 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -230,7 +230,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__INDEX__ITEM
-            {"$1$", $2$},
+            {$1$, $2$},
 ------
 
 --- CODE_JSON__INDEX__FOOTER
diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 9e002a2..fa34e2f 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -306,7 +306,7 @@ static void generate_function__write( GeneratorContext &ctx, const Message &mess
 
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
         if (ctx.obfuscate_strings)
-            label = Printer::format("reveal(\"$1$\")", obfuscate(label));
+            label = Printer::format("reveal(std::string(\"$1$\", $2$))", obfuscate(label), label.length());
         else
             label = Printer::format("\"$1$\"", label);
 
@@ -419,7 +419,9 @@ static void generate_function__index( GeneratorContext &ctx, const Message &mess
 
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
         if (ctx.obfuscate_strings)
-            label = obfuscate(label);
+            label = Printer::format("std::string(\"$1$\", $2$)", obfuscate(label), label.length());
+        else
+            label = Printer::format("\"$1$\"", label);
         ctx.printer(CODE_JSON__INDEX__ITEM, label, i);
         ++i;
     }
-- 
2.43.0


From f33fbcaad39a9cc265c6b87d0ad8651b52b583e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 23/53] fix: escape custom JSON names in the generated code and
 in the JSON text

---
 source/cpp/cppgen.cc | 85 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 82 insertions(+), 3 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index fa34e2f..a55221a 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -227,6 +227,83 @@ static inline std::string obfuscate( const std::string &value )
 	return result.str();
 }
 
+// Escapes a text to be used in a C++ string literal.
+static std::string cpp_escape( const std::string &value )
+{
+    std::string result;
+    char temp[5];
+    for (auto c : value)
+    {
+        uint8_t byte = (uint8_t) c;
+        if (byte >= 0x20 && byte < 0x7F && c != '"' && c != '\\' && c != '?')
+            result += c;
+        else
+        {
+            // octal sequences have at most three digits, so they can be followed by anything
+            SNPRINTF(temp, sizeof(temp), "\\%03o", byte);
+            result += temp;
+        }
+    }
+    return result;
+}
+
+// Escapes a text (valid UTF-8) to be used in a JSON string. The result has only printable ASCII characters.
+static std::string json_escape( const std::string &value )
+{
+    std::string result;
+    char temp[13];
+    for (size_t i = 0; i < value.length();)
+    {
+        uint32_t byte = (uint8_t) value[i];
+        if (byte < 0x80)
+        {
+            ++i;
+            if (byte == '"' || byte == '\\')
+                result += '\\';
+            if (byte >= 0x20 && byte < 0x7F)
+            {
+                result += (char) byte;
+                continue;
+            }
+            SNPRINTF(temp, sizeof(temp), "\\u%04x", byte);
+        }
+        else
+        {
+            int count = (byte >= 0xF0) ? 3 : (byte >= 0xE0) ? 2 : 1;
+            uint32_t codepoint = byte & (0x3FU >> count);
+            for (++i; count > 0 && i < value.length(); --count, ++i)
+                codepoint = (codepoint << 6) | ((uint8_t) value[i] & 0x3F);
+            if (codepoint < 0x10000)
+                SNPRINTF(temp, sizeof(temp), "\\u%04x", codepoint);
+            else
+                SNPRINTF(temp, sizeof(temp), "\\u%04x\\u%04x", 0xD7C0 + (codepoint >> 10), 0xDC00 + (codepoint & 0x3FF));
+        }
+        result += temp;
+    }
+    return result;
+}
+
+static bool is_utf8( const std::string &value )
+{
+    static const uint32_t SMALLEST[] = { 0, 0x80, 0x800, 0x10000 };
+    for (size_t i = 0; i < value.length();)
+    {
+        uint32_t byte = (uint8_t) value[i++];
+        if (byte < 0x80) continue;
+        if (byte < 0xC0 || byte > 0xF7) return false;
+        int count = (byte >= 0xF0) ? 3 : (byte >= 0xE0) ? 2 : 1;
+        uint32_t codepoint = byte & (0x3FU >> count);
+        for (int j = 0; j < count; ++j, ++i)
+        {
+            if (i >= value.length() || ((uint8_t) value[i] & 0xC0) != 0x80) return false;
+            codepoint = (codepoint << 6) | ((uint8_t) value[i] & 0x3F);
+        }
+        if (codepoint < SMALLEST[count] || codepoint > 0x10FFFF || (codepoint >= 0xD800 && codepoint <= 0xDFFF))
+            return false;
+    }
+    return true;
+}
+
 static std::string get_option( const protogen::OptionMap &options, const std::string &name, const std::string &value )
 {
     if (options.count(name) == 0)
@@ -260,6 +337,8 @@ static std::string get_json_name( const Field &field )
     for (auto c : name)
         if (c == '\'' || c == '"')
             throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain quotes", 1, 1);
+    if (!is_utf8(name))
+        throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must be valid UTF-8", 1, 1);
     return name;
 }
 
@@ -304,11 +383,11 @@ static void generate_function__write( GeneratorContext &ctx, const Message &mess
             continue;
         auto name = get_json_name(field);
 
-        std::string label = ctx.number_names ? std::to_string(field.index) : name;
+        std::string label = ctx.number_names ? std::to_string(field.index) : json_escape(name);
         if (ctx.obfuscate_strings)
             label = Printer::format("reveal(std::string(\"$1$\", $2$))", obfuscate(label), label.length());
         else
-            label = Printer::format("\"$1$\"", label);
+            label = Printer::format("\"$1$\"", cpp_escape(label));
 
         ctx.printer(CODE_JSON__WRITE__ITEM, field.name, label);
         ++i;
@@ -421,7 +500,7 @@ static void generate_function__index( GeneratorContext &ctx, const Message &mess
         if (ctx.obfuscate_strings)
             label = Printer::format("std::string(\"$1$\", $2$)", obfuscate(label), label.length());
         else
-            label = Printer::format("\"$1$\"", label);
+            label = Printer::format("std::string(\"$1$\", $2$)", cpp_escape(label), label.length());
         ctx.printer(CODE_JSON__INDEX__ITEM, label, i);
         ++i;
     }
-- 
2.43.0


From 93ff5eeb9eb96813426e909e8063d7e2296c7715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 24/53] fix: a line comment may end with the file

---
 source/proto3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 384b833..dad1499 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -382,7 +382,7 @@ template <typename I> class Tokenizer
 
             if (cur == '/')
             {
-                while ((cur = is.get()) != '\n') temp.value += (char) cur;
+                while ((cur = is.get()) != '\n' && cur >= 0) temp.value += (char) cur;
                 return temp;
             }
             else
-- 
2.43.0


From 9f953eba7a5c095252690e7e7bc707cf8fc0e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 25/53] fix: reject unterminated strings, comments and messages
 and stray slashes

---
 source/proto3.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index dad1499..cea07f3 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -327,7 +327,7 @@ template <typename I> class Tokenizer
                 else
                 if (cur == '/')
                 {
-                    comment(); //discarding
+                    comment(line, column); //discarding
                     continue;
                 }
                 else
@@ -375,7 +375,7 @@ template <typename I> class Tokenizer
     private:
         InputStream<I> &is;
 
-        Token comment()
+        Token comment( int line, int column )
         {
             Token temp(TOKEN_COMMENT, "");
             int cur = is.get();
@@ -392,12 +392,12 @@ template <typename I> class Tokenizer
                 {
                     cur = is.get();
                     if (cur == '*' && is.expect('/')) return temp;
-                    if (cur < 0) return Token();
+                    if (cur < 0) throw exception("Unterminated comment", line, column);
                     temp.value += (char) cur;
                 }
             }
 
-            return Token();
+            throw exception("Invalid symbol", line, column);
         }
 
         Token qname( int line = 1, int column = 1 )
@@ -473,7 +473,7 @@ template <typename I> class Tokenizer
             do
             {
                 int cur = is.get();
-                if (cur == '\n' || cur == 0) return Token();
+                if (cur == '\n' || cur <= 0) throw exception("Unterminated string", line, column);
                 if (cur == '"') return tt;
                 tt.value += (char) cur;
             } while (true);
@@ -709,6 +709,8 @@ static void parseMessage( ProtoContext &ctx )
                 else
                     parseField(ctx, *message);
             }
+            if (ctx.tokens.current.code != TOKEN_END)
+                throw exception("Unterminated message", CURRENT_TOKEN_POSITION);
             ctx.tree.messages.push_back(message);
             return;
         }
-- 
2.43.0


From 7b6bc48101f5e26d9f69b4618dd0007e181e36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 26/53] fix: accept exactly the field numbers that proto3
 allows

---
 source/proto3.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index cea07f3..99422dc 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -659,10 +659,11 @@ static void parseField( ProtoContext &ctx, Message &message )
     // index
     if (ctx.tokens.next().code != TOKEN_INTEGER)
         throw exception("Missing field index", TOKEN_POSITION(ctx.tokens.current));
-    field.index = (int) strtol(ctx.tokens.current.value.c_str(), nullptr, 10);
+    long index = strtol(ctx.tokens.current.value.c_str(), nullptr, 10);
     // https://protobuf.dev/programming-guides/proto3/#assigning
-    if (field.index <= 0 || field.index >= 0x1FFFFFFF || field.index == 0x4E1F || field.index == 0x4A38)
+    if (index <= 0 || index > 0x1FFFFFFF || (index >= 0x4A38 && index <= 0x4E1F))
         throw exception("Invalid field index", TOKEN_POSITION(ctx.tokens.current));
+    field.index = (int) index;
 
     ctx.tokens.next();
 
-- 
2.43.0


From fa20a3d9eda98c35846cb039c0bbe15e78e28659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 27/53] fix: reject names that are C++ keywords

---
 source/proto3.cc | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/source/proto3.cc b/source/proto3.cc
index 99422dc..14a861c 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -17,6 +17,7 @@
 #include <protogen/proto3.hh>
 #include <iterator>
 #include <sstream>
+#include <unordered_set>
 
 
 #define IS_LETTER(x)           ( ((x) >= 'A' && (x) <= 'Z') || ((x) >= 'a' && (x) <= 'z') || (x) == '_' )
@@ -519,6 +520,25 @@ std::string Message::qualifiedName() const
 }
 
 
+// Throws if the generated code can not use the given name.
+static void checkName( const std::string &name, const Token &token )
+{
+    static const std::unordered_set<std::string> KEYWORDS =
+    {
+        "alignas", "alignof", "and", "and_eq", "asm", "auto", "bitand", "bitor", "bool", "break", "case", "catch",
+        "char", "char16_t", "char32_t", "class", "compl", "const", "constexpr", "const_cast", "continue", "decltype",
+        "default", "delete", "do", "double", "dynamic_cast", "else", "enum", "explicit", "export", "extern", "false",
+        "float", "for", "friend", "goto", "if", "inline", "int", "long", "mutable", "namespace", "new", "noexcept",
+        "not", "not_eq", "nullptr", "operator", "or", "or_eq", "private", "protected", "public", "register",
+        "reinterpret_cast", "return", "short", "signed", "sizeof", "static", "static_assert", "static_cast", "struct",
+        "switch", "template", "this", "thread_local", "throw", "true", "try", "typedef", "typeid", "typename", "union",
+        "unsigned", "using", "virtual", "void", "volatile", "wchar_t", "while", "xor", "xor_eq"
+    };
+    if (KEYWORDS.count(name) > 0)
+        throw exception("'" + name + "' is a C++ keyword", TOKEN_POSITION(token));
+}
+
+
 static OptionEntry parseOption( ProtoContext &ctx )
 {
     // the token 'option' is already consumed at this point
@@ -653,6 +673,7 @@ static void parseField( ProtoContext &ctx, Message &message )
     if (code != TOKEN_NAME && code != TOKEN_MESSAGE && code != TOKEN_PACKAGE)
         throw exception("Missing field name", TOKEN_POSITION(ctx.tokens.current));
     field.name = ctx.tokens.current.value;
+    checkName(field.name, ctx.tokens.current);
     // equal symbol
     if (ctx.tokens.next().code != TOKEN_EQUAL)
         throw exception("Expected '='", TOKEN_POSITION(ctx.tokens.current));
@@ -698,6 +719,7 @@ static void parseMessage( ProtoContext &ctx )
             auto message = std::make_shared<Message>();
             message->package = ctx.package;
             message->name = ctx.tokens.current.value;
+            checkName(message->name, ctx.tokens.current);
             if (ctx.tokens.next().code != TOKEN_BEGIN)
                 throw exception("Missing message body", CURRENT_TOKEN_POSITION);
 
@@ -724,7 +746,12 @@ static void parsePackage( ProtoContext &ctx )
 {
     Token tt = ctx.tokens.next();
     if ((tt.code == TOKEN_NAME || tt.code == TOKEN_QNAME) && ctx.tokens.next().code == TOKEN_SCOLON)
+    {
+        std::stringstream parts(tt.value);
+        for (std::string part; std::getline(parts, part, '.');)
+            checkName(part, tt);
         ctx.package = tt.value;
+    }
     else
         throw exception("Invalid package", CURRENT_TOKEN_POSITION);
 }
-- 
2.43.0


From 0b0aedd8638084683a268d0b6c2c77e920c26bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:30 +0000
Subject: [PATCH 28/53] fix: reject repeated names of fields and messages

---
 source/proto3.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 14a861c..0d4cb32 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -701,8 +701,11 @@ static void parseField( ProtoContext &ctx, Message &message )
     if (ctx.tokens.current.code != TOKEN_SCOLON)
         throw exception("Expected ';'", TOKEN_POSITION(ctx.tokens.current));
 
-    // check for repeated field indices
+    // check for repeated field names and indices
     for (auto it = message.fields.begin(); it != message.fields.end(); it++)
+        if (it->name == field.name)
+            throw exception("Message has more than one field named '" + field.name + "'", CURRENT_TOKEN_POSITION);
+        else
         if (it->index == field.index)
             throw exception("Field '" + it->name + "' has the same index as '" + field.name + "'", CURRENT_TOKEN_POSITION);
 
@@ -720,6 +723,8 @@ static void parseMessage( ProtoContext &ctx )
             message->package = ctx.package;
             message->name = ctx.tokens.current.value;
             checkName(message->name, ctx.tokens.current);
+            if (findMessage(ctx, message->qualifiedName()) != nullptr)
+                throw exception("Message '" + message->name + "' already exists", CURRENT_TOKEN_POSITION);
             if (ctx.tokens.next().code != TOKEN_BEGIN)
                 throw exception("Missing message body", CURRENT_TOKEN_POSITION);
 
-- 
2.43.0


From 80e9bff46336801f90bdf49f2932d48af14b6848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:41 +0000
Subject: [PATCH 29/53] fix: resolve package-qualified message types and locate
 the unresolved ones

---
 include/protogen/proto3.hh |  2 ++
 source/proto3.cc           | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/protogen/proto3.hh b/include/protogen/proto3.hh
index c556b7a..d27dc54 100644
--- a/include/protogen/proto3.hh
+++ b/include/protogen/proto3.hh
@@ -55,6 +55,8 @@ struct TypeInfo
     std::shared_ptr<Message> ref;
     bool repeated = false;
     bool optional = false;
+    int line = 0;
+    int column = 0;
 };
 
 enum class OptionType
diff --git a/source/proto3.cc b/source/proto3.cc
index 0d4cb32..78a60c0 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -646,6 +646,8 @@ static void parseField( ProtoContext &ctx, Message &message )
         }
         field.type.qname += ctx.tokens.current.value;
         field.type.ref = findMessage(ctx, field.type.qname);
+        field.type.line = ctx.tokens.current.line;
+        field.type.column = ctx.tokens.current.column;
     }
 # if 0
     else
@@ -836,9 +838,18 @@ void Proto3::parse( std::istream &input, const std::string &fileName )
             if (field.type.id != TYPE_MESSAGE || field.type.ref != nullptr)
                 continue;
 
-            field.type.ref = findMessage(ctx, field.type.qname);
+            // look for the message in the current package and then in the enclosing ones
+            std::string scope = message->package;
+            std::string name = field.type.qname.substr(scope.empty() ? 0 : scope.length() + 1);
+            while (true)
+            {
+                field.type.ref = findMessage(ctx, scope.empty() ? name : scope + '.' + name);
+                if (field.type.ref != nullptr || scope.empty()) break;
+                auto pos = scope.rfind('.');
+                scope.resize(pos == std::string::npos ? 0 : pos);
+            }
             if (field.type.ref == nullptr)
-                throw exception("Unable to find message '" + field.type.qname + "'");
+                throw exception("Unable to find message '" + name + "'", field.type.line, field.type.column);
         }
     }
 }
-- 
2.43.0


From d9685e6d791933f74cc971c802726212e8305a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 30/53] fix: locate the errors that the generator finds in
 messages and fields

---
 include/protogen/proto3.hh | 4 ++++
 source/cpp/cppgen.cc       | 8 ++++----
 source/proto3.cc           | 4 ++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/protogen/proto3.hh b/include/protogen/proto3.hh
index d27dc54..d5d07f3 100644
--- a/include/protogen/proto3.hh
+++ b/include/protogen/proto3.hh
@@ -83,6 +83,8 @@ struct Field
     std::string name;
     int index = 0;
     OptionMap options;
+    int line = 0;
+    int column = 0;
 };
 
 struct Message
@@ -91,6 +93,8 @@ struct Message
     std::string name;
     std::string package;
     OptionMap options;
+    int line = 0;
+    int column = 0;
 
     std::string qualifiedName() const;
     void splitPackage( std::vector<std::string> &out );
diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index a55221a..2ee853a 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -336,9 +336,9 @@ static std::string get_json_name( const Field &field )
     auto name = get_option(field.options, PROTOGEN_O_NAME, field.name);
     for (auto c : name)
         if (c == '\'' || c == '"')
-            throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain quotes", 1, 1);
+            throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain quotes", field.line, field.column);
     if (!is_utf8(name))
-        throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must be valid UTF-8", 1, 1);
+        throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must be valid UTF-8", field.line, field.column);
     return name;
 }
 
@@ -551,7 +551,7 @@ static void generateMessage( GeneratorContext &ctx, const Message &message )
 {
     if (message.fields.size() > protogen::CppGenerator::MAX_FIELDS)
         throw protogen::exception("more than " + std::to_string(protogen::CppGenerator::MAX_FIELDS) +
-            " fields in message '" + message.name + "'");
+            " fields in message '" + message.name + "'", message.line, message.column);
 
     ctx.printer("\n//\n// $1$\n//\n", message.name);
 
@@ -594,7 +594,7 @@ static bool contains( const MessageList &items, const std::shared_ptr<protogen::
 static void sort( MessageList &output, MessageSet &pending, std::shared_ptr<protogen::Message> message )
 {
     if (pending.count(message) > 0)
-        throw exception("circular reference with '" + message->name + "'");
+        throw exception("circular reference with '" + message->name + "'", message->line, message->column);
     if (contains(output, message))
         return; // already processed
 
diff --git a/source/proto3.cc b/source/proto3.cc
index 78a60c0..4797f57 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -675,6 +675,8 @@ static void parseField( ProtoContext &ctx, Message &message )
     if (code != TOKEN_NAME && code != TOKEN_MESSAGE && code != TOKEN_PACKAGE)
         throw exception("Missing field name", TOKEN_POSITION(ctx.tokens.current));
     field.name = ctx.tokens.current.value;
+    field.line = ctx.tokens.current.line;
+    field.column = ctx.tokens.current.column;
     checkName(field.name, ctx.tokens.current);
     // equal symbol
     if (ctx.tokens.next().code != TOKEN_EQUAL)
@@ -724,6 +726,8 @@ static void parseMessage( ProtoContext &ctx )
             auto message = std::make_shared<Message>();
             message->package = ctx.package;
             message->name = ctx.tokens.current.value;
+            message->line = ctx.tokens.current.line;
+            message->column = ctx.tokens.current.column;
             checkName(message->name, ctx.tokens.current);
             if (findMessage(ctx, message->qualifiedName()) != nullptr)
                 throw exception("Message '" + message->name + "' already exists", CURRENT_TOKEN_POSITION);
-- 
2.43.0


From 5421bd018b5e084a0383ab2b281fbcd076436817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 31/53] fix: reject fields that use the same JSON name

---
 source/cpp/cppgen.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 2ee853a..82b6725 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -553,6 +553,16 @@ static void generateMessage( GeneratorContext &ctx, const Message &message )
         throw protogen::exception("more than " + std::to_string(protogen::CppGenerator::MAX_FIELDS) +
             " fields in message '" + message.name + "'", message.line, message.column);
 
+    std::unordered_set<std::string> names;
+    for (const auto &field : message.fields)
+    {
+        // the options of every field must be valid
+        bool transient = is_transient(field);
+        auto name = get_json_name(field);
+        if (!transient && !ctx.number_names && !names.insert(name).second)
+            throw protogen::exception("more than one field uses the JSON name '" + name + "'", field.line, field.column);
+    }
+
     ctx.printer("\n//\n// $1$\n//\n", message.name);
 
     // create the model structure
-- 
2.43.0


From 251e6d03127584b6370235b12bad1112a1b65bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 32/53] fix: files with different names never share the include
 guard

---
 source/cpp/cppgen.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 82b6725..9a67e71 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -576,16 +576,21 @@ static void generateMessage( GeneratorContext &ctx, const Message &message )
 
 static std::string makeGuard( const std::string &fileName )
 {
+    static const char *HEX = "0123456789ABCDEF";
     std::string out = "GUARD_";
     for (auto it = fileName.begin(); it != fileName.end(); ++it)
     {
         if ( (*it >= 'A' && *it <= 'Z') ||
              (*it >= 'a' && *it <= 'z') ||
-             (*it >= '0' && *it <= '9') ||
-             *it == '_')
+             (*it >= '0' && *it <= '9'))
             out += *it;
         else
+        {
+            // different names must have different guards
             out += '_';
+            out += HEX[((uint8_t) *it) >> 4];
+            out += HEX[((uint8_t) *it) & 0x0F];
+        }
     }
     return out;
 }
@@ -672,7 +677,10 @@ static void generateInclusions( GeneratorContext &ctx )
 static void generateModel( GeneratorContext &ctx )
 {
     std::string guard = makeGuard(ctx.root.fileName);
-    ctx.printer(CODE_HEADER, PROTOGEN_VERSION, ctx.root.fileName, guard);
+    // the file name goes in a line comment
+    std::string source = ctx.root.fileName;
+    std::replace_if(source.begin(), source.end(), [](char c) { return c == '\n' || c == '\r' || c == '\\'; }, '?');
+    ctx.printer(CODE_HEADER, PROTOGEN_VERSION, source, guard);
 
     sort(ctx);
 
-- 
2.43.0


From ccfca98f239d6656056cb661afd9b1689e65589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 33/53] fix: report failures to write the output

---
 source/main.cc | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/source/main.cc b/source/main.cc
index dbdc563..65ece86 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -17,6 +17,7 @@
 #include <protogen/proto3.hh>
 #include <protogen/protogen.hh>
 #include <fstream>
+#include <sstream>
 #include <iostream>
 #include <limits.h>
 #include <stdlib.h>
@@ -49,15 +50,7 @@ int main( int argc, char **argv )
     std::ifstream input(argv[1]);
     if (!input.good()) main_error(std::string("Unable to open '") + argv[1] + "'");
 
-    std::ostream *output = &std::cout;
-    std::ofstream out;
-    if (argc == 3)
-    {
-        out.open(argv[2], std::ios_base::ate);
-        if (!out.good()) main_error(std::string("Unable to open '") + argv[2] + "'");
-        output = &out;
-    }
-
+    std::ostringstream output;
     int result = 0;
     #ifdef _WIN32
 	char fullPath[MAX_PATH] = { 0 };
@@ -79,14 +72,27 @@ int main( int argc, char **argv )
         }
 
         protogen::CppGenerator gen;
-        gen.generate(proto, *output);
+        gen.generate(proto, output);
     } catch (protogen::exception &ex)
     {
         std::cerr << fullPath << ':' << ex.line << ':' << ex.column << ": error: " << ex.cause() << std::endl;
         result = 1;
     }
     input.close();
-    if (argc == 3) out.close();
+    if (result != 0) return result;
+
+    std::string code = output.str();
+    std::ofstream out;
+    if (argc == 3)
+    {
+        out.open(argv[2], std::ios_base::ate);
+        if (!out.good()) main_error(std::string("Unable to open '") + argv[2] + "'");
+        out << code;
+        out.close();
+    }
+    else
+        std::cout << code << std::flush;
+    if ((argc == 3 && !out.good()) || !std::cout.good()) main_error("Unable to write the output");
 
     return result;
 }
\ No newline at end of file
-- 
2.43.0


From b103403970eff90c839c2463e9675050266518ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 34/53] fix: report inputs that can not be read or resolved

---
 source/main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/main.cc b/source/main.cc
index 65ece86..dfe3f79 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -57,13 +57,14 @@ int main( int argc, char **argv )
 	if (GetFullPathName(argv[1], MAX_PATH, fullPath, nullptr) == 0) return 1;
 	#else
 	char fullPath[PATH_MAX] = { 0 };
-	if (realpath(argv[1], fullPath) == nullptr) return 1;
+	if (realpath(argv[1], fullPath) == nullptr) main_error(std::string("Unable to find '") + argv[1] + "'");
 	#endif
 
     protogen::Proto3 proto;
     try
     {
         proto.parse(input, fullPath);
+        if (input.bad()) main_error(std::string("Unable to read '") + argv[1] + "'");
 
         for (auto &message : proto.messages)
         {
-- 
2.43.0


From cb7d0390e1789fa86ed4efa7a18713df09e7076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:46 +0000
Subject: [PATCH 35/53] fix: find messages in constant time

---
 source/cpp/cppgen.cc | 21 +++++++--------------
 source/proto3.cc     |  8 +++++---
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 9a67e71..e3f6b77 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -598,38 +598,31 @@ static std::string makeGuard( const std::string &fileName )
 typedef std::vector<std::shared_ptr<protogen::Message>> MessageList;
 typedef std::unordered_set<std::shared_ptr<protogen::Message>> MessageSet;
 
-static bool contains( const MessageList &items, const std::shared_ptr<protogen::Message> &message )
-{
-    for (const auto &current : items)
-        if (current == message)
-            return true;
-    return false;
-}
-
-static void sort( MessageList &output, MessageSet &pending, std::shared_ptr<protogen::Message> message )
+static void sort( MessageList &output, MessageSet &done, MessageSet &pending, std::shared_ptr<protogen::Message> message )
 {
     if (pending.count(message) > 0)
         throw exception("circular reference with '" + message->name + "'", message->line, message->column);
-    if (contains(output, message))
+    if (done.count(message) > 0)
         return; // already processed
 
     pending.insert(message);
     for (auto &field : message->fields)
     {
-        if (field.type.ref != nullptr && !contains(output, field.type.ref))
-            sort(output, pending, field.type.ref);
+        if (field.type.ref != nullptr && done.count(field.type.ref) == 0)
+            sort(output, done, pending, field.type.ref);
     }
     pending.erase(message);
 
+    done.insert(message);
     output.push_back(message);
 }
 
 static void sort( GeneratorContext &ctx )
 {
     std::vector<std::shared_ptr<protogen::Message>> messages;
-    std::unordered_set<std::shared_ptr<protogen::Message>> pending;
+    std::unordered_set<std::shared_ptr<protogen::Message>> done, pending;
     for (auto &message : ctx.root.messages)
-        sort(messages, pending, message);
+        sort(messages, done, pending, message);
 
     ctx.root.messages.swap(messages);
 }
diff --git a/source/proto3.cc b/source/proto3.cc
index 4797f57..f4e0ae3 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -491,6 +491,8 @@ struct Context
     Proto3 &tree;
     InputStream<T> &is;
     std::string package;
+    // messages by qualified name
+    std::unordered_map<std::string, std::shared_ptr<Message>> messages;
 
     Context( Tokenizer<T> &tokenizer, Proto3 &tree, InputStream<T> &is ) :
         tokens(tokenizer), tree(tree), is(is)
@@ -610,9 +612,8 @@ static void parseStandardOption( ProtoContext &ctx, OptionMap &entries )
 
 static std::shared_ptr<Message> findMessage( ProtoContext &ctx, const std::string &name )
 {
-    for (auto it = ctx.tree.messages.begin(); it != ctx.tree.messages.end(); ++it)
-        if ((*it)->qualifiedName() == name) return *it;
-    return nullptr;
+    auto it = ctx.messages.find(name);
+    return (it == ctx.messages.end()) ? nullptr : it->second;
 }
 
 
@@ -746,6 +747,7 @@ static void parseMessage( ProtoContext &ctx )
             if (ctx.tokens.current.code != TOKEN_END)
                 throw exception("Unterminated message", CURRENT_TOKEN_POSITION);
             ctx.tree.messages.push_back(message);
+            ctx.messages[message->qualifiedName()] = message;
             return;
         }
     }
-- 
2.43.0


From c03ace667c70e8eb4890a6290d7a9bea48d47ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 36/53] fix: order long chains of messages without recursion

---
 source/cpp/cppgen.cc | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index e3f6b77..b0e1fd7 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -600,21 +600,30 @@ typedef std::unordered_set<std::shared_ptr<protogen::Message>> MessageSet;
 
 static void sort( MessageList &output, MessageSet &done, MessageSet &pending, std::shared_ptr<protogen::Message> message )
 {
-    if (pending.count(message) > 0)
-        throw exception("circular reference with '" + message->name + "'", message->line, message->column);
-    if (done.count(message) > 0)
-        return; // already processed
+    // messages being processed and the next field of each one (chains may be too long for recursion)
+    std::vector<std::pair<std::shared_ptr<protogen::Message>, size_t>> stack;
+    if (done.count(message) == 0)
+        stack.emplace_back(message, 0);
 
-    pending.insert(message);
-    for (auto &field : message->fields)
+    while (!stack.empty())
     {
-        if (field.type.ref != nullptr && done.count(field.type.ref) == 0)
-            sort(output, done, pending, field.type.ref);
+        auto current = stack.back().first;
+        pending.insert(current);
+        if (stack.back().second < current->fields.size())
+        {
+            auto ref = current->fields[stack.back().second++].type.ref;
+            if (ref == nullptr || done.count(ref) > 0)
+                continue; // nothing to do or already processed
+            if (pending.count(ref) > 0)
+                throw exception("circular reference with '" + ref->name + "'", ref->line, ref->column);
+            stack.emplace_back(ref, 0);
+            continue;
+        }
+        pending.erase(current);
+        done.insert(current);
+        output.push_back(current);
+        stack.pop_back();
     }
-    pending.erase(message);
-
-    done.insert(message);
-    output.push_back(message);
 }
 
 static void sort( GeneratorContext &ctx )
-- 
2.43.0


From fad63f98256049e070f1d8c195648f7098f41140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:01 +0000
Subject: [PATCH 37/53] fix: destroy long chains of messages without recursion

---
 include/protogen/proto3.hh | 5 +++++
 source/proto3.cc           | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/protogen/proto3.hh b/include/protogen/proto3.hh
index d5d07f3..a0429a1 100644
--- a/include/protogen/proto3.hh
+++ b/include/protogen/proto3.hh
@@ -106,6 +106,11 @@ struct Proto3
     OptionMap options;
     std::string fileName;
 
+    Proto3() = default;
+    Proto3( const Proto3 & ) = delete;
+    Proto3 &operator=( const Proto3 & ) = delete;
+    ~Proto3();
+
     void parse( std::istream &input, const std::string &fileName = "");
 };
 
diff --git a/source/proto3.cc b/source/proto3.cc
index f4e0ae3..bf07153 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -813,6 +813,14 @@ static void parseProto( ProtoContext &ctx )
     } while (ctx.tokens.current.code != 0);
 }
 
+Proto3::~Proto3()
+{
+    // long chains of messages must not be destroyed recursively
+    for (auto &message : messages)
+        for (auto &field : message->fields)
+            field.type.ref.reset();
+}
+
 void Proto3::parse( std::istream &input, const std::string &fileName )
 {
     std::ios_base::fmtflags flags = input.flags();
-- 
2.43.0


From f24ceb4b000b134fa9fd962c2614e7557ac9d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 38/53] fix: fields called 'message' are accessible in the
 generated classes

---
 source/cpp/json.hh     | 6 +++---
 source/cpp/protogen.hh | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/cpp/json.hh b/source/cpp/json.hh
index 90f86dd..fcc6d18 100644
--- a/source/cpp/json.hh
+++ b/source/cpp/json.hh
@@ -61,7 +61,7 @@ static int read_object( json_context &ctx, T &object )
 }
 
 #define PG_X_Y_Z_ENTITY(N,O,S) \
-    struct N : public O, public protogen_X_Y_Z::message< O, S > \
+    struct N : public O, public protogen_X_Y_Z::message_base< O, S > \
     { \
         typedef O value_type; \
         typedef S serializer_type; \
@@ -69,8 +69,8 @@ static int read_object( json_context &ctx, T &object )
         N( const N& ) = default; \
         N( N &&that ) = default; \
         N &operator=( const N & ) = default; \
-        using protogen_X_Y_Z::message<O, S>::serialize; \
-        using protogen_X_Y_Z::message<O, S>::deserialize; \
+        using protogen_X_Y_Z::message_base<O, S>::serialize; \
+        using protogen_X_Y_Z::message_base<O, S>::deserialize; \
         bool deserialize( protogen_X_Y_Z::istream& in, protogen_X_Y_Z::Parameters *params = nullptr ) override \
         { \
             protogen_X_Y_Z::json_context ctx; \
diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 7c29c92..57ddebb 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -669,13 +669,13 @@ static inline std::string reveal( const std::string &value )
 	return result;
 }
 
-// Parent class for messages
+// Parent class for messages (the name must not hide the fields of the messages)
 template<typename T, typename J>
-struct message
+struct message_base
 {
     typedef T underlying_type;
     typedef J serializer_type;
-    virtual ~message() = default;
+    virtual ~message_base() = default;
     virtual bool deserialize( istream &in, Parameters *params = nullptr ) = 0;
     virtual bool serialize( ostream &out, Parameters *params = nullptr ) const = 0;
 
-- 
2.43.0


From 35b325ca6a3e086146e03e0ceced0eb35438f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 39/53] fix: generated code does not depend on the names chosen
 for packages, messages and fields

---
 source/cpp/code.txt  |  4 ++--
 source/cpp/cppgen.cc | 40 ++++++++++++++++++++--------------------
 source/cpp/json.hh   | 28 ++++++++++++++--------------
 3 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index 0180c06..ab9d072 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -241,9 +241,9 @@ template<> struct json<$2$>
 ------
 
 --- CODE_ENTITY
-PG$3$_ENTITY($1$,$2$,protogen$3$::json<$2$>)
+PG$3$_ENTITY($1$,$2$,::protogen$3$::json<$2$>)
 ------
 
 --- CODE_ENTITY_JSON
-PG$3$_ENTITY_SERIALIZER($1$,$2$,protogen$3$::json<$2$>)
+PG$3$_ENTITY_SERIALIZER($1$,$2$,::protogen$3$::json<$2$>)
 ------
diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index b0e1fd7..70ee85f 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -58,19 +58,19 @@ static constexpr const struct {
 {
     { protogen::TYPE_DOUBLE,   "double",    "double"      , "0.0" },
     { protogen::TYPE_FLOAT,    "float",     "float"       , "0.0F" },
-    { protogen::TYPE_INT32,    "int32",     "int32_t"     , "0" },
-    { protogen::TYPE_INT64,    "int64",     "int64_t"     , "0" },
-    { protogen::TYPE_UINT32,   "uint32",    "uint32_t"    , "0" },
-    { protogen::TYPE_UINT64,   "uint64",    "uint64_t"    , "0" },
-    { protogen::TYPE_SINT32,   "sint32",    "int32_t"     , "0" },
-    { protogen::TYPE_SINT64,   "sint64",    "int64_t"     , "0" },
-    { protogen::TYPE_FIXED32,  "fixed32",   "uint32_t"    , "0" },
-    { protogen::TYPE_FIXED64,  "fixed64",   "uint64_t"    , "0" },
-    { protogen::TYPE_SFIXED32, "sfixed32",  "int32_t"     , "0" },
-    { protogen::TYPE_SFIXED64, "sfixed64",  "int64_t"     , "0" },
+    { protogen::TYPE_INT32,    "int32",     "::int32_t"   , "0" },
+    { protogen::TYPE_INT64,    "int64",     "::int64_t"   , "0" },
+    { protogen::TYPE_UINT32,   "uint32",    "::uint32_t"  , "0" },
+    { protogen::TYPE_UINT64,   "uint64",    "::uint64_t"  , "0" },
+    { protogen::TYPE_SINT32,   "sint32",    "::int32_t"   , "0" },
+    { protogen::TYPE_SINT64,   "sint64",    "::int64_t"   , "0" },
+    { protogen::TYPE_FIXED32,  "fixed32",   "::uint32_t"  , "0" },
+    { protogen::TYPE_FIXED64,  "fixed64",   "::uint64_t"  , "0" },
+    { protogen::TYPE_SFIXED32, "sfixed32",  "::int32_t"   , "0" },
+    { protogen::TYPE_SFIXED64, "sfixed64",  "::int64_t"   , "0" },
     { protogen::TYPE_BOOL,     "bool",      "bool"        , "false" },
     { protogen::TYPE_STRING,   "string",    nullptr       , "\"\"" },
-    { protogen::TYPE_BYTES,    "bytes",     "uint8_t"     , nullptr },
+    { protogen::TYPE_BYTES,    "bytes",     "::uint8_t"   , nullptr },
     { protogen::TYPE_MESSAGE,  nullptr,     nullptr       , nullptr }
 };
 
@@ -104,7 +104,7 @@ static std::string nativeType( const Field &field )
     }
     else
     if (field.type.id == protogen::TYPE_BYTES)
-        return "uint8_t";
+        return "::uint8_t";
     else
     if (field.type.id == protogen::TYPE_MESSAGE)
     {
@@ -117,7 +117,7 @@ static std::string nativeType( const Field &field )
 }
 
  /**
-  * Translates protobuf3 types to C++ types.
+  * Translates protobuf3 types to C++ types. The result does not depend on the names declared by the user.
   */
 static std::string fieldNativeType( const Field &field, bool useLists )
 {
@@ -126,13 +126,13 @@ static std::string fieldNativeType( const Field &field, bool useLists )
     // value type
     if (field.type.id == protogen::TYPE_STRING)
     {
-        valueType = "protogen";
+        valueType = "::protogen";
         valueType += PROTOGEN_VERSION_NAMING;
         valueType += "::string_field";
     }
     else
     if (field.type.id == protogen::TYPE_BYTES)
-        valueType = "std::vector<uint8_t>";
+        valueType = "::std::vector< ::uint8_t>";
     else
     if (field.type.id >= protogen::TYPE_DOUBLE && field.type.id < protogen::TYPE_BYTES)
     {
@@ -147,11 +147,11 @@ static std::string fieldNativeType( const Field &field, bool useLists )
 
     if (field.type.repeated)
     {
-        std::string output = "std::";
+        std::string output = "::std::";
         if (!useLists)
-            output += "vector<";
+            output += "vector< ";
         else
-            output += "list<";
+            output += "list< ";
         output += valueType;
         output += '>';
         return output;
@@ -161,9 +161,9 @@ static std::string fieldNativeType( const Field &field, bool useLists )
         return valueType;
     else
     {
-        std::string output = "protogen";
+        std::string output = "::protogen";
         output += PROTOGEN_VERSION_NAMING;
-        output += "::field<";
+        output += "::field< ";
         output += valueType;
         output += '>';
         return output;
diff --git a/source/cpp/json.hh b/source/cpp/json.hh
index fcc6d18..875ce59 100644
--- a/source/cpp/json.hh
+++ b/source/cpp/json.hh
@@ -61,7 +61,7 @@ static int read_object( json_context &ctx, T &object )
 }
 
 #define PG_X_Y_Z_ENTITY(N,O,S) \
-    struct N : public O, public protogen_X_Y_Z::message_base< O, S > \
+    struct N : public O, public ::protogen_X_Y_Z::message_base< O, S > \
     { \
         typedef O value_type; \
         typedef S serializer_type; \
@@ -69,35 +69,35 @@ static int read_object( json_context &ctx, T &object )
         N( const N& ) = default; \
         N( N &&that ) = default; \
         N &operator=( const N & ) = default; \
-        using protogen_X_Y_Z::message_base<O, S>::serialize; \
-        using protogen_X_Y_Z::message_base<O, S>::deserialize; \
-        bool deserialize( protogen_X_Y_Z::istream& in, protogen_X_Y_Z::Parameters *params = nullptr ) override \
+        using ::protogen_X_Y_Z::message_base<O, S>::serialize; \
+        using ::protogen_X_Y_Z::message_base<O, S>::deserialize; \
+        bool deserialize( ::protogen_X_Y_Z::istream& in, ::protogen_X_Y_Z::Parameters *params = nullptr ) override \
         { \
-            protogen_X_Y_Z::json_context ctx; \
+            ::protogen_X_Y_Z::json_context ctx; \
             if (params != nullptr) { \
                 params->error.clear(); \
                 ctx.params = *params; \
             } \
-            protogen_X_Y_Z::tokenizer tok(in, ctx.params); \
+            ::protogen_X_Y_Z::tokenizer tok(in, ctx.params); \
             ctx.tok = &tok; \
             int result = S::read(ctx, *this); \
-            if (result == protogen_X_Y_Z::PGR_OK) return true; \
-            if (result == protogen_X_Y_Z::PGR_NIL) \
-                tok.error(protogen_X_Y_Z::error_code::PGERR_INVALID_OBJECT, "objects must start with '{'"); \
-            if (params != nullptr) params->error = std::move(ctx.params.error); \
+            if (result == ::protogen_X_Y_Z::PGR_OK) return true; \
+            if (result == ::protogen_X_Y_Z::PGR_NIL) \
+                tok.error(::protogen_X_Y_Z::error_code::PGERR_INVALID_OBJECT, "objects must start with '{'"); \
+            if (params != nullptr) params->error = ::std::move(ctx.params.error); \
             return false; \
         } \
-        bool serialize( protogen_X_Y_Z::ostream &out, protogen_X_Y_Z::Parameters *params = nullptr ) const override \
+        bool serialize( ::protogen_X_Y_Z::ostream &out, ::protogen_X_Y_Z::Parameters *params = nullptr ) const override \
         { \
-            protogen_X_Y_Z::json_context ctx; \
+            ::protogen_X_Y_Z::json_context ctx; \
             ctx.os = &out; \
             if (params != nullptr) { \
                 params->error.clear(); \
                 ctx.params = *params; \
             } \
             int result = S::write(ctx, *this); \
-            if (result == protogen_X_Y_Z::PGR_OK) return true; \
-            if (params != nullptr) params->error = std::move(ctx.params.error); \
+            if (result == ::protogen_X_Y_Z::PGR_OK) return true; \
+            if (params != nullptr) params->error = ::std::move(ctx.params.error); \
             return false; \
         } \
         void clear() override { S::clear(*this); } \
-- 
2.43.0


From c81b67705a093105315f6004c0a310c1014f71ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:39 +0000
Subject: [PATCH 40/53] fix: reject messages with the name of the model of
 other message

---
 source/cpp/cppgen.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 70ee85f..0bbe3e0 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -686,6 +686,15 @@ static void generateModel( GeneratorContext &ctx )
 
     sort(ctx);
 
+    // the names of the model structures must not be the names of other messages
+    std::unordered_set<std::string> names;
+    for (const auto &message : ctx.root.messages)
+        names.insert(message->package + '.' + message->name + "_type");
+    for (const auto &message : ctx.root.messages)
+        if (names.count(message->package + '.' + message->name) > 0)
+            throw protogen::exception("message '" + message->name + "' has the name used for the model of other message",
+                message->line, message->column);
+
     // message declarations
     for (const auto &message : ctx.root.messages)
         generateMessage(ctx, *message);
-- 
2.43.0


From 1a8daad37d9af65470c63fbfb0ead116472997df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:06 +0000
Subject: [PATCH 41/53] fix: reject messages with the names of members of the
 generated classes

---
 source/cpp/cppgen.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 0bbe3e0..4f7f841 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -695,6 +695,14 @@ static void generateModel( GeneratorContext &ctx )
             throw protogen::exception("message '" + message->name + "' has the name used for the model of other message",
                 message->line, message->column);
 
+    // a class can not have the name of its own members
+    static const std::unordered_set<std::string> MEMBERS = { "value_type", "serializer_type", "serialize", "deserialize",
+        "clear", "empty", "equal", "swap" };
+    for (const auto &message : ctx.root.messages)
+        if (MEMBERS.count(message->name) > 0)
+            throw protogen::exception("message '" + message->name + "' has the name of a member of the generated classes",
+                message->line, message->column);
+
     // message declarations
     for (const auto &message : ctx.root.messages)
         generateMessage(ctx, *message);
-- 
2.43.0


From 2e080095e76d7cef8508f01785cb157506528062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:34 +0000
Subject: [PATCH 42/53] fix: errors at the end of the file have a valid column

---
 source/proto3.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index bf07153..e2b5fbe 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -370,7 +370,8 @@ template <typename I> class Tokenizer
                 return current;
             }
 
-            return current = Token(TOKEN_EOF, "", line, column);
+            // columns start at 1, so the end of the file is one column after the last character
+            return current = Token(TOKEN_EOF, "", line, column + 1);
         }
 
     private:
-- 
2.43.0


From 1d798247d62ea0d9f80e767ab2dd7801b3ce4e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:12 +0000
Subject: [PATCH 43/53] fix: the output may be a pipe

---
 source/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/main.cc b/source/main.cc
index dfe3f79..e653e8c 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -86,7 +86,7 @@ int main( int argc, char **argv )
     std::ofstream out;
     if (argc == 3)
     {
-        out.open(argv[2], std::ios_base::ate);
+        out.open(argv[2], std::ios_base::trunc);
         if (!out.good()) main_error(std::string("Unable to open '") + argv[2] + "'");
         out << code;
         out.close();
-- 
2.43.0


From 925245e18688593b28024d6b248d60f1530252fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 44/53] fix: compilation time was quadratic in the number of
 fields of a message

---
 source/proto3.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index e2b5fbe..7530f51 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -494,6 +494,9 @@ struct Context
     std::string package;
     // messages by qualified name
     std::unordered_map<std::string, std::shared_ptr<Message>> messages;
+    // names and indices of the fields of the current message
+    std::unordered_set<std::string> names;
+    std::unordered_map<int, std::string> indices;
 
     Context( Tokenizer<T> &tokenizer, Proto3 &tree, InputStream<T> &is ) :
         tokens(tokenizer), tree(tree), is(is)
@@ -708,12 +711,11 @@ static void parseField( ProtoContext &ctx, Message &message )
         throw exception("Expected ';'", TOKEN_POSITION(ctx.tokens.current));
 
     // check for repeated field names and indices
-    for (auto it = message.fields.begin(); it != message.fields.end(); it++)
-        if (it->name == field.name)
-            throw exception("Message has more than one field named '" + field.name + "'", CURRENT_TOKEN_POSITION);
-        else
-        if (it->index == field.index)
-            throw exception("Field '" + it->name + "' has the same index as '" + field.name + "'", CURRENT_TOKEN_POSITION);
+    if (!ctx.names.insert(field.name).second)
+        throw exception("Message has more than one field named '" + field.name + "'", CURRENT_TOKEN_POSITION);
+    auto result = ctx.indices.emplace(field.index, field.name);
+    if (!result.second)
+        throw exception("Field '" + result.first->second + "' has the same index as '" + field.name + "'", CURRENT_TOKEN_POSITION);
 
     message.fields.push_back(field);
 }
@@ -736,6 +738,8 @@ static void parseMessage( ProtoContext &ctx )
             if (ctx.tokens.next().code != TOKEN_BEGIN)
                 throw exception("Missing message body", CURRENT_TOKEN_POSITION);
 
+            ctx.names = {};
+            ctx.indices = {};
             while (ctx.tokens.next().code != TOKEN_EOF)
             {
                 if (ctx.tokens.current.code == TOKEN_END)
-- 
2.43.0


From 81c8e03986b3c388efdd0e94f9040a291e922ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:36 +0000
Subject: [PATCH 45/53] fix: obfuscated names depended on the global locale of
 the program that uses the library

---
 source/cpp/cppgen.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 4f7f841..c503964 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -219,6 +219,7 @@ static inline std::string obfuscate( const std::string &value )
 {
     uint8_t mask = rol<uint8_t>(0x93U, value.length() % 8);
 	std::stringstream result;
+	result.imbue(std::locale::classic());
 	for (size_t i = 0, t = value.length(); i < t; ++i)
     {
 		result << "\\x";
-- 
2.43.0


From 526cdf15615f36aa6ecaab8596f5f4d3c4c39c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:33 +0000
Subject: [PATCH 46/53] fix: the flags of the stream were not restored when
 parsing a schema ended with other exceptions (e.g. lack of memory)

---
 source/proto3.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 7530f51..44be612 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -828,7 +828,13 @@ Proto3::~Proto3()
 
 void Proto3::parse( std::istream &input, const std::string &fileName )
 {
-    std::ios_base::fmtflags flags = input.flags();
+    // restores the flags of the stream, even in case of exceptions
+    struct FlagsGuard
+    {
+        std::istream &stream;
+        std::ios_base::fmtflags flags;
+        ~FlagsGuard() { stream.flags(flags); }
+    } guard = { input, input.flags() };
     std::noskipws(input);
     std::istream_iterator<char> end;
     std::istream_iterator<char> begin(input);
@@ -839,15 +845,7 @@ void Proto3::parse( std::istream &input, const std::string &fileName )
     ProtoContext ctx(tok, *this, is);
     this->fileName = fileName;
 
-    try
-    {
-        parseProto(ctx);
-        if (flags & std::ios::skipws) std::skipws(input);
-    } catch (exception &ex)
-    {
-        if (flags & std::ios::skipws) std::skipws(input);
-        throw ex;
-    }
+    parseProto(ctx);
 
     // check if we have unresolved types
     for (auto &message : this->messages)
-- 
2.43.0


From c7f6b85aea2af55a7f5b3353634afed512c9e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:42 +0000
Subject: [PATCH 47/53] fix: the flags of the stream were not restored when
 deserialisation ended with an exception

---
 source/cpp/protogen.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 57ddebb..68d3181 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -681,14 +681,18 @@ struct message_base
 
     virtual bool deserialize( std::istream &in, Parameters *params = nullptr )
     {
-        bool skip = in.flags() & std::ios_base::skipws;
+        // restores the flags of the stream, even in case of exceptions
+        struct flags_guard
+        {
+            std::istream &stream;
+            std::ios_base::fmtflags flags;
+            ~flags_guard() { stream.flags(flags); }
+        } guard = { in, in.flags() };
         std::noskipws(in);
         std::istream_iterator<char> end;
         std::istream_iterator<char> begin(in);
         iterator_istream<std::istream_iterator<char>> is(begin, end);
-        bool result = deserialize(is, params);
-        if (skip) std::skipws(in);
-        return result;
+        return deserialize(is, params);
     }
 
     virtual bool deserialize( const std::string &in, Parameters *params = nullptr )
-- 
2.43.0


From 0b8898cf75ae8ad8a66bf87969c05b33444457b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:53 +0000
Subject: [PATCH 48/53] fix: the locale of the thread was not restored when
 there was no memory to serialise a number

---
 source/cpp/json-number.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 67d1e0b..6eb88ce 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -134,7 +134,8 @@ std::string number_to_string( const T &value )
     for (int digits = std::numeric_limits<T>::digits10; digits <= std::numeric_limits<T>::max_digits10; ++digits)
     {
         snprintf(tmp, sizeof(tmp) - 1, "%.*g", digits, value);
-        if (string_to_number<T>(tmp) == value) break;
+        // nothing can throw while the locale is changed
+        if (static_cast<T>(strtod(tmp, nullptr)) == value) break;
     }
     uselocale(old);
 #endif
-- 
2.43.0


From 1616d044617afa589436c4fb9c488e0792621a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:08 +0000
Subject: [PATCH 49/53] fix: names were truncated in the generated code,
 without any error, when there was no memory for them

---
 source/cpp/cppgen.cc | 1 +
 source/printer.hh    | 1 +
 source/proto3.cc     | 1 +
 3 files changed, 3 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index c503964..e062b21 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -220,6 +220,7 @@ static inline std::string obfuscate( const std::string &value )
     uint8_t mask = rol<uint8_t>(0x93U, value.length() % 8);
 	std::stringstream result;
 	result.imbue(std::locale::classic());
+	result.exceptions(std::ios_base::badbit); // lack of memory must not truncate the text
 	for (size_t i = 0, t = value.length(); i < t; ++i)
     {
 		result << "\\x";
diff --git a/source/printer.hh b/source/printer.hh
index e482437..847d621 100644
--- a/source/printer.hh
+++ b/source/printer.hh
@@ -54,6 +54,7 @@ class Printer
         static std::string format(const char* format, const T&... args)
         {
             std::stringstream ss;
+            ss.exceptions(std::ios_base::badbit); // lack of memory must not truncate the text
             print(ss, format, {toString(args)...});
             return ss.str();
         }
diff --git a/source/proto3.cc b/source/proto3.cc
index 44be612..258d055 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -766,6 +766,7 @@ static void parsePackage( ProtoContext &ctx )
     if ((tt.code == TOKEN_NAME || tt.code == TOKEN_QNAME) && ctx.tokens.next().code == TOKEN_SCOLON)
     {
         std::stringstream parts(tt.value);
+        parts.exceptions(std::ios_base::badbit);
         for (std::string part; std::getline(parts, part, '.');)
             checkName(part, tt);
         ctx.package = tt.value;
-- 
2.43.0


From 4dadf0a59c7a72583024b3a7fa6550a84ea36cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:31 +0000
Subject: [PATCH 50/53] fix: the program ended with success and an incomplete
 output when there was no memory to generate the code

---
 source/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/main.cc b/source/main.cc
index e653e8c..609b697 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -74,6 +74,7 @@ int main( int argc, char **argv )
 
         protogen::CppGenerator gen;
         gen.generate(proto, output);
+        if (!output.good()) main_error("Unable to generate the output");
     } catch (protogen::exception &ex)
     {
         std::cerr << fullPath << ':' << ex.line << ':' << ex.column << ": error: " << ex.cause() << std::endl;
-- 
2.43.0


From 7d8cf564c78ff9746c97e6dc63bb42164a9347d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:48 +0000
Subject: [PATCH 51/53] fix: the last line of the templates was lost when it
 had no line break

---
 source/template.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/source/template.cc b/source/template.cc
index bf85b1d..fdfdab2 100644
--- a/source/template.cc
+++ b/source/template.cc
@@ -8,11 +8,8 @@ void copy( std::istream &input, std::ostream &output, const std::string &name )
     std::string line;
 
     output << "#define " << name << " \\\n";
-    while (!input.eof())
+    while (std::getline(input, line))
     {
-        std::getline(input, line);
-		if (!input.good()) break;
-
         if (line.length() > 0 && line[0] == '#' && line.find("AUTO-REMOVE") != std::string::npos)
             continue;
 
@@ -46,11 +43,8 @@ void process( std::istream &input, std::ostream &output, const std::string &guar
     output << "#ifndef " << guard << '\n';
     output << "#define " << guard << '\n';
 
-    while (!input.eof())
+    while (std::getline(input, line))
     {
-        std::getline(input, line);
-		if (!input.good()) break;
-
         if (!content)
         {
             if (line.find("--- ") != 0) continue;
-- 
2.43.0


From cd66807691378203ab680aa20fea96ed5192113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:48 +0000
Subject: [PATCH 52/53] fix: the template tool ended with success when it was
 unable to write the output

---
 source/template.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/template.cc b/source/template.cc
index fdfdab2..6b845cf 100644
--- a/source/template.cc
+++ b/source/template.cc
@@ -114,6 +114,12 @@ int main( int argc, char **argv )
     else
         process(input, output, guard);
 
-
+    // neither incomplete inputs nor incomplete outputs are acceptable
+    output.close();
+    if (input.bad() || !output.good())
+    {
+        std::cerr << "Unable to process '" << argv[1] << "'" << std::endl;
+        return 1;
+    }
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From a61ebad94163bf056c67c2db6fd8203d017c8e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:00 +0000
Subject: [PATCH 53/53] fix: error information made without a position had an
 undefined one

---
 source/cpp/protogen.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 68d3181..ec15d21 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -60,7 +60,7 @@ struct ErrorInfo
 
     ErrorInfo() : code(error_code::PGERR_OK), line(0), column(0) {};
     ErrorInfo( error_code code, const std::string &message ) : code(code),
-        message(message) { }
+        message(message), line(0), column(0) { }
     ErrorInfo( error_code code, const std::string &message, int line, int column ) :
         code(code), message(message), line(line), column(column) { }
     ErrorInfo( const ErrorInfo &that ) = default;
-- 
2.43.0

