From 840a6690a00c8bc21392665f34aa810601288fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:51 +0000
Subject: [PATCH 01/14] fix: let a write fill WriteBufferFixedSize completely

push(bytes, length) refused data that fits exactly and its size computation
could overflow 32 bits. Also include <cstring> for memcpy.
---
 src/WriteBufferFixedSize.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/WriteBufferFixedSize.h b/src/WriteBufferFixedSize.h
index 6e0fc83..3b7ba04 100644
--- a/src/WriteBufferFixedSize.h
+++ b/src/WriteBufferFixedSize.h
@@ -33,6 +33,7 @@
 
 #include "WriteBufferInterface.h"
 #include <array>
+#include <cstring>
 
 namespace EmbeddedProto 
 {
@@ -85,7 +86,7 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::WriteBufferInterface::push()
       bool push(const uint8_t* bytes, const uint32_t length) override
       {
-        bool return_value = BUFFER_SIZE > (write_index_ + length);
+        bool return_value = (BUFFER_SIZE - write_index_) >= length;
         if(return_value)
         {
           memcpy(data_.data() + write_index_, bytes, length);
-- 
2.43.0


From 130c44c6a2abc1218ed4ec584a256c89aefd974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:14 +0000
Subject: [PATCH 02/14] fix: limit ReadBufferFixedSize::advance(N) to the bytes
 in the buffer

The addition could overflow, which moved the read index backwards. As the
interface documents, the advance is now limited to the bytes available.
---
 src/ReadBufferFixedSize.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ReadBufferFixedSize.h b/src/ReadBufferFixedSize.h
index ed38e9e..bb67700 100644
--- a/src/ReadBufferFixedSize.h
+++ b/src/ReadBufferFixedSize.h
@@ -88,12 +88,10 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::ReadBufferInterface::advance(const uint32_t N)
       bool advance(const uint32_t N) override
       {
-        const uint32_t new_read_index = read_index_ + N;
-        const bool return_value = write_index_ >= new_read_index;
-        if(return_value)
-        {
-          read_index_ = new_read_index;
-        }
+        // The advance is limited to the number of bytes left in the buffer.
+        const uint32_t n_bytes_left = (write_index_ > read_index_) ? (write_index_ - read_index_) : 0;
+        const bool return_value = n_bytes_left >= N;
+        read_index_ += return_value ? N : n_bytes_left;
         return return_value;
       }
 
-- 
2.43.0


From aa01b510a23a304794ecfd6a2bbd8f2fecd8b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:19 +0000
Subject: [PATCH 03/14] fix: report INVALID_WIRETYPE for unknown fields with a
 group wire type

The group start tag was skipped and the content of the group was interpreted
as fields of the message.
---
 src/MessageInterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index db9b4b6..d3fd833 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -114,7 +114,8 @@ namespace EmbeddedProto
         break;
 
       default:
-        // We should never get here. DeserializeTag catches this case.
+        // The deprecated group wire types are not supported.
+        return_value = Error::INVALID_WIRETYPE;
         break;
     }
 
-- 
2.43.0


From 178e855571028471162ba28d7fbe89bde3370bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:33 +0000
Subject: [PATCH 04/14] fix: deserialize booleans as a varint

Only one byte of the varint was read, the rest was interpreted as the next tag.
---
 src/WireFormatter.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 6db0422..f9c3d8e 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -483,15 +483,12 @@ namespace EmbeddedProto
 
       static Error DeserializeBool(ReadBufferInterface& buffer, bool& value) 
       {
-        uint8_t byte;
-        Error result = Error::NO_ERRORS;
-        if(buffer.pop(byte))
-        {
-          value = static_cast<bool>(byte);
-        }
-        else 
+        // A boolean is a varint, it is not guaranteed to be serialized in a single byte.
+        uint64_t uint_value64;
+        Error result = DeserializeVarint(buffer, uint_value64);
+        if(Error::NO_ERRORS == result)
         {
-          result = Error::END_OF_BUFFER;
+          value = (0 != uint_value64);
         }
         return result;
       }
-- 
2.43.0


From 814cc74e5c67b95b4753890abb4ec684de892708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:47 +0000
Subject: [PATCH 05/14] fix: start from a cleared element when receiving a
 repeated message

An element left over from an earlier longer array was merged into the new one.
---
 src/RepeatedField.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index d6ea279..c3fa583 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -379,7 +379,9 @@ namespace EmbeddedProto
             if(Error::NO_ERRORS == return_value) 
             {
               ReadBufferSection bufferSection(buffer, size);
-              return_value = this->get(index).deserialize(bufferSection);
+              DATA_TYPE& element = this->get(index);
+              element.clear();
+              return_value = element.deserialize(bufferSection);
             }
           }
           else 
-- 
2.43.0


From 3a22920e8a3e10cb98557843deeb2c5856fc75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:00 +0000
Subject: [PATCH 06/14] fix: report END_OF_BUFFER for a submessage cut off by
 the end of the input

A submessage of which the last fields were missing was accepted as complete.
---
 src/MessageInterface.cpp  | 7 +++++++
 src/ReadBufferSection.cpp | 5 ++++-
 src/RepeatedField.h       | 7 +++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index d3fd833..522141c 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -84,6 +84,13 @@ namespace EmbeddedProto
       if(::EmbeddedProto::Error::NO_ERRORS == return_value)
       {
         return_value = deserialize(bufferSection);
+
+        // When not all bytes of the message where in the buffer it is incomplete.
+        if((Error::NO_ERRORS == return_value) 
+           && ((size != bufferSection.get_max_size()) || (0 != bufferSection.get_size())))
+        {
+          return_value = Error::END_OF_BUFFER;
+        }
       }
     }
     return return_value;
diff --git a/src/ReadBufferSection.cpp b/src/ReadBufferSection.cpp
index c0c09a9..d10af3c 100644
--- a/src/ReadBufferSection.cpp
+++ b/src/ReadBufferSection.cpp
@@ -93,7 +93,10 @@ namespace EmbeddedProto
     if(result)
     {
       result = buffer_.pop(byte);
-      --size_;
+      if(result)
+      {
+        --size_;
+      }
     }
     return result;
   }
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index c3fa583..d2cb9a9 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -382,6 +382,13 @@ namespace EmbeddedProto
               DATA_TYPE& element = this->get(index);
               element.clear();
               return_value = element.deserialize(bufferSection);
+
+              // When not all bytes of the message where in the buffer it is incomplete.
+              if((Error::NO_ERRORS == return_value) 
+                 && ((size != bufferSection.get_max_size()) || (0 != bufferSection.get_size())))
+              {
+                return_value = Error::END_OF_BUFFER;
+              }
             }
           }
           else 
-- 
2.43.0


From 06f7fd7bc7ac1f1b653767bf0fa08547db15878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:24 +0000
Subject: [PATCH 07/14] fix: report errors in the length and the elements of a
 packed array

The result of reading the length was ignored and an element cut off by the end
of the array or the input was dropped while reporting success.
---
 src/RepeatedField.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index d2cb9a9..4133f9f 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -342,20 +342,19 @@ namespace EmbeddedProto
         ReadBufferSection bufferSection(buffer, size);
         DATA_TYPE x;
         
-        return_value = x.deserialize(bufferSection);
-        while(Error::NO_ERRORS == return_value)
+        while((Error::NO_ERRORS == return_value) && (0 < bufferSection.get_size()))
         {
-          return_value = this->add(x);
+          return_value = x.deserialize(bufferSection);
           if(Error::NO_ERRORS == return_value)
           {
-            return_value = x.deserialize(bufferSection);
+            return_value = this->add(x);
           }
         }
 
-        // We expect the buffersection to be empty, in that case everything is fine..
-        if(Error::END_OF_BUFFER == return_value)
+        // When not all bytes of the array where in the buffer it is incomplete.
+        if((Error::NO_ERRORS == return_value) && (size != bufferSection.get_max_size()))
         {
-          return_value = Error::NO_ERRORS;
+          return_value = Error::END_OF_BUFFER;
         }
 
         return return_value;
-- 
2.43.0


From 5d55cf2b6fe39e50b934af6e07f2a039b1d5677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:29 +0000
Subject: [PATCH 08/14] fix: ReadBufferSection::advance(n) returns whether it
 held n bytes

It returned true when less than n bytes were left in the section, and false for
zero bytes of an empty section.
---
 src/ReadBufferSection.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ReadBufferSection.cpp b/src/ReadBufferSection.cpp
index d10af3c..5276c37 100644
--- a/src/ReadBufferSection.cpp
+++ b/src/ReadBufferSection.cpp
@@ -77,11 +77,12 @@ namespace EmbeddedProto
 
   bool ReadBufferSection::advance(const uint32_t n_bytes)
   {
-    bool result = 0 < size_;
-    if(result) 
+    // The advance is limited to the number of bytes left in this section.
+    bool result = n_bytes <= size_;
+    const uint32_t n = result ? n_bytes : size_;
+    if(0 < n) 
     {
-      uint32_t n = (n_bytes <= size_) ? n_bytes : size_;
-      result = buffer_.advance(n);
+      result = buffer_.advance(n) && result;
       size_ -= n;
     }
     return result;
-- 
2.43.0


From ad82c6c32946b4053dea717ae0ecf673e4d3ee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:48 +0000
Subject: [PATCH 09/14] fix: keep to_string() inside the buffer when snprintf()
 truncates

snprintf() returns the length it would have written. Adding that to the
pointer and subtracting it from the unsigned size moved the view past the
end of the caller's buffer. Strings without a terminating null were also
read beyond their end.
---
 .../EmbeddedProto/templates/TypeDefMsg.h      | 22 +++-------
 src/Defines.h                                 | 16 +++++++
 src/FieldStringBytes.h                        | 43 ++++++-------------
 src/Fields.h                                  | 22 +++-------
 src/RepeatedField.h                           | 22 +++-------
 5 files changed, 48 insertions(+), 77 deletions(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 6c7b0c9..5041d4c 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -286,12 +286,8 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       {
         // Add a comma behind the previous field.
         n_chars_used = snprintf(left_chars.data, left_chars.size, ",\n");
-        if(0 < n_chars_used)
-        {
-          // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
-        }
+        // Update the character pointer and characters left in the array.
+        left_chars.advance(n_chars_used);
       }
 
       if(nullptr != name)
@@ -317,11 +313,8 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
         }
       }
       
-      if(0 < n_chars_used)
-      {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
-      }
+      // Update the character pointer and characters left in the array.
+      left_chars.advance(n_chars_used);
 
       {% for field in typedef.fields %}
       {%if "FieldErrorRecursive" != field.descriptor.type_name %}{# Test if this is an FieldErrorRecursive #}
@@ -340,11 +333,8 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
         n_chars_used = snprintf(left_chars.data, left_chars.size, "\n%*s}", indent_level, " ");
       }
 
-      if(0 < n_chars_used)
-      {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
-      }
+      // Update the character pointer and characters left in the array.
+      left_chars.advance(n_chars_used);
 
       return left_chars;
     }
diff --git a/src/Defines.h b/src/Defines.h
index 6c86ed0..4dd5500 100644
--- a/src/Defines.h
+++ b/src/Defines.h
@@ -78,6 +78,22 @@ namespace EmbeddedProto
   struct array_view {
     T* data; //!< A pointer to the start of an array.
     uint32_t size; //!< The number of elements in the array.
+
+    //! Move the start of the view past the given number of elements.
+    /*!
+        When the view holds less, for instance because snprintf() truncated its output, it becomes 
+        empty.
+        \param[in] n_elements The number of elements to skip, negative numbers are ignored.
+    */
+    void advance(const int32_t n_elements)
+    {
+      if(0 < n_elements)
+      {
+        const uint32_t n = (static_cast<uint32_t>(n_elements) < size) ? static_cast<uint32_t>(n_elements) : size;
+        data += n;
+        size -= n;
+      }
+    }
   };
 
   using string_view = array_view<char>;
diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 605da20..42e5013 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -360,28 +360,23 @@ namespace EmbeddedProto
         {
           // Add a comma behind the previous field.
           n_chars_used = snprintf(left_chars.data, left_chars.size, ",\n");
-          if(0 < n_chars_used)
-          {
-            // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
-          }
+          // Update the character pointer and characters left in the array.
+          left_chars.advance(n_chars_used);
         }
 
         if(nullptr != name)
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%s\"", indent_level, " ", name, this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%.*s\"", indent_level, " ", name, 
+                                  static_cast<int>(this->get_length()), this->get_const());
         }
         else
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\"", indent_level, " ", this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%.*s\"", indent_level, " ", 
+                                  static_cast<int>(this->get_length()), this->get_const());
         }
         
-        if(0 < n_chars_used) 
-        {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
-        }
+        // Update the character pointer and characters left in the array.
+        left_chars.advance(n_chars_used);
 
         return left_chars;
       }
@@ -440,12 +435,8 @@ namespace EmbeddedProto
         {
           // Add a comma behind the previous field.
           n_chars_used = snprintf(left_chars.data, left_chars.size, ",\n");
-          if(0 < n_chars_used)
-          {
-            // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
-          }
+          // Update the character pointer and characters left in the array.
+          left_chars.advance(n_chars_used);
         }
 
         if(nullptr != name)
@@ -457,11 +448,8 @@ namespace EmbeddedProto
           n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s[\n", indent_level, " ");
         }
         
-        if(0 < n_chars_used) 
-        {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
-        }
+        // Update the character pointer and characters left in the array.
+        left_chars.advance(n_chars_used);
 
         uint32 field;
         for(uint32_t i = 0; i < this->get_length(); ++i)
@@ -472,11 +460,8 @@ namespace EmbeddedProto
 
         n_chars_used = snprintf(left_chars.data, left_chars.size, "\n%*s]", n_chars_used - 2, " ");
         
-        if(0 < n_chars_used)
-        {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
-        }
+        // Update the character pointer and characters left in the array.
+        left_chars.advance(n_chars_used);
 
         return left_chars;
       }
diff --git a/src/Fields.h b/src/Fields.h
index 4e391f9..4782039 100644
--- a/src/Fields.h
+++ b/src/Fields.h
@@ -250,11 +250,8 @@ namespace EmbeddedProto
         {
           // Add a comma behind the previous field.
           n_chars_used = snprintf(left_chars.data, left_chars.size, ",\n");
-          if(0 < n_chars_used) {
-            // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
-          }
+          // Update the character pointer and characters left in the array.
+          left_chars.advance(n_chars_used);
         }
 
         n_chars_used = 0;
@@ -268,12 +265,8 @@ namespace EmbeddedProto
           n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s", indent_level, " ");
         }
 
-        if(0 < n_chars_used)
-        {
-          // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
-        }
+        // Update the character pointer and characters left in the array.
+        left_chars.advance(n_chars_used);
 
         if constexpr((Field::FieldTypes::int32 == FIELDTYPE) ||
                      (Field::FieldTypes::sint32 == FIELDTYPE) ||
@@ -320,11 +313,8 @@ namespace EmbeddedProto
           // Should never get here.
         }
 
-        if(0 < n_chars_used) {
-          // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
-        }
+        // Update the character pointer and characters left in the array.
+        left_chars.advance(n_chars_used);
 
         return left_chars;
       }
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index 4133f9f..036caee 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -268,21 +268,14 @@ namespace EmbeddedProto
         {
           // Add a comma behind the previous field.
           n_chars_used = snprintf(left_chars.data, left_chars.size, ",\n");
-          if(0 < n_chars_used)
-          {
-            // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
-          }
+          // Update the character pointer and characters left in the array.
+          left_chars.advance(n_chars_used);
         }
 
         n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": [\n", indent_level, " ", name );
         
-        if(0 < n_chars_used) 
-        {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
-        }
+        // Update the character pointer and characters left in the array.
+        left_chars.advance(n_chars_used);
 
         for(uint32_t i = 0; i < this->get_length(); ++i)
         {
@@ -291,11 +284,8 @@ namespace EmbeddedProto
 
         n_chars_used = snprintf(left_chars.data, left_chars.size, "\n%*s]", n_chars_used - 2, " ");
         
-        if(0 < n_chars_used)
-        {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
-        }
+        // Update the character pointer and characters left in the array.
+        left_chars.advance(n_chars_used);
 
         return left_chars;
       }
-- 
2.43.0


From 0bf91cf9002dda97e6043510861bebe18c451337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:25 +0000
Subject: [PATCH 10/14] fix: register the template parameters of the element
 type of a repeated field with a maximum length

---
 generator/EmbeddedProto/Field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 0c48167..840c162 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -533,8 +533,8 @@ class FieldRepeated(Field):
         self.actual_type.match_field_with_definitions(all_types_definitions)
 
     def register_template_parameters(self):
-        # If we do not have a max length defined register the template parameter.
-        if not self.MaxLength:
+        # Register when we do not have a max length defined or when the type we are repeating has template parameters.
+        if self.get_template_parameters():
             self.parent.register_child_with_template(self)
         return True
 
-- 
2.43.0


From e7e0a52e6e6d13a9309b4a4f3c4c50471e2e63d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:10 +0000
Subject: [PATCH 11/14] fix: use the type the schema names when a nested
 definition has the same name

A field of type .pkg.Name in a message which itself defines a Name was
generated with the nested type.
---
 generator/EmbeddedProto/Field.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 840c162..915fd22 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -142,9 +142,27 @@ class Field:
                 start_index += 1
             else:
                 break
+
+        # A definition with the same name in a scope nearer to this field would hide the one we need. Use more of the
+        # scope when that is the case.
+        while self.is_hidden(def_scope[start_index]["name"], len(parent_scope) - start_index):
+            if 0 == start_index:
+                def_scope[0]["name"] = "::" + def_scope[0]["name"]
+                break
+            start_index -= 1
+
         reduced_scope = def_scope[start_index:]
         return reduced_scope
 
+    # Check if one of the given number of innermost scopes around this field has a definition with the given name.
+    def is_hidden(self, name, n_scopes):
+        scope = self.parent.scope
+        for _ in range(n_scopes):
+            if any(name == child.name for child in scope.child_scopes):
+                return True
+            scope = scope.parent
+        return False
+
     def render(self, filename, jinja_environment):
         template = jinja_environment.get_template(filename)
         rendered_str = template.render(field=self, environment=jinja_environment)
-- 
2.43.0


From dbebf9475fac6b93c40fe901ad9c8e2d2cfdd29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:27 +0000
Subject: [PATCH 12/14] fix: no comma before the first member printed when
 earlier oneofs are unset

A message with only oneofs printed a comma and a newline in front of the first member in to_string() when its first oneof is not set.
---
 generator/EmbeddedProto/templates/TypeDefMsg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 5041d4c..2bfa1f3 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -322,7 +322,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       {% endif %}
       {% endfor %}
       {% for oneof in typedef.oneofs %}
-      left_chars = to_string_{{oneof.get_name()}}(left_chars, indent_level + 2, {{((typedef.fields|length == 0) and loop.first)|lower }});
+      left_chars = to_string_{{oneof.get_name()}}(left_chars, indent_level + 2, {{(typedef.fields|length == 0)|lower}}{% for prev in typedef.oneofs[:loop.index0] %} && (FieldNumber::NOT_SET == {{prev.get_which_oneof()}}){% endfor %});
       {% endfor %}  
       if( 0 == indent_level) 
       {
-- 
2.43.0


From c72975db9cdbd3ae8cdc30ba48384e49c34498cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:25 +0000
Subject: [PATCH 13/14] fix: skip the data of a recursive field which was left
 out of the message

---
 generator/EmbeddedProto/Field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 915fd22..d546547 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -586,4 +586,5 @@ class FieldErrorRecursive(Field):
         return ""
 
     def render_deserialize(self, jinja_env):
-        return ""
+        # This field is left out of the message, its data should be skipped.
+        return "return_value = skip_unknown_field(buffer, wire_type);"
-- 
2.43.0


From 2851292e082c966316bc6fa101cba01b158c575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:25 +0000
Subject: [PATCH 14/14] fix: no comma in front of the first printed field when
 a recursive field was left out

---
 generator/EmbeddedProto/templates/TypeDefMsg.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 2bfa1f3..73184b1 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -316,13 +316,13 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       // Update the character pointer and characters left in the array.
       left_chars.advance(n_chars_used);
 
-      {% for field in typedef.fields %}
-      {%if "FieldErrorRecursive" != field.descriptor.type_name %}{# Test if this is an FieldErrorRecursive #}
+      {# Do not print the fields which have been left out because they are recursive. #}
+      {% set printed_fields = typedef.fields|rejectattr("descriptor.type_name", "equalto", "FieldErrorRecursive")|list %}
+      {% for field in printed_fields %}
       left_chars = {{field.get_variable_name()}}.to_string(left_chars, indent_level + 2, {{field.get_name()|upper}}_NAME, {{ loop.first|lower }});
-      {% endif %}
       {% endfor %}
       {% for oneof in typedef.oneofs %}
-      left_chars = to_string_{{oneof.get_name()}}(left_chars, indent_level + 2, {{(typedef.fields|length == 0)|lower}}{% for prev in typedef.oneofs[:loop.index0] %} && (FieldNumber::NOT_SET == {{prev.get_which_oneof()}}){% endfor %});
+      left_chars = to_string_{{oneof.get_name()}}(left_chars, indent_level + 2, {{(printed_fields|length == 0)|lower}}{% for prev in typedef.oneofs[:loop.index0] %} && (FieldNumber::NOT_SET == {{prev.get_which_oneof()}}){% endfor %});
       {% endfor %}  
       if( 0 == indent_level) 
       {
-- 
2.43.0

