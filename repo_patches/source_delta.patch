From 87057bad93a6145987f31d3694acdad2594bb0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 01/17] fix: serialize bitset without merging in stale buffer
 bits

---
 zpp_bits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 8576f61..385756b 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2328,6 +2328,7 @@ protected:
         }
 
         auto data = m_data.data() + m_position;
+        std::fill_n(data, size_in_bytes, byte_type{});
         for (std::size_t i = 0; i < size; ++i) {
             auto & value = data[i / CHAR_BIT];
             value = byte_type(static_cast<unsigned char>(value) |
-- 
2.43.0


From 8dae5274a59bb5cefaeab9cd447d47eff9b2c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 02/17] fix: write the message size prefix in the byte order of
 the archive

---
 zpp_bits.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 385756b..7b434ef 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2401,9 +2401,14 @@ protected:
                     m_position += move_ahead_count;
                 }
             }
-            return basic_out<std::span<byte_type, sizeof(SizeType)>>{
+            return basic_out<
+                std::span<byte_type, sizeof(SizeType)>,
+                std::conditional_t<endian_aware,
+                                   endian::swapped,
+                                   endian::native>>{
                 std::span<byte_type, sizeof(SizeType)>{
-                    m_data.data() + size_position, sizeof(SizeType)}}(
+                    m_data.data() + size_position, sizeof(SizeType)},
+                {}}(
                 SizeType(message_size));
         } else {
             if constexpr (requires {typename type::serialize;}) {
-- 
2.43.0


From 8f82deebb2e0be638d919e9aca86173cd680ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 03/17] fix: encode protobuf fields in little endian for any
 archive byte order

---
 zpp_bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 7b434ef..a23d585 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4705,8 +4705,8 @@ struct pb
         using archive_type = typename std::remove_cvref_t<decltype(archive)>;
         if constexpr (!concepts::varint<
                           typename archive_type::default_size_type> ||
-                      ((std::endian::little != std::endian::native) &&
-                       !archive_type::endian_aware)) {
+                      ((std::endian::little == std::endian::native) ==
+                       archive_type::endian_aware)) {
             out out{archive.data(),
                     size_varint{},
                     no_fit_size{},
-- 
2.43.0


From f522ac079298cb219c496270585573c526a4c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 04/17] fix: reject a protobuf message longer than the
 remaining data

---
 zpp_bits.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index a23d585..d3c561d 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4932,15 +4932,24 @@ struct pb
         }
     }
 
-    ZPP_BITS_INLINE constexpr errc operator()(
-        auto & archive,
-        auto & item,
-        std::size_t size = std::numeric_limits<std::size_t>::max()) const
+    ZPP_BITS_INLINE constexpr errc
+    operator()(auto & archive, auto & item) const
+        requires(std::remove_cvref_t<decltype(archive)>::kind() ==
+                 kind::in)
+    {
+        return (*this)(archive, item, archive.remaining_data().size());
+    }
+
+    ZPP_BITS_INLINE constexpr errc
+    operator()(auto & archive, auto & item, std::size_t size) const
         requires(std::remove_cvref_t<decltype(archive)>::kind() ==
                  kind::in)
     {
         auto data = archive.remaining_data();
-        in in{std::span{data.data(), std::min(size, data.size())},
+        if (size > data.size()) [[unlikely]] {
+            return std::errc::result_out_of_range;
+        }
+        in in{std::span{data.data(), size},
               size_varint{},
               endian::little{},
               alloc_limit<std::remove_cvref_t<
-- 
2.43.0


From 6d8b32ed199073c29570e786f9c93ab28c26787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 05/17] fix: skip the content of unknown and reserved protobuf
 fields

---
 zpp_bits.h | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index d3c561d..9001a29 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4997,6 +4997,32 @@ struct pb
         return {};
     }
 
+    constexpr static errc skip_field(auto & archive, wire_type field_type)
+    {
+        vsize_t length = 0;
+        if (field_type == wire_type::varint) {
+            vuint64_t value;
+            return archive(value);
+        } else if (field_type == wire_type::fixed_64) {
+            length = 8;
+        } else if (field_type == wire_type::fixed_32) {
+            length = 4;
+        } else if (field_type == wire_type::length_delimited) {
+            if (auto result = archive(length); failure(result))
+                [[unlikely]] {
+                return result;
+            }
+        } else {
+            return std::errc::protocol_error;
+        }
+
+        if (length > archive.remaining_data().size()) [[unlikely]] {
+            return std::errc::result_out_of_range;
+        }
+        archive.position() += length;
+        return {};
+    }
+
     template <std::size_t Index = 0>
     ZPP_BITS_INLINE constexpr static auto
     deserialize_field(auto & archive,
@@ -5009,7 +5035,7 @@ struct pb
             if (!field_num) [[unlikely]] {
                 return errc{std::errc::protocol_error};
             }
-            return errc{};
+            return skip_field(archive, field_type);
         } else if (field_number_from_struct<type, Index>() != field_num) {
             return deserialize_field<Index + 1>(
                 archive, item, field_num, field_type);
@@ -5045,7 +5071,9 @@ struct pb
         using archive_type = std::remove_reference_t<decltype(archive)>;
         static_assert(check_type<type>());
 
-        if constexpr (std::is_enum_v<type>) {
+        if constexpr (concepts::empty<type>) {
+            return skip_field(archive, field_type);
+        } else if constexpr (std::is_enum_v<type>) {
             varint<type> value;
             if (auto result = archive(value); failure(result))
                 [[unlikely]] {
-- 
2.43.0


From f3df85ad86746276db50e2dbc2c1302d7c30ceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 06/17] fix: check the length of packed protobuf fields against
 the data

---
 zpp_bits.h | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 9001a29..afa8c14 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5173,11 +5173,35 @@ struct pb
                             return errc{std::errc::message_size};
                         }
                     }
+                    if (length % sizeof(value_type)) [[unlikely]] {
+                        return errc{std::errc::protocol_error};
+                    }
+                    if (length > archive.remaining_data().size())
+                        [[unlikely]] {
+                        return errc{std::errc::result_out_of_range};
+                    }
                     item.resize(length / sizeof(value_type));
                     return archive(unsized(item));
                 } else {
+                    auto data = archive.remaining_data();
+                    if (length > data.size()) [[unlikely]] {
+                        return errc{std::errc::result_out_of_range};
+                    }
+
                     if constexpr (requires { item.reserve(1); }) {
-                        item.reserve(length);
+                        std::size_t count = std::count_if(
+                            data.begin(),
+                            data.begin() + std::size_t{length},
+                            [](auto byte) {
+                                return static_cast<unsigned char>(byte) <
+                                       0x80;
+                            });
+                        if (count > archive_type::allocation_limit /
+                                        sizeof(orig_value_type))
+                            [[unlikely]] {
+                            return errc{std::errc::message_size};
+                        }
+                        item.reserve(item.size() + count);
                     }
 
                     auto end_position = length + archive.position();
@@ -5187,6 +5211,9 @@ struct pb
                             return result;
                         }
                     }
+                    if (archive.position() != end_position) [[unlikely]] {
+                        return errc{std::errc::protocol_error};
+                    }
 
                     return errc{};
                 }
-- 
2.43.0


From 7a0d4fbd8c425b46742c574deda2ae1de341c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 07/17] fix: fit the output size after overwriting and with
 exact enlarger

---
 zpp_bits.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index afa8c14..8292818 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2448,13 +2448,10 @@ public:
 
     ZPP_BITS_INLINE constexpr auto operator()(auto &&... items)
     {
-        if constexpr (resizable && !no_fit_size &&
-                      enlarger != std::tuple{1, 1}) {
-            auto end = m_data.size();
+        if constexpr (resizable && !no_fit_size) {
+            std::size_t end = m_data.size();
             auto result = serialize_many(items...);
-            if (m_position >= end) {
-                m_data.resize(m_position);
-            }
+            m_data.resize(std::max(m_position, end));
             return result;
         } else {
             return serialize_many(items...);
-- 
2.43.0


From 191fb8e977384343a1113f63c60d2723ac228a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 08/17] fix: serialize no more items than the size prefix can
 count

---
 zpp_bits.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 8292818..3b40c41 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2192,7 +2192,7 @@ protected:
                                             typename type::iterator>::
                                             iterator_category> &&
                       requires { container.data(); }) {
-            auto size = container.size();
+            std::size_t size = container.size();
             if constexpr (!std::is_void_v<SizeType> &&
                           (concepts::associative_container<
                                decltype(container)> ||
@@ -2214,9 +2214,11 @@ protected:
                     failure(result)) [[unlikely]] {
                     return result;
                 }
+                size = static_cast<SizeType>(size);
             }
             return serialize_one(bytes(container, size));
         } else {
+            std::size_t size = container.size();
             if constexpr (!std::is_void_v<SizeType> &&
                           (concepts::associative_container<
                                decltype(container)> ||
@@ -2233,13 +2235,17 @@ protected:
                                    requires concepts::
                                        has_fixed_nonzero_size<type>;
                                }))) {
-                if (auto result = serialize_one(
-                        static_cast<SizeType>(container.size()));
+                if (auto result =
+                        serialize_one(static_cast<SizeType>(size));
                     failure(result)) [[unlikely]] {
                     return result;
                 }
+                size = static_cast<SizeType>(size);
             }
             for (auto & item : container) {
+                if (!size--) [[unlikely]] {
+                    break;
+                }
                 if (auto result = serialize_one(item); failure(result))
                     [[unlikely]] {
                     return result;
-- 
2.43.0


From 0e49b6d46dc5d702e2b8ecd5d3b992c8ee477666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 09/17] fix: fit the output size when an exception passes
 through

---
 zpp_bits.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 3b40c41..e7dbd23 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2455,10 +2455,20 @@ public:
     ZPP_BITS_INLINE constexpr auto operator()(auto &&... items)
     {
         if constexpr (resizable && !no_fit_size) {
-            std::size_t end = m_data.size();
-            auto result = serialize_many(items...);
-            m_data.resize(std::max(m_position, end));
-            return result;
+            struct guard
+            {
+                decltype(m_data) & data;
+                std::size_t & position;
+                std::size_t end;
+                constexpr ~guard()
+                {
+                    if (auto size = std::max(position, end);
+                        size != data.size()) {
+                        data.resize(size);
+                    }
+                }
+            } guard{m_data, m_position, m_data.size()};
+            return serialize_many(items...);
         } else {
             return serialize_many(items...);
         }
-- 
2.43.0


From 54a118fc9df145ee4534b268efafe9d3b85760f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 10/17] fix: return success after reading a known id
 alternative that is not default constructible

---
 zpp_bits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index e7dbd23..b346420 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3017,6 +3017,7 @@ private:
                     return result;
                 }
                 variant = std::move(*object);
+                return errc{};
             }
         } else {
             typename traits::variant<type>::id_type id;
-- 
2.43.0


From c44702ed509175e02308e63278952b81fff9d19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:52 +0000
Subject: [PATCH 11/17] fix: accept protobuf's sign extended encoding of
 negative int32 and enum fields

---
 zpp_bits.h | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index b346420..9c035f0 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5037,6 +5037,40 @@ struct pb
         return {};
     }
 
+    template <typename Type>
+    constexpr static bool sign_extended_varint()
+    {
+        if constexpr (concepts::varint<Type>) {
+            using value_type = typename std::conditional_t<
+                std::is_enum_v<typename Type::value_type>,
+                std::underlying_type<typename Type::value_type>,
+                std::type_identity<typename Type::value_type>>::type;
+            return Type::encoding == varint_encoding::normal &&
+                   std::is_signed_v<value_type> &&
+                   sizeof(value_type) == sizeof(std::int32_t);
+        } else {
+            return false;
+        }
+    }
+
+    // Protobuf sign extends int32 and enum values to 64 bits.
+    ZPP_BITS_INLINE constexpr static errc deserialize_scalar(auto & archive,
+                                                             auto & item)
+    {
+        using type = std::remove_cvref_t<decltype(item)>;
+        if constexpr (sign_extended_varint<type>()) {
+            vint64_t value;
+            if (auto result = archive(value); failure(result))
+                [[unlikely]] {
+                return result;
+            }
+            item = typename type::value_type(value.value);
+            return {};
+        } else {
+            return archive(item);
+        }
+    }
+
     template <std::size_t Index = 0>
     ZPP_BITS_INLINE constexpr static auto
     deserialize_field(auto & archive,
@@ -5089,8 +5123,8 @@ struct pb
             return skip_field(archive, field_type);
         } else if constexpr (std::is_enum_v<type>) {
             varint<type> value;
-            if (auto result = archive(value); failure(result))
-                [[unlikely]] {
+            if (auto result = deserialize_scalar(archive, value);
+                failure(result)) [[unlikely]] {
                 return result;
             }
             item = value;
@@ -5101,7 +5135,7 @@ struct pb
                 field_type,
                 static_cast<typename type::pb_field_type &>(item));
         } else if constexpr (!concepts::container<type>) {
-            return archive(item);
+            return deserialize_scalar(archive, item);
         } else if constexpr (concepts::associative_container<type> &&
                              requires { typename type::mapped_type; }) {
             using key_type = std::conditional_t<
@@ -5150,8 +5184,8 @@ struct pb
                           concepts::varint<value_type>) {
                 auto fetch = [&]() ZPP_BITS_CONSTEXPR_INLINE_LAMBDA {
                     value_type value;
-                    if (auto result = archive(value); failure(result))
-                        [[unlikely]] {
+                    if (auto result = deserialize_scalar(archive, value);
+                        failure(result)) [[unlikely]] {
                         return result;
                     }
 
-- 
2.43.0


From 4f4d61fcdb87c0f5b2ff43352e39b5ae6f514b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 12/17] fix: append further chunks of a packed protobuf field
 instead of replacing the earlier ones

---
 zpp_bits.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 9c035f0..5d52a07 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5228,6 +5228,20 @@ struct pb
                         [[unlikely]] {
                         return errc{std::errc::result_out_of_range};
                     }
+                    if constexpr (sizeof(value_type) > 1) {
+                        // Another chunk of a packed field is appended.
+                        if (!item.empty()) [[unlikely]] {
+                            auto end_position =
+                                length + archive.position();
+                            while (archive.position() < end_position) {
+                                if (auto result = fetch();
+                                    failure(result)) [[unlikely]] {
+                                    return result;
+                                }
+                            }
+                            return errc{};
+                        }
+                    }
                     item.resize(length / sizeof(value_type));
                     return archive(unsized(item));
                 } else {
-- 
2.43.0


From a55433343e9e93cdc71c134a7deefd3a7e07d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 13/17] fix: Use the declared field number of a pb_field of
 repeated strings or messages

---
 zpp_bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 5d52a07..286c00a 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4934,8 +4934,8 @@ struct pb
             }
             return {};
         } else {
-            constexpr auto tag =
-                make_tag<typename type::value_type, Index>();
+            constexpr auto tag = make_tag_explicit<typename type::value_type>(
+                field_number<tag_type, Index>());
             for (auto & element : item) {
                 if (auto result = archive(tag, element); failure(result))
                     [[unlikely]] {
-- 
2.43.0


From fcbd82b687f41b2dfc370ea2860679926128701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 14/17] fix: let an exception of the fitting resize reach the
 caller instead of terminating

---
 zpp_bits.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 286c00a..ffffe91 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2460,15 +2460,33 @@ public:
                 decltype(m_data) & data;
                 std::size_t & position;
                 std::size_t end;
-                constexpr ~guard()
+                bool returned = false;
+
+                constexpr void fit()
                 {
                     if (auto size = std::max(position, end);
                         size != data.size()) {
                         data.resize(size);
                     }
                 }
+
+                constexpr ~guard()
+                {
+#ifdef __cpp_exceptions
+                    if (!returned) [[unlikely]] {
+                        try {
+                            fit();
+                        } catch (...) {
+                            // The exception that is passing through wins.
+                        }
+                    }
+#endif
+                }
             } guard{m_data, m_position, m_data.size()};
-            return serialize_many(items...);
+            auto result = serialize_many(items...);
+            guard.returned = true;
+            guard.fit();
+            return result;
         } else {
             return serialize_many(items...);
         }
-- 
2.43.0


From d46ebcb785910e80b007426115befb944c19f081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 15/17] fix: Refuse a message that is longer than its size
 prefix can say

---
 zpp_bits.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index ffffe91..b6fc7c4 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2406,6 +2406,11 @@ protected:
                     }
                     m_position += move_ahead_count;
                 }
+            } else if (message_size !=
+                       static_cast<std::size_t>(
+                           static_cast<SizeType>(message_size)))
+                [[unlikely]] {
+                return std::errc::message_size;
             }
             return basic_out<
                 std::span<byte_type, sizeof(SizeType)>,
-- 
2.43.0


From 287b00691ebcaeb3975aeaea187a1cc8c20e9e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 16/17] fix: let the last entry of a protobuf map key count
 instead of the first

---
 zpp_bits.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index b6fc7c4..bb60c61 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5192,7 +5192,20 @@ struct pb
                 return result;
             }
 
-            item.emplace(std::move(object->key), std::move(object->value));
+            // The last entry of a key is the one that counts.
+            if constexpr (requires {
+                              item.insert_or_assign(
+                                  typename type::key_type(
+                                      std::move(object->key)),
+                                  std::move(object->value));
+                          }) {
+                item.insert_or_assign(
+                    typename type::key_type(std::move(object->key)),
+                    std::move(object->value));
+            } else {
+                item.emplace(std::move(object->key),
+                             std::move(object->value));
+            }
             return errc{};
         } else {
             using orig_value_type = typename type::value_type;
-- 
2.43.0


From 33cc8583cf38cf0a932bff7335ae62ce841225bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:51 +0000
Subject: [PATCH 17/17] fix: write empty elements of containers as nothing,
 like any empty object

The elements of a vector or an array of an empty type were copied as raw
bytes by archives of the native byte order: their padding went to the
wire, while archives of the other order and single objects wrote nothing.
---
 zpp_bits.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index bb60c61..63f14cd 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -1300,6 +1300,8 @@ constexpr auto access::byte_serializable()
 
     if constexpr (members_count < 0) {
         return false;
+    } else if constexpr (concepts::empty<type>) {
+        return false;
     } else if constexpr (!std::is_trivially_copyable_v<type>) {
         return false;
     } else if constexpr (has_explicit_serialize<type,
-- 
2.43.0

