From 8fdba0859bf041a9475f595af17b3d7e2cabb466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 01/35] fix: BitStreamReader does not consume cached bits when
 reading past the end of the stream

A read rejected at the end of the stream advanced the bit position by the bits remaining in the cache
but left them in the cache, so that following reads returned wrong bits.
---
 runtime/src/zserio/BitStreamReader.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index b80d608..9bd9013 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -229,7 +229,7 @@ inline void throwEof()
 }
 
 /** Loads next 32/64 bits to 32/64 bit-cache. */
-inline void loadCacheNext(ReaderContext& ctx, uint8_t numBits)
+inline void loadCacheNext(ReaderContext& ctx)
 {
     static const uint8_t cacheBitSize = sizeof(BaseType) * 8;
 
@@ -247,11 +247,6 @@ inline void loadCacheNext(ReaderContext& ctx, uint8_t numBits)
     }
     else
     {
-        if (ctx.bitIndex + numBits > ctx.bufferBitSize)
-        {
-            throwEof();
-        }
-
         ctx.cacheNumBits = static_cast<uint8_t>(ctx.bufferBitSize - ctx.bitIndex);
 
         // buffer must be always available in full bytes, even if some last bits are not used
@@ -297,13 +292,19 @@ inline BaseType readUnsignedBitsImpl(ReaderContext& ctx, uint8_t numBits)
     BaseType value = 0;
     if (ctx.cacheNumBits < numBits)
     {
+        // check before anything is consumed, otherwise the bits remaining in the cache would be read again
+        if (ctx.bitIndex + numBits > ctx.bufferBitSize)
+        {
+            throwEof();
+        }
+
         // read all remaining cache bits
         value = ctx.cache & MASK_TABLE[ctx.cacheNumBits];
         ctx.bitIndex += ctx.cacheNumBits;
         numBits = static_cast<uint8_t>(numBits - ctx.cacheNumBits);
 
         // load next piece of buffer into cache
-        loadCacheNext(ctx, numBits);
+        loadCacheNext(ctx);
 
         // add the remaining bits to the result
         // if numBits is sizeof(BaseType) * 8 here, value is already 0 (see MASK_TABLE[0])
-- 
2.43.0


From 2e5b8cec97ccab4435bfe78fc12799482066fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 02/35] fix: alignTo works also for alignments bigger than 64
 bits

The number of bits to skip was truncated to 8 bits and then limited to 64.
---
 runtime/src/zserio/BitStreamReader.cpp | 8 ++++++--
 runtime/src/zserio/BitStreamWriter.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 9bd9013..2d16c67 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -866,8 +866,12 @@ void BitStreamReader::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        (void)readUnsignedBits64(skip);
+        size_t skip = alignment - offset;
+        for (; skip > 64; skip -= 64)
+        {
+            (void)readUnsignedBits64(64);
+        }
+        (void)readUnsignedBits64(static_cast<uint8_t>(skip));
     }
 }
 
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 78a8357..dbc5cfd 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -533,8 +533,12 @@ void BitStreamWriter::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        writeUnsignedBits64(0, skip);
+        size_t skip = alignment - offset;
+        for (; skip > 64; skip -= 64)
+        {
+            writeUnsignedBits64(0, 64);
+        }
+        writeUnsignedBits64(0, static_cast<uint8_t>(skip));
     }
 }
 
-- 
2.43.0


From 37392a5b2f2b03d51894fdd69e06379309d3c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 03/35] fix: BitStreamWriter does not write a part of a value
 which does not fit

Values of more than 32 bits are written in two parts, the first part was written even though the second one
was rejected because of insufficient capacity.
---
 runtime/src/zserio/BitStreamWriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index dbc5cfd..329854f 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -607,6 +607,10 @@ inline void BitStreamWriter::writeUnsignedBits64Impl(uint64_t data, uint8_t numB
     }
     else
     {
+        if (hasWriteBuffer())
+        {
+            checkCapacity(m_bitIndex + numBits); // don't write the first part when the second does not fit
+        }
         writeUnsignedBits32Impl(static_cast<uint32_t>(data >> 32U), static_cast<uint8_t>(numBits - 32));
         writeUnsignedBits32Impl(static_cast<uint32_t>(data), 32);
     }
-- 
2.43.0


From 0c11d7222598234001b45cc57c99b7fda8607506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 04/35] fix: conversion to float16 keeps infinities and NaNs
 apart

Finite numbers too big for float16 were converted to NaN (unless their significand was zero) and NaNs whose
payload is in the lower bits only were converted to infinity.
---
 runtime/src/zserio/FloatUtil.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/FloatUtil.cpp b/runtime/src/zserio/FloatUtil.cpp
index 116cbed..0d3c025 100644
--- a/runtime/src/zserio/FloatUtil.cpp
+++ b/runtime/src/zserio/FloatUtil.cpp
@@ -108,16 +108,21 @@ uint16_t convertFloatToUInt16(float float32)
     {
         // infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+        if (significand32 != 0 && significand16 == 0)
+        {
+            significand16 = 1; // NaN must stay NaN even if its payload does not fit
+        }
     }
     else
     {
         // normal number
         const int16_t signedExponent16 = static_cast<int16_t>(static_cast<int32_t>(exponent32) -
                 static_cast<int32_t>(FLOAT32_EXPONENT_BIAS) + static_cast<int32_t>(FLOAT16_EXPONENT_BIAS));
-        if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+        if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
         {
-            // exponent overflow, set infinity or NaN
+            // exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            significand16 = 0;
         }
         else if (signedExponent16 <= 0)
         {
-- 
2.43.0


From 45713eb99d4d50e8efdd63a341d682b7e3b47a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 05/35] fix: readVarSize rejects values which do not fit to 32
 bits

The upper 4 of 36 bits were lost before the range check, so that a too big value was read as another one.
---
 runtime/src/zserio/BitStreamReader.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 2d16c67..66ef243 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -810,14 +810,16 @@ VarSize BitStreamReader::readVarSize()
         return result;
     }
 
-    result = result << 8U | static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 5
-    if (result > VARSIZE_MAX_VALUE)
+    // 5 bytes can hold up to 36 bits
+    const uint64_t fullResult = static_cast<uint64_t>(result) << 8U |
+            static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 5
+    if (fullResult > VARSIZE_MAX_VALUE)
     {
         throw CppRuntimeException("BitStreamReader: Read value '")
-                << result << "' is out of range for varsize type!";
+                << fullResult << "' is out of range for varsize type!";
     }
 
-    return result;
+    return static_cast<uint32_t>(fullResult);
 }
 
 Float16 BitStreamReader::readFloat16()
-- 
2.43.0


From c11cba8e8e47a9e30deb00889244e7377c984486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 06/35] fix: bit buffers which differ only in trailing zero
 bits are ordered

---
 runtime/src/zserio/BitBuffer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 10c2ae2..29b8f34 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -407,6 +407,11 @@ bool BasicBitBuffer<ALLOC>::operator<(const BasicBitBuffer& other) const
         return false;
     }
 
+    if (first1 == last1 && first2 == last2)
+    {
+        return m_bitSize < other.m_bitSize; // the shorter one is a prefix of the longer one
+    }
+
     return (first1 == last1) && (first2 != last2);
 }
 
-- 
2.43.0


From 7d22bb5b80e6659cebe16f141555d1503153c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 07/35] fix: moved-from bit buffer is empty instead of having a
 size without bits

---
 runtime/src/zserio/BitBuffer.h | 49 ++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 29b8f34..c1a4c1d 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -6,6 +6,7 @@
 #include <functional>
 #include <string_view>
 #include <type_traits>
+#include <utility>
 #include <vector>
 
 #include "zserio/BitSize.h"
@@ -126,13 +127,27 @@ public:
 
     BasicBitBuffer(const BasicBitBuffer&) = default;
     BasicBitBuffer& operator=(const BasicBitBuffer&) = default;
-
-    BasicBitBuffer(BasicBitBuffer&&) = default;
-    BasicBitBuffer& operator=(BasicBitBuffer&&) = default;
     /**
      * \}
      */
 
+    /**
+     * Move constructor. The moved bit buffer becomes empty.
+     *
+     * \param other Bit buffer to move from.
+     */
+    BasicBitBuffer(BasicBitBuffer&& other) noexcept;
+
+    /**
+     * Move assignment operator. The moved bit buffer becomes empty.
+     *
+     * \param other Bit buffer to move from.
+     *
+     * \return Reference to this.
+     */
+    BasicBitBuffer& operator=(BasicBitBuffer&& other) noexcept(
+            std::is_nothrow_move_assignable_v<std::vector<uint8_t, ALLOC>>);
+
     /**
      * Equal operator.
      *
@@ -329,8 +344,32 @@ inline BasicBitBuffer<ALLOC>::BasicBitBuffer(const BasicBitBuffer& other, const
 template <typename ALLOC>
 inline BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other, const ALLOC& allocator) :
         m_buffer(std::move(other.m_buffer), allocator),
-        m_bitSize(other.m_bitSize)
-{}
+        m_bitSize(std::exchange(other.m_bitSize, 0))
+{
+    other.m_buffer.clear();
+}
+
+template <typename ALLOC>
+BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other) noexcept :
+        m_buffer(std::move(other.m_buffer)),
+        m_bitSize(std::exchange(other.m_bitSize, 0))
+{
+    other.m_buffer.clear();
+}
+
+template <typename ALLOC>
+BasicBitBuffer<ALLOC>& BasicBitBuffer<ALLOC>::operator=(BasicBitBuffer&& other) noexcept(
+        std::is_nothrow_move_assignable_v<std::vector<uint8_t, ALLOC>>)
+{
+    if (this != &other)
+    {
+        m_buffer = std::move(other.m_buffer);
+        m_bitSize = std::exchange(other.m_bitSize, 0);
+        other.m_buffer.clear();
+    }
+
+    return *this;
+}
 
 template <typename ALLOC>
 bool BasicBitBuffer<ALLOC>::operator==(const BasicBitBuffer& other) const
-- 
2.43.0


From 9af9cd8a053631d8dfa05c844753d6a635096868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 08/35] fix: initializeOffsets for bit buffers compiles

---
 runtime/src/zserio/BitBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index c1a4c1d..4929c1c 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -635,7 +635,7 @@ BitSize bitSizeOf(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize = 0)
 template <typename ALLOC>
 BitSize initializeOffsets(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize bitPosition)
 {
-    return bitSizeof(bitBufferView, bitPosition);
+    return bitSizeOf(bitBufferView, bitPosition);
 }
 
 } // namespace detail
-- 
2.43.0


From 70eef3f09f898c31a2344734c28986e2439593e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 09/35] fix: optional can be assigned from the value which it
 holds

---
 runtime/src/zserio/Optional.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Optional.h b/runtime/src/zserio/Optional.h
index fca44f8..bdc060a 100644
--- a/runtime/src/zserio/Optional.h
+++ b/runtime/src/zserio/Optional.h
@@ -350,7 +350,24 @@ public:
                     !(std::is_same_v<T, std::decay_t<U>> && std::is_scalar_v<U>)>* = nullptr>
     BasicOptional& operator=(U&& value)
     {
-        emplace(std::forward<U>(value));
+        if constexpr (detail::is_optional_heap_allocated_v<T>)
+        {
+            // the value might be a part of the currently held one
+            T* ptr = allocateValue(std::forward<U>(value));
+            clear();
+            m_data.emplace(ptr);
+        }
+        else
+        {
+            if constexpr (std::is_same_v<T, std::decay_t<U>>)
+            {
+                if (has_value() && std::addressof(value) == std::addressof(m_data.value()))
+                {
+                    return *this; // assignment of the currently held value
+                }
+            }
+            emplace(std::forward<U>(value));
+        }
         return *this;
     }
 
-- 
2.43.0


From 88a57d372917f30d3520e22847781d67f94b45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 10/35] fix: swap of any holders returns memory to the resource
 which it came from

---
 runtime/src/zserio/Any.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 4dbafd6..3d354e5 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -458,15 +458,18 @@ public:
         }
         else
         {
-            BasicAny tmp(std::move(*this), get_allocator_ref());
+            BasicAny tmp(std::move(*this));
+            // both holders are empty when their allocator is replaced
+            if constexpr (AllocTraits::propagate_on_container_swap::value)
+            {
+                set_allocator(other.get_allocator_ref());
+            }
             move(std::move(other));
-            other.move(std::move(tmp));
-
             if constexpr (AllocTraits::propagate_on_container_swap::value)
             {
-                using std::swap;
-                swap(get_allocator_ref(), other.get_allocator_ref());
+                other.set_allocator(tmp.get_allocator_ref());
             }
+            other.move(std::move(tmp));
         }
     }
 
-- 
2.43.0


From 4fd3973dfe8e97ffe529379015ef2c3ee0bac8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 11/35] fix: any holder does not leak nor keep a broken holder
 when copying or moving of the value throws

---
 runtime/src/zserio/Any.h | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 3d354e5..8ae7984 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -186,7 +186,15 @@ public:
     IHolder<ALLOC>* clone(const ALLOC& allocator) const override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(this->getHolder());
+        try
+        {
+            holder->setHolder(this->getHolder());
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -198,7 +206,15 @@ public:
     IHolder<ALLOC>* move(const ALLOC& allocator) override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(std::move(this->getHolder()));
+        try
+        {
+            holder->setHolder(std::move(this->getHolder()));
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -604,7 +620,15 @@ private:
     {
         if (other.m_isInPlace)
         {
-            other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            try
+            {
+                other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            }
+            catch (...)
+            {
+                m_untypedHolder.heap = nullptr; // the storage has been overwritten
+                throw;
+            }
             m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
-- 
2.43.0


From 52211c05341a6112948b80472706c0a6a9dc27e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 12/35] fix: any holder and variant are empty when construction
 of the value throws

---
 runtime/src/zserio/Any.h | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 8ae7984..846fafb 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -137,6 +137,11 @@ public:
         return m_typedHolder.value();
     }
 
+    bool hasValue() const noexcept
+    {
+        return m_typedHolder.has_value();
+    }
+
     bool isType(detail::TypeIdHolder::type_id typeId) const override
     {
         return detail::TypeIdHolder::get<T>() == typeId;
@@ -505,7 +510,16 @@ public:
     template <typename T>
     void set(T&& value)
     {
-        createHolder<typename std::decay<T>::type>()->set(std::forward<T>(value));
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            holder->set(std::forward<T>(value));
+        }
+        catch (...)
+        {
+            clearHolderWithoutValue(holder->hasValue());
+            throw;
+        }
     }
 
     /**
@@ -516,8 +530,16 @@ public:
     template <typename T, typename... ARGS>
     T& emplace(ARGS&&... args)
     {
-        return createHolder<typename std::decay<T>::type>()->construct(
-                get_allocator_ref(), std::forward<ARGS>(args)...);
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            return holder->construct(get_allocator_ref(), std::forward<ARGS>(args)...);
+        }
+        catch (...)
+        {
+            clearHolderWithoutValue(holder->hasValue());
+            throw;
+        }
     }
 
     /**
@@ -680,6 +702,14 @@ private:
         }
     }
 
+    void clearHolderWithoutValue(bool hasValue)
+    {
+        if (!hasValue)
+        {
+            clearHolder();
+        }
+    }
+
     bool hasHolder() const noexcept
     {
         return (m_isInPlace || m_untypedHolder.heap != nullptr);
-- 
2.43.0


From d2b186e09afc3b3779c56801175b6271be2a65d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 13/35] fix: valueless variants are equal to each other and
 have a hash code

---
 runtime/src/zserio/Variant.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/Variant.h b/runtime/src/zserio/Variant.h
index cca5caf..ca8fb26 100644
--- a/runtime/src/zserio/Variant.h
+++ b/runtime/src/zserio/Variant.h
@@ -423,6 +423,10 @@ public:
         {
             return false;
         }
+        if (valueless_by_exception())
+        {
+            return true;
+        }
 
         bool ret = false;
         detail::for_active_item_2<sizeof...(T)>(*this, other, [&ret](auto& elem1, auto& elem2) {
@@ -591,9 +595,12 @@ uint32_t calcHashCode(uint32_t seed, const BasicVariant<ALLOC, INDEX, T...>& var
 {
     uint32_t result = seed;
     result = calcHashCode(result, static_cast<size_t>(var.index()));
-    var.visit([&result](const auto& value) {
-        result = calcHashCode(result, value);
-    });
+    if (!var.valueless_by_exception())
+    {
+        var.visit([&result](const auto& value) {
+            result = calcHashCode(result, value);
+        });
+    }
     return result;
 }
 
-- 
2.43.0


From 8efa5c00b35bdfe9771d2a10de0e5f10359db940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 14/35] fix: variant swap which throws does not mix up the
 alternatives

---
 runtime/src/zserio/Variant.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Variant.h b/runtime/src/zserio/Variant.h
index ca8fb26..68b575c 100644
--- a/runtime/src/zserio/Variant.h
+++ b/runtime/src/zserio/Variant.h
@@ -346,8 +346,11 @@ public:
      */
     void swap(BasicVariant& other)
     {
+        // if the swap of data throws, this holds either the value of the other or nothing
+        const INDEX index = m_index;
+        m_index = other.m_index;
         m_data.swap(other.m_data);
-        std::swap(m_index, other.m_index);
+        other.m_index = index;
     }
 
     /**
-- 
2.43.0


From d3ee775e395c186b2d274401856f8d6b90d09240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 15/35] fix: copies and moves of any holder to another
 allocator use it for the value as well

---
 runtime/src/zserio/Any.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 846fafb..f102fd6 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -193,7 +193,8 @@ public:
         this_type* holder = create(allocator);
         try
         {
-            holder->setHolder(this->getHolder());
+            // the cloned value must use the given allocator as well
+            holder->construct(allocator, this->get());
         }
         catch (...)
         {
@@ -213,7 +214,8 @@ public:
         this_type* holder = create(allocator);
         try
         {
-            holder->setHolder(std::move(this->getHolder()));
+            // the moved value must use the given allocator as well
+            holder->construct(allocator, std::move(this->get()));
         }
         catch (...)
         {
-- 
2.43.0


From 2dad779b6a77b338078d81f2243bc5d48cf2be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 16/35] fix: offsets of arrays of dynamic bit fields can be
 initialized

---
 runtime/src/zserio/ArrayView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/ArrayView.h b/runtime/src/zserio/ArrayView.h
index a0b0405..9b3e603 100644
--- a/runtime/src/zserio/ArrayView.h
+++ b/runtime/src/zserio/ArrayView.h
@@ -563,7 +563,7 @@ BitSize initializeOffsets(const ArrayView<T, ARRAY_TRAITS>& array, BitSize bitPo
         }
 
         using AtResult = decltype(std::declval<const ArrayView<T, ARRAY_TRAITS>&>().at(std::declval<size_t>()));
-        if constexpr (std::is_same_v<View<ValueType>, AtResult>)
+        if constexpr (std::is_same_v<View<ValueType>, AtResult> && !is_dyn_int_wrapper_v<ValueType>)
         {
             endBitPosition += initializeOffsets(array[i], endBitPosition);
         }
@@ -752,7 +752,7 @@ BitSize initializeOffsetsPacked(const ArrayView<T, ARRAY_TRAITS>& array, BitSize
 
                 using AtResult =
                         decltype(std::declval<const ArrayView<T, ARRAY_TRAITS>&>().at(std::declval<size_t>()));
-                if constexpr (std::is_same_v<View<ValueType>, AtResult>)
+                if constexpr (std::is_same_v<View<ValueType>, AtResult> && !is_dyn_int_wrapper_v<ValueType>)
                 {
                     endBitPosition += initializeOffsets(context, array[i], endBitPosition);
                 }
-- 
2.43.0


From 836bc2f07988571c2d63820110cc2d2129a3495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:09 +0000
Subject: [PATCH 17/35] fix: texts of floats keep the sign, leading zeros
 behind the point and NaN

---
 runtime/src/zserio/StringConvertUtil.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/StringConvertUtil.h b/runtime/src/zserio/StringConvertUtil.h
index 221b0ef..9359b9d 100644
--- a/runtime/src/zserio/StringConvertUtil.h
+++ b/runtime/src/zserio/StringConvertUtil.h
@@ -120,7 +120,12 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
         std::array<char, 24>& floatingPartBuffer, float value, const char*& integerPartString,
         const char*& floatingPartString)
 {
-    if (value >= static_cast<float>(std::numeric_limits<int64_t>::max()))
+    if (value != value)
+    {
+        integerPartString = "NaN";
+        floatingPartString = nullptr;
+    }
+    else if (value >= static_cast<float>(std::numeric_limits<int64_t>::max()))
     {
         integerPartString = "+Inf";
         floatingPartString = nullptr;
@@ -136,8 +141,20 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
         const int64_t floatingPart =
                 static_cast<int64_t>((value - static_cast<float>(integerPart)) * 1e3F); // 3 digits
         const int64_t floatingPartAbs = (floatingPart < 0) ? 0 - floatingPart : floatingPart;
-        integerPartString = convertIntToString(integerPartBuffer, integerPart);
+        const uint64_t integerPartAbs = static_cast<uint64_t>((integerPart < 0) ? 0 - integerPart : integerPart);
+        // sign cannot be taken from the integer part which may be zero
+        integerPartString = detail::convertIntToString(integerPartBuffer, integerPartAbs, value < 0.0F);
         floatingPartString = convertIntToString(floatingPartBuffer, floatingPartAbs);
+        if (floatingPartAbs != 0)
+        {
+            // leading zeros of the floating part are significant
+            char* const floatingPartBegin = &floatingPartBuffer[floatingPartBuffer.size() - 4];
+            for (char* digit = floatingPartBegin; digit < floatingPartString; ++digit)
+            {
+                *digit = '0';
+            }
+            floatingPartString = floatingPartBegin;
+        }
     }
 }
 
-- 
2.43.0


From b57329d803d9c2343f06348d0a83888558519f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 18/35] fix: values which are no item of their enumeration are
 refused by validation

---
 runtime/src/zserio/Enums.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/Enums.h b/runtime/src/zserio/Enums.h
index bddc395..dd57864 100644
--- a/runtime/src/zserio/Enums.h
+++ b/runtime/src/zserio/Enums.h
@@ -104,6 +104,7 @@ template <typename T>
 std::enable_if_t<std::is_enum_v<T>> validate(T value, std::string_view fieldName)
 {
     validate(enumToValue(value), fieldName);
+    (void)enumToOrdinal(value); // throws if the value is not an item of the enumeration
 }
 
 template <typename T>
-- 
2.43.0


From 71918da4118425c0381614c630ba1c1f2384a565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 19/35] fix: zero and negative zero are equal and have the same
 hash code

---
 runtime/src/zserio/HashCodeUtil.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/HashCodeUtil.h b/runtime/src/zserio/HashCodeUtil.h
index 54726af..3dc5c57 100644
--- a/runtime/src/zserio/HashCodeUtil.h
+++ b/runtime/src/zserio/HashCodeUtil.h
@@ -75,7 +75,8 @@ inline typename std::enable_if<std::is_integral<T>::value && (sizeof(T) > 4), ui
  */
 inline uint32_t calcHashCode(uint32_t seedValue, float value)
 {
-    return calcHashCode(seedValue, convertFloatToUInt32(value));
+    // negative zero equals to zero and thus it must have the same hash code
+    return calcHashCode(seedValue, convertFloatToUInt32(value == 0.0F ? 0.0F : value));
 }
 
 /**
@@ -88,7 +89,8 @@ inline uint32_t calcHashCode(uint32_t seedValue, float value)
  */
 inline uint32_t calcHashCode(uint32_t seedValue, double value)
 {
-    return calcHashCode(seedValue, convertDoubleToUInt64(value));
+    // negative zero equals to zero and thus it must have the same hash code
+    return calcHashCode(seedValue, convertDoubleToUInt64(value == 0.0 ? 0.0 : value));
 }
 
 /**
-- 
2.43.0


From 3d48210963c075fa4d351812218319ce9ef2dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:03 +0000
Subject: [PATCH 20/35] fix: open files whose names are given by string views
 which are not zero terminated

---
 runtime/src/zserio/DebugStringUtil.h | 5 +++--
 runtime/src/zserio/FileUtil.cpp      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index 72b6c1e..8fdfbf8 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -15,6 +15,7 @@
 
 #include <fstream>
 #include <sstream>
+#include <string>
 #include <utility>
 
 #include "zserio/JsonReader.h"
@@ -58,7 +59,7 @@ template <typename T, typename WALK_FILTER, typename ALLOC>
 void toJsonFile(const T& object, std::string_view fileName, uint8_t indent, WALK_FILTER&& walkFilter,
         const ALLOC& allocator)
 {
-    std::ofstream stream = std::ofstream(fileName.data(), std::ios::out | std::ios::trunc);
+    std::ofstream stream = std::ofstream(std::string(fileName), std::ios::out | std::ios::trunc);
     if (!stream)
     {
         throw CppRuntimeException("DebugStringUtil.toJsonFile: Failed to open '") << fileName << "'!";
@@ -582,7 +583,7 @@ template <typename ALLOC = std::allocator<uint8_t>>
 typename detail::DebugStringTraits<ALLOC>::ReflectableDataPtr fromJsonFile(
         const IBasicTypeInfo<ALLOC>& typeInfo, std::string_view fileName, const ALLOC& allocator = ALLOC())
 {
-    std::ifstream is = std::ifstream(fileName.data());
+    std::ifstream is = std::ifstream(std::string(fileName));
     if (!is)
     {
         throw CppRuntimeException("DebugStringUtil.fromJsonFile: Failed to open '") << fileName << "'!";
diff --git a/runtime/src/zserio/FileUtil.cpp b/runtime/src/zserio/FileUtil.cpp
index 9bbc5f6..040f6a6 100644
--- a/runtime/src/zserio/FileUtil.cpp
+++ b/runtime/src/zserio/FileUtil.cpp
@@ -1,4 +1,5 @@
 #include <fstream>
+#include <string>
 #include <string_view>
 
 #include "zserio/CppRuntimeException.h"
@@ -9,7 +10,7 @@ namespace zserio
 
 void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::string_view fileName)
 {
-    std::ofstream stream(fileName.data(), std::ofstream::binary | std::ofstream::trunc);
+    std::ofstream stream(std::string(fileName), std::ofstream::binary | std::ofstream::trunc);
     if (!stream)
     {
         throw CppRuntimeException("writeBufferToFile: Failed to open '") << fileName << "' for writing!";
@@ -24,7 +25,7 @@ void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::stri
 
 BitBuffer readBufferFromFile(std::string_view fileName)
 {
-    std::ifstream stream(fileName.data(), std::ifstream::binary);
+    std::ifstream stream(std::string(fileName), std::ifstream::binary);
     if (!stream)
     {
         throw CppRuntimeException("readBufferFromFile: Cannot open '") << fileName << "' for reading!";
-- 
2.43.0


From 99fdce1264df1a4c2558ab7d214db379bec7e2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:03 +0000
Subject: [PATCH 21/35] fix: report files which could not be written completely

---
 runtime/src/zserio/DebugStringUtil.h | 2 +-
 runtime/src/zserio/FileUtil.cpp      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index 8fdfbf8..14cc7a3 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -67,7 +67,7 @@ void toJsonFile(const T& object, std::string_view fileName, uint8_t indent, WALK
 
     detail::toJsonStream(object, stream, indent, walkFilter, allocator);
 
-    if (!stream)
+    if (!stream.flush())
     {
         throw CppRuntimeException("DebugStringUtil.toJsonFile: Failed to write '") << fileName << "'!";
     }
diff --git a/runtime/src/zserio/FileUtil.cpp b/runtime/src/zserio/FileUtil.cpp
index 040f6a6..2e34388 100644
--- a/runtime/src/zserio/FileUtil.cpp
+++ b/runtime/src/zserio/FileUtil.cpp
@@ -17,7 +17,8 @@ void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::stri
     }
 
     const size_t byteSize = (bitSize + 7) / 8;
-    if (!stream.write(reinterpret_cast<const char*>(buffer), static_cast<std::streamsize>(byteSize)))
+    if (!stream.write(reinterpret_cast<const char*>(buffer), static_cast<std::streamsize>(byteSize)) ||
+            !stream.flush())
     {
         throw CppRuntimeException("writeBufferToFile: Failed to write '") << fileName << "'!";
     }
-- 
2.43.0


From 2e940370146e6219ddebb35bb644bde13caa3caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:03 +0000
Subject: [PATCH 22/35] fix: read files of 2^32-1 bytes

---
 runtime/src/zserio/FileUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/FileUtil.cpp b/runtime/src/zserio/FileUtil.cpp
index 2e34388..ed73c62 100644
--- a/runtime/src/zserio/FileUtil.cpp
+++ b/runtime/src/zserio/FileUtil.cpp
@@ -36,7 +36,7 @@ BitBuffer readBufferFromFile(std::string_view fileName)
     const std::streampos fileSize = stream.tellg();
     (void)stream.seekg(0);
 
-    if (static_cast<int>(fileSize) == -1)
+    if (fileSize == std::streampos(-1))
     {
         throw CppRuntimeException("readBufferFromFile: Failed to get file size of '") << fileName << "'!";
     }
-- 
2.43.0


From 756e219c14d9d6329c0f7684d06c7ad4b62350ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:03 +0000
Subject: [PATCH 23/35] fix: do not return the previous token for the last JSON
 value without a following character

---
 runtime/src/zserio/JsonTokenizer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index 7152934..39b3004 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -234,6 +234,7 @@ bool BasicJsonTokenizer<ALLOC>::decodeNext()
         m_decoderResult = m_decoder.decodeValue(std::string_view(m_content.data()).substr(m_pos));
         if (m_pos + m_decoderResult.numReadChars >= m_content.size())
         {
+            setToken(JsonToken::UNKNOWN); // the value can be the last one, the end of file is not reached yet
             return false; // we are at the end of chunk => read more
         }
 
-- 
2.43.0


From 88dee91cf627a2eaec0f304003d278ec638cbc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:03 +0000
Subject: [PATCH 24/35] fix: decode escaped solidus in JSON strings

---
 runtime/src/zserio/JsonDecoder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/JsonDecoder.h b/runtime/src/zserio/JsonDecoder.h
index 9b543a1..68f2df2 100644
--- a/runtime/src/zserio/JsonDecoder.h
+++ b/runtime/src/zserio/JsonDecoder.h
@@ -202,6 +202,7 @@ typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeS
             {
             case '\\':
             case '"':
+            case '/':
                 value.push_back(nextChar);
                 ++inputIt;
                 break;
-- 
2.43.0


From 7891643e58b748aed90ba0172e85a1378dabf5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:03 +0000
Subject: [PATCH 25/35] fix: decode JSON numbers only from the given characters

---
 runtime/src/zserio/JsonDecoder.h | 36 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/runtime/src/zserio/JsonDecoder.h b/runtime/src/zserio/JsonDecoder.h
index 68f2df2..35e5a8b 100644
--- a/runtime/src/zserio/JsonDecoder.h
+++ b/runtime/src/zserio/JsonDecoder.h
@@ -149,9 +149,9 @@ private:
     static int32_t decodeHex(char character);
     size_t checkNumber(std::string_view input, bool& isDouble, bool& isSigned);
     DecoderResult decodeNumber(std::string_view input);
-    DecoderResult decodeSigned(std::string_view input);
-    DecoderResult decodeUnsigned(std::string_view input);
-    DecoderResult decodeDouble(std::string_view input, size_t numChars);
+    DecoderResult decodeSigned(const char* number);
+    DecoderResult decodeUnsigned(const char* number);
+    DecoderResult decodeDouble(const char* number, size_t numChars);
 };
 
 template <typename ALLOC>
@@ -397,58 +397,58 @@ typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeN
         return DecoderResult(1, get_allocator());
     }
 
+    // the input does not have to be zero terminated and it can continue by any characters
+    const BasicString<RebindAlloc<ALLOC, char>> number(input.data(), numChars, get_allocator());
+
     // for decodeSigned and decodeUnsigned, we know that all numChars will be processed because checkNumber
     // already checked this
     if (isDouble)
     {
-        return decodeDouble(input, numChars);
+        return decodeDouble(number.c_str(), numChars);
     }
     else if (isSigned)
     {
-        return decodeSigned(input);
+        return decodeSigned(number.c_str());
     }
     else
     {
-        return decodeUnsigned(input);
+        return decodeUnsigned(number.c_str());
     }
 }
 
 template <typename ALLOC>
-typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeSigned(std::string_view input)
+typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeSigned(const char* number)
 {
-    const char* pBegin = &input.front();
     char* pEnd = nullptr;
     errno = 0; // no library function sets its value back to zero once changed
-    const int64_t value = std::strtoll(pBegin, &pEnd, 10);
+    const int64_t value = std::strtoll(number, &pEnd, 10);
 
     const bool overflow = (errno == ERANGE);
-    const size_t numRead = static_cast<size_t>(pEnd - pBegin);
+    const size_t numRead = static_cast<size_t>(pEnd - number);
 
     return DecoderResult(numRead, value, overflow, get_allocator());
 }
 
 template <typename ALLOC>
-typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeUnsigned(std::string_view input)
+typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeUnsigned(const char* number)
 {
-    const char* pBegin = &input.front();
     char* pEnd = nullptr;
     errno = 0; // no library function sets its value back to zero once changed
-    const uint64_t value = std::strtoull(pBegin, &pEnd, 10);
+    const uint64_t value = std::strtoull(number, &pEnd, 10);
 
     const bool overflow = (errno == ERANGE);
-    const size_t numRead = static_cast<size_t>(pEnd - pBegin);
+    const size_t numRead = static_cast<size_t>(pEnd - number);
 
     return DecoderResult(numRead, value, overflow, get_allocator());
 }
 
 template <typename ALLOC>
 typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeDouble(
-        std::string_view input, size_t numChars)
+        const char* number, size_t numChars)
 {
-    const char* pBegin = &input.front();
     char* pEnd = nullptr;
-    const double value = std::strtod(pBegin, &pEnd);
-    if (static_cast<size_t>(pEnd - pBegin) != numChars)
+    const double value = std::strtod(number, &pEnd);
+    if (static_cast<size_t>(pEnd - number) != numChars)
     {
         return DecoderResult(numChars, get_allocator());
     }
-- 
2.43.0


From f4c652fb65022c4c6d7541f937f06374a9f57cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:03 +0000
Subject: [PATCH 26/35] fix: encode floating point values to JSON without loss

---
 runtime/src/zserio/JsonEncoder.cpp | 32 +++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/JsonEncoder.cpp b/runtime/src/zserio/JsonEncoder.cpp
index 033230d..0089add 100644
--- a/runtime/src/zserio/JsonEncoder.cpp
+++ b/runtime/src/zserio/JsonEncoder.cpp
@@ -1,12 +1,42 @@
 #include <array>
 #include <cmath>
+#include <cstdio>
+#include <cstdlib>
+#include <cstring>
 #include <iomanip>
+#include <limits>
 
 #include "zserio/JsonEncoder.h"
 
 namespace zserio
 {
 
+namespace
+{
+
+// uses the lowest number of digits (at least 15) which is needed to get the same value after decoding
+std::array<char, 32> formatFloatingPoint(double value)
+{
+    std::array<char, 32> text{};
+    for (int precision = 15; precision <= std::numeric_limits<double>::max_digits10; ++precision)
+    {
+        (void)std::snprintf(text.data(), text.size(), "%.*g", precision, value);
+        if (std::strtod(text.data(), nullptr) == value)
+        {
+            break;
+        }
+    }
+
+    if (std::strpbrk(text.data(), ".e") == nullptr)
+    {
+        (void)std::strcat(text.data(), ".0"); // it must not look like an integer
+    }
+
+    return text;
+}
+
+} // namespace
+
 void JsonEncoder::encodeNull(std::ostream& stream)
 {
     stream << "null";
@@ -42,7 +72,7 @@ void JsonEncoder::encodeFloatingPoint(std::ostream& stream, double value)
         }
         else
         {
-            stream << std::setprecision(15) << value << std::defaultfloat;
+            stream << formatFloatingPoint(value).data();
         }
     }
 }
-- 
2.43.0


From 544e2d89c809e573db71a357282197e4ff4076b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:03 +0000
Subject: [PATCH 27/35] fix: enter arrays whose compound elements match the
 regular expression of the walk filter

---
 runtime/src/zserio/Walker.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Walker.h b/runtime/src/zserio/Walker.h
index 073baac..055f661 100644
--- a/runtime/src/zserio/Walker.h
+++ b/runtime/src/zserio/Walker.h
@@ -786,7 +786,8 @@ bool BasicRegexWalkFilter<ALLOC>::beforeArray(
         m_currentPath.back() =
                 toString(fieldInfo.schemaName, m_allocator) + "[" + toString(i, m_allocator) + "]";
 
-        if (matchSubtree(array->at(i), fieldInfo))
+        // the element itself or something within its subtree matches
+        if (std::regex_match(getCurrentPath(), m_pathRegex) || matchSubtree(array->at(i), fieldInfo))
         {
             return true;
         }
-- 
2.43.0


From 28bd074d0bdeabc5b9992e0e0104a788a2cf6cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:18 +0000
Subject: [PATCH 28/35] fix: refuse a null element of an array in the tree
 creator

---
 runtime/src/zserio/ZserioTreeCreator.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index 9384d00..593dd90 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -534,6 +534,15 @@ public:
     template <typename T>
     void addValueElement(T&& value);
 
+    /**
+     * Refuses null value, array elements cannot be null.
+     *
+     * \param nullValue Null value.
+     *
+     * \throw CppRuntimeException Always.
+     */
+    void addValueElement(std::nullptr_t nullValue);
+
     /**
      * Gets type info of the expected array element.
      *
@@ -804,6 +813,12 @@ void BasicZserioTreeCreator<ALLOC>::addValueElement(T&& value)
     m_valueStack.back()->append(makeAnyValue(fieldInfo.typeInfo, std::forward<T>(value)));
 }
 
+template <typename ALLOC>
+void BasicZserioTreeCreator<ALLOC>::addValueElement(std::nullptr_t)
+{
+    throw CppRuntimeException("ZserioTreeCreator: Cannot add null value element in state '") << m_state << "'!";
+}
+
 template <typename ALLOC>
 const IBasicTypeInfo<ALLOC>& BasicZserioTreeCreator<ALLOC>::getElementType() const
 {
-- 
2.43.0


From a1a04c5df4e1e4ced3735ad57432cfb3b5ef52b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:18 +0000
Subject: [PATCH 29/35] fix: forget the state of the previous object when
 reading the next one from JSON

---
 runtime/src/zserio/JsonReader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/zserio/JsonReader.h b/runtime/src/zserio/JsonReader.h
index b5114d8..dc6cfb5 100644
--- a/runtime/src/zserio/JsonReader.h
+++ b/runtime/src/zserio/JsonReader.h
@@ -497,6 +497,10 @@ template <typename ALLOC>
 void CreatorAdapter<ALLOC>::setType(const IBasicTypeInfo<ALLOC>& typeInfo)
 {
     m_creator = BasicZserioTreeCreator<ALLOC>(typeInfo, get_allocator());
+    // nothing can remain from the previous reading
+    m_keyStack.clear();
+    m_object.reset();
+    m_objectValueAdapter.reset();
 }
 
 template <typename ALLOC>
-- 
2.43.0


From ff50bf48356d4a763e76d9aaf02fe4b8b7b9c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:18 +0000
Subject: [PATCH 30/35] fix: compare large floating point values without
 overflow

---
 runtime/src/zserio/ReflectableUtil.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/ReflectableUtil.h b/runtime/src/zserio/ReflectableUtil.h
index eeecce0..41c7a9c 100644
--- a/runtime/src/zserio/ReflectableUtil.h
+++ b/runtime/src/zserio/ReflectableUtil.h
@@ -306,7 +306,9 @@ inline bool ReflectableUtil::doubleValuesAlmostEqual(double lhs, double rhs)
     }
 
     // see: https://en.cppreference.com/w/cpp/types/numeric_limits/epsilon
-    return std::fabs(lhs - rhs) <= std::numeric_limits<double>::epsilon() * std::fabs(lhs + rhs) ||
+    // note that the sum of the scaled values cannot overflow while sum of the values could
+    constexpr double epsilon = std::numeric_limits<double>::epsilon();
+    return std::fabs(lhs - rhs) <= std::fabs(epsilon * lhs + epsilon * rhs) ||
             std::fabs(lhs - rhs) < std::numeric_limits<double>::min();
 }
 
-- 
2.43.0


From fb5070dbd2aaef1da2f8bf10610f036d3b26bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 31/35] fix: refuse to start a transaction without a connection
 instead of crashing

---
 runtime/src/zserio/SqliteConnection.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/src/zserio/SqliteConnection.h b/runtime/src/zserio/SqliteConnection.h
index e44dd9b..e671a74 100644
--- a/runtime/src/zserio/SqliteConnection.h
+++ b/runtime/src/zserio/SqliteConnection.h
@@ -185,6 +185,12 @@ inline sqlite3_stmt* SqliteConnection::prepareStatement(std::string_view sqlQuer
 
 inline bool SqliteConnection::startTransaction()
 {
+    if (m_connection == nullptr)
+    {
+        throw SqliteException("SqliteConnection::startTransaction(): no connection: ")
+                << SqliteErrorCode(SQLITE_MISUSE);
+    }
+
     bool wasTransactionStarted = false;
     if (sqlite3_get_autocommit(m_connection) != 0)
     {
-- 
2.43.0


From 4863ea6e9a9f9c136ab1c096c01e018c593aa20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 32/35] fix: read texts with embedded null characters from
 SQLite columns completely

---
 runtime/src/zserio/SqliteUtil.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index 542f94f..24a78cb 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -129,7 +129,8 @@ void readColumn(
         BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>& column, sqlite3_stmt& stmt, int index)
 {
     const unsigned char* textValue = sqlite3_column_text(&stmt, index);
-    column.emplace(reinterpret_cast<const char*>(textValue));
+    const int textLength = sqlite3_column_bytes(&stmt, index);
+    column.emplace(reinterpret_cast<const char*>(textValue), static_cast<size_t>(textLength));
 }
 
 template <typename T>
-- 
2.43.0


From 313455116ad74d2aba184d6f02ed9f4b2b5346bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 33/35] fix: bind an empty string view without data to SQLite
 as text, not as NULL

---
 runtime/src/zserio/SqliteUtil.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index 24a78cb..7096560 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -202,7 +202,8 @@ int bindColumn(sqlite3_stmt& stmt, int index, FloatWrapper<VALUE_TYPE, FLOAT_TYP
 template <typename ALLOC>
 int bindColumn(sqlite3_stmt& stmt, int index, std::string_view value, BitSize, const ALLOC&)
 {
-    return sqlite3_bind_text(&stmt, index, value.data(), static_cast<int>(value.size()), SQLITE_TRANSIENT);
+    const char* textValue = value.empty() ? "" : value.data(); // null data would be bound as NULL
+    return sqlite3_bind_text(&stmt, index, textValue, static_cast<int>(value.size()), SQLITE_TRANSIENT);
 }
 
 } // namespace detail
-- 
2.43.0


From 5193a5c4edd011194307bf46cd22163810e883dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 34/35] fix: bind an object of no bits to SQLite as an empty
 blob, not as NULL

---
 runtime/src/zserio/SqliteUtil.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index 7096560..14683b5 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -152,6 +152,10 @@ int bindColumn(sqlite3_stmt& stmt, int index, const View<T>& view, BitSize bitSi
     BasicBitBuffer<ALLOC> bitBuffer(bitSize, allocator);
     BitStreamWriter writer(bitBuffer);
     write(writer, view);
+    if (bitBuffer.getByteSize() == 0)
+    {
+        return sqlite3_bind_zeroblob(&stmt, index, 0); // null data would be bound as NULL
+    }
     return sqlite3_bind_blob(
             &stmt, index, bitBuffer.getBuffer(), static_cast<int>(bitBuffer.getByteSize()), SQLITE_TRANSIENT);
 }
-- 
2.43.0


From 5678feb551e4b8412c3ba0a4e397ee0ec5735edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:43 +0000
Subject: [PATCH 35/35] fix: copies of introspectable service data refer to
 their own object

---
 runtime/src/zserio/IService.h | 48 +++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/runtime/src/zserio/IService.h b/runtime/src/zserio/IService.h
index ca7130a..b29a926 100644
--- a/runtime/src/zserio/IService.h
+++ b/runtime/src/zserio/IService.h
@@ -78,6 +78,47 @@ public:
             m_data(allocator)
     {}
 
+    /**
+     * Copying and moving.
+     *
+     * Note that the introspectable object refers to the object held and thus it cannot be taken over.
+     */
+    /** \{ */
+
+    BasicIntrospectableServiceData(const BasicIntrospectableServiceData& other) :
+            BasicIntrospectableServiceData(other.m_object, other.m_data.get_allocator())
+    {}
+
+    BasicIntrospectableServiceData(BasicIntrospectableServiceData&& other) :
+            BasicIntrospectableServiceData(std::move(other.m_object), other.m_data.get_allocator())
+    {}
+
+    BasicIntrospectableServiceData& operator=(const BasicIntrospectableServiceData& other)
+    {
+        if (this != &other)
+        {
+            m_object = other.m_object;
+            resetData();
+        }
+
+        return *this;
+    }
+
+    BasicIntrospectableServiceData& operator=(BasicIntrospectableServiceData&& other)
+    {
+        if (this != &other)
+        {
+            m_object = std::move(other.m_object);
+            resetData();
+        }
+
+        return *this;
+    }
+
+    /** \} */
+
+    ~BasicIntrospectableServiceData() override = default;
+
     IBasicIntrospectableViewConstPtr<ALLOC> getIntrospectable() const override
     {
         return m_introspectable;
@@ -99,6 +140,13 @@ public:
     }
 
 private:
+    void resetData()
+    {
+        const ALLOC allocator = m_data.get_allocator();
+        m_introspectable = introspectable(View(m_object), allocator);
+        m_data = BasicBitBuffer<ALLOC>(allocator);
+    }
+
     ZSERIO_OBJECT m_object;
     IBasicIntrospectableViewConstPtr<ALLOC> m_introspectable;
     mutable BasicBitBuffer<ALLOC> m_data;
-- 
2.43.0

