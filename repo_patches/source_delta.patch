From cb64ab8a9c086f5ddc7d0eb0e12672dc0cf5acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 01/44] fix: CountBits on negative integers (sign extension of
 narrow types, signed overflow in constant evaluation)

---
 include/NazaraUtils/MathUtils.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 87ec435..6ccb704 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -346,7 +346,7 @@ namespace Nz
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(unsigned int));
-				return __builtin_popcount(static_cast<unsigned int>(value));
+				return __builtin_popcount(static_cast<unsigned int>(value) & (~0u >> (BitCount<unsigned int> - BitCount<T>))); // discard sign extension
 			}
 #endif
 		}
@@ -355,7 +355,7 @@ namespace Nz
 		std::size_t count = 0;
 		while (value)
 		{
-			value &= value - 1;
+			value &= static_cast<T>(static_cast<unsigned long long>(value) - 1); // unsigned to prevent overflow on minimum value
 			count++;
 		}
 
-- 
2.43.0


From de774462e8997a6c3a2438fb9437865df4f3e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 02/44] fix: FindLastBit on negative 8/16 bits integers counted
 the sign extension

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 6ccb704..4ac8636 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -466,7 +466,7 @@ NAZARA_WARNING_POP()
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(int));
-				return BitCount<unsigned int> - __builtin_clz(static_cast<unsigned int>(number));
+				return BitCount<unsigned int> - __builtin_clz(static_cast<std::make_unsigned_t<T>>(number)); // unsigned to prevent sign extension
 			}
 #endif
 		}
-- 
2.43.0


From 0e85243e2ed2cfe68f878467464da47230f82395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:45 +0000
Subject: [PATCH 03/44] fix: SwapBytes on an empty buffer accessed memory out
 of bounds

---
 include/NazaraUtils/MathUtils.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 4ac8636..1cd8d01 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -534,6 +534,9 @@ NAZARA_WARNING_POP()
 	*/
 	inline void SwapBytes(void* buffer, std::size_t size) noexcept
 	{
+		if (size == 0)
+			return;
+
 		UInt8* bytes = static_cast<UInt8*>(buffer);
 		std::size_t i = 0;
 		std::size_t j = size - 1;
-- 
2.43.0


From 06c64ef49c0f1f4e878486e50462772ee492f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 04/44] fix: Align/AlignPow2 overflowed on signed offsets whose
 aligned value is representable

---
 include/NazaraUtils/MathUtils.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 1cd8d01..810fd47 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -594,7 +594,7 @@ NAZARA_WARNING_POP()
 	[[nodiscard]] constexpr T Align(T offset, T alignment) noexcept
 	{
 		NazaraAssert(alignment > 0);
-		return ((offset + alignment - 1) / alignment) * alignment;
+		return ((offset + (alignment - 1)) / alignment) * alignment;
 	}
 
 	/*!
@@ -613,7 +613,7 @@ NAZARA_WARNING_POP()
 	{
 		NazaraAssert(alignment > 0);
 		NazaraAssert(IsPow2(alignment));
-		return (offset + alignment - 1) & ~(alignment - 1);
+		return (offset + (alignment - 1)) & ~(alignment - 1);
 	}
 
 	/*!
-- 
2.43.0


From db31c615114d1a0baf4e4ef31716f522b6479576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 05/44] fix: IntegralLog2 of 64 bits integers whose high word
 is 1

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 810fd47..fb12cda 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -71,7 +71,7 @@ namespace Nz
 
 				// Call of the function with 32 bits number, if the result is non-null we have our answer
 				unsigned int log2 = IntegralLog2<UInt32>(static_cast<UInt32>(val));
-				if (log2)
+				if (log2 || val == 1)
 					return log2 + i * 8;
 			}
 
-- 
2.43.0


From cf0562a530f9c63618a94d258e225ca99465d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 06/44] fix: NumberEquals on Int8/Int16 compared a negative
 difference (integral promotion)

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index fb12cda..3de4aeb 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -138,7 +138,7 @@ namespace Nz
 				std::swap(a, b);
 
 			using UnsignedT = std::make_unsigned_t<T>;
-			return static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b) <= static_cast<UnsignedT>(maxDifference);
+			return static_cast<UnsignedT>(static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b)) <= static_cast<UnsignedT>(maxDifference);
 		}
 	}
 
-- 
2.43.0


From f5bd39c1819ffceaea023ce9c2029e6eb1ed28f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 07/44] fix: Approach went past the objective when the step
 overflowed/wrapped around

---
 include/NazaraUtils/MathUtils.inl | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 3de4aeb..e0c3644 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -628,7 +628,22 @@ NAZARA_WARNING_POP()
 	template<typename T>
 	[[nodiscard]] constexpr T Approach(T value, T objective, T increment) noexcept
 	{
-		if (value < objective)
+		if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>)
+		{
+			// Compare the increment with the (unsigned) distance to the objective to prevent overflows
+			using UnsignedT = std::make_unsigned_t<T>;
+			UnsignedT from = static_cast<UnsignedT>(value);
+			UnsignedT to = static_cast<UnsignedT>(objective);
+			UnsignedT step = static_cast<UnsignedT>(increment);
+
+			if (value < objective)
+				return (step < static_cast<UnsignedT>(to - from)) ? static_cast<T>(value + increment) : objective;
+			else if (value > objective)
+				return (step < static_cast<UnsignedT>(from - to)) ? static_cast<T>(value - increment) : objective;
+			else
+				return value;
+		}
+		else if (value < objective)
 			return std::min(value + increment, objective);
 		else if (value > objective)
 			return std::max(value - increment, objective);
-- 
2.43.0


From 744d55a941ed74a3f1b314cb7efa782f104904c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 08/44] fix: Bitset ordering with several blocks or different
 sizes

---
 include/NazaraUtils/Bitset.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 66a8c7a..25ba235 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1536,9 +1536,9 @@ namespace Nz
 		std::size_t minBlockCount = lesser.GetBlockCount();
 
 		// If the greatest bitset has a single bit active in a block outside the lesser bitset range, then it is greater
-		for (std::size_t i = maxBlockCount; i > minBlockCount; ++i)
+		for (std::size_t i = maxBlockCount; i > minBlockCount; --i)
 		{
-			if (greater.GetBlock(i))
+			if (greater.GetBlock(i - 1))
 				return lhs.GetBlockCount() < rhs.GetBlockCount();
 		}
 
@@ -1546,8 +1546,8 @@ namespace Nz
 		for (std::size_t i = 0; i < minBlockCount; ++i)
 		{
 			std::size_t index = (minBlockCount - i - 1); // Compare from the most significant block to the less significant block
-			if (lhs.GetBlock(index) < rhs.GetBlock(index))
-				return true;
+			if (lhs.GetBlock(index) != rhs.GetBlock(index))
+				return lhs.GetBlock(index) < rhs.GetBlock(index);
 		}
 
 		return false; // They are equal
-- 
2.43.0


From 9d01f41a21e2db402d657c935101574f4f9722d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 09/44] fix: Bitset::BitIterator post-increment did not advance
 the iterator

---
 include/NazaraUtils/Bitset.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 25ba235..56cc8ff 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1434,7 +1434,7 @@ namespace Nz
 	constexpr auto Bitset<Block, Container>::BitIterator::operator++(int) -> BitIterator
 	{
 		BitIterator copy(*this);
-		++copy;
+		++*this;
 		return copy;
 	}
 
-- 
2.43.0


From 4b2fe58146db198b1e19042af034c99dc3fcdeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 10/44] fix: Bitset::AppendBits kept bits past the end or lost
 the last block

---
 include/NazaraUtils/Bitset.inl | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 56cc8ff..466c93b 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -182,12 +182,11 @@ namespace Nz
 				bitCount -= bitsPerBlock;
 			}
 
-			// For the last iteration, mask out the bits we don't want
-			std::size_t remainingBits = bitCount;
-
-			bits &= ((Block(1U) << remainingBits) - 1U);
 			m_blocks.push_back(static_cast<Block>(bits));
 		}
+
+		// Mask out the bits we don't want
+		ResetExtraBits();
 	}
 
 	/*!
-- 
2.43.0


From 710376b4c24a0e67d01fcb3b1032ab65d747d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 11/44] fix: Bitset::Write of zero bits read a byte and skipped
 it

---
 include/NazaraUtils/Bitset.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 466c93b..10f24ba 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -367,6 +367,9 @@ namespace Nz
 		NazaraAssertMsg(sequence.first, "invalid pointer sequence");
 		NazaraAssertMsg(sequence.second < 8, "invalid next bit index (must be < 8)");
 
+		if (bitCount == 0)
+			return sequence;
+
 		std::size_t totalBitCount = sequence.second + bitCount;
 
 		const UInt8* u8Ptr = static_cast<const UInt8*>(sequence.first);
-- 
2.43.0


From a205ee3491c01ab6c2682cf9d3cabbead7351dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 12/44] fix: Bitset built from a negative number narrower than
 its blocks had bits past its end

---
 include/NazaraUtils/Bitset.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 10f24ba..4d156fe 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -125,6 +125,7 @@ namespace Nz
 		{
 			m_bitCount = BitCount<T>;
 			m_blocks.push_back(static_cast<Block>(value));
+			ResetExtraBits();
 		}
 		else
 		{
-- 
2.43.0


From 4d18adf3ba219f32887e2b8c09c77ecd02056794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 13/44] fix: Bitset moved from kept its size without its blocks

---
 include/NazaraUtils/Bitset.hpp |  4 ++--
 include/NazaraUtils/Bitset.inl | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Bitset.hpp b/include/NazaraUtils/Bitset.hpp
index d547ffd..ccffcbb 100644
--- a/include/NazaraUtils/Bitset.hpp
+++ b/include/NazaraUtils/Bitset.hpp
@@ -38,7 +38,7 @@ namespace Nz
 			constexpr explicit Bitset(const std::string_view& bits);
 			constexpr explicit Bitset(const std::string& bits);
 			template<typename T> constexpr Bitset(T value);
-			constexpr Bitset(Bitset&& bitset) noexcept = default;
+			constexpr Bitset(Bitset&& bitset) noexcept;
 			~Bitset() noexcept = default;
 
 			template<typename T> constexpr void AppendBits(T bits, std::size_t bitCount);
@@ -104,7 +104,7 @@ namespace Nz
 			constexpr Bitset& operator=(const Bitset& bitset) = default;
 			constexpr Bitset& operator=(const std::string_view& bits);
 			template<typename T> constexpr Bitset& operator=(T value);
-			constexpr Bitset& operator=(Bitset&& bitset) noexcept = default;
+			constexpr Bitset& operator=(Bitset&& bitset) noexcept;
 
 			constexpr Bitset operator<<(std::size_t pos) const;
 			constexpr Bitset& operator<<=(std::size_t pos);
diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 4d156fe..ecdc04f 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -138,6 +138,19 @@ namespace Nz
 		}
 	}
 
+	/*!
+	* \brief Constructs a Bitset by taking the bits of another one
+	*
+	* \param bitset Bitset to move from, which is left empty
+	*/
+	template<typename Block, typename Container>
+	constexpr Bitset<Block, Container>::Bitset(Bitset&& bitset) noexcept :
+	m_blocks(std::move(bitset.m_blocks)),
+	m_bitCount(bitset.m_bitCount)
+	{
+		bitset.Clear();
+	}
+
 	/*!
 	* \brief Appends bits to the bitset
 	*
@@ -1005,6 +1018,25 @@ namespace Nz
 		return *this;
 	}
 
+	/*!
+	* \brief Takes the bits of another bitset
+	* \return A reference to this
+	*
+	* \param bitset Bitset to move from, which is left empty
+	*/
+	template<typename Block, typename Container>
+	constexpr Bitset<Block, Container>& Bitset<Block, Container>::operator=(Bitset&& bitset) noexcept
+	{
+		if (this != &bitset)
+		{
+			m_blocks = std::move(bitset.m_blocks);
+			m_bitCount = bitset.m_bitCount;
+			bitset.Clear();
+		}
+
+		return *this;
+	}
+
 	/*!
 	* \brief Shift all the bits toward the left
 	*
-- 
2.43.0


From fff839fae3c32acd82e0c894cafe946f4db6f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 14/44] fix: FNV1a of strings sign-extended characters above
 127

---
 include/NazaraUtils/Hash.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Hash.inl b/include/NazaraUtils/Hash.inl
index 5414680..8f6d4f4 100644
--- a/include/NazaraUtils/Hash.inl
+++ b/include/NazaraUtils/Hash.inl
@@ -147,7 +147,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; str[i]; ++i)
 		{
-			hash ^= UInt32(str[i]);
+			hash ^= UInt32(UInt8(str[i]));
 			hash *= Detail::FNV1Prime_32;
 		}
 
@@ -160,7 +160,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; i < str.size(); ++i)
 		{
-			hash ^= UInt32(str[i]);
+			hash ^= UInt32(UInt8(str[i]));
 			hash *= Detail::FNV1Prime_32;
 		}
 
@@ -199,7 +199,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; str[i]; ++i)
 		{
-			hash ^= UInt64(str[i]);
+			hash ^= UInt64(UInt8(str[i]));
 			hash *= Detail::FNV1Prime_64;
 		}
 
@@ -212,7 +212,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; i < str.size(); ++i)
 		{
-			hash ^= UInt64(str[i]);
+			hash ^= UInt64(UInt8(str[i]));
 			hash *= Detail::FNV1Prime_64;
 		}
 
-- 
2.43.0


From 98dcaa8a895db997d4afc78f128911d6c5d849f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 15/44] fix: Flags of enumerations with more than 32 values
 shifted past the width of an int

---
 include/NazaraUtils/Flags.hpp | 2 +-
 include/NazaraUtils/Flags.inl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index a7b773a..27c2492 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -97,7 +97,7 @@ namespace Nz
 
 			static constexpr BitField GetFlagValue(E enumValue);
 
-			static constexpr BitField ValueMask = BitField((UInt64(1) << (MaxValue + 1)) - 1);
+			static constexpr BitField ValueMask = BitField((UInt64(2) << MaxValue) - 1);
 
 		private:
 			BitField m_value;
diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index 33632b0..df62a9b 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -283,7 +283,7 @@ namespace Nz
 	constexpr auto Flags<E>::GetFlagValue(E enumValue) -> BitField
 	{
 		if constexpr (AutoFlag)
-			return 1U << static_cast<BitField>(enumValue);
+			return static_cast<BitField>(BitField(1) << static_cast<BitField>(enumValue));
 		else
 			return static_cast<BitField>(enumValue);
 	}
@@ -332,7 +332,7 @@ namespace Nz
 		if constexpr (AutoFlag)
 			return static_cast<T>(bitIndex - 1);
 		else
-			return static_cast<T>(1U << ((bitIndex) - 1));
+			return static_cast<T>(BitField(1) << ((bitIndex) - 1));
 	}
 
 	/*!
-- 
2.43.0


From 661d86bfeeb2f9d309b3fc3681be1cffae6c98ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 16/44] fix: SparsePtr computed its offsets in the type of the
 index (wraparound, overflow)

---
 include/NazaraUtils/SparsePtr.inl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index e8d3d01..0111ea6 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -250,7 +250,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "index must be an integral type");
 
-		return *reinterpret_cast<T*>(m_ptr + index * m_stride);
+		return *reinterpret_cast<T*>(m_ptr + static_cast<std::ptrdiff_t>(index) * m_stride);
 	}
 
 	/*!
@@ -266,7 +266,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr + count * m_stride, m_stride);
+		return SparsePtr(m_ptr + static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -282,7 +282,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr - count * m_stride, m_stride);
+		return SparsePtr(m_ptr - static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -311,7 +311,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr += count * m_stride;
+		m_ptr += static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
@@ -321,7 +321,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr -= count * m_stride;
+		m_ptr -= static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
-- 
2.43.0


From 4c4cdf669d9d4bc53117f475e59b341c3e067316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 17/44] fix: SparsePtr conversion to a base type did not adjust
 the pointer

---
 include/NazaraUtils/SparsePtr.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index 0111ea6..44dbbbd 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -165,7 +165,7 @@ namespace Nz
 	{
 		static_assert(std::is_convertible<U*, T*>::value, "Source type pointer cannot be implicitly converted to target type pointer");
 
-		SetPtr(static_cast<T*>(ptr.GetPtr()));
+		SetPtr(static_cast<T*>(static_cast<U*>(ptr.GetPtr())));
 		SetStride(ptr.GetStride());
 	}
 
-- 
2.43.0


From a9ef3d27bcd5a3f5eed1051b495f280490886d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 18/44] fix: std::hash of Flags was not usable in a hashed
 container

---
 include/NazaraUtils/Flags.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index df62a9b..5b77e41 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -451,7 +451,7 @@ namespace std
 	template<typename E>
 	struct hash<Nz::Flags<E>>
 	{
-		std::size_t operator()(const Nz::Flags<E>& flags)
+		std::size_t operator()(const Nz::Flags<E>& flags) const
 		{
 			using UnderlyingType = typename Nz::Flags<E>::BitField;
 			using Hasher = hash<UnderlyingType>;
-- 
2.43.0


From 7cf063eaf3eb67913895f178aba38aeb172949ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 19/44] fix: SafeCast did not check lvalues

---
 include/NazaraUtils/Algorithm.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 7430b47..7bbf9f8 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -199,7 +199,14 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 	{
 #if defined(NAZARA_DEBUG) && !defined(NDEBUG)
 
-		if constexpr (std::is_integral_v<To>)
+		using ValueType = std::remove_cv_t<std::remove_reference_t<From>>;
+
+		if constexpr (std::is_reference_v<From> && !std::is_reference_v<To> && (std::is_arithmetic_v<ValueType> || std::is_enum_v<ValueType>))
+		{
+			// From is deduced as a reference for lvalues
+			return SafeCast<To>(static_cast<ValueType>(value));
+		}
+		else if constexpr (std::is_integral_v<To>)
 		{
 			if constexpr (std::is_enum_v<From>)
 			{
-- 
2.43.0


From 93158aa338c1100e6631749d924c03b29d9d9ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 20/44] fix: SafeCast did not detect signed values above the
 maximum of a narrower unsigned type

---
 include/NazaraUtils/Algorithm.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 7bbf9f8..ba6842d 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -221,7 +221,7 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			else if constexpr (std::is_integral_v<From>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<((!std::is_signed_v<From> && std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
+				using MaxValueType = std::conditional_t<((!std::is_signed_v<From> && std::is_signed_v<To>) || sizeof(From) > sizeof(To)), From, To>;
 				// Type capable of storing the smallest value between the two types
 				using MinValueType = std::conditional_t<((std::is_signed_v<From> && !std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
 
-- 
2.43.0


From f487f0bfbac9049a687b7e3fd9ad3ec195f0a5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 21/44] fix: SafeCast from floating-point values overflowed
 outside the range of long long or at the maximum

---
 include/NazaraUtils/Algorithm.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index ba6842d..19e4165 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -214,9 +214,10 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			}
 			else if constexpr (std::is_floating_point_v<From>)
 			{
-				NazaraAssert(static_cast<long long>(value) == value);
-				NazaraAssert(value <= static_cast<From>(std::numeric_limits<To>::max()));
+				// max() + 1 is a power of two, unlike max() it's always exactly representable
+				NazaraAssert(value < static_cast<From>(std::numeric_limits<To>::max() / 2 + 1) * 2);
 				NazaraAssert(value >= static_cast<From>(std::numeric_limits<To>::lowest()));
+				NazaraAssert(static_cast<From>(static_cast<To>(value)) == value);
 			}
 			else if constexpr (std::is_integral_v<From>)
 			{
-- 
2.43.0


From 8a9676a3a855d81eafd4755e3e389ce37082c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 22/44] fix: Result<void, E>: Err(lvalue) must copy the error,
 not move from it

---
 include/NazaraUtils/Result.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 92dae39..1558b21 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -278,7 +278,7 @@ namespace Nz
 	template<typename E>
 	template<typename T>
 	constexpr Result<void, E>::Result(ResultError<T> error) :
-	m_error(std::move(error.value))
+	m_error(std::forward<T>(error.value))
 	{
 	}
 
-- 
2.43.0


From 8448ac89ff61202a5d7ecfae8aaa2e99e584a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 23/44] fix: Result<void, E>: construct the error in place (no
 argument made it a value)

---
 include/NazaraUtils/Result.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 1558b21..ffaf208 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -290,7 +290,7 @@ namespace Nz
 	template<typename E>
 	template<typename... Args>
 	constexpr Result<void, E>::Result(ErrorTag, Args&&... args) :
-	m_error(std::forward<Args>(args)...)
+	m_error(std::in_place, std::forward<Args>(args)...)
 	{
 	}
 
-- 
2.43.0


From 68d7e9b54b06fe66a425a696a944bb3faec57c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 24/44] fix: MovableValue/MovableLiteral: assigning an lvalue
 must not move from it

---
 include/NazaraUtils/MovableValue.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MovableValue.inl b/include/NazaraUtils/MovableValue.inl
index 1093929..c84ec2f 100644
--- a/include/NazaraUtils/MovableValue.inl
+++ b/include/NazaraUtils/MovableValue.inl
@@ -66,7 +66,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableLiteral<T, DefaultValue>& MovableLiteral<T, DefaultValue>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
@@ -132,7 +132,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableValue<T>& MovableValue<T>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
-- 
2.43.0


From 3bca32f29f928a38c674d5b85a9b7815d12ad3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 25/44] fix: CallOnExit: a moved-from object must not call its
 function again

---
 include/NazaraUtils/CallOnExit.hpp |  2 +-
 include/NazaraUtils/CallOnExit.inl | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/CallOnExit.hpp b/include/NazaraUtils/CallOnExit.hpp
index d35a314..aed3e51 100644
--- a/include/NazaraUtils/CallOnExit.hpp
+++ b/include/NazaraUtils/CallOnExit.hpp
@@ -28,7 +28,7 @@ namespace Nz
 			void Reset();
 
 			CallOnExit& operator=(const CallOnExit&) = delete;
-			CallOnExit& operator=(CallOnExit&&) = default;
+			CallOnExit& operator=(CallOnExit&& callOnExit);
 
 		private:
 			std::optional<F> m_functor;
diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index f8f60a3..5c7cba6 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -55,5 +55,26 @@ namespace Nz
 	{
 		m_functor.reset();
 	}
+
+	/*!
+	* \brief Takes over the function of another object, which will no longer call it
+	*
+	* \param callOnExit Object to take the function from
+	*/
+	template<typename F>
+	CallOnExit<F>& CallOnExit<F>::operator=(CallOnExit&& callOnExit)
+	{
+		if (this != &callOnExit)
+		{
+			m_functor.reset();
+			if (callOnExit.m_functor)
+			{
+				m_functor.emplace(std::move(*callOnExit.m_functor));
+				callOnExit.m_functor.reset();
+			}
+		}
+
+		return *this;
+	}
 }
 
-- 
2.43.0


From 322cc597b8273ac13c05563fd54664555b147968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 26/44] fix: PrivateImpl: self-assignment must not copy from a
 destroyed object

---
 include/NazaraUtils/PrivateImpl.inl | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 849645c..31c45e6 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -91,8 +91,11 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(const PrivateImpl& pimpl) -> PrivateImpl&
 	{
-		PlacementDestroy(Get());
-		PlacementNew(Get(), *pimpl.Get());
+		if (this != &pimpl)
+		{
+			PlacementDestroy(Get());
+			PlacementNew(Get(), *pimpl.Get());
+		}
 
 		return *this;
 	}
@@ -100,8 +103,11 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(PrivateImpl&& pimpl) noexcept -> PrivateImpl&
 	{
-		PlacementDestroy(Get());
-		PlacementNew(Get(), std::move(*pimpl.Get()));
+		if (this != &pimpl)
+		{
+			PlacementDestroy(Get());
+			PlacementNew(Get(), std::move(*pimpl.Get()));
+		}
 
 		return *this;
 	}
@@ -234,8 +240,11 @@ namespace Nz
 		}
 		else
 		{
-			delete m_ptr;
-			m_ptr = new T(*pimpl);
+			if (this != &pimpl)
+			{
+				delete m_ptr;
+				m_ptr = new T(*pimpl);
+			}
 		}
 
 		return *this;
-- 
2.43.0


From ee47e73803bfda10d7e2e5bc8cd80978106756b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 27/44] fix: PrivateImpl: copying an empty object must not
 dereference a null pointer

---
 include/NazaraUtils/PrivateImpl.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 31c45e6..52f0c7c 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -137,7 +137,8 @@ namespace Nz
 	PrivateImpl<T, 0, Alignment>::PrivateImpl(const PrivateImpl& pimpl)
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy constructor has to be called in the source file");
-		m_ptr = new T(*pimpl);
+		if (pimpl.HasValue())
+			m_ptr = new T(*pimpl);
 	}
 
 	template<typename T, std::size_t Alignment>
@@ -231,6 +232,12 @@ namespace Nz
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy assignation operator has to be called in the source file");
 
+		if (!pimpl.HasValue())
+		{
+			Reset();
+			return *this;
+		}
+
 		if constexpr (std::is_copy_assignable_v<T>)
 		{
 			if (m_ptr)
-- 
2.43.0


From beff15ae134cb0077f8d59287e2d4731b790dcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 28/44] fix: EnumArrayKvIterator: it + n, it - n and n + it did
 not compile

---
 include/NazaraUtils/EnumArray.hpp | 4 ++--
 include/NazaraUtils/EnumArray.inl | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 387959c..6ae3c4e 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -76,8 +76,8 @@ namespace Nz
 			constexpr EnumArrayKvIterator operator--(int) noexcept;
 			constexpr EnumArrayKvIterator& operator--() noexcept;
 
-			constexpr EnumArrayKvIterator operator+(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
+			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
 
 			constexpr EnumArrayKvIterator operator+=(difference_type n) noexcept;
 			constexpr EnumArrayKvIterator operator-=(difference_type n) noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index d7bad3e..db4df3a 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -96,15 +96,15 @@ namespace Nz
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index + n);
+		return EnumArrayKvIterator(kv_tag{ m_array }, m_index + n);
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index - n);
+		return EnumArrayKvIterator(kv_tag{ m_array }, m_index - n);
 	}
 
 	template<typename E, typename V, bool Const>
-- 
2.43.0


From 7d80e48b3bcf9001f15eecb3fe53d3109ba77631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 29/44] fix: EnumArrayKvIterator: += and -= must return the
 iterator, not a copy

---
 include/NazaraUtils/EnumArray.hpp | 4 ++--
 include/NazaraUtils/EnumArray.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 6ae3c4e..5dc73ac 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -79,8 +79,8 @@ namespace Nz
 			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
 			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
 
-			constexpr EnumArrayKvIterator operator+=(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator+=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator-=(difference_type n) noexcept;
 
 			constexpr value_type operator*() const noexcept;
 			constexpr value_type operator[](difference_type n) const noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index db4df3a..c9638f0 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -108,14 +108,14 @@ namespace Nz
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index += n;
 		return *this;
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index -= n;
 		return *this;
-- 
2.43.0


From 174cbbcfb2b15442c4c4c5d47c9c4b1a8b943971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 30/44] fix: FixedVector: assigning a vector to itself emptied
 it

---
 include/NazaraUtils/FixedVector.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 16f10ca..cddda64 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -691,6 +691,9 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::operator=(const FixedVector& vec) -> FixedVector&
 	{
+		if (this == &vec)
+			return *this;
+
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			if (vec.IsUsingFallback())
-- 
2.43.0


From 6365e409ee1f999a6e144155c95a807f375df554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 31/44] fix: HybridVector: assigning a vector using its
 fallback leaked the inplace elements

---
 include/NazaraUtils/FixedVector.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index cddda64..deef1a1 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -698,6 +698,7 @@ namespace Nz
 		{
 			if (vec.IsUsingFallback())
 			{
+				clear();
 				Base::operator=(vec);
 				m_size = vec.m_size;
 				return *this;
@@ -721,6 +722,9 @@ namespace Nz
 			Base::operator=(std::move(vec));
 			if (vec.IsUsingFallback())
 			{
+				if (!IsUsingFallback())
+					clear();
+
 				m_size = vec.m_size;
 				return *this;
 			}
-- 
2.43.0


From 3fa3f030ed59564e38c5e6b5eb405239e3189eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 32/44] fix: HybridVector: push_back of a rvalue copied it in
 the fallback

---
 include/NazaraUtils/FixedVector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index deef1a1..94aff58 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -526,7 +526,7 @@ namespace Nz
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(value);
+				return *Base::EmplaceBackInFallback(std::move(value));
 		}
 
 		NazaraAssert(m_size < Capacity);
-- 
2.43.0


From f1976b43ebc89310f2c0d740820220308c805255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 33/44] fix: FixedVector: rbegin and rend did not compile on a
 const vector

---
 include/NazaraUtils/FixedVector.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 94aff58..9755224 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -647,7 +647,7 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::rbegin() const noexcept -> const_reverse_iterator
 	{
-		return reverse_iterator(iterator(data(size())));
+		return const_reverse_iterator(const_iterator(data(size())));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -659,7 +659,7 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::rend() const noexcept -> const_reverse_iterator
 	{
-		return reverse_iterator(iterator(data()));
+		return const_reverse_iterator(const_iterator(data()));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-- 
2.43.0


From 87a6e078ae3ac7b108af2def0ff1dd9d3baea383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 34/44] fix: FixedVector: erasing a range did not compile
 without a default constructor

---
 include/NazaraUtils/FixedVector.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 9755224..b415e2b 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -467,7 +467,11 @@ namespace Nz
 		std::size_t count = std::distance(first, last);
 
 		std::move(begin() + index + count, end(), begin() + index);
-		resize(size() - count);
+		// can't use resize; since it will try to instantiate the default-construction part (which won't compile for classes having no default constructor)
+		for (std::size_t i = m_size - count; i < m_size; ++i)
+			PlacementDestroy(data(i));
+
+		m_size -= count;
 
 		return iterator(data(index));
 	}
-- 
2.43.0


From 4b2dfbbbc65bd401588ceeb50e3d446688a853d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:57 +0000
Subject: [PATCH 35/44] fix: FixedVector: inserting or growing from an element
 of the vector itself used it after it was moved

---
 include/NazaraUtils/FixedVector.hpp |  1 -
 include/NazaraUtils/FixedVector.inl | 68 ++++++++++++-----------------
 2 files changed, 29 insertions(+), 40 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index 3d7489f..79d416a 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -119,7 +119,6 @@ namespace Nz
 			constexpr FixedVector& operator=(FixedVector&& vec) noexcept;
 
 		private:
-			constexpr bool CheckFallbackOnGrow();
 			constexpr bool IsUsingFallback() const;
 			constexpr void MoveStorageToFallback(std::size_t capacity);
 
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index b415e2b..7081944 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -367,13 +367,24 @@ namespace Nz
 
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (IsUsingFallback())
 				return Base::EmplaceInFallback(index, std::forward<Args>(args)...);
+
+			if (m_size >= Capacity)
+			{
+				// args may refer to an element of this vector, build the new element before moving them
+				T value(std::forward<Args>(args)...);
+				MoveStorageToFallback(m_size + 1);
+				return Base::EmplaceInFallback(index, std::move(value));
+			}
 		}
 
 		NazaraAssert(m_size < Capacity);
 		if (pos < end())
 		{
+			// args may refer to an element of this vector, build the new element before moving them
+			T value(std::forward<Args>(args)...);
+
 			iterator lastElement = end() - 1;
 			PlacementNew(data(m_size), std::move(*lastElement));
 
@@ -381,6 +392,9 @@ namespace Nz
 				std::move_backward(data(index), data(m_size - 1), data(m_size));
 
 			PlacementDestroy(data(index));
+			m_size++;
+
+			return PlacementNew(data(index), std::move(value));
 		}
 		m_size++;
 
@@ -393,8 +407,16 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (IsUsingFallback())
 				return *Base::EmplaceBackInFallback(std::forward<Args>(args)...);
+
+			if (m_size >= Capacity)
+			{
+				// args may refer to an element of this vector, build the new element before moving them
+				T value(std::forward<Args>(args)...);
+				MoveStorageToFallback(m_size + 1);
+				return *Base::EmplaceBackInFallback(std::move(value));
+			}
 		}
 
 		NazaraAssert(m_size < Capacity);
@@ -514,27 +536,13 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value) -> reference
 	{
-		if constexpr (!std::is_same_v<Fallback, void>)
-		{
-			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(value);
-		}
-
-		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), value);
+		return emplace_back(value);
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value) -> reference
 	{
-		if constexpr (!std::is_same_v<Fallback, void>)
-		{
-			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(std::move(value));
-		}
-
-		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::move(value));
+		return emplace_back(std::move(value));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -600,8 +608,10 @@ namespace Nz
 			}
 			else if (count > Capacity)
 			{
+				// value may refer to an element of this vector
+				T valueCopy(value);
 				MoveStorageToFallback(count);
-				Base::ResizeFallback(count, value);
+				Base::ResizeFallback(count, valueCopy);
 				return;
 			}
 		}
@@ -742,26 +752,6 @@ namespace Nz
 		return *this;
 	}
 
-	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr bool FixedVector<T, Capacity, Fallback>::CheckFallbackOnGrow()
-	{
-		if constexpr (!std::is_same_v<Fallback, void>)
-		{
-			if (IsUsingFallback())
-				return true;
-
-			if (m_size >= Capacity)
-			{
-				MoveStorageToFallback(m_size + 1);
-				return true;
-			}
-			else
-				return false;
-		}
-		else
-			return false;
-	}
-
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr bool FixedVector<T, Capacity, Fallback>::IsUsingFallback() const
 	{
-- 
2.43.0


From 08fa1f4d13219146aa872ab39254bf7776f2991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 36/44] fix: StackVector/StackArray: a moved-from container
 destroyed elements it does not have

---
 include/NazaraUtils/StackArray.hpp  |  4 ++--
 include/NazaraUtils/StackArray.inl  | 16 ++++++++++++++++
 include/NazaraUtils/StackVector.hpp |  4 ++--
 include/NazaraUtils/StackVector.inl | 18 ++++++++++++++++++
 4 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/StackArray.hpp b/include/NazaraUtils/StackArray.hpp
index 3654a89..d7add20 100644
--- a/include/NazaraUtils/StackArray.hpp
+++ b/include/NazaraUtils/StackArray.hpp
@@ -45,7 +45,7 @@ namespace Nz
 			StackArray(T* stackMemory, std::size_t size);
 			StackArray(T* stackMemory, std::size_t size, NoInitTag);
 			StackArray(const StackArray&) = delete;
-			StackArray(StackArray&&) = default;
+			StackArray(StackArray&& array) noexcept;
 			~StackArray();
 
 			reference back();
@@ -86,7 +86,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackArray& operator=(const StackArray&) = delete;
-			StackArray& operator=(StackArray&&) = default;
+			StackArray& operator=(StackArray&& array) noexcept;
 
 		private:
 			std::size_t m_size;
diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index d3bd353..b8c99cb 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -38,6 +38,13 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackArray<T>::StackArray(StackArray&& array) noexcept :
+	m_size(std::exchange(array.m_size, 0)),
+	m_ptr(std::move(array.m_ptr))
+	{
+	}
+
 	template<typename T>
 	StackArray<T>::~StackArray()
 	{
@@ -196,4 +203,13 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackArray<T>& StackArray<T>::operator=(StackArray&& array) noexcept
+	{
+		std::swap(m_size, array.m_size);
+		std::swap(m_ptr, array.m_ptr);
+
+		return *this;
+	}
 }
diff --git a/include/NazaraUtils/StackVector.hpp b/include/NazaraUtils/StackVector.hpp
index 2bf14a7..02c3b40 100644
--- a/include/NazaraUtils/StackVector.hpp
+++ b/include/NazaraUtils/StackVector.hpp
@@ -41,7 +41,7 @@ namespace Nz
 			StackVector();
 			StackVector(T* stackMemory, std::size_t capacity);
 			StackVector(const StackVector&) = delete;
-			StackVector(StackVector&&) noexcept = default;
+			StackVector(StackVector&& vec) noexcept;
 			~StackVector();
 
 			reference back();
@@ -104,7 +104,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackVector& operator=(const StackVector&) = delete;
-			StackVector& operator=(StackVector&&) noexcept = default;
+			StackVector& operator=(StackVector&& vec) noexcept;
 
 		private:
 			std::size_t m_capacity;
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 48b3502..4c99aee 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -31,6 +31,14 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackVector<T>::StackVector(StackVector&& vec) noexcept :
+	m_capacity(std::exchange(vec.m_capacity, 0)),
+	m_size(std::exchange(vec.m_size, 0)),
+	m_ptr(std::move(vec.m_ptr))
+	{
+	}
+
 	template<typename T>
 	StackVector<T>::~StackVector()
 	{
@@ -330,4 +338,14 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackVector<T>& StackVector<T>::operator=(StackVector&& vec) noexcept
+	{
+		std::swap(m_capacity, vec.m_capacity);
+		std::swap(m_size, vec.m_size);
+		std::swap(m_ptr, vec.m_ptr);
+
+		return *this;
+	}
 }
-- 
2.43.0


From 9c6b97621ec1c4864b8db1df647f80edf9d95a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 37/44] fix: StackVector did not compile with a type having no
 default constructor

---
 include/NazaraUtils/StackVector.inl | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 4c99aee..2b26e64 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -84,7 +84,11 @@ namespace Nz
 	template<typename T>
 	void StackVector<T>::clear() noexcept
 	{
-		resize(0);
+		// can't use resize(0); since it will try to instantiate the default-construction part (which won't compile for classes having no default constructor)
+		for (std::size_t i = 0; i < m_size; ++i)
+			PlacementDestroy(&m_ptr[i]);
+
+		m_size = 0;
 	}
 
 	template<typename T>
@@ -197,7 +201,10 @@ namespace Nz
 		std::size_t count = std::distance(first, last);
 
 		std::move(begin() + index + count, end(), begin() + index);
-		resize(size() - count);
+		for (std::size_t i = m_size - count; i < m_size; ++i)
+			PlacementDestroy(&m_ptr[i]);
+
+		m_size -= count;
 
 		return iterator(&m_ptr[index]);
 	}
-- 
2.43.0


From bd158f377c5e4519cd25e20c89fccbf753736ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 38/44] fix: StackVector: inserting an element of the vector
 itself used it after it was moved

---
 include/NazaraUtils/StackVector.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 2b26e64..e550ee4 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -137,6 +137,9 @@ namespace Nz
 		std::size_t index = std::distance(cbegin(), pos);
 		if (pos < end())
 		{
+			// args may refer to an element of this vector, build the new element before moving them
+			T value(std::forward<Args>(args)...);
+
 			iterator lastElement = end() - 1;
 			PlacementNew(&m_ptr[m_size], std::move(*lastElement));
 
@@ -144,6 +147,9 @@ namespace Nz
 				std::move_backward(&m_ptr[index], &m_ptr[m_size - 1], &m_ptr[m_size]);
 
 			PlacementDestroy(&m_ptr[index]);
+			m_size++;
+
+			return PlacementNew(&m_ptr[index], std::move(value));
 		}
 		m_size++;
 
-- 
2.43.0


From 5ea05b5772570cd4e4dc7477e057957ecce8fde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 39/44] fix: MemoryPool: Reset marked two entries instead of
 freeing all of them

---
 include/NazaraUtils/MemoryPool.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 2503503..5976a4d 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -230,8 +230,8 @@ namespace Nz
 				PlacementDestroy(entry);
 			}
 
-			block.freeEntries.Reset(true);
-			block.occupiedEntries.Reset(false);
+			block.freeEntries.Set(true);
+			block.occupiedEntries.Reset();
 			block.occupiedEntryCount = 0;
 		}
 	}
-- 
2.43.0


From 4d27fb3a21f0bf1850321fd718e340ff34be822a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 40/44] fix: MemoryPool: RetrieveEntryIndex ignored the
 alignment of the entries

---
 include/NazaraUtils/MemoryPool.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 5976a4d..ac6b72d 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -287,11 +287,12 @@ namespace Nz
 		for (; blockIndex < m_blocks.size(); ++blockIndex)
 		{
 			auto& block = m_blocks[blockIndex];
-			const T* startPtr = reinterpret_cast<const T*>(&block.memory[0]);
-			if (data >= startPtr && data < startPtr + m_blockSize)
+			const AlignedStorage* startPtr = &block.memory[0];
+			const AlignedStorage* dataPtr = reinterpret_cast<const AlignedStorage*>(data);
+			if (dataPtr >= startPtr && dataPtr < startPtr + m_blockSize)
 			{
 				// Part of block
-				localIndex = SafeCast<std::size_t>(data - startPtr);
+				localIndex = SafeCast<std::size_t>(dataPtr - startPtr);
 				assert(data == reinterpret_cast<const T*>(&block.memory[localIndex]));
 
 				break;
-- 
2.43.0


From 3c9099eb15499019a2873c9279c7eb1891e864ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 41/44] fix: MemoryPool: move assignment did not destroy the
 entries of the target

---
 include/NazaraUtils/MemoryPool.hpp |  2 +-
 include/NazaraUtils/MemoryPool.inl | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.hpp b/include/NazaraUtils/MemoryPool.hpp
index 79a8f2a..4c9bbc7 100644
--- a/include/NazaraUtils/MemoryPool.hpp
+++ b/include/NazaraUtils/MemoryPool.hpp
@@ -63,7 +63,7 @@ namespace Nz
 			std::size_t size();
 
 			MemoryPool& operator=(const MemoryPool&) = delete;
-			MemoryPool& operator=(MemoryPool&& pool) noexcept = default;
+			MemoryPool& operator=(MemoryPool&& pool) noexcept;
 
 			static constexpr DeferConstruct_t DeferConstruct = {};
 			static constexpr std::size_t InvalidIndex = std::numeric_limits<std::size_t>::max();
diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index ac6b72d..35d7f6c 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -351,6 +351,21 @@ namespace Nz
 		return GetAllocatedEntryCount();
 	}
 
+	template<typename T, std::size_t Alignment>
+	auto MemoryPool<T, Alignment>::operator=(MemoryPool&& pool) noexcept -> MemoryPool&
+	{
+		if (this != &pool)
+		{
+			// Destroy our own entries before losing track of them
+			Clear();
+
+			m_blockSize = pool.m_blockSize;
+			m_blocks = std::move(pool.m_blocks);
+		}
+
+		return *this;
+	}
+
 	template<typename T, std::size_t Alignment>
 	void MemoryPool<T, Alignment>::AllocateBlock()
 	{
-- 
2.43.0


From 7c5a955838d8a70a52add4c14bb56c120f8ea0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:54 +0000
Subject: [PATCH 42/44] fix: Signal: ConnectionGuard could not be assigned a
 temporary Connection

---
 include/NazaraUtils/Signal.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index f5803ee..0d6a161 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -451,7 +451,7 @@ namespace Nz
 	template<typename... Args>
 	typename Signal<Args...>::ConnectionGuard& Signal<Args...>::ConnectionGuard::operator=(Connection&& connection)
 	{
-		if (&connection != this)
+		if (&connection != &m_connection)
 		{
 			m_connection.Disconnect();
 			m_connection = std::move(connection);
-- 
2.43.0


From dddeff7264ee5d07f995192141e0b251a8883346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 43/44] fix: Signal: a signal moved from kept a null slot

---
 include/NazaraUtils/Signal.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index 0d6a161..b34ad0e 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -203,8 +203,13 @@ namespace Nz
 	template<typename... Args>
 	Signal<Args...>& Signal<Args...>::operator=(Signal&& signal) noexcept
 	{
+		if (this == &signal)
+			return *this;
+
 		m_slots = std::move(signal.m_slots);
 		m_slotIterator = signal.m_slotIterator;
+		signal.m_slots.clear(); //< inplace slots are moved one by one and leave null slots behind
+		signal.m_slotIterator = 0;
 
 		// We need to update the signal pointer inside of each slot
 		for (SlotPtr& slot : m_slots)
-- 
2.43.0


From d8fb283f9ec273579cb5bc958c03b95c015c8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 44/44] fix: Signal: a callback disconnecting its own slot was
 destroyed while running

---
 include/NazaraUtils/Signal.inl | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index b34ad0e..99cf557 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -52,6 +52,9 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::Clear()
 	{
+		for (SlotPtr& slot : m_slots)
+			slot->signal = nullptr; //< slots may outlive us when we are called from a callback
+
 		m_slots.clear();
 		m_slotIterator = 0;
 	}
@@ -179,7 +182,10 @@ namespace Nz
 	void Signal<Args...>::operator()(Args... args) const
 	{
 		for (m_slotIterator = 0; m_slotIterator < m_slots.size(); ++m_slotIterator)
-			m_slots[m_slotIterator]->callback(args...);
+		{
+			SlotPtr slot = m_slots[m_slotIterator]; //< the callback may disconnect its own slot, keep it alive until it returns
+			slot->callback(args...);
+		}
 	}
 
 	/*!
@@ -206,6 +212,7 @@ namespace Nz
 		if (this == &signal)
 			return *this;
 
+		Clear();
 		m_slots = std::move(signal.m_slots);
 		m_slotIterator = signal.m_slotIterator;
 		signal.m_slots.clear(); //< inplace slots are moved one by one and leave null slots behind
@@ -263,6 +270,8 @@ namespace Nz
 
 		// Pop the last entry (from where we moved our slot)
 		m_slots.pop_back();
+
+		slot->signal = nullptr;
 	}
 
 	/*!
@@ -315,7 +324,8 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::Connection::Disconnect() noexcept
 	{
-		if (SlotPtr ptr = m_ptr.lock())
+		SlotPtr ptr = m_ptr.lock();
+		if (ptr && ptr->signal)
 			ptr->signal->Disconnect(ptr);
 	}
 
@@ -327,7 +337,8 @@ namespace Nz
 	template<typename... Args>
 	bool Signal<Args...>::Connection::IsConnected() const
 	{
-		return !m_ptr.expired();
+		SlotPtr ptr = m_ptr.lock();
+		return ptr && ptr->signal;
 	}
 
 	/*!
-- 
2.43.0

