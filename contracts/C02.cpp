// Byte order: swapping, host/big/little conversions, raw buffer reversal of any length.
// @configs cxx17 cxx20 consteval17 consteval20
#include "vc.hpp"
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/Endianness.hpp>

namespace
{
	template<typename T> unsigned char byteAt(const T& v, std::size_t i) { unsigned char b[sizeof(T)]; std::memcpy(b, &v, sizeof(T)); return b[i]; }
	template<typename T> bool sameBits(const T& a, const T& b) { bool r = true; for (std::size_t i = 0; i < sizeof(T); ++i) r = r & (byteAt(a, i) == byteAt(b, i)); return r; }

	// an arbitrary object representation of T (covers every bit pattern, NaN payloads included)
	template<typename T> T anyPattern(const char* name)
	{
		if constexpr (std::is_floating_point_v<T>)
		{
			using I = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
			I i = vc::any<I>(name);
			T v;
			std::memcpy(&v, &i, sizeof(T));
			return v;
		}
		else
			return vc::any<T>(name);
	}

	template<typename T> void byteSwap()
	{
		T x = anyPattern<T>("x");
		T r = Nz::ByteSwap(x);
		unsigned k = vc::any<std::uint8_t>("k");
		vc::requires_(k < sizeof(T));
		VC_ENSURES(byteAt(r, k) == byteAt(x, sizeof(T) - 1 - k), "ByteSwap reverses the bytes");
		T back = Nz::ByteSwap(r);
		VC_ENSURES(sameBits(back, x), "ByteSwap is an involution");
	}

	template<typename T> void hostOrder()
	{
		T x = anyPattern<T>("x");
		unsigned k = vc::any<std::uint8_t>("k");
		vc::requires_(k < sizeof(T));
		T be = Nz::HostToBigEndian(x), le = Nz::HostToLittleEndian(x);
		// most significant byte first / last, independently of the host: x's k-th least significant byte
		std::uint64_t bits = 0;
		std::memcpy(&bits, &x, sizeof(T));
		unsigned char kth = static_cast<unsigned char>(bits >> (8 * k));
		VC_ENSURES(byteAt(le, k) == kth, "little endian stores byte k of the value at offset k");
		VC_ENSURES(byteAt(be, sizeof(T) - 1 - k) == kth, "big endian stores byte k of the value at offset size-1-k");
		T b2 = Nz::BigEndianToHost(be), l2 = Nz::LittleEndianToHost(le);
		VC_ENSURES(sameBits(b2, x), "big endian round trip");
		VC_ENSURES(sameBits(l2, x), "little endian round trip");
	}
}

#define PER_TYPE(N, T) \
	VC_PROOF(ByteSwap_##N) { byteSwap<T>(); } \
	VC_PROOF(HostOrder_##N) { hostOrder<T>(); }

PER_TYPE(u8, std::uint8_t)
PER_TYPE(u16, std::uint16_t)
PER_TYPE(u32, std::uint32_t)
PER_TYPE(u64, std::uint64_t)
PER_TYPE(ull, unsigned long long)
PER_TYPE(i8, std::int8_t)
PER_TYPE(i16, std::int16_t)
PER_TYPE(i32, std::int32_t)
PER_TYPE(i64, std::int64_t)
PER_TYPE(c16, char16_t)
PER_TYPE(c32, char32_t)
#ifndef VC_CONSTEVAL
PER_TYPE(f32, float)
PER_TYPE(f64, double)
#endif

VC_PROOF(SwapBytes)
{
	std::size_t n = vc::size("n", std::size_t(1) << 40, 300);
	std::uint8_t* p = vc::mem<std::uint8_t>("p", n);
	std::size_t k = vc::any<std::size_t>("k");
	vc::requires_(k < n || n == 0);
	std::uint8_t at = n ? p[n - 1 - k] : 0, own = n ? p[k] : 0;
	vc::inductive();
	// the k-th byte is final once the loop has passed it from either side, untouched before
	auto fin = [&](std::size_t) { return n == 0 || p[k] == at; };
	auto mir = [&](std::size_t) { return n == 0 || p[n - 1 - k] == own; };
	auto keep = [&](std::size_t) { return n == 0 || p[k] == own; };
	auto keepm = [&](std::size_t) { return n == 0 || p[n - 1 - k] == at; };
	std::size_t lo = n && k < n - 1 - k ? k : (n ? n - 1 - k : 0);
	vc::hint_split(lo, fin); vc::hint_split(lo, mir); vc::hint_split(lo, keep); vc::hint_split(lo, keepm);
	Nz::SwapBytes(p, n);
	VC_ENSURES(n == 0 || p[k] == at, "SwapBytes reverses the buffer");
}

VC_MAIN
