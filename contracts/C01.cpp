// Bit primitives against mathematical definitions, every value of every width.
// @configs cxx17 cxx20 consteval17 consteval20
#include "vc.hpp"
#include <NazaraUtils/MathUtils.hpp>

namespace
{
	using namespace Nz;

	template<typename T> using U = std::make_unsigned_t<T>;
	template<typename T> constexpr unsigned W = sizeof(T) * 8;

	// ---- specification: position-wise definitions over the two's complement bit pattern
	template<typename T> bool bitAt(T v, unsigned i) { return (static_cast<std::uint64_t>(static_cast<U<T>>(v)) >> i) & 1u; }

	template<typename T> std::size_t specCount(T v)
	{
		std::size_t n = 0;
		for (unsigned i = 0; i < W<T>; ++i)
			n += bitAt(v, i) ? 1u : 0u;
		return n;
	}

	template<typename T> void countBits()
	{
		T x = vc::any<T>("x");
#ifdef VC_CONSTEVAL
		// Kernighan loop: bits counted so far + bits left == all bits
		vc::inductive();
		std::uint8_t total = vc::ghost<std::uint8_t>("total", [&] { return static_cast<std::uint8_t>(specCount(x)); });
		auto inv = [&](std::size_t done, std::uint64_t left) { return done <= W<T> && total <= W<T> && static_cast<std::uint8_t>(done + specCount(static_cast<T>(left))) == total; };
		vc::hint_acc(inv);
#endif
		std::size_t n = Nz::CountBits(x);
		VC_ENSURES(n == specCount(x), "CountBits is the number of 1 bits of the value's pattern");
	}

	template<typename T> void findFirst()
	{
		T x = vc::any<T>("x");
		unsigned r = Nz::FindFirstBit(x);
		VC_ENSURES(r <= W<T>, "FindFirstBit is at most the width");
		VC_ENSURES((r == 0) == (x == 0), "FindFirstBit is 0 only for 0");
		unsigned k = vc::any<std::uint8_t>("k");
		vc::requires_(k < W<T>);
		if (r != 0)
		{
			VC_ENSURES(bitAt(x, r - 1), "FindFirstBit designates a 1 bit");
			VC_ENSURES(!(k < r - 1) || !bitAt(x, k), "no 1 bit below FindFirstBit");
		}
	}

	template<typename T> void findLast()
	{
		T x = vc::any<T>("x");
		unsigned r = Nz::FindLastBit(x);
		VC_ENSURES(r <= W<T>, "FindLastBit is at most the width");
		VC_ENSURES((r == 0) == (x == 0), "FindLastBit is 0 only for 0");
		unsigned k = vc::any<std::uint8_t>("k");
		vc::requires_(k < W<T>);
		if (r != 0)
		{
			VC_ENSURES(r <= W<T> && bitAt(x, r - 1), "FindLastBit designates a 1 bit");
			VC_ENSURES(!(k >= r) || !bitAt(x, k), "no 1 bit above FindLastBit");
		}
	}

	template<typename T> void reverse()
	{
		T x = vc::any<T>("x");
		T r = Nz::ReverseBits(x);
		unsigned k = vc::any<std::uint8_t>("k");
		vc::requires_(k < W<T>);
		VC_ENSURES(bitAt(r, k) == bitAt(x, W<T> - 1 - k), "ReverseBits mirrors every bit");
		VC_ENSURES(Nz::ReverseBits(r) == x, "ReverseBits is an involution");
	}

	template<typename T> void singleBit()
	{
		T x = vc::any<T>("x");
		unsigned b = vc::any<std::uint8_t>("b");
		vc::requires_(b < W<T>);
		unsigned k = vc::any<std::uint8_t>("k");
		vc::requires_(k < W<T>);
		T s = Nz::SetBit(x, T(b)), c = Nz::ClearBit(x, T(b)), t = Nz::ToggleBit(x, T(b));
		VC_ENSURES(bitAt(s, k) == (k == b || bitAt(x, k)), "SetBit sets exactly that bit");
		VC_ENSURES(bitAt(c, k) == (k != b && bitAt(x, k)), "ClearBit clears exactly that bit");
		VC_ENSURES(bitAt(t, k) == ((k == b) != bitAt(x, k)), "ToggleBit flips exactly that bit");
		VC_ENSURES(Nz::TestBit(x, T(b)) == bitAt(x, b), "TestBit reads that bit");
	}

	template<typename T, typename S> void arithShift()
	{
		T x = vc::any<T>("x");
		unsigned s = vc::any<std::uint8_t>("s");
		vc::requires_(s < W<T>);
		T r = Nz::ArithmeticRightShift(x, S(s));
		unsigned k = vc::any<std::uint8_t>("k");
		vc::requires_(k < W<T>);
		bool sign = std::is_signed_v<T> && bitAt(x, W<T> - 1);
		VC_ENSURES(bitAt(r, k) == (k + s < W<T> ? bitAt(x, k + s) : sign), "ArithmeticRightShift replicates the sign bit");
	}
}

#define PER_TYPE(N, T) \
	VC_PROOF(CountBits_##N) { countBits<T>(); } \
	VC_PROOF(FindFirstBit_##N) { findFirst<T>(); } \
	VC_PROOF(FindLastBit_##N) { findLast<T>(); } \
	VC_PROOF(ReverseBits_##N) { reverse<T>(); } \
	VC_PROOF(SingleBit_##N) { singleBit<T>(); } \
	VC_PROOF(ArithShift_##N##_u) { arithShift<T, unsigned>(); } \
	VC_PROOF(ArithShift_##N##_i) { arithShift<T, int>(); } \
	VC_PROOF(ArithShift_##N##_z) { arithShift<T, std::size_t>(); }

PER_TYPE(u8, std::uint8_t)
PER_TYPE(u16, std::uint16_t)
PER_TYPE(u32, std::uint32_t)
PER_TYPE(u64, std::uint64_t)
PER_TYPE(ull, unsigned long long)
PER_TYPE(i8, std::int8_t)
PER_TYPE(i16, std::int16_t)
PER_TYPE(i32, std::int32_t)
PER_TYPE(i64, std::int64_t)

VC_MAIN
