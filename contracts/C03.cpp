// Integer math helpers against their mathematical definitions.
// @configs cxx17 cxx20 consteval17
#include "vc.hpp"
#include <NazaraUtils/MathUtils.hpp>

namespace
{
	template<typename T> constexpr unsigned W = sizeof(T) * 8;
	template<typename T> constexpr T TMax = std::numeric_limits<T>::max();
	// 2^k representable in T for k <= MaxPow<T>
	template<typename T> constexpr unsigned MaxPow = std::is_signed_v<T> ? W<T> - 2 : W<T> - 1;
	template<typename T> using U = std::make_unsigned_t<T>;

	template<typename T> bool oneBit(T v)
	{
		unsigned n = 0;
		for (unsigned i = 0; i < W<T>; ++i)
			n += (static_cast<std::uint64_t>(static_cast<U<T>>(v)) >> i) & 1u;
		return n == 1;
	}

	template<typename T> void align()
	{
		T o = vc::any<T>("offset"), a = vc::any<T>("alignment");
		vc::requires_(a > 0 && o >= 0 && o <= TMax<T> - (a - 1));
		T r = Nz::Align(o, a);
		VC_ENSURES(r >= o, "aligned offset is not below the offset");
		VC_ENSURES(r - o < a, "aligned offset is the first one");
		VC_ENSURES(r % a == 0, "aligned offset is a multiple of the alignment");
	}

	template<typename T> void alignPow2()
	{
		T o = vc::any<T>("offset");
		unsigned s = vc::any<std::uint8_t>("shift");
		vc::requires_(s <= MaxPow<T>);
		T a = static_cast<T>(T(1) << s);
		vc::requires_(o >= 0 && o <= TMax<T> - (a - 1));
		T r = Nz::AlignPow2(o, a);
		VC_ENSURES(r >= o, "aligned offset is not below the offset");
		VC_ENSURES(r - o < a, "aligned offset is the first one");
		VC_ENSURES((static_cast<U<T>>(r) & static_cast<U<T>>(a - 1)) == 0, "aligned offset is a multiple of the alignment");
	}

	template<typename T> void isPow2()
	{
		T v = vc::any<T>("v");
		vc::requires_(v > 0);
		VC_ENSURES(Nz::IsPow2(v) == oneBit(v), "IsPow2 holds exactly for powers of two");
	}

	template<typename T> void roundToPow2()
	{
		T v = vc::any<T>("v");
		vc::requires_(v > 0 && v <= static_cast<T>(T(1) << MaxPow<T>));
		T r = Nz::RoundToPow2(v);
		VC_ENSURES(oneBit(r) && r > 0, "the result is a power of two");
		VC_ENSURES(r >= v, "the result is not below the value");
		VC_ENSURES(r == 1 || static_cast<T>(r >> 1) < v, "the result is the first such power of two");
	}

	template<typename T> void nearestPow2()
	{
		T v = vc::any<T>("v");
		vc::requires_(v <= static_cast<T>(T(1) << MaxPow<T>));
		T r = Nz::GetNearestPowerOfTwo(v);
		VC_ENSURES(oneBit(r) && r > 0, "the result is a power of two");
		VC_ENSURES(r >= v, "the result contains the value");
		VC_ENSURES(r == 1 || static_cast<T>(r >> 1) < v, "the result is the first such power of two");
	}

	template<typename T> void log2()
	{
		T v = vc::any<T>("v");
		vc::requires_(v >= 0);
		unsigned r = Nz::IntegralLog2(v);
		VC_ENSURES(v != 0 || r == 0, "log2 of 0 is 0");
		VC_ENSURES(v == 0 || r < W<T>, "log2 is less than the width");
		VC_ENSURES(v == 0 || (static_cast<std::uint64_t>(v) >> (r & 63)) == 1, "log2 is the floor of the logarithm");
	}

	template<typename T> void log2Pot()
	{
		unsigned k = vc::any<std::uint8_t>("k");
		vc::requires_(k <= MaxPow<T>);
		VC_ENSURES(Nz::IntegralLog2Pot(static_cast<T>(T(1) << k)) == k, "log2 of 2^k is k");
		VC_ENSURES(Nz::IntegralLog2Pot(T(0)) == 0, "log2 of 0 is 0");
	}

	template<typename T> void clamp()
	{
		T v = vc::any<T>("v"), lo = vc::any<T>("lo"), hi = vc::any<T>("hi");
		vc::requires_(lo <= hi && v == v);
		T r = Nz::Clamp(v, lo, hi);
		VC_ENSURES(r >= lo && r <= hi, "the result is in the interval");
		VC_ENSURES(!(v >= lo && v <= hi) || r == v, "a value inside is unchanged");
		VC_ENSURES(!(v < lo) || r == lo, "a value below gives the minimum");
		VC_ENSURES(!(v > hi) || r == hi, "a value above gives the maximum");
	}

	template<typename T> void approach()
	{
		T v = vc::any<T>("v"), o = vc::any<T>("o"), inc = vc::any<T>("inc");
		vc::requires_(inc >= 0);
		T r = Nz::Approach(v, o, inc);
		VC_ENSURES(v <= o ? (r >= v && r <= o) : (r >= o && r <= v), "the result stays between the value and the objective");
		// distances as unsigned numbers
		U<T> before = v <= o ? static_cast<U<T>>(static_cast<U<T>>(o) - static_cast<U<T>>(v)) : static_cast<U<T>>(static_cast<U<T>>(v) - static_cast<U<T>>(o));
		U<T> after = v <= o ? static_cast<U<T>>(static_cast<U<T>>(o) - static_cast<U<T>>(r)) : static_cast<U<T>>(static_cast<U<T>>(r) - static_cast<U<T>>(o));
		VC_ENSURES(after == (before <= static_cast<U<T>>(inc) ? U<T>(0) : static_cast<U<T>>(before - static_cast<U<T>>(inc))), "one step of the increment, stopping at the objective");
	}

	template<typename T> void numberEquals()
	{
		T a = vc::any<T>("a"), b = vc::any<T>("b"), d = vc::any<T>("d");
		vc::requires_(d >= 0);
		U<T> dist = a >= b ? static_cast<U<T>>(static_cast<U<T>>(a) - static_cast<U<T>>(b)) : static_cast<U<T>>(static_cast<U<T>>(b) - static_cast<U<T>>(a));
		VC_ENSURES(Nz::NumberEquals(a, b, d) == (dist <= static_cast<U<T>>(d)), "equality within the difference");
		VC_ENSURES(Nz::NumberEquals(a, b) == (a == b), "exact equality by default");
	}

	template<typename T> void integralPow()
	{
		T b = vc::any<T>("base");
		unsigned n = static_cast<unsigned>(vc::size("exponent", 0xFFFFFFFFu, 70));
#ifdef VC_SYMBOLIC
		auto P = [&](std::size_t i) { return vc::spec<T>("pow", 0, b, i); };
		vc::inductive();
		vc::assume(P(0) == 1);
		auto def = [&](std::size_t i) { return P(i + 1) == static_cast<T>(P(i) * b); };
		auto inv = [&](std::size_t i, std::uint64_t r) { return static_cast<T>(r) == P(i); };
		vc::axiom(def);
		vc::hint_acc(inv);
		T expect = P(n);
#else
		T expect = 1;
		for (unsigned i = 0; i < n; ++i)
			expect = static_cast<T>(expect * b);
#endif
		VC_ENSURES(Nz::IntegralPow(b, n) == expect, "base^exponent (modulo 2^width)");
	}

	template<typename T> void mod()
	{
		T x = vc::any<T>("x"), y = vc::any<T>("y");
		vc::requires_(y != 0);
		if constexpr (std::is_signed_v<T>)
			vc::requires_(!(y == -1 && x == std::numeric_limits<T>::min()));
		VC_ENSURES(Nz::Mod(x, y) == static_cast<T>(x % y), "remainder of the division");
	}

	template<typename T, typename I> void classify()
	{
		constexpr unsigned mant = sizeof(T) == 4 ? 23 : 52;
		constexpr I expMask = sizeof(T) == 4 ? I(0xFF) : I(0x7FF);
		I bits = vc::any<I>("bits");
		T v;
		std::memcpy(&v, &bits, sizeof(T));
		bool special = ((bits >> mant) & expMask) == expMask, frac = (bits & ((I(1) << mant) - 1)) != 0;
		VC_ENSURES(Nz::IsFinite(v) == !special, "IsFinite: neither infinity nor NaN");
		VC_ENSURES(Nz::IsInfinity(v) == (special && !frac), "IsInfinity: either infinity");
		VC_ENSURES(Nz::IsNaN(v) == (special && frac), "IsNaN: not a number");
	}

	template<typename T> void numberEqualsFloat()
	{
		T a = vc::any<T>("a"), b = vc::any<T>("b"), d = vc::any<T>("d");
		vc::requires_(d >= 0 && a == a && b == b && a - a == 0 && b - b == 0);
#ifdef VC_CONSTEVAL
		T diff = b > a ? b - a : a - b;
#else
		T diff = std::abs(a - b);
#endif
		VC_ENSURES(Nz::NumberEquals(a, b, d) == (diff <= d), "equality within the difference");
		VC_ENSURES(Nz::NumberEquals(b, a, d) == (diff <= d), "symmetric");
	}
}

#define PER_TYPE(N, T) \
	VC_PROOF(Align_##N) { align<T>(); } \
	VC_PROOF(AlignPow2_##N) { alignPow2<T>(); } \
	VC_PROOF(IsPow2_##N) { isPow2<T>(); } \
	VC_PROOF(RoundToPow2_##N) { roundToPow2<T>(); } \
	VC_PROOF(GetNearestPowerOfTwo_##N) { nearestPow2<T>(); } \
	VC_PROOF(IntegralLog2_##N) { log2<T>(); } \
	VC_PROOF(IntegralLog2Pot_##N) { log2Pot<T>(); } \
	VC_PROOF(Clamp_##N) { clamp<T>(); } \
	VC_PROOF(NumberEquals_##N) { numberEquals<T>(); } \
	VC_PROOF(Mod_##N) { mod<T>(); }

PER_TYPE(u8, std::uint8_t)
PER_TYPE(u16, std::uint16_t)
PER_TYPE(u32, std::uint32_t)
PER_TYPE(u64, std::uint64_t)
PER_TYPE(i8, std::int8_t)
PER_TYPE(i16, std::int16_t)
PER_TYPE(i32, std::int32_t)
PER_TYPE(i64, std::int64_t)

VC_PROOF(Approach_u32) { approach<std::uint32_t>(); }
VC_PROOF(Approach_u64) { approach<std::uint64_t>(); }
VC_PROOF(Approach_i32) { approach<std::int32_t>(); }
VC_PROOF(Approach_i64) { approach<std::int64_t>(); }
VC_PROOF(IntegralPow_u8) { integralPow<std::uint8_t>(); }
VC_PROOF(IntegralPow_u32) { integralPow<std::uint32_t>(); }
VC_PROOF(IntegralPow_u64) { integralPow<std::uint64_t>(); }
VC_PROOF(Clamp_f32) { clamp<float>(); }
VC_PROOF(Clamp_f64) { clamp<double>(); }
VC_PROOF(Classify_f32) { classify<float, std::uint32_t>(); }
VC_PROOF(Classify_f64) { classify<double, std::uint64_t>(); }
VC_PROOF(NumberEquals_f32) { numberEqualsFloat<float>(); }
VC_PROOF(NumberEquals_f64) { numberEqualsFloat<double>(); }

VC_MAIN
