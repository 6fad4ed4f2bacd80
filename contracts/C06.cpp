// Flags are sets of enumeration values.
// @configs cxx17 cxx20
#include "vc.hpp"
#include <NazaraUtils/Flags.hpp>

namespace
{
	// enumerations of every width of bit field; the last value sits on the boundary
	template<int N> struct Enums;
#define FLAGENUM(N, U) \
	enum class E##N : U { First = 0, Last = N - 1, Max = Last }; \
	constexpr bool EnableEnumAsNzFlags(E##N) { return true; }
	FLAGENUM(1, Nz::UInt8) FLAGENUM(3, int) FLAGENUM(8, Nz::UInt8) FLAGENUM(9, Nz::UInt16) FLAGENUM(16, int) FLAGENUM(17, int) FLAGENUM(31, int) FLAGENUM(32, Nz::UInt8) FLAGENUM(33, int) FLAGENUM(48, Nz::UInt64) FLAGENUM(63, Nz::Int8) FLAGENUM(64, int)

	// not an automatic flag: the values are already bits
	enum class M8 : Nz::UInt8 { A = 1, B = 2, C = 4, Count };
	constexpr bool EnableEnumAsNzFlags(M8) { return true; }
	constexpr bool EnableAutoFlagForNzFlags(M8) { return false; }
	enum class M64 : Nz::UInt64 { A = 1, Z = Nz::UInt64(1) << 40, Max = 40 };
	constexpr bool EnableEnumAsNzFlags(M64) { return true; }
	constexpr bool EnableAutoFlagForNzFlags(M64) { return false; }

	template<typename E> constexpr std::size_t count();
}
namespace Nz
{
	template<> struct EnumAsFlags<E1> { static constexpr E1 max = E1::Max; };
	template<> struct EnumAsFlags<E3> { static constexpr E3 max = E3::Max; };
	template<> struct EnumAsFlags<E8> { static constexpr E8 max = E8::Max; };
	template<> struct EnumAsFlags<E9> { static constexpr E9 max = E9::Max; };
	template<> struct EnumAsFlags<E16> { static constexpr E16 max = E16::Max; };
	template<> struct EnumAsFlags<E17> { static constexpr E17 max = E17::Max; };
	template<> struct EnumAsFlags<E31> { static constexpr E31 max = E31::Max; };
	template<> struct EnumAsFlags<E32> { static constexpr E32 max = E32::Max; };
	template<> struct EnumAsFlags<E33> { static constexpr E33 max = E33::Max; };
	template<> struct EnumAsFlags<E48> { static constexpr E48 max = E48::Max; };
	template<> struct EnumAsFlags<E63> { static constexpr E63 max = E63::Max; };
	template<> struct EnumAsFlags<E64> { static constexpr E64 max = E64::Max; };
	template<> struct EnumAsFlags<M64> { static constexpr M64 max = M64::Max; };
}

namespace
{
	template<typename E, std::size_t N> struct Ctx
	{
		using F = Nz::Flags<E>;
		using B = typename F::BitField;
		static constexpr B all = N == 64 ? static_cast<B>(~Nz::UInt64(0)) : static_cast<B>((Nz::UInt64(1) << (N % 64)) - 1);
		static bool has(F f, std::size_t k) { return ((static_cast<Nz::UInt64>(f) >> k) & 1) != 0; }
		// any set of values
		static F any(const char* n) { return F(static_cast<B>(vc::any<B>(n) & all)); }
		static E value(const char* n) { std::size_t k = vc::any<Nz::UInt8>(n); vc::requires_(k < N); return static_cast<E>(k); }
		static std::size_t index(E e) { return static_cast<Nz::UInt8>(e); }
	};

	template<typename E, std::size_t N> void values()
	{
		using C = Ctx<E, N>; using F = typename C::F; using B = typename C::B;
		static_assert(sizeof(B) * 8 >= N, "the bit field holds every value");
		E e = C::value("e");
		std::size_t k = vc::any<Nz::UInt8>("k");
		vc::requires_(k < N);
		VC_ENSURES(C::has(F(e), k) == (k == C::index(e)), "a flag built from a value contains only that value");
		VC_ENSURES(F::GetFlagValue(e) == static_cast<B>(F(e)), "GetFlagValue is the bit field of the value");
		VC_ENSURES((static_cast<Nz::UInt64>(F(e)) & ~Nz::UInt64(C::all)) == 0, "no bit outside of the enumeration");
		VC_ENSURES(!C::has(F(), k), "default flags are empty");
		VC_ENSURES(!bool(F()), "empty flags are false");
		E e2 = C::value("e2");
		VC_ENSURES((F(e) == F(e2)) == (e == e2), "distinct values have distinct flags");
		VC_ENSURES(C::has(e | e2, k) == (k == C::index(e) || k == C::index(e2)), "value | value");
		VC_ENSURES(C::has(e & e2, k) == (k == C::index(e) && k == C::index(e2)), "value & value");
		VC_ENSURES(C::has(e ^ e2, k) == ((k == C::index(e)) != (k == C::index(e2))), "value ^ value");
		VC_ENSURES(C::has(~e, k) == (k != C::index(e)), "~value");
		VC_ENSURES((static_cast<Nz::UInt64>(~e) & ~Nz::UInt64(C::all)) == 0, "the complement stays in the enumeration");
		F f = C::any("f");
		VC_ENSURES(C::has(e | f, k) == (k == C::index(e) || C::has(f, k)), "value | flags");
		VC_ENSURES(C::has(e & f, k) == (k == C::index(e) && C::has(f, k)), "value & flags");
		VC_ENSURES(C::has(e ^ f, k) == ((k == C::index(e)) != C::has(f, k)), "value ^ flags");
		VC_ENSURES(f.Test(e) == C::has(f, C::index(e)), "Test of a value is membership");
	}

	template<typename E, std::size_t N> void sets()
	{
		using C = Ctx<E, N>; using F = typename C::F; using B = typename C::B;
		F a = C::any("a"), b = C::any("b");
		const F oa = a, ob = b;
		std::size_t k = vc::any<Nz::UInt8>("k");
		vc::requires_(k < 64);
		bool ia = C::has(a, k), ib = C::has(b, k);
		VC_ENSURES(C::has(a | b, k) == (ia || ib), "union");
		VC_ENSURES(C::has(a & b, k) == (ia && ib), "intersection");
		VC_ENSURES(C::has(a ^ b, k) == (ia != ib), "symmetric difference");
		VC_ENSURES(C::has(~a, k) == (k < N && !ia), "complement within the enumeration");
		VC_ENSURES(a.Test(b) == ((static_cast<Nz::UInt64>(a) & static_cast<Nz::UInt64>(b)) == static_cast<Nz::UInt64>(b)), "Test is inclusion");
		if (a.Test(b)) VC_ENSURES(!ib || ia, "Test of a set implies membership of each element");
		VC_ENSURES(bool(a) == (static_cast<Nz::UInt64>(a) != 0), "true when not empty");
		VC_ENSURES((a == b) == (static_cast<Nz::UInt64>(a) == static_cast<Nz::UInt64>(b)), "equality");
		VC_ENSURES((a != b) == !(a == b), "inequality");
		VC_ENSURES(static_cast<B>(a) == static_cast<Nz::UInt64>(a), "conversions to integers agree");
		VC_ENSURES(F(static_cast<B>(a)) == a, "round trip through the bit field");
		std::size_t n = 0;
		for (std::size_t i = 0; i < N; ++i) n += C::has(a, i);
		VC_ENSURES(a.Count() == n && a.size() == n, "Count is the number of values");
		VC_ENSURES(std::hash<F>{}(a) == std::hash<B>{}(static_cast<B>(a)), "hash of the bit field");
		{ F c = a; F& r = (c |= b); VC_ENSURES(&r == &c && c == (oa | ob), "|= is the union"); }
		{ F c = a; F& r = (c &= b); VC_ENSURES(&r == &c && c == (oa & ob), "&= is the intersection"); }
		{ F c = a; F& r = (c ^= b); VC_ENSURES(&r == &c && c == (oa ^ ob), "^= is the symmetric difference"); }
		{ F c = a; c.Set(b); VC_ENSURES(c == (oa | ob), "Set adds"); }
		{ F c = a; c.Clear(b); VC_ENSURES(C::has(c, k) == (ia && !ib), "Clear of a set removes only it"); }
		{ F c = a; c.Clear(c); VC_ENSURES(!bool(c), "clearing itself empties"); }
		{ F c = a; c.Clear(); VC_ENSURES(!bool(c) && !C::has(c, k), "Clear empties"); }
		{ F c = a; c ^= c; VC_ENSURES(!bool(c), "xor with itself is empty"); }
		VC_ENSURES(a == oa && b == ob, "operands are unchanged");
	}

	// one step of the iteration from any state: designates the smallest value, which the increment removes
	template<typename E, std::size_t N, bool Auto> void iterate()
	{
		using F = Nz::Flags<E>; using B = typename F::BitField;
		F a(static_cast<B>(vc::any<B>("a") & (N == 64 ? static_cast<B>(~Nz::UInt64(0)) : static_cast<B>((Nz::UInt64(1) << (N % 64)) - 1))));
		Nz::UInt64 bits = static_cast<Nz::UInt64>(a);
		VC_ENSURES((a.begin() == a.end()) == (bits == 0), "iteration is over when no value remains");
		VC_ENSURES((a.begin() != a.end()) == (bits != 0), "iteration goes on while a value remains");
		vc::requires_(bits != 0);
		auto it = a.begin();
		E e = *it;
		Nz::UInt64 low = bits & (~bits + 1);
		if (Auto)
		{
			Nz::UInt64 v = static_cast<Nz::UInt64>(e) & 0xFF;
			VC_ENSURES(v < N && (Nz::UInt64(1) << (v & 63)) == low, "designates the smallest remaining value");
		}
		else
			VC_ENSURES(static_cast<Nz::UInt64>(e) == low, "designates the smallest remaining value");
		// the remaining flags after the step
		F rest(static_cast<B>(bits & ~low));
		auto copy = it;
		auto old = it++;
		VC_ENSURES(old == copy, "post-increment returns the previous position");
		VC_ENSURES(it == rest.begin(), "post-increment removes exactly the smallest value");
		auto& r = ++copy;
		VC_ENSURES(&r == &copy && copy == rest.begin(), "pre-increment removes exactly the smallest value");
		VC_ENSURES((it != rest.begin()) == false, "iterators at the same position are not different");
	}

	void masks()
	{
		using F = Nz::Flags<M8>;
		Nz::UInt8 v = vc::any<Nz::UInt8>("v");
		M8 e = static_cast<M8>(v);
		VC_ENSURES(F::GetFlagValue(e) == v, "without automatic flags the value is the bit field");
		F a(vc::any<Nz::UInt8>("a"));
		VC_ENSURES(static_cast<Nz::UInt8>(a | e) == (static_cast<Nz::UInt8>(a) | v), "flags | mask");
		VC_ENSURES(a.Test(e) == ((static_cast<Nz::UInt8>(a) & v) == v), "Test of a mask");
		using G = Nz::Flags<M64>;
		Nz::UInt64 w = vc::any<Nz::UInt64>("w");
		VC_ENSURES(G::GetFlagValue(static_cast<M64>(w)) == w, "a 64 bits value is kept");
	}
}

#define FLAGS(N) \
	VC_PROOF(Values_##N) { values<E##N, N>(); } \
	VC_PROOF(Sets_##N) { sets<E##N, N>(); } \
	VC_PROOF(Iterate_##N) { iterate<E##N, N, true>(); }
FLAGS(1) FLAGS(3) FLAGS(8) FLAGS(9) FLAGS(16) FLAGS(17) FLAGS(31) FLAGS(32) FLAGS(33) FLAGS(48) FLAGS(63) FLAGS(64)
VC_PROOF(Iterate_masks8) { iterate<M8, 3, false>(); }
VC_PROOF(Iterate_masks64) { iterate<M64, 41, false>(); }
VC_PROOF(Masks) { masks(); }

VC_MAIN
