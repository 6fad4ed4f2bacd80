// Casts keep the value, or report that they cannot.
// @configs cxx17 cxx20 ndebug17
// @flags -DNAZARA_DEBUG
#include "vc.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <limits>
#include <memory>

namespace
{
#ifdef NDEBUG
	constexpr bool checked = false;
#else
	constexpr bool checked = true;
#endif

	// the mathematical value of v fits in To
	template<typename To, typename From> bool fits(From v)
	{
		using L = std::numeric_limits<To>;
		__int128 x = static_cast<__int128>(v);
		return x >= static_cast<__int128>(L::min()) && x <= static_cast<__int128>(L::max());
	}

	enum class Arg { RValue, LValue, ConstLValue, Caster };

	template<typename To, Arg A, typename From> To call(From v)
	{
		if constexpr (A == Arg::RValue) return Nz::SafeCast<To>(std::move(v));
		else if constexpr (A == Arg::LValue) return Nz::SafeCast<To>(v);
		else if constexpr (A == Arg::ConstLValue) return Nz::SafeCast<To>(std::as_const(v));
		else { To r = Nz::SafeCaster(v); return r; }
	}

	template<typename To, typename From, Arg A> void integer()
	{
		From v = vc::any<From>("v");
		if (fits<To>(v))
		{
			To r = call<To, A>(v);
			VC_ENSURES(static_cast<__int128>(r) == static_cast<__int128>(v), "a representable value is kept");
		}
		else if (checked)
		{
			vc::may_reject();
			(void) call<To, A>(v);
			VC_ENSURES(false, "a value that is not representable is reported in debug");
		}
	}

	template<typename To, typename From, Arg A> void floating()
	{
		From v = vc::any<From>("v");
		// 2^digits, exact in any floating-point type
		const From limit = static_cast<From>(std::numeric_limits<To>::max() / 2 + 1) * 2;
		const From low = std::numeric_limits<To>::is_signed ? -limit : From(0);
		bool range = v >= low && v < limit;
		bool exact = range && static_cast<From>(static_cast<To>(range ? v : From(0))) == v;
		if (exact)
		{
			To r = call<To, A>(v);
			VC_ENSURES(static_cast<From>(r) == v, "an integral value in range is kept");
		}
		else if (checked)
		{
			vc::may_reject();
			(void) call<To, A>(v);
			VC_ENSURES(false, "a fractional, out of range or NaN value is reported in debug");
		}
	}

	template<Arg A> void narrowFloat()
	{
		double v = vc::any<double>("v");
		constexpr double m = std::numeric_limits<float>::max();
		if (v >= -m && v <= m)
			VC_ENSURES((call<float, A>(v)) == static_cast<float>(v), "a double in range is rounded to a float");
		else if (checked)
		{
			vc::may_reject();
			(void) call<float, A>(v);
			VC_ENSURES(false, "a double out of the range of float is reported in debug");
		}
	}

	template<Arg A> void widenFloat()
	{
		float v = vc::any<float>("v");
		vc::requires_(v >= -std::numeric_limits<float>::max() && v <= std::numeric_limits<float>::max());
		VC_ENSURES((call<double, A>(v)) == static_cast<double>(v), "a finite float is kept");
	}

	enum class E8 : Nz::UInt8 {};
	enum class E16 : Nz::Int16 {};
	enum class E32 {};
	enum class E64 : Nz::UInt64 {};

	template<typename To, typename En, Arg A> void fromEnum()
	{
		using U = std::underlying_type_t<En>;
		U u = vc::any<U>("v");
		En v = static_cast<En>(u);
		VC_ENSURES(Nz::UnderlyingCast(v) == u, "UnderlyingCast gives the underlying value");
		static_assert(std::is_same_v<decltype(Nz::UnderlyingCast(v)), U>);
		if (fits<To>(u))
			VC_ENSURES(static_cast<__int128>(call<To, A>(v)) == static_cast<__int128>(u), "a representable enumeration value is kept");
		else if (checked)
		{
			vc::may_reject();
			(void) call<To, A>(v);
			VC_ENSURES(false, "an enumeration value that is not representable is reported in debug");
		}
	}

	template<typename En, typename From, Arg A> void toEnum()
	{
		using U = std::underlying_type_t<En>;
		From v = vc::any<From>("v");
		if (fits<U>(v))
			VC_ENSURES(static_cast<__int128>(static_cast<U>(call<En, A>(v))) == static_cast<__int128>(v), "an enumeration takes the representable value");
		else if (checked)
		{
			vc::may_reject();
			(void) call<En, A>(v);
			VC_ENSURES(false, "a value outside of the underlying type is reported in debug");
		}
	}

	template<typename A, typename B> void bitCast()
	{
		static_assert(sizeof(A) == sizeof(B));
		unsigned char* raw = vc::mem<unsigned char>("bytes", sizeof(A));
		A a;
		std::memcpy(&a, raw, sizeof(A));
		B b = Nz::BitCast<B>(a);
		A c = Nz::BitCast<A>(b);
		for (std::size_t i = 0; i < sizeof(A); ++i)
		{
			VC_ENSURES(reinterpret_cast<unsigned char*>(&b)[i] == raw[i], "every byte is kept");
			VC_ENSURES(reinterpret_cast<unsigned char*>(&c)[i] == raw[i], "the inverse cast restores the object");
		}
	}

	struct Pack { Nz::UInt16 a; Nz::UInt8 b, c; };
	struct Pair { Nz::UInt32 a; float b; };

	struct A1 { virtual ~A1() = default; int x = 1; };
	struct A2 { virtual ~A2() = default; int y = 2; };
	struct D : A1, A2 { int z = 3; };
}

#define INT1(To, N) \
	VC_PROOF(Int_##N##_rvalue) { integer<To, Nz::Int8, Arg::RValue>(); } \
	VC_PROOF(Int_i16_##N) { integer<To, Nz::Int16, Arg::LValue>(); } \
	VC_PROOF(Int_i32_##N) { integer<To, Nz::Int32, Arg::RValue>(); } \
	VC_PROOF(Int_i64_##N) { integer<To, Nz::Int64, Arg::ConstLValue>(); } \
	VC_PROOF(Int_u8_##N) { integer<To, Nz::UInt8, Arg::Caster>(); } \
	VC_PROOF(Int_u16_##N) { integer<To, Nz::UInt16, Arg::RValue>(); } \
	VC_PROOF(Int_u32_##N) { integer<To, Nz::UInt32, Arg::LValue>(); } \
	VC_PROOF(Int_u64_##N) { integer<To, Nz::UInt64, Arg::RValue>(); } \
	VC_PROOF(Int_i32_##N##_lvalue) { integer<To, Nz::Int32, Arg::LValue>(); } \
	VC_PROOF(Int_u64_##N##_caster) { integer<To, Nz::UInt64, Arg::Caster>(); } \
	VC_PROOF(Int_i64_##N##_rvalue) { integer<To, Nz::Int64, Arg::RValue>(); } \
	VC_PROOF(Float_##N) { floating<To, float, Arg::RValue>(); } \
	VC_PROOF(Double_##N) { floating<To, double, Arg::LValue>(); } \
	VC_PROOF(Enum8_##N) { fromEnum<To, E8, Arg::RValue>(); } \
	VC_PROOF(Enum16_##N) { fromEnum<To, E16, Arg::LValue>(); } \
	VC_PROOF(Enum32_##N) { fromEnum<To, E32, Arg::ConstLValue>(); } \
	VC_PROOF(Enum64_##N) { fromEnum<To, E64, Arg::Caster>(); } \
	VC_PROOF(ToEnum8_##N) { toEnum<E8, To, Arg::RValue>(); } \
	VC_PROOF(ToEnum16_##N) { toEnum<E16, To, Arg::LValue>(); } \
	VC_PROOF(ToEnum32_##N) { toEnum<E32, To, Arg::ConstLValue>(); } \
	VC_PROOF(ToEnum64_##N) { toEnum<E64, To, Arg::RValue>(); }
INT1(Nz::Int8, i8) INT1(Nz::Int16, i16) INT1(Nz::Int32, i32) INT1(Nz::Int64, i64)
INT1(Nz::UInt8, u8) INT1(Nz::UInt16, u16) INT1(Nz::UInt32, u32) INT1(Nz::UInt64, u64)

VC_PROOF(NarrowFloat_rvalue) { narrowFloat<Arg::RValue>(); }
VC_PROOF(NarrowFloat_lvalue) { narrowFloat<Arg::LValue>(); }
VC_PROOF(WidenFloat_rvalue) { widenFloat<Arg::RValue>(); }
VC_PROOF(WidenFloat_lvalue) { widenFloat<Arg::LValue>(); }

VC_PROOF(BitCast_float_u32) { bitCast<float, Nz::UInt32>(); }
VC_PROOF(BitCast_double_u64) { bitCast<double, Nz::UInt64>(); }
VC_PROOF(BitCast_i64_double) { bitCast<Nz::Int64, double>(); }
VC_PROOF(BitCast_pack_u32) { bitCast<Pack, Nz::UInt32>(); }
VC_PROOF(BitCast_pair_i64) { bitCast<Pair, Nz::Int64>(); }

VC_PROOF(PointerRoundTrip)
{
	std::size_t n = vc::size("n", 1000000, 40);
	std::size_t i = vc::range<std::size_t>("i", 0, 1000000);
	vc::requires_(i <= n);
	Nz::UInt32* p = vc::mem<Nz::UInt32>("p", n) + i;
	auto v = Nz::PointerToInteger<Nz::UInt64>(p);
	VC_ENSURES(v == reinterpret_cast<std::uintptr_t>(p), "PointerToInteger gives the address");
	VC_ENSURES(Nz::IntegerToPointer<Nz::UInt32*>(v) == p, "IntegerToPointer gives the pointer back");
	VC_ENSURES(Nz::IntegerToPointer<const Nz::UInt32*>(v) == p, "IntegerToPointer gives the pointer back as const");
	VC_ENSURES(*&*Nz::IntegerToPointer<Nz::UInt32*>(Nz::PointerToInteger<std::uintptr_t>(&i)) == Nz::UInt32(i), "the pointer designates the object");
	Nz::UInt32* null = nullptr;
	VC_ENSURES(Nz::PointerToInteger<Nz::UInt64>(null) == 0, "null is zero");
	VC_ENSURES(Nz::IntegerToPointer<void*>(Nz::UInt8(0)) == nullptr, "zero is null");
}

VC_PROOF(IntegerRoundTrip)
{
	Nz::UInt64 v = vc::any<Nz::UInt64>("v");
	void* p = Nz::IntegerToPointer<void*>(v);
	VC_ENSURES(Nz::PointerToInteger<Nz::UInt64>(p) == v, "the integer is restored");
	Nz::UInt32 w = vc::any<Nz::UInt32>("w");
	VC_ENSURES(Nz::PointerToInteger<Nz::UInt64>(Nz::IntegerToPointer<char*>(w)) == w, "a narrow integer is zero-extended");
	if (v <= 0xFFFFFFFFu)
		VC_ENSURES(Nz::PointerToInteger<Nz::UInt32>(p) == v, "a low address fits in 32 bits");
	else if (checked)
	{
		vc::may_reject();
		(void) Nz::PointerToInteger<Nz::UInt32>(p);
		VC_ENSURES(false, "an address that does not fit is reported in debug");
	}
}

VC_PROOF(NegativeIntegerToPointer)
{
	Nz::Int32 v = vc::any<Nz::Int32>("v");
	if (v >= 0)
		VC_ENSURES(Nz::PointerToInteger<Nz::UInt64>(Nz::IntegerToPointer<void*>(v)) == Nz::UInt64(v), "the integer is restored");
	else if (checked)
	{
		vc::may_reject();
		(void) Nz::IntegerToPointer<void*>(v);
		VC_ENSURES(false, "a negative address is reported in debug");
	}
}

VC_PROOF(AccessByOffset)
{
	std::size_t n = vc::size("n", 1000000, 64);
	std::size_t off = vc::any<std::size_t>("offset");
	vc::requires_(off < n);
	Nz::UInt8* p = vc::mem<Nz::UInt8>("p", n);
	Nz::UInt8& r = Nz::AccessByOffset<Nz::UInt8&>(static_cast<void*>(p), off);
	VC_ENSURES(&r == p + off, "the reference designates the byte at the offset");
	VC_ENSURES(Nz::AccessByOffset<Nz::UInt8*>(static_cast<void*>(p), off) == p + off, "the pointer is at the offset");
	const void* c = p;
	VC_ENSURES(&Nz::AccessByOffset<const Nz::UInt8&>(c, off) == p + off, "the const reference designates the byte at the offset");
	VC_ENSURES(Nz::AccessByOffset<const Nz::UInt8*>(c, off) == p + off, "the const pointer is at the offset");
	Nz::UInt8 v = vc::any<Nz::UInt8>("v");
	r = v;
	VC_ENSURES(p[off] == v, "writing through the reference writes the field");
}

VC_PROOF(StaticUniquePointerCast)
{
	auto d = std::make_unique<D>();
	D* raw = d.get();
	std::unique_ptr<A2> a = Nz::StaticUniquePointerCast<A2>(std::move(d));
	VC_ENSURES(d.get() == nullptr, "the source gives up the object");
	VC_ENSURES(a.get() == static_cast<A2*>(raw), "the result owns the base subobject");
	std::unique_ptr<D> e = Nz::StaticUniquePointerCast<D>(std::move(a));
	VC_ENSURES(a.get() == nullptr && e.get() == raw && e->z == 3, "casting down gives the original object");
	std::unique_ptr<A1> none = Nz::StaticUniquePointerCast<A1>(std::unique_ptr<D>());
	VC_ENSURES(none.get() == nullptr, "a null pointer stays null");
}

VC_PROOF(PointerAndReferenceCast)
{
	D d;
	A2* a = &d;
	VC_ENSURES(Nz::SafeCast<D*>(a) == &d, "pointer downcast");
	VC_ENSURES(&Nz::SafeCast<D&>(*a) == &d, "reference downcast");
	VC_ENSURES(Nz::SafeCast<A2*>(&d) == a, "pointer upcast");
	A2* null = nullptr;
	VC_ENSURES(Nz::SafeCast<D*>(null) == nullptr, "null stays null");
}

namespace
{
	struct Map
	{
		struct Item { int first; int second; };
		Item items[3];
		Item* begin() { return items; }
		Item* end() { return items + 3; }
		const Item* end() const { return items + 3; }
		Item* find(int k) { for (Item& i : items) if (i.first == k) return &i; return items + 3; }
		const Item* find(int k) const { return const_cast<Map*>(this)->find(k); }
	};
}

VC_PROOF(Retrieve)
{
	Map m;
	for (int i = 0; i < 3; ++i) { m.items[i].first = vc::any<int>("key"); m.items[i].second = vc::any<int>("value"); }
	int k = vc::any<int>("k");
	bool found = m.find(k) != m.end();
	if (found)
	{
		VC_ENSURES(&Nz::Retrieve(m, k) == &m.find(k)->second, "gives the mapped value");
		VC_ENSURES(&Nz::Retrieve(std::as_const(m), k) == &m.find(k)->second, "gives the mapped value of a const map");
	}
	else if (checked)
	{
		vc::may_reject();
		(void) Nz::Retrieve(m, k);
		VC_ENSURES(false, "a missing key is reported in debug");
	}
}

namespace { struct Sized { std::size_t n; std::size_t size() const { return n; } }; }
VC_PROOF(CountOf)
{
	int a[7];
	VC_ENSURES(Nz::CountOf(a) == 7, "number of elements of an array");
	Sized s{ vc::any<std::size_t>("n") };
	VC_ENSURES(Nz::CountOf(s) == s.n, "number of elements of a container");
}

VC_MAIN
