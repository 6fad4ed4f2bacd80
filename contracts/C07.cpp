// SparsePtr is a pointer over elements spaced by an arbitrary stride.
// @configs cxx17 cxx20
#include "vc.hpp"
#include <NazaraUtils/SparsePtr.hpp>
#include <iterator>

namespace
{
	using Nz::Int8; using Nz::Int16; using Nz::Int32; using Nz::Int64;
	using Nz::UInt8; using Nz::UInt16; using Nz::UInt32; using Nz::UInt64;

	constexpr std::size_t Max = std::size_t(1) << 40;

	// a buffer, a position inside it and a stride
	template<typename T> struct Ctx
	{
		std::size_t n;
		UInt8* base;
		std::size_t at;
		int stride;
		Ctx()
		{
			n = vc::size("n", Max, 64);
			base = vc::mem<UInt8>("bytes", n);
			at = vc::range<std::size_t>("at", 0, !vc::searching() ? Max : 64);
			vc::requires_(at <= n);
			stride = !vc::searching() ? vc::any<int>("stride") : vc::range<int>("stride", -9, 9);
		}
		Nz::SparsePtr<T> ptr() const { return Nz::SparsePtr<T>(base + at, stride); }
		// the byte offset of count elements
		std::ptrdiff_t delta(std::ptrdiff_t count) const { return count * stride; }
		// at + delta stays in the buffer
		bool inside(std::ptrdiff_t delta) const { return delta >= -static_cast<std::ptrdiff_t>(at) && delta <= static_cast<std::ptrdiff_t>(n - at); }
		UInt8* spot(std::ptrdiff_t delta) const { return base + (static_cast<std::ptrdiff_t>(at) + delta); }
	};

	template<typename U> void arithmetic()
	{
		Ctx<UInt8> c;
		// the offset of an element is below 2^63: 64-bit counts are taken below 2^32
		U k;
		if constexpr (sizeof(U) < 8) k = vc::any<U>("count");
		else if constexpr (std::is_signed_v<U>) k = vc::any<Int32>("count");
		else k = vc::any<UInt32>("count");
		if (vc::searching()) k %= 16;
		std::ptrdiff_t d = c.delta(static_cast<std::ptrdiff_t>(k));
		Nz::SparsePtr<UInt8> p = c.ptr();
		if (c.inside(d))
		{
			Nz::SparsePtr<UInt8> q = p + k;
			VC_ENSURES(q.GetPtr() == c.spot(d) && q.GetStride() == c.stride, "p + n is n strides further");
			Nz::SparsePtr<UInt8> r = p;
			auto& rr = (r += k);
			VC_ENSURES(&rr == &r && r.GetPtr() == c.spot(d) && r.GetStride() == c.stride, "p += n advances by n strides");
			Nz::SparsePtr<UInt8> back = q - k;
			VC_ENSURES(back == p, "p + n - n is p");
			r -= k;
			VC_ENSURES(r == p && r.GetStride() == c.stride, "p += n; p -= n restores p");
			if (d < static_cast<std::ptrdiff_t>(c.n - c.at))
				VC_ENSURES(&p[k] == c.spot(d), "p[n] designates the element n strides further");
			if (c.stride != 0)
			{
				VC_ENSURES(q - p == static_cast<std::ptrdiff_t>(k), "the difference is the number of strides");
				VC_ENSURES(std::distance(p, q) == static_cast<std::ptrdiff_t>(k), "std::distance agrees");
			}
		}
		if (c.inside(-d))
		{
			Nz::SparsePtr<UInt8> q = p - k;
			VC_ENSURES(q.GetPtr() == c.spot(-d) && q.GetStride() == c.stride, "p - n is n strides before");
			Nz::SparsePtr<UInt8> r = p;
			auto& rr = (r -= k);
			VC_ENSURES(&rr == &r && r.GetPtr() == c.spot(-d), "p -= n moves back by n strides");
			if (c.stride != 0)
				VC_ENSURES(p - q == static_cast<std::ptrdiff_t>(k), "the difference is the number of strides");
		}
		VC_ENSURES(p.GetPtr() == c.base + c.at && p.GetStride() == c.stride, "the operand is unchanged");
	}

	struct A { UInt32 a; };
	struct B { UInt32 b; };
	struct D : A, B { UInt32 d; };
}

VC_PROOF(Add_i8) { arithmetic<Int8>(); }
VC_PROOF(Add_u8) { arithmetic<UInt8>(); }
VC_PROOF(Add_i16) { arithmetic<Int16>(); }
VC_PROOF(Add_u16) { arithmetic<UInt16>(); }
VC_PROOF(Add_i32) { arithmetic<Int32>(); }
VC_PROOF(Add_u32) { arithmetic<UInt32>(); }
VC_PROOF(Add_i64) { arithmetic<Int64>(); }
VC_PROOF(Add_u64) { arithmetic<UInt64>(); }

VC_PROOF(Steps)
{
	Ctx<UInt8> c;
	const Nz::SparsePtr<UInt8> p = c.ptr();
	if (c.inside(c.stride))
	{
		Nz::SparsePtr<UInt8> q = p;
		auto& r = ++q;
		VC_ENSURES(&r == &q && q.GetPtr() == c.spot(c.stride) && q.GetStride() == c.stride, "++p advances by one stride");
		Nz::SparsePtr<UInt8> s = p;
		auto old = s++;
		VC_ENSURES(old.GetPtr() == p.GetPtr() && old.GetStride() == c.stride, "p++ returns the previous position");
		VC_ENSURES(s.GetPtr() == c.spot(c.stride) && s.GetStride() == c.stride, "p++ advances by one stride");
	}
	if (c.inside(-std::ptrdiff_t(c.stride)))
	{
		Nz::SparsePtr<UInt8> q = p;
		auto& r = --q;
		VC_ENSURES(&r == &q && q.GetPtr() == c.spot(-std::ptrdiff_t(c.stride)) && q.GetStride() == c.stride, "--p moves back by one stride");
		Nz::SparsePtr<UInt8> s = p;
		auto old = s--;
		VC_ENSURES(old.GetPtr() == p.GetPtr() && s.GetPtr() == c.spot(-std::ptrdiff_t(c.stride)), "p-- returns the previous position and moves back");
	}
}

VC_PROOF(Comparisons)
{
	Ctx<UInt8> c;
	std::size_t i = vc::range<std::size_t>("i", 0, !vc::searching() ? Max : 64), j = vc::range<std::size_t>("j", 0, !vc::searching() ? Max : 64);
	vc::requires_(i <= c.n && j <= c.n);
	Nz::SparsePtr<UInt8> p(c.base + i, c.stride), q(c.base + j, c.stride);
	VC_ENSURES((p == q) == (i == j), "==");
	VC_ENSURES((p != q) == (i != j), "!=");
	VC_ENSURES((p < q) == (i < j), "<");
	VC_ENSURES((p <= q) == (i <= j), "<=");
	VC_ENSURES((p > q) == (i > j), ">");
	VC_ENSURES((p >= q) == (i >= j), ">=");
	VC_ENSURES(bool(p), "a pointer in a buffer is not null");
}

VC_PROOF(Access)
{
	std::size_t n = vc::size("n", Max, 40);
	std::size_t i = vc::range<std::size_t>("i", 0, !vc::searching() ? Max : 40);
	vc::requires_(i < n);
	UInt32* m = vc::mem<UInt32>("m", n);
	UInt32 old = m[i];
	Nz::SparsePtr<UInt32> p(m + i);
	VC_ENSURES(p.GetStride() == sizeof(UInt32) && p.GetPtr() == m + i, "a plain pointer has the stride of its type");
	VC_ENSURES(*p == old && static_cast<UInt32*>(p) == m + i && p.operator->() == m + i, "dereference designates the element");
	UInt32 v = vc::any<UInt32>("v");
	*p = v;
	std::size_t k = vc::range<std::size_t>("k", 0, !vc::searching() ? Max : 40);
	vc::requires_(k < n);
	VC_ENSURES(m[k] == (k == i ? v : m[k]), "writes the designated element");
	Nz::SparsePtr<const UInt32> cp(p);
	VC_ENSURES(cp.GetPtr() == m + i && cp.GetStride() == sizeof(UInt32) && *cp == v, "conversion to const keeps position and stride");
	Nz::SparsePtr<UInt32> w(m, sizeof(UInt32));
	VC_ENSURES(&w[k] == m + k && w[k] == m[k], "indexing reads the array");
	VC_ENSURES(&w[-1 + 1] == m, "index zero is the pointer");
}

VC_PROOF(Lifetime)
{
	Ctx<UInt8> c;
	Nz::SparsePtr<UInt8> p;
	VC_ENSURES(p.GetPtr() == nullptr && p.GetStride() == 0 && !bool(p), "default is null");
	p.Reset(c.base + c.at, c.stride);
	VC_ENSURES(p.GetPtr() == c.base + c.at && p.GetStride() == c.stride, "Reset with pointer and stride");
	Nz::SparsePtr<UInt8> q(p);
	VC_ENSURES(q == p && q.GetStride() == c.stride, "copy");
	q.Reset();
	VC_ENSURES(!bool(q) && q.GetStride() == 0, "Reset empties");
	q.Reset(p);
	VC_ENSURES(q == p && q.GetStride() == c.stride, "Reset from another");
	q.Reset(c.base);
	VC_ENSURES(q.GetPtr() == c.base && q.GetStride() == 1, "Reset with a pointer takes the size of the type");
	q = p;
	VC_ENSURES(q == p && q.GetStride() == c.stride, "assignment");
	q.SetPtr(c.base);
	VC_ENSURES(q.GetPtr() == c.base && q.GetStride() == c.stride, "SetPtr keeps the stride");
	int s = vc::any<int>("s");
	q.SetStride(s);
	VC_ENSURES(q.GetPtr() == c.base && q.GetStride() == s, "SetStride keeps the pointer");
	std::size_t st = vc::any<std::size_t>("st");
	if (st <= 0x7FFFFFFF)
		VC_ENSURES(Nz::SparsePtr<UInt8>(c.base, st).GetStride() == int(st), "an unsigned stride is kept");
	Nz::SparsePtr<const UInt8> cp;
	cp.Reset(p);
	VC_ENSURES(cp.GetPtr() == c.base + c.at && cp.GetStride() == c.stride, "Reset from a non-const pointer");
}

VC_PROOF(Conversion)
{
	D d[2];
	Nz::SparsePtr<D> p(d);
	Nz::SparsePtr<A> a(p);
	Nz::SparsePtr<B> b(p);
	VC_ENSURES(a.GetPtr() == static_cast<A*>(d) && a.GetStride() == sizeof(D), "conversion to the first base");
	VC_ENSURES(b.GetPtr() == static_cast<B*>(d) && b.GetStride() == sizeof(D), "conversion to another base");
	VC_ENSURES(&b[1] == static_cast<B*>(d + 1), "the base of the next element");
	Nz::SparsePtr<D> none;
	VC_ENSURES(!bool(Nz::SparsePtr<B>(none)), "null stays null");
}

VC_MAIN
