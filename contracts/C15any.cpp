// HybridVector of any size: elements of a trivial type; the fallback is the assumed contract of std::vector.
// @configs cxx17
// @thorough_configs ndebug17
// @assume std::vector<uint32_t> (the fallback) behaves as contracts/vcvec.hpp states; the real one is used in C15.cpp
#include "seq.hpp"
#include "vcvec.hpp"
#include <NazaraUtils/FixedVector.hpp>
#include <cstring>

namespace
{
	using namespace seq;
	constexpr std::size_t Inline = 1000;
	using Other = vc::Vec<U32, vc::Slot<U32>>;
	struct TV : Nz::FixedVector<U32, Inline, Other> { bool unused() const { return fallback.capacity() == 0 && fallback.empty(); } const Other& other() const { return fallback; } };
	bool inlined(const TV& v) { return v.capacity() == Inline && v.unused(); }
	// a vector of any size and any content, in the object
	template<typename F> void small(F f)
	{
		const U32* src = vc::mem<U32>("src", Inline);
		std::size_t n = vc::size("n", Inline, 6);
		vc::inductive();
		vc::prepare<Other>();
		TV v;
		auto empty = [&] { return v.size() == 0 && inlined(v); };
		vc::hint_all(empty);
		v.resize(n);
		vc::clear_hints();
		VC_LEMMA(v.size() == n && inlined(v), "elements are in the object");
		std::memcpy(v.data(), src, n * sizeof(U32));
		VC_LEMMA(v.size() == n && inlined(v), "elements are in the object");
		vc::prune();
		f(v, src, n);
	}
	// ... in the fallback
	template<typename F> void large(F f)
	{
		std::size_t n = vc::size("n", std::size_t(1) << 30, 1500);
		const U32* src = vc::mem<U32>("src", n);
		vc::inductive();
		vc::prepare<Other>();
		TV v;
		v.reserve(Inline + 1);
		v.resize(n);
		std::memcpy(v.data(), src, n * sizeof(U32));
		vc::prune();
		f(v, src, n);
	}
}

VC_PROOF(SmallPush) { small([](TV& v, const U32* src, std::size_t n) { anyPush(v, src, n, Inline); }); }
VC_PROOF(SmallInsert) { small([](TV& v, const U32* src, std::size_t n) { anyInsert(v, src, n, Inline); }); }
VC_PROOF(SmallErase) { small([](TV& v, const U32* src, std::size_t n) { anyErase(v, src, n); }); }
VC_PROOF(SmallEraseOne) { small([](TV& v, const U32* src, std::size_t n) { anyEraseOne(v, src, n); }); }
VC_PROOF(SmallResize) { small([](TV& v, const U32* src, std::size_t n) { auto inl = [&] { return inlined(v); }; vc::hint_all(inl); anyResize(v, src, n, Inline); }); }
VC_PROOF(SmallPop) { small([](TV& v, const U32* src, std::size_t n) { anyPop(v, src, n); }); }
VC_PROOF(SmallAccess) { small([](TV& v, const U32* src, std::size_t n) { anyAccess(v, src, n); }); }
// from the object to the fallback
namespace
{
	template<typename F> void grow(F f)
	{
		small([&](TV& v, const U32* src, std::size_t n)
		{
			std::size_t k = vc::any<std::size_t>("k");
			vc::requires_(n == Inline && k < n);
			auto count = [&](std::size_t i) { return v.other().size() == i; };
			auto moved = [&](std::size_t i) { return v.other().data()[i] == src[i]; };
			vc::hint_at(count);
			vc::hint_split(k, moved);
			f(v, src, n, k);
			VC_ENSURES(v.capacity() > n && v.data() == v.other().data(), "elements are in the fallback");
		});
	}
}
VC_PROOF(GrowPush)
{
	grow([](TV& v, const U32* src, std::size_t n, std::size_t k)
	{
		U32 x = vc::any<U32>("x");
		bool own = vc::any<bool>("own");
		if (own) { x = src[k]; v.push_back(v[k]); } else v.emplace_back(x);
		VC_ENSURES(v.size() == n + 1 && v[n] == x && v[k] == src[k], "appends the element");
	});
}
VC_PROOF(GrowInsert)
{
	grow([](TV& v, const U32* src, std::size_t n, std::size_t k)
	{
		U32 x = vc::any<U32>("x");
		std::size_t at = vc::any<std::size_t>("at");
		vc::requires_(at <= n);
		bool own = vc::any<bool>("own");
		if (own) { x = src[k]; v.insert(v.begin() + at, v[k]); } else v.emplace(v.begin() + at, x);
		VC_ENSURES(v.size() == n + 1 && v[at] == x && v[k < at ? k : k + 1] == src[k], "inserts the element");
	});
}
VC_PROOF(GrowResize)
{
	small([](TV& v, const U32* src, std::size_t n)
	{
		std::size_t count = vc::size("count", std::size_t(1) << 30, 1500), k = vc::any<std::size_t>("k"), j = vc::any<std::size_t>("j");
		vc::requires_(count > Inline && k < n && j >= n && j < count);
		auto size = [&](std::size_t i) { return v.other().size() == i; };
		auto moved = [&](std::size_t i) { return v.other().data()[i] == src[i]; };
		vc::hint_at(size);
		vc::hint_split(k, moved);
		U32 x = vc::any<U32>("x");
		std::size_t how = vc::range<std::size_t>("how", 0, 2);
		if (how == 0) { x = 0; v.resize(count); } else if (how == 1) v.resize(count, x); else { x = src[k]; v.resize(count, v[k]); }
		VC_ENSURES(v.size() == count && v[k] == src[k] && v[j] == x, "keeps the elements and adds the others");
	});
}
VC_PROOF(GrowReserve)
{
	small([](TV& v, const U32* src, std::size_t n)
	{
		std::size_t count = vc::size("count", std::size_t(1) << 30, 1500), k = vc::any<std::size_t>("k");
		vc::requires_(k < n);
		auto size = [&](std::size_t i) { return v.other().size() == i; };
		auto moved = [&](std::size_t i) { return v.other().data()[i] == src[i]; };
		vc::hint_at(size);
		vc::hint_split(k, moved);
		v.reserve(count);
		VC_ENSURES(v.capacity() >= count && v.size() == n && v[k] == src[k], "makes room and keeps the elements");
		VC_ENSURES(inlined(v) == (count <= Inline), "elements stay in the object when they fit");
	});
}
VC_PROOF(LargePush) { large([](TV& v, const U32* src, std::size_t n) { anyPush(v, src, n, std::size_t(1) << 31); }); }
VC_PROOF(LargeInsert) { large([](TV& v, const U32* src, std::size_t n) { anyInsert(v, src, n, std::size_t(1) << 31); }); }
VC_PROOF(LargeErase) { large([](TV& v, const U32* src, std::size_t n) { anyErase(v, src, n); }); }
VC_PROOF(LargeEraseOne) { large([](TV& v, const U32* src, std::size_t n) { anyEraseOne(v, src, n); }); }
VC_PROOF(LargeResize) { large([](TV& v, const U32* src, std::size_t n) { anyResize(v, src, n, std::size_t(1) << 31); }); }
VC_PROOF(LargePop) { large([](TV& v, const U32* src, std::size_t n) { anyPop(v, src, n); }); }
VC_PROOF(LargeAccess) { large([](TV& v, const U32* src, std::size_t n) { anyAccess(v, src, n); }); }

namespace
{
	// d is empty, in the object or in the fallback; assign(d, v) copies or moves v
	template<typename F> void assigned(TV& v, const U32* src, std::size_t n, bool fallback, F assign)
	{
		std::size_t k = vc::any<std::size_t>("k");
		vc::requires_(k < n);
		TV d;
		if (fallback) d.reserve(Inline + 1);
		auto count = [&](std::size_t i) { return d.size() == i && (fallback ? i == 0 || d.other().capacity() != 0 : inlined(d)); };
		auto done = [&](std::size_t i) { return d.data()[i] == src[i]; };
		auto source = [&] { return v.size() == n && v.data()[k] == src[k]; };
		auto where = [&] { return inlined(v) || v.data() == v.other().data(); };
		vc::hint_at(count);
		vc::hint_split(k, done);
		vc::hint_all(source);
		vc::hint_all(where);
		assign(d);
		VC_ENSURES(d.size() == n && d[k] == src[k], "has the elements of the other");
	}
	template<typename T> auto copyTo(T& v) { return [&v](TV& d) { d = static_cast<const TV&>(v); VC_ENSURES(d.size() == v.size(), "leaves the source unchanged"); }; }
	template<typename T> auto moveTo(T& v) { return [&v](TV& d) { d = std::move(v); }; }
}
VC_PROOF(SmallCopyOver) { small([](TV& v, const U32* src, std::size_t n) { assigned(v, src, n, true, copyTo(v)); }); }
VC_PROOF(SmallMoveOver) { small([](TV& v, const U32* src, std::size_t n) { assigned(v, src, n, true, moveTo(v)); }); }
VC_PROOF(LargeCopy) { large([](TV& v, const U32* src, std::size_t n) { assigned(v, src, n, false, copyTo(v)); VC_ENSURES(v.size() == n, "leaves the source unchanged"); }); }
VC_PROOF(LargeMove) { large([](TV& v, const U32* src, std::size_t n) { assigned(v, src, n, false, moveTo(v)); VC_ENSURES(v.empty(), "gives up its elements"); }); }
VC_PROOF(LargeCopyOver) { large([](TV& v, const U32* src, std::size_t n) { assigned(v, src, n, true, copyTo(v)); }); }
VC_PROOF(LargeMoveOver) { large([](TV& v, const U32* src, std::size_t n) { assigned(v, src, n, true, moveTo(v)); }); }

VC_MAIN
