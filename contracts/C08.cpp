// Element access, whole-set assignment, resizing, growth, copy/move/swap: the bitset is a sequence of bits.
// @configs cxx17
#include "bitset.hpp"

namespace
{
	using namespace bs;

	// loop hints: block q of b becomes `expect`, or keeps its value
	template<typename B, typename F> void post(const Bitset<B>& r, std::size_t size, F&& expectBit, std::size_t k)
	{
		VC_ENSURES(r.GetSize() == size, "the size is the expected one");
		VC_ENSURES(wellFormed(r), "the result is well-formed");
		VC_ENSURES(bit(r, k) == (k < size && expectBit(k)), "every bit has the expected value");
	}

	template<typename B> void test()
	{
		Bitset<B> a = any<B>("n", "a");
		std::size_t k = vc::any<std::size_t>("k");
		bool expect = bit(a, k);
		VC_ENSURES(a.UnboundedTest(k) == expect, "UnboundedTest reads the bit, false past the end");
		vc::requires_(k < a.GetSize());
		VC_ENSURES(a.Test(k) == expect, "Test reads the bit");
		VC_ENSURES(std::as_const(a)[k] == expect, "const operator[] reads the bit");
		VC_ENSURES(bool(a[k]) == expect, "operator[] reads the bit");
		VC_ENSURES(a[k].Test() == expect, "Bit::Test reads the bit");
	}

	// element updates
	enum class Upd { Set, SetDefault, Reset, UnboundedSet, UnboundedReset, BitSet, BitReset, BitFlip, BitAssign, BitAssignBit, BitOr, BitAnd, BitXor, BitSub };
	template<typename B, Upd U> void update()
	{
		Bitset<B> a = any<B>("n", "a");
		std::size_t size = a.GetSize();
		std::size_t i = vc::any<std::size_t>("i");
		bool v = vc::any<bool>("v");
		constexpr bool unbounded = U == Upd::UnboundedSet || U == Upd::UnboundedReset;
		if (unbounded) vc::requires_(i < (vc::symbolic ? MaxBits : 1000));
		else vc::requires_(i < size);
		std::size_t k = vc::any<std::size_t>("k");
		std::size_t j = vc::any<std::size_t>("j");
		if (U == Upd::BitAssignBit) vc::requires_(j < size);
		bool oi = bit(a, i), ok = bit(a, k), oj = bit(a, j);
		bool nv = false;
		switch (U)
		{
			case Upd::Set: a.Set(i, v); nv = v; break;
			case Upd::SetDefault: a.Set(i); nv = true; break;
			case Upd::Reset: a.Reset(i); nv = false; break;
			case Upd::UnboundedSet: a.UnboundedSet(i, v); nv = v; break;
			case Upd::UnboundedReset: a.UnboundedReset(i); nv = false; break;
			case Upd::BitSet: a[i].Set(v); nv = v; break;
			case Upd::BitReset: a[i].Reset(); nv = false; break;
			case Upd::BitFlip: a[i].Flip(); nv = !oi; break;
			case Upd::BitAssign: a[i] = v; nv = v; break;
			case Upd::BitAssignBit: a[i] = a[j]; nv = oj; break;
			case Upd::BitOr: a[i] |= v; nv = oi || v; break;
			case Upd::BitAnd: a[i] &= v; nv = oi && v; break;
			case Upd::BitXor: a[i] ^= v; nv = oi != v; break;
			case Upd::BitSub: a[i] -= v; nv = oi && !v; break;
		}
		std::size_t grown = (U == Upd::UnboundedSet && v && i >= size) ? i + 1 : size;
		post(a, grown, [&](std::size_t) { return k == i ? nv : ok; }, k);
	}

	template<typename B> void setBlock()
	{
		Bitset<B> a = any<B>("n", "a");
		std::size_t i = vc::any<std::size_t>("i");
		vc::requires_(i < a.GetBlockCount());
		B v = vc::any<B>("v");
		std::size_t k = vc::any<std::size_t>("k");
		bool ok = bit(a, k);
		std::size_t size = a.GetSize();
		a.SetBlock(i, v);
		post(a, size, [&](std::size_t) { return k / W<B> == i ? ((v >> (k % W<B>)) & 1) != 0 : ok; }, k);
	}

	template<typename B> void setAll()
	{
		Bitset<B> a = any<B>("n", "a");
		bool v = vc::any<bool>("v");
		std::size_t k = vc::any<std::size_t>("k");
		std::size_t size = a.GetSize();
		std::size_t q = k / W<B>;
		B full = v ? B(~B(0)) : B(0);
		vc::inductive();
		auto done = [&](std::size_t) { return q >= a.GetBlockCount() || a.GetBlock(q) == full; };
		std::size_t last = a.GetBlockCount() - 1;
		auto doneLast = [&](std::size_t) { return a.GetBlockCount() == 0 || a.GetBlock(last) == full; };
		vc::hint_split(q, done);
		vc::hint_split(last, doneLast);
		a.Set(v);
		post(a, size, [&](std::size_t) { return v; }, k);
	}

	template<typename B> void resetAll()
	{
		Bitset<B> a = any<B>("n", "a");
		std::size_t k = vc::any<std::size_t>("k");
		std::size_t size = a.GetSize();
		std::size_t q = k / W<B>;
		vc::inductive();
		auto done = [&](std::size_t) { return q >= a.GetBlockCount() || a.GetBlock(q) == 0; };
		std::size_t last = a.GetBlockCount() - 1;
		auto doneLast = [&](std::size_t) { return a.GetBlockCount() == 0 || a.GetBlock(last) == 0; };
		vc::hint_split(q, done);
		vc::hint_split(last, doneLast);
		a.Reset();
		post(a, size, [&](std::size_t) { return false; }, k);
	}

	template<typename B> void resize()
	{
		Bitset<B> a = any<B>("n", "a");
		std::size_t size = a.GetSize();
		std::size_t m = vc::size("m", MaxBits, 200);
		bool v = vc::any<bool>("v");
		std::size_t k = vc::any<std::size_t>("k");
		bool ok = bit(a, k);
		vc::inductive();
		a.Resize(m, v);
		post(a, m, [&](std::size_t) { return k < size ? ok : v; }, k);
		VC_ENSURES(a.GetCapacity() >= a.GetSize(), "the capacity covers the size");
	}

	template<typename B> void construct()
	{
		std::size_t m = vc::size("m", MaxBits, 200);
		bool v = vc::any<bool>("v");
		std::size_t k = vc::any<std::size_t>("k");
		vc::inductive();
		Bitset<B> a(m, v);
		post(a, m, [&](std::size_t) { return v; }, k);
		Bitset<B> e;
		post(e, 0, [&](std::size_t) { return false; }, k);
	}

	// 0 copy ctor, 1 copy assignment, 2 move ctor, 3 move assignment, 4 Swap, 5 std::swap, 6 self copy, 7 self move, 8 Clear, 9 Reserve
	template<typename B, int How> void whole()
	{
		Bitset<B> a = any<B>("na", "a");
		std::size_t na = a.GetSize();
		std::size_t k = vc::any<std::size_t>("k");
		bool ba = bit(a, k);
		auto isA = [&](std::size_t) { return ba; };
		vc::inductive();
		if constexpr (How == 0) { Bitset<B> r(a); post(r, na, isA, k); post(a, na, isA, k); r.Resize(na + 1, true); if (na) r.Set(0, !bit(a, 0)); post(a, na, isA, k); }
		else if constexpr (How == 2)
		{
			Bitset<B> r(std::move(a));
			post(r, na, isA, k);
			VC_ENSURES(wellFormed(a), "a moved-from bitset stays well-formed");
			std::size_t m = vc::size("m", MaxBits, 200);
			std::size_t left = a.GetSize();
			bool ok = bit(a, k);
			a.Resize(m, true);
			post(a, m, [&](std::size_t) { return k < left ? ok : true; }, k);
		}
		else if constexpr (How == 6) { a = *&a; post(a, na, isA, k); }
		else if constexpr (How == 7) { Bitset<B>& r = a; a = std::move(r); post(a, na, isA, k); }
		else if constexpr (How == 8) { a.Clear(); post(a, 0, [&](std::size_t) { return false; }, k); std::size_t m = vc::size("m", MaxBits, 200); a.Resize(m, false); post(a, m, [&](std::size_t) { return false; }, k); }
		else if constexpr (How == 9) { std::size_t m = vc::size("m", MaxBits, 200); a.Reserve(m); post(a, na, isA, k); }
		else
		{
			Bitset<B> b = any<B>("nb", "b");
			std::size_t nb = b.GetSize();
			bool bb = bit(b, k);
			auto isB = [&](std::size_t) { return bb; };
			if constexpr (How == 1) { b = a; post(b, na, isA, k); post(a, na, isA, k); }
			else if constexpr (How == 3) { b = std::move(a); post(b, na, isA, k); VC_ENSURES(wellFormed(a), "a moved-from bitset stays well-formed"); }
			else if constexpr (How == 4) { a.Swap(b); post(a, nb, isB, k); post(b, na, isA, k); }
			else { std::swap(a, b); post(a, nb, isB, k); post(b, na, isA, k); }
		}
	}
}

#define FOR_BLOCK(B, S) \
	VC_PROOF(Test_##S) { test<B>(); } \
	VC_PROOF(Set_##S) { update<B, Upd::Set>(); } \
	VC_PROOF(SetDefault_##S) { update<B, Upd::SetDefault>(); } \
	VC_PROOF(Reset_##S) { update<B, Upd::Reset>(); } \
	VC_PROOF(UnboundedSet_##S) { update<B, Upd::UnboundedSet>(); } \
	VC_PROOF(UnboundedReset_##S) { update<B, Upd::UnboundedReset>(); } \
	VC_PROOF(BitSet_##S) { update<B, Upd::BitSet>(); } \
	VC_PROOF(BitReset_##S) { update<B, Upd::BitReset>(); } \
	VC_PROOF(BitFlip_##S) { update<B, Upd::BitFlip>(); } \
	VC_PROOF(BitAssign_##S) { update<B, Upd::BitAssign>(); } \
	VC_PROOF(BitAssignBit_##S) { update<B, Upd::BitAssignBit>(); } \
	VC_PROOF(BitOr_##S) { update<B, Upd::BitOr>(); } \
	VC_PROOF(BitAnd_##S) { update<B, Upd::BitAnd>(); } \
	VC_PROOF(BitXor_##S) { update<B, Upd::BitXor>(); } \
	VC_PROOF(BitSub_##S) { update<B, Upd::BitSub>(); } \
	VC_PROOF(SetBlock_##S) { setBlock<B>(); } \
	VC_PROOF(SetAll_##S) { setAll<B>(); } \
	VC_PROOF(ResetAll_##S) { resetAll<B>(); } \
	VC_PROOF(Resize_##S) { resize<B>(); } \
	VC_PROOF(Construct_##S) { construct<B>(); } \
	VC_PROOF(CopyCtor_##S) { whole<B, 0>(); } \
	VC_PROOF(CopyAssign_##S) { whole<B, 1>(); } \
	VC_PROOF(MoveCtor_##S) { whole<B, 2>(); } \
	VC_PROOF(MoveAssign_##S) { whole<B, 3>(); } \
	VC_PROOF(Swap_##S) { whole<B, 4>(); } \
	VC_PROOF(StdSwap_##S) { whole<B, 5>(); } \
	VC_PROOF(SelfCopy_##S) { whole<B, 6>(); } \
	VC_PROOF(SelfMove_##S) { whole<B, 7>(); } \
	VC_PROOF(Clear_##S) { whole<B, 8>(); } \
	VC_PROOF(Reserve_##S) { whole<B, 9>(); }

FOR_BLOCK(std::uint32_t, u32)
FOR_BLOCK(std::uint8_t, u8)
FOR_BLOCK(std::uint64_t, u64)
VC_MAIN
