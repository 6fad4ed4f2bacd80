// Searching, counting and testing the bits of a bitset of any size.
// @configs cxx17
#include "bitset.hpp"

namespace
{
	using namespace bs;
	constexpr std::size_t npos = ~std::size_t(0);

	// FindFirst, or FindNext from any position: the smallest enabled position after it, or npos
	template<typename B, bool Next> void find()
	{
		Bitset<B> a = any<B>("n", "a");
		std::size_t size = a.GetSize(), from = 0;
		if (Next) { from = vc::any<std::size_t>("from"); vc::requires_(from < size); }
		std::size_t k = vc::range<std::size_t>("k", 0, MaxBits);
		std::size_t q = vc::named("q", k / W<B>);
		vc::inductive();
		std::size_t first = vc::named("first", (from + 1) / W<B>); // block where the search starts
		auto zero = [&](std::size_t) { return (Next && q <= first) || block(a, q) == 0; };
		vc::hint_split(q, zero);
		std::size_t r = Next ? a.FindNext(from) : a.FindFirst();
		if (r == npos)
			VC_ENSURES(!bit(a, k) || (Next && k <= from), "nothing is found only if no bit is enabled");
		else
		{
			VC_ENSURES(r < size && (!Next || r > from), "the position found is in range");
			VC_ENSURES(bit(a, r), "the position found is enabled");
			VC_ENSURES(k >= r || !bit(a, k) || (Next && k <= from), "no bit before the position found is enabled");
		}
	}

	// the contracts of FindFirst and FindNext (verified above), for iterating
	inline std::size_t witness; // the bit whose visit is observed
	template<typename B> std::size_t next(const Bitset<B>* a, std::size_t from)
	{
		VC_ENSURES(from < a->GetSize(), "the position given to FindNext is in range");
		std::size_t r = vc::any<std::size_t>("next");
		std::size_t k = witness;
		vc::assume(r == npos || (r > from && r < a->GetSize() && bit(*a, r)));
		vc::assume(k <= from || k >= r || !bit(*a, k));
		return r;
	}
	template<typename B> std::size_t first(const Bitset<B>* a)
	{
		std::size_t r = vc::any<std::size_t>("first");
		std::size_t k = witness;
		vc::assume(r == npos || (r < a->GetSize() && bit(*a, r)));
		vc::assume(k >= r || !bit(*a, k));
		return r;
	}

	// iterating visits each enabled bit once, in order
	template<typename B> void iterate()
	{
		Bitset<B> a = any<B>("n", "a");
		std::size_t size = a.GetSize();
		std::size_t k = vc::range<std::size_t>("k", 0, MaxBits);
		witness = k;
		vc::stub_member(&Bitset<B>::FindFirst, &first<B>);
		vc::stub_member(&Bitset<B>::FindNext, &next<B>);
		vc::inductive();
		bool expected = bit(a, k);
		bool seen = false;
		auto visited = [&](std::size_t i) { return seen == (expected && k < i); };
		auto enabled = [&](std::size_t i) { return i == npos || (i < size && bit(a, i)); };
		vc::hint_at(visited);
		vc::hint_at(enabled);
		for (std::size_t p : a.IterBits())
		{
			VC_ENSURES(p < size && bit(a, p), "iterates over enabled bits");
			if (p == k) { VC_ENSURES(!seen, "visits a bit once"); seen = true; }
			else VC_ENSURES(!expected || seen == (k < p), "visits bits in order");
		}
		VC_ENSURES(seen == expected, "visits every enabled bit");
	}
	template<typename B> void iterators()
	{
		Bitset<B> a = any<B>("n", "a");
		vc::stub_member(&Bitset<B>::FindFirst, &first<B>);
		vc::stub_member(&Bitset<B>::FindNext, &next<B>);
		vc::inductive();
		auto it = a.IterBits().begin();
		auto end = a.IterBits().end();
		VC_ENSURES((it != end) == !(it == end) && end == a.IterBits().end(), "iterators compare their positions");
		if (it == end) return;
		std::size_t p = *it;
		VC_ENSURES(p < a.GetSize() && bit(a, p), "starts on an enabled bit");
		auto old = it++;
		VC_ENSURES(*old == p && old != it, "post-increment returns the previous position");
		VC_ENSURES(it == end || (*it > p && *it < a.GetSize() && bit(a, *it)), "increments move to a following enabled bit");
	}

	template<typename B> std::size_t ones(B x) { std::size_t n = 0; for (std::size_t i = 0; i < W<B>; ++i) n += (x >> i) & 1u; return n; }

	template<typename B> void count()
	{
		Bitset<B> a = any<B>("n", "a");
		std::size_t n = a.GetBlockCount();
#ifdef VC_SYMBOLIC
		// S(i): number of enabled bits of the first i blocks
		auto S = [&](std::size_t i) { return vc::spec<std::size_t>("ones", 0, i); };
		vc::inductive();
		vc::assume(S(0) == 0);
		auto def = [&](std::size_t i) { return i < n ? S(i + 1) == S(i) + ones<B>(block(a, i)) : true; };
		auto inv = [&](std::size_t i, std::uint64_t s) { return i <= n && s == S(i); };
		vc::axiom(def);
		vc::hint_acc(inv);
		std::size_t expect = S(n);
#else
		std::size_t expect = 0;
		for (std::size_t i = 0; i < n; ++i) expect += ones<B>(block(a, i));
#endif
		VC_ENSURES(a.Count() == expect, "counts the enabled bits");
	}

	// answers about all bits, in both directions: what the answer implies for any bit k, and the answer when
	// every block is as said
	enum class All { Full, Empty };
	template<typename B, All w> void uniform()
	{
		Bitset<B> a = any<B>("n", "a");
		std::size_t size = a.GetSize(), n = a.GetBlockCount();
		auto full = [&](std::size_t i) { return i >= n || block(a, i) == (w == All::Empty ? B(0) : i + 1 == n ? lastMask<B>(size) : B(~B(0))); };
		vc::inductive();
		std::size_t k = vc::range<std::size_t>("k", 0, MaxBits);
		std::size_t q = vc::named("q", k / W<B>);
		auto done = [&](std::size_t) { return full(q); };
		vc::hint_split(q, done);
		bool r = w == All::Empty ? a.TestNone() : a.TestAll();
		if (w == All::Empty && !a.TestAny())
			VC_ENSURES(!bit(a, k), "without any enabled bit, none is");
		if (r)
			VC_ENSURES(k >= size || bit(a, k) == (w == All::Full), "the answer holds for every bit");
	}
	template<typename B, All w> void uniformly()
	{
		Bitset<B> a = any<B>("n", "a");
		std::size_t size = a.GetSize(), n = a.GetBlockCount();
		auto full = [&](std::size_t i) { return i >= n || block(a, i) == (w == All::Empty ? B(0) : i + 1 == n ? lastMask<B>(size) : B(~B(0))); };
		vc::inductive();
		vc::axiom(full);
		if (!vc::symbolic) for (std::size_t i = 0; i < n; ++i) a.SetBlock(i, w == All::Empty ? B(0) : B(~B(0)));
		bool r = w == All::Empty ? a.TestNone() : a.TestAll();
		VC_ENSURES(r, "bits that are all the same are recognized");
		VC_ENSURES(w != All::Empty || !a.TestAny(), "bits that are all the same are recognized");
	}

	template<typename B> void intersects()
	{
		Bitset<B> a = any<B>("n", "a"), b = any<B>("m", "b");
		vc::inductive();
		std::size_t k = vc::range<std::size_t>("k", 0, MaxBits);
		std::size_t q = vc::named("q", k / W<B>);
		auto done = [&](std::size_t) { return (block(a, q) & block(b, q)) == 0; };
		vc::hint_split(q, done);
		if (!a.Intersects(b))
			VC_ENSURES(!bit(a, k) || !bit(b, k), "bitsets that do not intersect have no common bit");
	}
	template<typename B> void disjoint()
	{
		Bitset<B> a = any<B>("n", "a"), b = any<B>("m", "b");
		auto none = [&](std::size_t i) { return (block(a, i) & block(b, i)) == 0; };
		vc::inductive();
		vc::axiom(none);
		if (!vc::symbolic) for (std::size_t i = 0; i < a.GetBlockCount() && i < b.GetBlockCount(); ++i) a.SetBlock(i, a.GetBlock(i) & ~b.GetBlock(i));
		VC_ENSURES(!a.Intersects(b) && !b.Intersects(a), "bitsets without a common bit do not intersect");
	}
}

#define FINDING(B, S) \
	VC_PROOF(FindFirst_##S) { find<B, false>(); } \
	VC_PROOF(FindNext_##S) { find<B, true>(); } \
	VC_PROOF(Iterate_##S) { iterate<B>(); } \
	VC_PROOF(Iterators_##S) { iterators<B>(); } \
	VC_PROOF(Count_##S) { count<B>(); } \
	VC_PROOF(TestAll_##S) { uniform<B, All::Full>(); } \
	VC_PROOF(TestNone_##S) { uniform<B, All::Empty>(); } \
	VC_PROOF(AllEnabled_##S) { uniformly<B, All::Full>(); } \
	VC_PROOF(NoneEnabled_##S) { uniformly<B, All::Empty>(); } \
	VC_PROOF(Intersects_##S) { intersects<B>(); } \
	VC_PROOF(Disjoint_##S) { disjoint<B>(); }
FINDING(std::uint8_t, u8)
FINDING(std::uint16_t, u16)
FINDING(std::uint32_t, u32)
FINDING(std::uint64_t, u64)

VC_MAIN
