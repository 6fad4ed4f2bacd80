// Comparisons of bitsets of any sizes: the order of the binary numbers they represent.
// @configs cxx17
#include "bitset.hpp"

namespace
{
	using namespace bs;
	enum class Cmp { Equal, Different, Less, LessEqual, Greater, GreaterEqual };

	template<Cmp c, typename T> bool compare(const T& x, const T& y)
	{
		if constexpr (c == Cmp::Equal) return x == y;
		else if constexpr (c == Cmp::Different) return x != y;
		else if constexpr (c == Cmp::Less) return x < y;
		else if constexpr (c == Cmp::LessEqual) return x <= y;
		else if constexpr (c == Cmp::Greater) return x > y;
		else return x >= y;
	}

	// natively: makes the block i of both numbers equal
	template<typename B> void equalize(const Bitset<B>& a, Bitset<B>& b, std::size_t i)
	{
		if (i >= b.GetBlockCount()) return;
		B x = block(a, i);
		if (i + 1 == b.GetBlockCount()) x &= lastMask<B>(b.GetSize());
		b.SetBlock(i, x);
	}

	// two numbers whose highest different blocks are the q-th: they compare as those blocks
	// the contracts of operator== and operator< (verified below) for the other operators
	inline std::size_t witness; // the highest different block, if any
	inline bool allEqual;
	template<typename B> bool equalTo(const Bitset<B>& x, const Bitset<B>& y) { std::size_t q = witness; bool e = allEqual; return e || block(x, q) == block(y, q); }
	template<typename B> bool lessThan(const Bitset<B>& x, const Bitset<B>& y) { std::size_t q = witness; bool e = allEqual; return !e && block(x, q) < block(y, q); }
	template<typename B, Cmp c> void byContract(std::size_t q, bool equal)
	{
		using Op = bool(const Bitset<B>&, const Bitset<B>&);
		witness = q;
		allEqual = equal;
		if (c != Cmp::Equal) vc::stub(static_cast<Op*>(&Nz::operator==<B, typename Bitset<B>::BitContainer>), &equalTo<B>);
		if (c != Cmp::Less) vc::stub(static_cast<Op*>(&Nz::operator< <B, typename Bitset<B>::BitContainer>), &lessThan<B>);
	}

	// Above: the block q is beyond the last block of the shorter number
	template<typename B, Cmp c, bool More, bool Above> void different()
	{
		Bitset<B> a = any<B>("n", "a"), b = any<B>("m", "b");
		std::size_t na = a.GetBlockCount(), nb = b.GetBlockCount(), common = More ? nb : na, last = More ? na : nb;
		constexpr bool Down = c == Cmp::Less && !Above; // operator< looks from the highest block down
		std::size_t q = vc::range<std::size_t>("q", 0, vc::symbolic ? MaxBits : 4);
		if (Down) { vc::requires_(q < common); q = common - 1 - q; }
		vc::requires_((na > nb) == More && (q >= common) == Above); // the other cases are other contracts
		vc::inductive();
		auto equal1 = [&](std::size_t i) { return i <= q || block(a, i) == block(b, i); };
		auto equal = [&](std::size_t i) { return equal1(i) && (!Down || equal1(common - 1 - i)); };
		vc::axiom(equal);
		if (vc::searching()) for (std::size_t i = q + 1; i < last; ++i) equalize(a, b, i);
		if (!vc::symbolic) for (std::size_t i = q + 1; i < last; ++i) vc::requires_(block(a, i) == block(b, i));
		B x = block(a, q), y = block(b, q);
		vc::requires_(x != y);
		// while looking from the highest block down, everything above is equal; while looking up, q is still ahead
		auto passed = [&](std::size_t) { return false; };
		vc::hint_split(Down ? common - 1 - q : q, passed);
		byContract<B, c>(q, false);
		VC_ENSURES(compare<c>(a, b) == compare<c>(x, y), "numbers compare as their highest different blocks");
	}
	template<typename B, Cmp c, bool More> void same()
	{
		Bitset<B> a = any<B>("n", "a"), b = any<B>("m", "b");
		std::size_t na = a.GetBlockCount(), nb = b.GetBlockCount(), common = More ? nb : na;
		vc::requires_((na > nb) == More);
		vc::inductive();
		auto equal1 = [&](std::size_t i) { return block(a, i) == block(b, i); };
		auto equal = [&](std::size_t i) { return equal1(i) && (c != Cmp::Less || equal1(common - 1 - i)); };
		vc::axiom(equal);
		std::size_t last = a.GetBlockCount() > b.GetBlockCount() ? a.GetBlockCount() : b.GetBlockCount();
		if (vc::searching()) for (std::size_t i = 0; i < last; ++i) equalize(a, b, i);
		if (!vc::symbolic) for (std::size_t i = 0; i < last; ++i) vc::requires_(block(a, i) == block(b, i));
		byContract<B, c>(0, true);
		VC_ENSURES(compare<c>(a, b) == compare<c>(0, 0), "numbers with the same bits are equal, whatever their sizes");
	}
}

#define COMPARE(B, S, C) \
	VC_PROOF(C##_##S) { different<B, Cmp::C, false, false>(); } \
	VC_PROOF(C##_more_##S) { different<B, Cmp::C, true, false>(); } \
	VC_PROOF(C##_above_##S) { different<B, Cmp::C, false, true>(); } \
	VC_PROOF(C##_aboveMore_##S) { different<B, Cmp::C, true, true>(); } \
	VC_PROOF(C##_same_##S) { same<B, Cmp::C, false>(); } \
	VC_PROOF(C##_sameMore_##S) { same<B, Cmp::C, true>(); }
#define COMPARISONS(B, S) COMPARE(B, S, Equal) COMPARE(B, S, Different) COMPARE(B, S, Less) COMPARE(B, S, LessEqual) COMPARE(B, S, Greater) COMPARE(B, S, GreaterEqual)

COMPARISONS(std::uint32_t, u32)
COMPARISONS(std::uint64_t, u64)

VC_MAIN
