// Shifts and reversal of a bitset of any size.
// @configs cxx17
#include "bitset.hpp"

namespace
{
	using namespace bs;

	enum class Sh { Left, LeftAssign, LeftOp, Right, RightAssign, RightOp };

	enum class Case { Unaligned, Aligned, Out };

	template<typename B, Sh S, Case C> void shift()
	{
		constexpr std::size_t w = W<B>;
		constexpr bool left = S == Sh::Left || S == Sh::LeftAssign || S == Sh::LeftOp;
		constexpr bool fresh = S == Sh::LeftOp || S == Sh::RightOp;
		Bitset<B> a = any<B>("n", "a");
		std::size_t size = a.GetSize(), n = a.GetBlockCount();
		std::size_t pos = vc::symbolic ? vc::any<std::size_t>("pos") : vc::size("pos", ~std::size_t(0), 200);
		std::size_t bsh = vc::named("blockShift", pos / w), rem = vc::named("bitShift", pos % w);
		if (C == Case::Unaligned) vc::requires_(rem != 0 && pos < size);
		else if (C == Case::Aligned) vc::requires_(rem == 0 && pos < size);
		else vc::requires_(pos >= size);
		std::size_t k = vc::range<std::size_t>("k", 0, MaxBits);
		std::size_t q = vc::named("q", k / w);
		// the two source blocks of block q
		std::size_t s1 = left ? q - bsh : q + bsh;
		std::size_t s2 = left ? s1 - 1 : s1 + 1;
		bool in = left ? q >= bsh : q < n && pos < size;
		B oq = block(a, q);
		B o1 = vc::ghost<B>("o1", [&] { return in ? block(a, s1) : B(0); });
		B o2 = vc::ghost<B>("o2", [&] { return in ? block(a, s2) : B(0); });
		B moved0 = left ? B(B(o1 << rem) | B(rem ? B(o2 >> (w - rem)) : B(0))) : B(B(o1 >> rem) | B(rem ? B(o2 << (w - rem)) : B(0)));
		if (pos >= size || q >= n) moved0 = 0;
		B moved = vc::ghost<B>("moved", [&] { return moved0; });
		bool expect = k < size && (left ? k >= pos && bit(a, k - pos) : pos < size && bit(a, k + pos));

		vc::inductive();
		std::size_t last = n - 1;
		auto get = [&](std::size_t i) { return fresh ? newest<B>(i) : block(a, i); };
		auto done = [&](std::size_t) { return !in || get(q) == moved; };
		auto zeroed = [&](std::size_t) { return in || get(q) == 0; };
		auto wiped = [&](std::size_t) { return get(q) == 0; };
		auto wipedLast = [&](std::size_t) { return get(last) == 0; };
		auto keep1 = [&](std::size_t) { return !in || get(s1) == o1; };
		auto keep2 = [&](std::size_t) { return !in || get(s2) == o2; };
		vc::hint_split(q, done);
		vc::hint_split(q, zeroed);
		vc::hint_split(s1, done);
		vc::hint_split(s1, keep1);
		vc::hint_split(s2, keep2);
		vc::hint_split(q, wiped);
		vc::hint_split(last, wipedLast);

		auto post = [&](const Bitset<B>& r)
		{
			VC_ENSURES(r.GetSize() == size, "the size is unchanged");
			VC_ENSURES(wellFormed(r), "the result is well-formed");
			VC_LEMMA(block(r, q) == B(moved & (q + 1 == n ? lastMask<B>(size) : B(~B(0)))), "every block is the shifted combination of its two source blocks");
			VC_ENSURES(bit(r, k) == expect, "bit k comes from its shifted position, zero from outside");
		};
		if constexpr (S == Sh::Left) { a.ShiftLeft(pos); post(a); }
		else if constexpr (S == Sh::LeftAssign) { Bitset<B>& r = (a <<= pos); VC_ENSURES(&r == &a, "returns its left operand"); post(a); }
		else if constexpr (S == Sh::LeftOp) { Bitset<B> r = a << pos; post(r); VC_ENSURES(block(a, q) == oq && a.GetSize() == size, "the operand is unchanged"); }
		else if constexpr (S == Sh::Right) { a.ShiftRight(pos); post(a); }
		else if constexpr (S == Sh::RightAssign) { Bitset<B>& r = (a >>= pos); VC_ENSURES(&r == &a, "returns its left operand"); post(a); }
		else { Bitset<B> r = a >> pos; post(r); VC_ENSURES(block(a, q) == oq && a.GetSize() == size, "the operand is unchanged"); }
	}
}

#define SHIFT(B, S, H) \
	VC_PROOF(H##_##S##_unaligned) { shift<B, Sh::H, Case::Unaligned>(); } \
	VC_PROOF(H##_##S##_aligned) { shift<B, Sh::H, Case::Aligned>(); } \
	VC_PROOF(H##_##S##_out) { shift<B, Sh::H, Case::Out>(); }
SHIFT(std::uint32_t, u32, Left)
SHIFT(std::uint32_t, u32, Right)

VC_MAIN
