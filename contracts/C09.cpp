// Logical operators between bitsets of any sizes, with any aliasing.
// @configs cxx17
#include "bitset.hpp"

namespace
{
	using namespace bs;

	enum class Op { And, Or, Xor };
	enum class How { Performs, Operator, Assign };

	template<typename B> B apply(Op o, B x, B y) { return o == Op::And ? B(x & y) : o == Op::Or ? B(x | y) : B(x ^ y); }

	// dst: 0 fresh, 1 aliases a, 2 aliases b; b aliases a when same
	template<typename B, Op O, int Dst, bool Same> void performs()
	{
		Bitset<B> a = any<B>("na", "a");
		Bitset<B> b2 = Same ? Bitset<B>() : any<B>("nb", "b");
		Bitset<B> d = Dst == 0 ? any<B>("nd", "d") : Bitset<B>();
		Bitset<B>& b = Same ? a : b2;
		Bitset<B>& dst = Dst == 0 ? d : (Dst == 1 ? a : b);

		std::size_t q = vc::any<std::size_t>("q");
		B oa = block(a, q), ob = block(b, q);
		std::size_t size = a.GetSize() > b.GetSize() ? a.GetSize() : b.GetSize();
		B expect = apply(O, oa, ob);

		vc::inductive();
		auto done = [&](std::size_t) { return block(dst, q) == expect; };
		auto keepA = [&](std::size_t) { return block(a, q) == oa; };
		auto keepB = [&](std::size_t) { return block(b, q) == ob; };
		vc::hint_split(q, done);
		if (Dst == 1 || (Same && Dst == 2)) vc::hint_split(q, keepA);
		if (Dst == 2 && !Same) vc::hint_split(q, keepB);

		if constexpr (O == Op::And) dst.PerformsAND(a, b);
		else if constexpr (O == Op::Or) dst.PerformsOR(a, b);
		else dst.PerformsXOR(a, b);

		VC_ENSURES(dst.GetSize() == size, "the result has the size of the largest operand");
		VC_ENSURES(wellFormed(dst), "the result is well-formed");
		VC_ENSURES(block(dst, q) == expect, "every block is the operation of the operands' blocks");
		if (&dst != &a) VC_ENSURES(block(a, q) == oa, "the first operand is unchanged");
		if (&dst != &b) VC_ENSURES(block(b, q) == ob, "the second operand is unchanged");
	}

	// the operators: a & b builds a new bitset, a &= b updates a
	template<typename B, Op O, bool Assign, bool Same> void operators()
	{
		Bitset<B> a = any<B>("na", "a");
		Bitset<B> b2 = Same ? Bitset<B>() : any<B>("nb", "b");
		Bitset<B>& b = Same ? a : b2;
		std::size_t q = vc::any<std::size_t>("q");
		B oa = block(a, q), ob = block(b, q);
		std::size_t size = a.GetSize() > b.GetSize() ? a.GetSize() : b.GetSize();
		B expect = apply(O, oa, ob);

		vc::inductive();
		if constexpr (Assign)
		{
			auto done = [&](std::size_t) { return block(a, q) == expect; };
			auto keep = [&](std::size_t) { return block(a, q) == oa; };
			vc::hint_split(q, done);
			vc::hint_split(q, keep);
			Bitset<B>* r;
			if constexpr (O == Op::And) r = &(a &= b);
			else if constexpr (O == Op::Or) r = &(a |= b);
			else r = &(a ^= b);
			VC_ENSURES(r == &a, "the assignment returns its left operand");
			VC_ENSURES(a.GetSize() == size, "the result has the size of the largest operand");
			VC_ENSURES(wellFormed(a), "the result is well-formed");
			VC_ENSURES(block(a, q) == expect, "every block is the operation of the operands' blocks");
			if (!Same) VC_ENSURES(block(b, q) == ob, "the right operand is unchanged");
		}
		else
		{
			auto done = [&](std::size_t) { return newest<B>(q) == expect; };
			vc::hint_split(q, done);
			Bitset<B> r = [&]
			{
				if constexpr (O == Op::And) return a & b;
				else if constexpr (O == Op::Or) return a | b;
				else return a ^ b;
			}();
			VC_ENSURES(r.GetSize() == size, "the result has the size of the largest operand");
			VC_ENSURES(wellFormed(r), "the result is well-formed");
			VC_ENSURES(block(r, q) == expect, "every block is the operation of the operands' blocks");
			VC_ENSURES(block(a, q) == oa && block(b, q) == ob, "the operands are unchanged");
		}
	}

	// 0: PerformsNOT into another bitset, 1: into itself, 2: operator~, 3: Flip
	template<typename B, int How> void negates()
	{
		Bitset<B> a = any<B>("na", "a");
		Bitset<B> d = How == 0 ? any<B>("nd", "d") : Bitset<B>();
		std::size_t q = vc::any<std::size_t>("q");
		std::size_t size = a.GetSize();
		std::size_t n = a.GetBlockCount();
		B oa = block(a, q);
		// the unused bits of the last block stay zero
		B inverse = q < n ? B(~oa) : B(0);
		B expect = q + 1 == n ? B(inverse & lastMask<B>(size)) : inverse;

		vc::inductive();
		auto doneNew = [&](std::size_t) { return newest<B>(q) == inverse; };
		auto doneA = [&](std::size_t) { return block(a, q) == inverse; };
		auto keepA = [&](std::size_t) { return block(a, q) == oa; };
		if (How == 0 || How == 2)
			vc::hint_split(q, doneNew);
		else
		{
			vc::hint_split(q, doneA);
			vc::hint_split(q, keepA);
		}
		auto post = [&](const Bitset<B>& r)
		{
			VC_ENSURES(r.GetSize() == size, "the result has the size of its operand");
			VC_ENSURES(wellFormed(r), "the result is well-formed");
			VC_ENSURES(block(r, q) == expect, "every bit is inverted");
			if (How == 0 || How == 2) VC_ENSURES(block(a, q) == oa, "the operand is unchanged");
		};
		if constexpr (How == 0) { d.PerformsNOT(a); post(d); }
		else if constexpr (How == 1) { a.PerformsNOT(a); post(a); }
		else if constexpr (How == 2) { Bitset<B> r = ~a; post(r); }
		else { a.Flip(); post(a); }
	}
}

#define PERFORMS(op) \
	VC_PROOF(Performs_##op##_u32_fresh) { performs<std::uint32_t, Op::op, 0, false>(); } \
	VC_PROOF(Performs_##op##_u32_intoFirst) { performs<std::uint32_t, Op::op, 1, false>(); } \
	VC_PROOF(Performs_##op##_u32_intoSecond) { performs<std::uint32_t, Op::op, 2, false>(); } \
	VC_PROOF(Performs_##op##_u32_self) { performs<std::uint32_t, Op::op, 1, true>(); } \
	VC_PROOF(Performs_##op##_u8_fresh) { performs<std::uint8_t, Op::op, 0, false>(); } \
	VC_PROOF(Performs_##op##_u64_intoFirst) { performs<std::uint64_t, Op::op, 1, false>(); } \
	VC_PROOF(Assign_##op##_u32) { operators<std::uint32_t, Op::op, true, false>(); }
PERFORMS(And)
PERFORMS(Or)
PERFORMS(Xor)

VC_PROOF(Operator_And_u32) { operators<std::uint32_t, Op::And, false, false>(); }
VC_PROOF(Operator_Or_u32) { operators<std::uint32_t, Op::Or, false, false>(); }
VC_PROOF(Operator_Xor_u32) { operators<std::uint32_t, Op::Xor, false, false>(); }
VC_PROOF(Not_u32_fresh) { negates<std::uint32_t, 0>(); }
VC_PROOF(Not_u32_self) { negates<std::uint32_t, 1>(); }
VC_PROOF(Not_u32_operator) { negates<std::uint32_t, 2>(); }
VC_PROOF(Flip_u32) { negates<std::uint32_t, 3>(); }
VC_PROOF(Not_u8_fresh) { negates<std::uint8_t, 0>(); }
VC_PROOF(Flip_u64) { negates<std::uint64_t, 3>(); }
VC_MAIN
