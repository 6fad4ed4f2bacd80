// Contract vocabulary for Nz::Bitset: arbitrary well-formed bitsets of any size, observed through the public API.
#pragma once
#include "vcvec.hpp"
#include <NazaraUtils/Bitset.hpp>

namespace bs
{
	template<typename B> using Bitset = Nz::Bitset<B, vc::Vec<B>>;
	template<typename B> constexpr std::size_t W = sizeof(B) * 8;
	constexpr std::size_t MaxBits = std::size_t(1) << 40;

	template<typename B> std::size_t blocksFor(std::size_t bits) { return (bits + W<B> - 1) / W<B>; }
	template<typename B> B lastMask(std::size_t bits) { std::size_t r = bits % W<B>; return r ? static_cast<B>((B(1) << r) - 1) : static_cast<B>(~B(0)); }

	// any bitset of any size: arbitrary blocks, unused bits of the last block zero
	template<typename B> Bitset<B> any(const char* sizeName, const char* blocksName)
	{
		std::size_t bits = vc::size(sizeName, MaxBits, 150);
		Bitset<B> b;
		b.Resize(bits, false);
		std::size_t n = vc::named("blockCount", b.GetBlockCount());
		VC_LEMMA(n == blocksFor<B>(bits), "a bitset has as many blocks as its size requires");
		VC_LEMMA((n == 0) == (bits == 0) && n <= MaxBits / W<B>, "bounds of the block count");
#ifdef VC_SYMBOLIC
		// the container holds any elements that satisfy the representation invariant
		const B* src = vc::Vec<B>::touched()->havoc(blocksName, n);
		if (n != 0)
			vc::assume((src[n - 1] & static_cast<B>(~lastMask<B>(bits))) == 0);
#else
		B* src = vc::mem<B>(blocksName, n);
		for (std::size_t i = 0; i < n; ++i)
			b.SetBlock(i, src[i]);
#endif
		return b;
	}

	// representation invariant
	template<typename B, typename C> bool wellFormed(const Nz::Bitset<B, C>& b)
	{
		std::size_t n = b.GetBlockCount();
		if (n != blocksFor<B>(b.GetSize()))
			return false;
		return n == 0 || (b.GetBlock(n - 1) & static_cast<B>(~lastMask<B>(b.GetSize()))) == 0;
	}

	// block i, zero beyond the end
	template<typename B, typename C> B block(const Nz::Bitset<B, C>& b, std::size_t i) { return i < b.GetBlockCount() ? b.GetBlock(i) : B(0); }

	// block i of the bitset resized last (hints about a bitset that the contract cannot name yet)
	template<typename B> B newest([[maybe_unused]] std::size_t i)
	{
#ifdef VC_SYMBOLIC
		vc::Vec<B>* v = vc::Vec<B>::touched();
		return i < v->size() ? (*v)[i] : B(0);
#else
		return 0;
#endif
	}

	// bit k, zero beyond the end
	template<typename B, typename C> bool bit(const Nz::Bitset<B, C>& b, std::size_t k) { return k < b.GetSize() && ((block(b, k / W<B>) >> (k % W<B>)) & 1u) != 0; }
}
