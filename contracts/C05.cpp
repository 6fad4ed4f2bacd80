// Hashes of byte sequences of any length, from any entry point.
// @configs cxx17 cxx20
#include "vc.hpp"
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <NazaraUtils/Flags.hpp>
#include <string>
#include <string_view>

namespace
{
	using Nz::UInt8; using Nz::UInt32; using Nz::UInt64;

	enum class H { Crc, Fnv32, Fnv64 };

	// one byte of each algorithm, from its published definition
	template<H h> auto init() { if constexpr (h == H::Crc) return UInt32(0xFFFFFFFF); else if constexpr (h == H::Fnv32) return UInt32(2166136261u); else return UInt64(14695981039346656037ull); }
	template<H h, typename T> T step(T s, UInt8 byte)
	{
		if constexpr (h == H::Crc)
		{
			// reflected polynomial division, one bit at a time
			s ^= byte;
			for (int i = 0; i < 8; ++i)
				s = (s & 1) ? (s >> 1) ^ 0xEDB88320u : s >> 1;
			return s;
		}
		else if constexpr (h == H::Fnv32) return (s ^ byte) * 16777619u;
		else return (s ^ byte) * 1099511628211ull;
	}
	template<H h, typename T> T last(T s) { if constexpr (h == H::Crc) return ~s; else return s; }

	enum class From { CString, View, Bytes, FunctorCString, FunctorView, FunctorBytes };

	template<H h, From f, typename P> auto run(P* p, std::size_t n)
	{
		const char* c = reinterpret_cast<const char*>(p);
		const UInt8* b = reinterpret_cast<const UInt8*>(p);
		if constexpr (h == H::Crc)
		{
			if constexpr (f == From::CString) return Nz::CRC32(c);
			else if constexpr (f == From::View) return Nz::CRC32(std::string_view(c, n));
			else if constexpr (f == From::Bytes) return Nz::CRC32(b, n);
			else if constexpr (f == From::FunctorCString) return Nz::CRC32Hash{}(c);
			else if constexpr (f == From::FunctorView) return Nz::CRC32Hash{}(std::string_view(c, n));
			else return Nz::CRC32Hash{}(b, n);
		}
		else if constexpr (h == H::Fnv32)
		{
			if constexpr (f == From::CString) return Nz::FNV1a32(c);
			else if constexpr (f == From::View) return Nz::FNV1a32(std::string_view(c, n));
			else if constexpr (f == From::Bytes) return Nz::FNV1a32(b, n);
			else if constexpr (f == From::FunctorCString) return Nz::FNV1a32Hash{}(c);
			else if constexpr (f == From::FunctorView) return Nz::FNV1a32Hash{}(std::string_view(c, n));
			else return Nz::FNV1a32Hash{}(b, n);
		}
		else
		{
			if constexpr (f == From::CString) return Nz::FNV1a64(c);
			else if constexpr (f == From::View) return Nz::FNV1a64(std::string_view(c, n));
			else if constexpr (f == From::Bytes) return Nz::FNV1a64(b, n);
			else if constexpr (f == From::FunctorCString) return Nz::FNV1a64Hash{}(c);
			else if constexpr (f == From::FunctorView) return Nz::FNV1a64Hash{}(std::string_view(c, n));
			else return Nz::FNV1a64Hash{}(b, n);
		}
	}

	template<H h, From f> void hash()
	{
		constexpr bool cstr = f == From::CString || f == From::FunctorCString;
		using T = decltype(init<h>());
		std::size_t n = vc::size("n", std::size_t(1) << 40, 40);
		const UInt8* p = reinterpret_cast<const UInt8*>(cstr ? vc::cstring("bytes", n) : vc::mem<char>("bytes", n));
#ifdef VC_SYMBOLIC
		// S(i): state after the first i bytes
		auto S = [&](std::size_t i) { return vc::spec<T>("state", 0, i); };
		vc::inductive();
		vc::assume(S(0) == init<h>());
		auto def = [&](std::size_t i) { return i < n ? S(i + 1) == step<h>(S(i), p[i]) : true; };
		auto inv = [&](std::size_t i, std::uint64_t s) { return i <= n && static_cast<T>(s) == S(i); };
		auto notNull = [&](std::size_t i) { return i < n ? p[i] != 0 : true; };
		auto bound = [&](std::size_t i) { return i <= n; };
		vc::axiom(def);
		if (cstr) { vc::axiom(notNull); vc::hint_at(bound); }
		vc::hint_acc(inv);
		T expect = last<h>(S(n));
#else
		T expect = init<h>();
		for (std::size_t i = 0; i < n; ++i)
			expect = step<h>(expect, p[i]);
		expect = last<h>(expect);
#endif
		VC_ENSURES((run<h, f>(p, n)) == expect, "the hash is the published function of the bytes");
	}

	// CityHash's Hash128to64
	UInt64 city(UInt64 low, UInt64 high)
	{
		constexpr UInt64 m = 0x9ddfea08eb382d69ull;
		UInt64 a = (low ^ high) * m; a ^= a >> 47;
		UInt64 b = (high ^ a) * m; b ^= b >> 47;
		return b * m;
	}

	struct Key { UInt64 h; };
}
namespace std { template<> struct hash<Key> { std::size_t operator()(const Key& k) const { return k.h; } }; }

#define HASH(N, f) \
	VC_PROOF(CRC32_##N) { hash<H::Crc, From::f>(); } \
	VC_PROOF(FNV1a32_##N) { hash<H::Fnv32, From::f>(); } \
	VC_PROOF(FNV1a64_##N) { hash<H::Fnv64, From::f>(); }
HASH(cstring, CString) HASH(view, View) HASH(bytes, Bytes) HASH(functor_cstring, FunctorCString) HASH(functor_view, FunctorView) HASH(functor_bytes, FunctorBytes)

VC_PROOF(HashCombine)
{
	std::size_t seed = vc::any<UInt64>("seed");
	std::size_t old = seed;
	Key k{ vc::any<UInt64>("hash") };
	Nz::HashCombine(seed, k);
	VC_ENSURES(seed == city(k.h, old), "the seed becomes the 128 to 64 bits mix of the hash and the seed");
	VC_ENSURES(Nz::HashCombine(k) == k.h, "combining one value is hashing it");
	Key k2{ vc::any<UInt64>("hash2") }, k3{ vc::any<UInt64>("hash3") };
	VC_ENSURES(Nz::HashCombine(k, k2) == city(k2.h, k.h), "combination of two values");
	VC_ENSURES(Nz::HashCombine(k, k2, k3) == city(city(k3.h, k2.h), k.h), "combination of three values");
}

VC_PROOF(HashFunctor)
{
	Key k{ vc::any<UInt64>("hash") };
	VC_ENSURES(Nz::HashFunctor<std::hash<Key>>{}(k) == k.h, "forwards to the functor");
	UInt32 v = vc::any<UInt32>("v");
	struct F { UInt32 operator()(UInt32 a, UInt32 b) const { return a - b; } };
	UInt32 w = vc::any<UInt32>("w");
	VC_ENSURES(Nz::HashFunctor<F>{}(v, w) == UInt32(v - w), "forwards every argument in order");
}

VC_PROOF(StringHash)
{
	std::size_t n = vc::size("n", std::size_t(1) << 40, 40);
	const char* c = vc::cstring("chars", n);
	std::string_view v(c, n);
	std::size_t expect = std::hash<std::string_view>{}(v);
	Nz::StringHash<> h;
	VC_ENSURES(h(v) == expect, "hash of a view");
	VC_ENSURES(h(c) == expect, "hash of a C string");
}

namespace
{
	// libstdc++ only instantiates its std::string members here for another allocator
	template<typename T> struct Alloc
	{
		using value_type = T;
		Alloc() = default;
		template<typename U> Alloc(const Alloc<U>&) {}
		T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
		void deallocate(T* p, std::size_t) { ::operator delete(p); }
		friend bool operator==(const Alloc&, const Alloc&) { return true; }
		friend bool operator!=(const Alloc&, const Alloc&) { return false; }
	};
}

namespace
{
	void stringObject(std::size_t n)
	{
		const char* c = vc::mem<char>("chars", n);
		std::basic_string<char, std::char_traits<char>, Alloc<char>> s(c, n);
		VC_ENSURES(Nz::StringHash<>{}(s) == std::hash<std::string_view>{}(std::string_view(s.data(), s.size())), "hash of a string object is that of its characters");
	}
}

VC_PROOF(StringHash_short_string) { vc::bounded("a string of 5 characters"); stringObject(5); }
VC_PROOF(StringHash_long_string) { vc::bounded("a string of 20 characters"); stringObject(20); }

VC_MAIN
