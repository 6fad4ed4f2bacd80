// EnumArray is an array indexed by the values of an enumeration.
// @configs cxx17 cxx20
#include "vc.hpp"
#include <NazaraUtils/EnumArray.hpp>
#include <algorithm>

namespace
{
	using U32 = std::uint32_t;
	enum class Wide { A, B, C, D, E, Max = E };
	enum class Tiny : std::uint8_t { X, Max = X };
	enum class Signed : std::int8_t { A, B, C, Max = C };
	enum Plain { PA, PB, PC, PD, Max = PD };

	template<typename E> struct Ctx
	{
		static constexpr std::size_t N = Nz::EnumValueCount_v<E>;
		using A = Nz::EnumArray<E, U32>;
		A& a;
		const A& ca;
		U32 v[N];
		std::size_t i;
		E e;
		Ctx(A& arr) : a(arr), ca(arr)
		{
			for (std::size_t k = 0; k < N; ++k) { v[k] = vc::any<U32>("v"); a.data()[k] = v[k]; }
			i = vc::range<std::size_t>("i", 0, N - 1);
			e = static_cast<E>(i);
		}
		// the array holds v except maybe at index x
		void same(std::size_t x = N) { for (std::size_t k = 0; k < N; ++k) if (k != x) VC_ENSURES(a.data()[k] == v[k], "the other elements are unchanged"); }
	};

	template<typename E> void index()
	{
		typename Ctx<E>::A storage;
		Ctx<E> c(storage);
		VC_ENSURES(c.a.size() == c.N, "one element per enumeration value");
		VC_ENSURES(&c.a[c.e] == c.a.data() + c.i && &c.ca[c.e] == c.a.data() + c.i, "array[e] is the element of the value e");
		U32 w = vc::any<U32>("w");
		c.a[c.e] = w;
		VC_ENSURES(c.a[c.e] == w && c.ca[c.e] == w, "a written element is read back");
		c.same(c.i);
	}
	template<typename E> void iterate()
	{
		typename Ctx<E>::A storage;
		Ctx<E> c(storage);
		std::size_t n = 0;
		for (auto&& [key, value] : c.a.iter_kv())
		{
			VC_ENSURES(n < c.N && key == static_cast<E>(n) && &value == c.a.data() + n, "visits the values in order with their own element");
			++n;
		}
		VC_ENSURES(n == c.N, "visits every value");
		n = 0;
		for (auto&& [key, value] : c.ca.iter_kv())
		{
			VC_ENSURES(n < c.N && key == static_cast<E>(n) && &value == c.a.data() + n, "visits the values in order with their own element");
			++n;
		}
		VC_ENSURES(n == c.N, "visits every value");
		c.same();
		for (auto&& [key, value] : c.a.iter_kv())
			if (key == c.e) value = c.v[0] ^ 5;
		VC_ENSURES(c.a[c.e] == (c.v[0] ^ 5), "writes go to the element of the value");
		c.same(c.i);
	}
	template<typename E, bool Const> void arithmetic()
	{
		typename Ctx<E>::A storage;
		Ctx<E> c(storage);
		std::ptrdiff_t i = static_cast<std::ptrdiff_t>(c.i), n = static_cast<std::ptrdiff_t>(c.N);
		std::ptrdiff_t j = vc::range<std::ptrdiff_t>("j", 0, n);
		auto tag = [&] { if constexpr (Const) return c.ca.iter_kv(); else return c.a.iter_kv(); }();
		auto b = tag.begin(), end = tag.end();
		auto at = [&](const auto& it, std::ptrdiff_t k)
		{
			// it designates index k
			VC_ENSURES((it == end) == (k == n), "only the end compares equal to the end");
			if (k < n) { auto p = *it; VC_ENSURES(p.first == static_cast<E>(k) && &p.second == c.a.data() + k, "designates its value and element"); }
		};
		auto it = b;
		auto& r = (it += j);
		VC_ENSURES(&r == &it, "+= returns the iterator");
		at(it, j);
		const auto cit = it;
		at(cit + (i - j), i);
		at((i - j) + cit, i);
		at(cit - (j - i), i);
		at(cit, j);
		auto p = cit[i - j];
		VC_ENSURES(p.first == c.e && &p.second == c.a.data() + i, "it[n] is the element n further");
		auto& r2 = (it -= (j - i));
		VC_ENSURES(&r2 == &it, "-= returns the iterator");
		at(it, i);
		auto o = it++;
		at(o, i); at(it, i + 1);
		auto o2 = it--;
		at(o2, i + 1); at(it, i);
		auto& r3 = ++it;
		VC_ENSURES(&r3 == &it, "++it returns the iterator");
		at(it, i + 1);
		auto& r4 = --it;
		VC_ENSURES(&r4 == &it, "--it returns the iterator");
		at(it, i);
		VC_ENSURES((it == cit) == (i == j) && (it != cit) == (i != j) && (it < cit) == (i < j) && (it <= cit) == (i <= j) && (it > cit) == (i > j) && (it >= cit) == (i >= j), "iterators compare as their positions");
		it = cit;
		at(it, j);
	}
}

VC_PROOF(Index_Wide) { index<Wide>(); }
VC_PROOF(Index_Tiny) { index<Tiny>(); }
VC_PROOF(Index_Signed) { index<Signed>(); }
VC_PROOF(Index_Plain) { index<Plain>(); }
VC_PROOF(Iterate_Wide) { iterate<Wide>(); }
VC_PROOF(Iterate_Tiny) { iterate<Tiny>(); }
VC_PROOF(Iterate_Signed) { iterate<Signed>(); }
VC_PROOF(Iterate_Plain) { iterate<Plain>(); }
VC_PROOF(Arithmetic_Wide) { arithmetic<Wide, false>(); }
VC_PROOF(Arithmetic_Wide_Const) { arithmetic<Wide, true>(); }
VC_PROOF(Arithmetic_Tiny) { arithmetic<Tiny, false>(); }
VC_PROOF(Arithmetic_Signed) { arithmetic<Signed, false>(); }
VC_PROOF(Arithmetic_Plain_Const) { arithmetic<Plain, true>(); }

VC_MAIN
