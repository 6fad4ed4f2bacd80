// StackVector and StackArray: a sequence and an array over memory given by the caller.
// @configs cxx17 cxx20 ndebug17
#include "seq.hpp"
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <cstring>

namespace
{
	using namespace seq;
	constexpr std::size_t Cap = 4;
	using C = Nz::StackVector<T>;
	using A = Nz::StackArray<T>;
	using M = Model<Cap>;

	template<typename E> struct Raw { alignas(E) unsigned char bytes[Cap * sizeof(E)]; E* ptr() { return reinterpret_cast<E*>(bytes); } };

	// any content
	template<typename F> void with(F f)
	{
		Ctx ctx;
		Raw<T> raw;
		{ C c(raw.ptr(), Cap); M m; fill("n", "v", c, m); f(c, m); VC_ENSURES(c.data() == raw.ptr() && c.capacity() == Cap && c.max_size() == Cap, "stays in the memory it was given"); }
		live(0);
	}
	struct MoveOnly
	{
		T t;
		explicit MoveOnly(U32 x) : t(x) {}
		MoveOnly(MoveOnly&&) = default;
		MoveOnly& operator=(MoveOnly&&) = default;
	};
}

VC_PROOF(PushBack) { with([](C& c, M& m) { pushBack(c, m); }); }
VC_PROOF(Insert) { with([](C& c, M& m) { insert(c, m); }); }
VC_PROOF(EraseOne) { with([](C& c, M& m) { eraseOne(c, m); }); }
VC_PROOF(EraseRange) { with([](C& c, M& m) { eraseRange(c, m); }); }
VC_PROOF(PopBack) { with([](C& c, M& m) { popBack(c, m); }); }
VC_PROOF(Clear) { with([](C& c, M& m) { clear(c, m); }); }
VC_PROOF(Resize) { with([](C& c, M& m) { resize(c, m); }); }
VC_PROOF(Access) { with([](C& c, M& m) { access(c, m); }); }

VC_PROOF(Empty)
{
	Ctx ctx;
	{
		C none;
		same(none, M());
		VC_ENSURES(none.capacity() == 0 && none.begin() == none.end(), "a default vector is empty");
		none.clear();
		none.resize(0);
		A a;
		VC_ENSURES(a.empty() && a.size() == 0 && a.begin() == a.end(), "a default array is empty");
	}
	live(0);
}

VC_PROOF(Move)
{
	Ctx ctx;
	Raw<T> raw;
	{
		std::size_t cap = vc::range<std::size_t>("cap", 0, Cap);
		C c(raw.ptr(), cap); M m;
		std::size_t n = vc::range<std::size_t>("n", 0, Cap);
		vc::requires_(n <= cap);
		for (std::size_t i = 0; i < Cap; ++i) { U32 x = value("v"); if (i < n) { c.push_back(T(x)); m.push(x); } }
		tracked::copies = tracked::moves = 0;
		C d(std::move(c));
		same(d, m);
		live(n);
		VC_ENSURES(tracked::copies == 0 && tracked::moves == 0 && d.data() == raw.ptr() && d.capacity() == cap, "moving keeps the elements in place");
		VC_ENSURES(c.empty() && c.capacity() == 0, "a moved-from vector is empty");
		c.clear();
		same(d, m);
	}
	live(0);
}

VC_PROOF(MoveAssign)
{
	Ctx ctx;
	Raw<T> raw, raw2;
	{
		C d(raw2.ptr(), Cap); M k;
		std::size_t n2 = vc::range<std::size_t>("k", 0, 2);
		for (std::size_t i = 0; i < 2; ++i) { U32 x = value("w"); if (i < n2) { d.push_back(T(x)); k.push(x); } }
		{
			C c(raw.ptr(), Cap); M m;
			fill("n", "v", c, m);
			tracked::copies = tracked::moves = 0;
			auto& r = (d = std::move(c));
			VC_ENSURES(&r == &d && tracked::copies == 0 && tracked::moves == 0 && d.data() == raw.ptr() && d.capacity() == Cap, "move assignment keeps the elements in place");
			same(d, m);
			live(m.n + c.size());
			k = m;
		}
		same(d, k);
		live(k.n);
	}
	live(0);
}

VC_PROOF(MoveOnlyType)
{
	Ctx ctx;
	Raw<MoveOnly> raw;
	{
		U32 x = value("x"), y = value("y");
		Nz::StackVector<MoveOnly> d(raw.ptr(), 3);
		d.push_back(MoveOnly(x));
		d.emplace_back(y);
		d.insert(d.begin(), MoveOnly(x ^ y));
		VC_ENSURES(d.size() == 3 && d[0].t.value == (x ^ y) && d[1].t.value == x && d[2].t.value == y, "holds move-only elements");
		d.erase(d.begin() + 1);
		VC_ENSURES(d.size() == 2 && d[0].t.value == (x ^ y) && d[1].t.value == y, "holds move-only elements");
		Nz::StackVector<MoveOnly> e(std::move(d));
		e.erase(e.begin(), e.begin() + 1);
		VC_ENSURES(e.size() == 1 && e[0].t.value == y, "erases a range");
		e.pop_back();
	}
	live(0);
}

// StackArray
VC_PROOF(Array)
{
	Ctx ctx;
	Raw<T> raw;
	{
		std::size_t n = vc::range<std::size_t>("n", 0, Cap);
		A a(raw.ptr(), n);
		live(n);
		const A& ca = a;
		VC_ENSURES(a.size() == n && a.max_size() == n && a.empty() == (n == 0) && a.data() == raw.ptr() && ca.data() == raw.ptr(), "has the given size and memory");
		VC_ENSURES(a.begin() == a.data() && a.end() == a.data() + n && ca.begin() == a.data() && ca.end() == a.data() + n && a.cbegin() == a.data() && a.cend() == a.data() + n, "iterates over its elements");
		VC_ENSURES(a.rbegin().base() == a.end() && a.rend().base() == a.begin() && a.crbegin().base() == a.cend() && a.crend().base() == a.cbegin(), "iterates backwards over its elements");
		for (std::size_t i = 0; i < Cap; ++i) if (i < n) { raw.ptr()[i].used(); VC_ENSURES(raw.ptr()[i].value == 0, "elements are default-constructed"); }
		U32 x = value("x");
		{ T t(x); a.fill(t); VC_ENSURES(t.value == x, "copies"); }
		for (std::size_t i = 0; i < Cap; ++i) if (i < n) VC_ENSURES(raw.ptr()[i].value == x, "fill sets every element");
		live(n);
		if (n > 0)
		{
			std::size_t j = vc::range<std::size_t>("j", 0, Cap - 1);
			vc::requires_(j < n);
			VC_ENSURES(&a[j] == raw.ptr() + j && &ca[j] == raw.ptr() + j && &a.front() == raw.ptr() && &ca.front() == raw.ptr() && &a.back() == raw.ptr() + n - 1 && &ca.back() == raw.ptr() + n - 1, "designates its elements");
		}
	}
	live(0);
}

// filling with one of its own elements
VC_PROOF(ArrayFillOwn)
{
	Ctx ctx;
	Raw<T> raw;
	{
		std::size_t n = vc::range<std::size_t>("n", 1, Cap), j = vc::range<std::size_t>("j", 0, Cap - 1);
		vc::requires_(j < n);
		A a(raw.ptr(), n);
		U32 x = 0;
		for (std::size_t i = 0; i < Cap; ++i) if (i < n) { U32 y = value("v"); a[i] = T(y); if (i == j) x = y; }
		for (std::size_t i = 0; i < Cap; ++i) if (i == j) a.fill(a[i]);
		for (std::size_t i = 0; i < Cap; ++i) if (i < n) { raw.ptr()[i].used(); VC_ENSURES(raw.ptr()[i].value == x, "fill sets every element to the value it was given"); }
		live(n);
	}
	live(0);
}

VC_PROOF(ArrayNoInit)
{
	Ctx ctx;
	Raw<T> raw;
	{
		std::size_t n = vc::range<std::size_t>("n", 0, Cap);
		A a(raw.ptr(), n, A::NoInitTag());
		live(0);
		VC_ENSURES(a.size() == n && a.data() == raw.ptr(), "constructs nothing");
		for (std::size_t i = 0; i < Cap; ++i) if (i < n) Nz::PlacementNew(&raw.ptr()[i], U32(i));
	}
	live(0);
}

VC_PROOF(ArrayMove)
{
	Ctx ctx;
	Raw<T> raw, raw2;
	{
		std::size_t n = vc::range<std::size_t>("n", 0, Cap), k = vc::range<std::size_t>("k", 0, Cap);
		A a(raw.ptr(), n);
		U32 x = value("x");
		{ T t(x); a.fill(t); }
		tracked::copies = tracked::moves = 0;
		A b(std::move(a));
		live(n);
		VC_ENSURES(b.size() == n && b.data() == raw.ptr() && a.empty() && tracked::copies == 0 && tracked::moves == 0, "moving keeps the elements in place");
		{
			A c(raw2.ptr(), k);
			auto& r = (c = std::move(b));
			VC_ENSURES(&r == &c && c.size() == n && c.data() == raw.ptr() && b.size() + n <= k + n && tracked::copies == 0 && tracked::moves == 0, "move assignment keeps the elements in place");
			for (std::size_t i = 0; i < Cap; ++i) if (i < n) { raw.ptr()[i].used(); VC_ENSURES(raw.ptr()[i].value == x, "keeps the values"); }
			live(n + b.size());
		}
	}
	live(0);
}

VC_PROOF(Macros)
{
	Ctx ctx;
	{
		U32 x = value("x"), y = value("y");
		Nz::StackVector<T> v = NazaraStackVector(T, 2);
		v.emplace_back(x);
		v.push_back(T(y));
		VC_ENSURES(v.size() == 2 && v.capacity() == 2 && v[0].value == x && v[1].value == y, "has room for its capacity");
		Nz::StackArray<T> a = NazaraStackArray(T, 2);
		VC_ENSURES(a.size() == 2 && a[0].value == 0 && a[1].value == 0, "has room for its size");
		a[1].value = x;
		VC_ENSURES(v[0].value == x && v[1].value == y && a[1].value == x, "are separate");
		Nz::StackArray<T> n = NazaraStackArrayNoInit(T, 1);
		Nz::PlacementNew(n.data(), y);
		VC_ENSURES(n[0].value == y, "can be constructed by the caller");
		live(5);
	}
	live(0);
}

// Any size: elements of a trivial type in memory of any capacity
namespace
{
	using TV = Nz::StackVector<U32>;
	// any capacity, any size, any content
	template<typename F> void any(F f)
	{
		std::size_t cap = vc::size("cap", 1u << 20, 6);
		U32* raw = vc::mem<U32>("raw", cap);
		const U32* src = vc::mem<U32>("src", cap);
		std::size_t n = vc::size("n", 1u << 20, 6);
		vc::requires_(n <= cap);
		vc::inductive();
		TV v(raw, cap);
		v.resize(n);
		std::memcpy(v.data(), src, n * sizeof(U32));
		vc::prune();
		f(v, src, n, cap);
		VC_ENSURES(v.data() == raw && v.capacity() == cap, "stays in the memory it was given");
	}
}

VC_PROOF(AnyPush) { any([](TV& v, const U32* src, std::size_t n, std::size_t cap) { anyPush(v, src, n, cap); }); }
VC_PROOF(AnyInsert) { any([](TV& v, const U32* src, std::size_t n, std::size_t cap) { anyInsert(v, src, n, cap); }); }
VC_PROOF(AnyErase) { any([](TV& v, const U32* src, std::size_t n, std::size_t) { anyErase(v, src, n); }); }
VC_PROOF(AnyEraseOne) { any([](TV& v, const U32* src, std::size_t n, std::size_t) { anyEraseOne(v, src, n); }); }
VC_PROOF(AnyResize) { any([](TV& v, const U32* src, std::size_t n, std::size_t cap) { anyResize(v, src, n, cap); }); }
VC_PROOF(AnyPop) { any([](TV& v, const U32* src, std::size_t n, std::size_t) { anyPop(v, src, n); }); }
VC_PROOF(AnyAccess) { any([](TV& v, const U32* src, std::size_t n, std::size_t) { anyAccess(v, src, n); }); }
VC_PROOF(AnyArray)
{
	std::size_t n = vc::size("n", 1u << 20, 6);
	U32* raw = vc::mem<U32>("raw", n);
	vc::inductive();
	U32 x = vc::any<U32>("x");
	std::size_t k = vc::any<std::size_t>("k");
	vc::requires_(k < n);
	auto zero = [&](std::size_t i) { return raw[i] == 0; };
	vc::hint_split(k, zero);
	Nz::StackArray<U32> a(raw, n);
	VC_ENSURES(a.size() == n && a[k] == 0, "elements are default-constructed");
	vc::clear_hints();
	auto same = [&](std::size_t i) { return raw[i] == x; };
	vc::hint_split(k, same);
	a.fill(x);
	VC_ENSURES(a[k] == x, "fill sets every element");
}

#ifndef NDEBUG
VC_PROOF(MisuseArray)
{
	Ctx ctx;
	Raw<T> raw;
	std::size_t n = vc::range<std::size_t>("n", 0, 2);
	A a(raw.ptr(), n);
	const A& ca = a;
	unsigned how = vc::range<unsigned>("how", 0, 3);
	std::size_t j = vc::any<std::size_t>("j");
	vc::requires_(how < 2 ? j >= n : n == 0);
	vc::may_reject();
	switch (how)
	{
		case 0: a[j]; break;
		case 1: ca[j]; break;
		case 2: a.back(); break;
		case 3: ca.back(); break;
	}
	VC_ENSURES(false, "a broken precondition is reported");
}

// debug builds report a broken precondition instead of touching memory outside the elements
VC_PROOF(Misuse)
{
	with([](C& c, M& m)
	{
		const C& cc = c;
		unsigned how = vc::range<unsigned>("how", 0, 11);
		std::size_t j = vc::any<std::size_t>("j");
		bool full = how < 4, empty = how >= 4 && how < 9;
		vc::requires_(full ? m.n == Cap : empty ? m.n == 0 : true);
		vc::may_reject();
		switch (how)
		{
			case 0: c.push_back(T(1)); break;
			case 1: c.emplace_back(1); break;
			case 2: c.insert(c.begin(), T(1)); break;
			case 3: { T t(1); c.push_back(t); break; }
			case 4: c.pop_back(); break;
			case 5: c.front(); break;
			case 6: cc.front(); break;
			case 7: c.back(); break;
			case 8: cc.back(); break;
			case 9: vc::requires_(j >= m.n); c[j]; break;
			case 10: vc::requires_(j >= m.n); cc[j]; break;
			case 11: vc::requires_(j > Cap); c.resize(j); break;
		}
		VC_ENSURES(false, "a broken precondition is reported");
	});
}
#endif

VC_MAIN
