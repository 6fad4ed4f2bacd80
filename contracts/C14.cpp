// FixedVector behaves as a sequence of at most Capacity elements, stored in the object itself.
// @configs cxx17 cxx20 ndebug17
#include "seq.hpp"
#include <NazaraUtils/FixedVector.hpp>
#include <cstring>

namespace
{
	using namespace seq;
	constexpr std::size_t Cap = 4;
	using C = Nz::FixedVector<T, Cap>;
	using M = Model<Cap>;

	// any content
	template<typename F> void with(F f)
	{
		Ctx ctx;
		{ C c; M m; fill("n", "v", c, m); f(c, m); }
		live(0);
	}
	// a type without default constructor, that can only be moved
	struct MoveOnly
	{
		T t;
		explicit MoveOnly(U32 x) : t(x) {}
		MoveOnly(MoveOnly&&) = default;
		MoveOnly& operator=(MoveOnly&&) = default;
	};
}

VC_PROOF(PushBack) { with([](C& c, M& m) { pushBack(c, m); }); }
VC_PROOF(Insert) { with([](C& c, M& m) { insert(c, m); }); }
VC_PROOF(EraseOne) { with([](C& c, M& m) { eraseOne(c, m); }); }
VC_PROOF(EraseRange) { with([](C& c, M& m) { eraseRange(c, m); }); }
VC_PROOF(PopBack) { with([](C& c, M& m) { popBack(c, m); }); }
VC_PROOF(Clear) { with([](C& c, M& m) { clear(c, m); }); }
VC_PROOF(Resize) { with([](C& c, M& m) { resize(c, m); }); }
VC_PROOF(Access) { with([](C& c, M& m) { access(c, m); VC_ENSURES(c.capacity() == Cap && c.max_size() == Cap, "the capacity is fixed"); VC_ENSURES(reinterpret_cast<char*>(c.data()) >= reinterpret_cast<char*>(&c) && reinterpret_cast<char*>(c.data() + Cap) <= reinterpret_cast<char*>(&c + 1), "elements are stored inside"); c.reserve(Cap); same(c, m); }); }

VC_PROOF(Constructors)
{
	Ctx ctx;
	{
		C none;
		same(none, M());
		U32 x = value("x"), y = value("y");
		std::size_t n = vc::range<std::size_t>("n", 0, Cap);
		{ C c(n); M m; m.resize(n, 0); same(c, m); live(n); }
		{ T t(x); C c(n, t); M m; m.resize(n, x); same(c, m); live(n + 1); }
		{ C c{ x, y, x }; M m; m.push(x); m.push(y); m.push(x); same(c, m); live(3); }
		{
			U32 v[Cap] = { x, y, y ^ 1, x ^ 1 };
			vc::requires_((y ^ 1) != tracked::Moved && (x ^ 1) != tracked::Moved);
			C c(v, v + n); M m;
			for (std::size_t i = 0; i < Cap; ++i) if (i < n) m.push(v[i]);
			same(c, m);
			live(n);
		}
	}
	live(0);
}

VC_PROOF(Copy)
{
	with([](C& c, M& m)
	{
		{ C d(c); same(d, m); same(c, m); live(2 * m.n); d.clear(); same(c, m); }
		const C& cc = c;
		C e(cc);
		same(e, m);
		c = cc;
		same(c, m);
		live(2 * m.n);
	});
}

VC_PROOF(Move)
{
	with([](C& c, M& m)
	{
		tracked::copies = 0;
		C d(std::move(c));
		same(d, m);
		VC_ENSURES(tracked::copies == 0 && c.size() <= Cap, "moving does not copy");
		live(m.n + c.size());
		c.clear();
		live(m.n);
		U32 x = value("x");
		c.push_back(T(x));
		VC_ENSURES(c.size() == 1 && c[0].value == x, "a moved-from vector can be used again");
	});
}

VC_PROOF(CopyAssign)
{
	Ctx ctx;
	{
		C c, d; M m, k;
		fill("n", "v", c, m); fill("k", "w", d, k);
		auto& r = (c = d);
		VC_ENSURES(&r == &c, "returns the target");
		same(c, k); same(d, k);
		live(2 * k.n);
	}
	live(0);
}

VC_PROOF(MoveAssign)
{
	Ctx ctx;
	{
		C c, d; M m, k;
		fill("n", "v", c, m); fill("k", "w", d, k);
		tracked::copies = 0;
		auto& r = (c = std::move(d));
		VC_ENSURES(&r == &c && tracked::copies == 0, "moves the elements");
		same(c, k);
		live(k.n + d.size());
	}
	live(0);
}

VC_PROOF(MoveOnlyType)
{
	Ctx ctx;
	{
		using D = Nz::FixedVector<MoveOnly, 3>;
		U32 x = value("x"), y = value("y");
		D d;
		d.push_back(MoveOnly(x));
		d.emplace_back(y);
		d.insert(d.begin(), MoveOnly(x ^ y));
		VC_ENSURES(d.size() == 3 && d[0].t.value == (x ^ y) && d[1].t.value == x && d[2].t.value == y, "holds move-only elements");
		D e(std::move(d));
		d.clear();
		e.erase(e.begin() + 1);
		VC_ENSURES(e.size() == 2 && e[0].t.value == (x ^ y) && e[1].t.value == y, "holds move-only elements");
		e.erase(e.begin(), e.end());
		VC_ENSURES(e.empty(), "erases everything");
		e.emplace_back(y);
		d = std::move(e);
		VC_ENSURES(d.size() == 1 && d[0].t.value == y, "holds move-only elements");
		d.pop_back();
	}
	live(0);
}

// Large capacities: elements of a trivial type
namespace
{
	constexpr std::size_t Big = 1000;
	using TV = Nz::FixedVector<U32, Big>;
	// any size, any content
	template<typename F> void any(F f)
	{
		const U32* src = vc::mem<U32>("src", Big);
		std::size_t n = vc::size("n", Big, 6);
		vc::inductive();
		TV v;
		auto small = [&] { return v.size() == 0; };
		vc::hint_all(small);
		v.resize(n);
		vc::clear_hints();
		std::memcpy(v.data(), src, n * sizeof(U32));
		vc::prune();
		f(v, src, n);
		VC_ENSURES(v.capacity() == Big, "the capacity is fixed");
	}
}

VC_PROOF(AnyPush) { any([](TV& v, const U32* src, std::size_t n) { anyPush(v, src, n, Big); }); }
VC_PROOF(AnyInsert) { any([](TV& v, const U32* src, std::size_t n) { anyInsert(v, src, n, Big); }); }
VC_PROOF(AnyErase) { any([](TV& v, const U32* src, std::size_t n) { anyErase(v, src, n); }); }
VC_PROOF(AnyEraseOne) { any([](TV& v, const U32* src, std::size_t n) { anyEraseOne(v, src, n); }); }
VC_PROOF(AnyResize) { any([](TV& v, const U32* src, std::size_t n) { anyResize(v, src, n, Big); }); }
VC_PROOF(AnyPop) { any([](TV& v, const U32* src, std::size_t n) { anyPop(v, src, n); }); }
VC_PROOF(AnyCopyAssign) { any([](TV& v, const U32* src, std::size_t n) { TV d; anyAssign(d, v, src, n, [&] { d = static_cast<const TV&>(v); }); }); }
VC_PROOF(AnyMoveAssign) { any([](TV& v, const U32* src, std::size_t n) { TV d; anyAssign(d, v, src, n, [&] { d = std::move(v); }); }); }
VC_PROOF(AnyAccess) { any([](TV& v, const U32* src, std::size_t n) { anyAccess(v, src, n); }); }

#ifndef NDEBUG
// debug builds report a broken precondition instead of touching memory outside the elements
VC_PROOF(Misuse)
{
	with([](C& c, M& m)
	{
		const C& cc = c;
		unsigned how = vc::range<unsigned>("how", 0, 11);
		std::size_t j = vc::any<std::size_t>("j");
		bool full = how < 4, empty = how >= 4 && how < 9;
		vc::requires_(full ? m.n == Cap : empty ? m.n == 0 : true);
		vc::may_reject();
		switch (how)
		{
			case 0: c.push_back(T(1)); break;
			case 1: c.emplace_back(1); break;
			case 2: c.insert(c.begin(), T(1)); break;
			case 3: { T t(1); c.push_back(t); break; }
			case 4: c.pop_back(); break;
			case 5: c.front(); break;
			case 6: cc.front(); break;
			case 7: c.back(); break;
			case 8: cc.back(); break;
			case 9: vc::requires_(j >= m.n); c[j]; break;
			case 10: vc::requires_(j >= m.n); cc[j]; break;
			case 11: vc::requires_(j > Cap); c.resize(j); break;
		}
		VC_ENSURES(false, "a broken precondition is reported");
	});
}
#endif

VC_MAIN
