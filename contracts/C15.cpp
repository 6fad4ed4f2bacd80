// HybridVector behaves as a sequence of any size: inside the object up to Capacity, in its fallback beyond.
// @configs cxx17 cxx20 ndebug17
#include "seq.hpp"
#include <NazaraUtils/FixedVector.hpp>

namespace
{
	using namespace seq;
	constexpr std::size_t Cap = 2, Size = 5;
	using C = Nz::HybridVector<T, Cap>;
	using M = Model<Size>;

	void bounds() { vc::bounded("at most 5 elements, 2 of them inline; values are arbitrary"); }
	// any content, in the object or in the fallback (where it stays when elements are removed)
	void make(C& c, M& m, const char* values)
	{
		std::size_t early = 0;
		choose("early", early, 2, 1);
		if (early) { c.reserve(Cap + 1); VC_ENSURES(c.empty() && c.capacity() >= Cap + 1, "reserve makes room"); }
		fill("n", values, c, m);
	}
	template<typename F> void with(F f)
	{
		Ctx ctx;
		bounds();
		enumerate([&] { { C c; M m; make(c, m, "v"); f(c, m); } live(0); });
	}
	template<typename F> void with2(F f)
	{
		Ctx ctx;
		bounds();
		enumerate([&] { { C c, d; M m, k; make(c, m, "v"); make(d, k, "w"); f(c, m, d, k); } live(0); });
	}
	bool inside(const C& c) { return reinterpret_cast<const char*>(c.data()) >= reinterpret_cast<const char*>(&c) && reinterpret_cast<const char*>(c.data()) < reinterpret_cast<const char*>(&c + 1); }
	void usable(C& c)
	{
		c.clear();
		U32 x = value("x");
		c.push_back(T(x));
		VC_ENSURES(c.size() == 1 && c[0].value == x, "it can be used again");
	}
}

VC_PROOF(PushBack) { with([](C& c, M& m) { pushBack(c, m); }); }
VC_PROOF(Insert) { with([](C& c, M& m) { insert(c, m); }); }
VC_PROOF(EraseOne) { with([](C& c, M& m) { eraseOne(c, m); }); }
VC_PROOF(EraseRange) { with([](C& c, M& m) { eraseRange(c, m); }); }
VC_PROOF(PopBack) { with([](C& c, M& m) { popBack(c, m); }); }
VC_PROOF(Clear) { with([](C& c, M& m) { clear(c, m); }); }
VC_PROOF(Resize) { with([](C& c, M& m) { resize(c, m); }); }
VC_PROOF(Access) { with([](C& c, M& m) { access(c, m); }); }

VC_PROOF(Storage)
{
	Ctx ctx;
	bounds();
	enumerate([&]
	{
		{
			C c; M m;
			fill("n", "v", c, m);
			VC_ENSURES(inside(c) == (m.n <= Cap), "elements are inside the object up to the capacity");
			std::size_t r = 0;
			choose("r", r, Size + 2, Size + 1);
			tracked::copies = 0;
			c.reserve(r);
			VC_ENSURES(c.capacity() >= r && c.capacity() >= Cap && c.capacity() >= m.n && tracked::copies == 0, "reserve makes room and moves the elements");
			VC_ENSURES(inside(c) == (m.n <= Cap && r <= Cap), "elements stay inside the object when they fit");
			same(c, m);
			live(m.n);
		}
		live(0);
	});
}

VC_PROOF(Constructors)
{
	Ctx ctx;
	bounds();
	enumerate([&]
	{
		{
			C none;
			same(none, M());
			U32 x = value("x"), y = value("y"), z = value("z");
			std::size_t n = 0;
			choose("n", n, Size + 1, Size);
			{ C c(n); M m; m.resize(n, 0); same(c, m); live(n); }
			{ T t(x); C c(n, t); M m; m.resize(n, x); same(c, m); live(n + 1); }
			{ C c{ x, y, z }; M m; m.push(x); m.push(y); m.push(z); same(c, m); live(3); }
			{
				U32 v[Size] = { x, y, z, x };
				C c(v, v + n); M m;
				for (std::size_t i = 0; i < Size; ++i) if (i < n) m.push(v[i]);
				same(c, m);
				live(n);
			}
		}
		live(0);
	});
}

VC_PROOF(Copy)
{
	with([](C& c, M& m)
	{
		{ C d(c); same(d, m); same(c, m); live(2 * m.n); d.clear(); same(c, m); }
		const C& cc = c;
		c = cc;
		same(c, m);
		live(m.n);
	});
}

VC_PROOF(Move)
{
	with([](C& c, M& m)
	{
		tracked::copies = 0;
		C d(std::move(c));
		same(d, m);
		VC_ENSURES(tracked::copies == 0, "moving does not copy");
		live(m.n + c.size());
		usable(c);
		same(d, m);
		live(m.n + 1);
	});
}

VC_PROOF(CopyAssign)
{
	with2([](C& c, M&, C& d, M& k)
	{
		auto& r = (c = d);
		VC_ENSURES(&r == &c, "returns the target");
		same(c, k); same(d, k);
		live(2 * k.n);
		d.clear();
		same(c, k);
		usable(c);
	});
}

VC_PROOF(MoveAssign)
{
	with2([](C& c, M&, C& d, M& k)
	{
		tracked::copies = 0;
		auto& r = (c = std::move(d));
		VC_ENSURES(&r == &c && tracked::copies == 0, "moves the elements");
		same(c, k);
		live(k.n + d.size());
		usable(d);
		same(c, k);
		usable(c);
	});
}

#ifndef NDEBUG
// debug builds report a broken precondition instead of touching memory outside the elements
VC_PROOF(Misuse)
{
	Ctx ctx;
	C c; M m;
	const C& cc = c;
	fill("n", "v", c, m, Cap);
	unsigned how = vc::range<unsigned>("how", 0, 6);
	std::size_t j = vc::any<std::size_t>("j");
	vc::requires_(how < 5 ? m.n == 0 : j >= m.n);
	vc::may_reject();
	switch (how)
	{
		case 0: c.pop_back(); break;
		case 1: c.front(); break;
		case 2: cc.front(); break;
		case 3: c.back(); break;
		case 4: cc.back(); break;
		case 5: c[j]; break;
		case 6: cc[j]; break;
	}
	VC_ENSURES(false, "a broken precondition is reported");
}
#endif

VC_MAIN
