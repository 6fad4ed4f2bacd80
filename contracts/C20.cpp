// Owning and moving wrappers: CallOnExit, MovablePtr, MovableLiteral, MovableValue, PrivateImpl.
// @configs cxx17 cxx20
#include "tracked.hpp"
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PrivateImpl.hpp>

namespace
{
	using U32 = std::uint32_t;
	using V = tracked::Object<0>;

	struct Ctx
	{
		U32 x, y;
		Ctx()
		{
			tracked::start();
			x = vc::any<U32>("x"); y = vc::any<U32>("y");
			vc::requires_(x != tracked::Moved && y != tracked::Moved);
		}
		~Ctx() { VC_ENSURES(tracked::alive == 0, "every object is destroyed"); }
	};

	// a functor with a lifetime, which counts its calls
	struct Call
	{
		V life;
		int* calls;
		Call(int* c, U32 v) : life(v), calls(c) {}
		void operator()() { life.used(); VC_ENSURES(life.value != tracked::Moved, "a moved functor is not called"); ++*calls; }
	};
	struct Pinned // neither copyable nor assignable
	{
		V v;
		Pinned(U32 x) : v(x) {}
		Pinned(const Pinned&) = default;
		Pinned& operator=(const Pinned&) = delete;
	};
	constexpr std::size_t Size = sizeof(V), Align = alignof(V);
}

VC_PROOF(Exit_Scope)
{
	Ctx c;
	int calls = 0;
	{
		Nz::CallOnExit<Call> e(Call(&calls, c.x));
		VC_ENSURES(calls == 0, "not called before the end of the scope");
	}
	VC_ENSURES(calls == 1, "called once at the end of the scope");
	{ Nz::CallOnExit<Call> e; }
	{ NAZARA_DEFER(++calls;); VC_ENSURES(calls == 1, "deferred until the end of the scope"); }
	VC_ENSURES(calls == 2, "called once at the end of the scope");
}

VC_PROOF(Exit_Reset)
{
	Ctx c;
	int calls = 0;
	bool reset = vc::any<bool>("reset"), call = vc::any<bool>("call"), again = vc::any<bool>("again");
	{
		Nz::CallOnExit e(Call(&calls, c.x));
		if (reset) e.Reset();
		VC_ENSURES(calls == 0, "Reset does not call");
		if (call) { e.CallAndReset(); VC_ENSURES(calls == (reset ? 0 : 1), "CallAndReset calls immediately, unless reset"); }
		if (again) e.CallAndReset();
		VC_ENSURES(calls == ((call || again) && !reset ? 1 : 0), "called at most once");
	}
	VC_ENSURES(calls == (reset ? 0 : 1), "called exactly once in total, unless reset");
}

VC_PROOF(Exit_Move)
{
	Ctx c;
	int a = 0, b = 0;
	bool from = vc::any<bool>("from"), into = vc::any<bool>("into");
	{
		Nz::CallOnExit<Call> dst;
		{
			Nz::CallOnExit src(Call(&a, c.x));
			if (!from) src.Reset();
			Nz::CallOnExit old(Call(&b, c.y));
			if (!into) old.Reset();
			auto& r = (old = std::move(src));
			VC_ENSURES(&r == &old && a == 0, "moving does not call");
			src.CallAndReset();
			VC_ENSURES(a == 0, "the moved-from object has nothing left to call");
			dst = std::move(old);
		}
		VC_ENSURES(a == 0, "the moved-from objects do not call");
		dst = std::move(*&dst);
	}
	VC_ENSURES(a == (from ? 1 : 0), "a moved function is called exactly once, by its last owner");
}

VC_PROOF(Ptr)
{
	Ctx c;
	int v = 0, w = 0;
	int* p = vc::any<bool>("p") ? &v : nullptr;
	int* q = vc::any<bool>("q") ? &w : nullptr;
	Nz::MovablePtr<int> none;
	VC_ENSURES(none.Get() == nullptr, "null by default");
	Nz::MovablePtr<int> a(p);
	VC_ENSURES(a.Get() == p && static_cast<int*>(a) == p && a.operator->() == p, "holds the pointer");
	Nz::MovablePtr<int> b(a);
	VC_ENSURES(a.Get() == p && b.Get() == p, "copying keeps the pointer");
	Nz::MovablePtr<int> d(std::move(a));
	VC_ENSURES(a.Get() == nullptr && d.Get() == p, "moving leaves a null pointer");
	b = q;
	VC_ENSURES(b.Get() == q, "assigns a pointer");
	auto& r = (b = std::move(d));
	VC_ENSURES(&r == &b && b.Get() == p && (d.Get() == nullptr || d.Get() == q), "move assignment takes the pointer and never leaves it behind");
	a = b;
	VC_ENSURES(a.Get() == p && b.Get() == p, "copy assignment keeps the pointer");
	a = std::move(*&a);
	VC_ENSURES(a.Get() == p, "self-move keeps the pointer");
}

VC_PROOF(Literal)
{
	Ctx c;
	using L = Nz::MovableLiteral<U32, 42>;
	L none;
	VC_ENSURES(none.Get() == 42, "the default value by default");
	L a(c.x);
	VC_ENSURES(a.Get() == c.x && static_cast<U32&>(a) == c.x, "holds the value");
	L b(a);
	const L& ca = a;
	L e(ca);
	VC_ENSURES(a.Get() == c.x && b.Get() == c.x && e.Get() == c.x && static_cast<const U32&>(ca) == c.x, "copying keeps the value");
	L d(std::move(a));
	VC_ENSURES(a.Get() == 42 && d.Get() == c.x, "moving leaves the default value");
	U32 y = c.y;
	b = y;
	VC_ENSURES(b.Get() == c.y && y == c.y, "assigns a value");
	a = b;
	VC_ENSURES(a.Get() == c.y && b.Get() == c.y, "copy assignment keeps the value");
	a = std::move(d);
	VC_ENSURES(a.Get() == c.x && (d.Get() == 42 || d.Get() == c.y), "move assignment takes the value and never leaves it behind");
	a = std::move(*&a);
	VC_ENSURES(a.Get() == c.x, "self-move keeps the value");
	U32& r = a.Get();
	r = c.y;
	VC_ENSURES(ca.Get() == c.y && std::move(a).Get() == c.y, "gives access to the value");
}

VC_PROOF(Value)
{
	Ctx c;
	using M = Nz::MovableValue<V>;
	V v(c.x);
	M a(v);
	VC_ENSURES(v.value == c.x && a.Get().value == c.x, "copies an lvalue");
	M m(std::move(v));
	VC_ENSURES(v.value == tracked::Moved && m.Get().value == c.x, "moves an rvalue");
	M b(a);
	const M& ca = a;
	M e(ca);
	VC_ENSURES(a.Get().value == c.x && b.Get().value == c.x && e.Get().value == c.x, "copying keeps the value");
	V y(c.y);
	b = y;
	VC_ENSURES(b.Get().value == c.y && y.value == c.y, "assigning an lvalue copies it");
	b = std::move(y);
	VC_ENSURES(b.Get().value == c.y && y.value == tracked::Moved, "assigning an rvalue moves it");
	a = b;
	VC_ENSURES(a.Get().value == c.y && b.Get().value == c.y, "assigning a wrapper copies its value");
	const M& cb = b;
	e = cb;
	VC_ENSURES(e.Get().value == c.y && b.Get().value == c.y, "assigning a const wrapper copies its value");
	tracked::copies = 0;
	M d(std::move(a));
	VC_ENSURES(d.Get().value == c.y && a.Get().value == tracked::Moved, "moving the wrapper moves the value");
	m = std::move(d);
	VC_ENSURES(m.Get().value == c.y && d.Get().value == tracked::Moved && tracked::copies == 0, "move-assigning the wrapper moves the value");
	V out(std::move(m).Get());
	VC_ENSURES(out.value == c.y && m.Get().value == tracked::Moved, "gives the value to move from");
	V out2(static_cast<V&&>(std::move(b)));
	VC_ENSURES(out2.value == c.y && static_cast<V&>(b).value == tracked::Moved && &static_cast<const V&>(cb) == &b.Get(), "converts to its value");
}

VC_PROOF(Impl_Inline)
{
	Ctx c;
	using P = Nz::PrivateImpl<V, Size, Align>;
	{
		P a(c.x);
		const P& ca = a;
		VC_ENSURES(tracked::alive == 1 && a->value == c.x && (*a).value == c.x && a.Get() == &*a && static_cast<V*>(a) == a.Get() && ca.Get() == a.Get() && static_cast<const V*>(ca) == a.Get() && &*ca == a.Get() && ca.operator->() == a.Get(), "holds one object");
		VC_ENSURES(reinterpret_cast<char*>(a.Get()) >= reinterpret_cast<char*>(&a) && reinterpret_cast<char*>(a.Get() + 1) <= reinterpret_cast<char*>(&a + 1), "in its own storage");
		P b(ca);
		VC_ENSURES(tracked::alive == 2 && b->value == c.x && a->value == c.x && b.Get() != a.Get(), "copying copies the object");
		P d(std::move(a));
		VC_ENSURES(tracked::alive == 3 && d->value == c.x && a->value == tracked::Moved, "moving moves the object");
		P e(c.y, c.x);
		VC_ENSURES(e->value == (c.x ^ c.y), "forwards its arguments");
		auto& r = (e = b);
		VC_ENSURES(&r == &e && tracked::alive == 4 && e->value == c.x && b->value == c.x, "copy assignment copies the object");
		e = *&e;
		VC_ENSURES(tracked::alive == 4 && e->value == c.x, "self-assignment keeps the object");
		e->value = c.y;
		auto& r2 = (b = std::move(e));
		VC_ENSURES(&r2 == &b && tracked::alive == 4 && b->value == c.y && e->value == tracked::Moved, "move assignment moves the object");
	}
	VC_ENSURES(tracked::alive == 0, "destroyed with its owner");
}

VC_PROOF(Impl_Heap)
{
	Ctx c;
	using P = Nz::PrivateImpl<V>;
	bool set = vc::any<bool>("set"), set2 = vc::any<bool>("set2");
	std::uint64_t live = __vc_live_heap();
	{
		P a(nullptr), b(nullptr);
		VC_ENSURES(!a.HasValue() && a.Get() == nullptr && tracked::alive == 0, "an empty owner has no object");
		if (set) { V& v = a.Emplace(c.x); VC_ENSURES(&v == a.Get() && v.value == c.x, "Emplace creates the object"); }
		if (set2) b.Emplace(c.y);
		const P& ca = a;
		VC_ENSURES(a.HasValue() == set && static_cast<bool>(ca) == set && ca.Get() == a.Get(), "knows whether it has an object");
		P d(ca);
		VC_ENSURES(d.HasValue() == set && a.HasValue() == set && (!set || (d->value == c.x && a->value == c.x && d.Get() != a.Get())), "copying copies the object, if any");
		V* before = a.Get();
		P e(std::move(a));
		VC_ENSURES(e.Get() == before && !a.HasValue(), "moving transfers the object");
		auto& r = (d = b);
		VC_ENSURES(&r == &d && d.HasValue() == set2 && b.HasValue() == set2 && (!set2 || (d->value == c.y && b->value == c.y && d.Get() != b.Get())), "copy assignment copies the object, if any");
		d = *&d;
		VC_ENSURES(d.HasValue() == set2 && (!set2 || d->value == c.y), "self-assignment keeps the object");
		d = std::move(e);
		VC_ENSURES(d.Get() == before && (!set || e.Get() != before), "move assignment transfers the object");
		d.Reset();
		VC_ENSURES(!d.HasValue() && d.Get() == nullptr, "Reset destroys the object");
		d.Reset();
		P f(new V(c.x));
		VC_ENSURES(f.HasValue() && f->value == c.x && &*f == f.Get() && static_cast<V*>(f) == f.Get(), "takes ownership");
		P g(c.x, c.y), h;
		VC_ENSURES(g->value == (c.x ^ c.y) && h->value == 0, "forwards its arguments");
	}
	VC_ENSURES(tracked::alive == 0 && __vc_live_heap() == live, "nothing leaks");
}

VC_PROOF(Impl_Pinned)
{
	Ctx c;
	using P = Nz::PrivateImpl<Pinned>;
	bool set = vc::any<bool>("set"), set2 = vc::any<bool>("set2");
	std::uint64_t live = __vc_live_heap();
	{
		P a(nullptr), b(nullptr);
		if (set) a.Emplace(c.x);
		if (set2) b.Emplace(c.y);
		a = b;
		VC_ENSURES(a.HasValue() == set2 && b.HasValue() == set2 && (!set2 || (a->v.value == c.y && b->v.value == c.y && a.Get() != b.Get())), "copy assignment copies the object, if any");
		a = *&a;
		VC_ENSURES(a.HasValue() == set2 && (!set2 || a->v.value == c.y), "self-assignment keeps the object");
	}
	VC_ENSURES(tracked::alive == 0 && __vc_live_heap() == live, "nothing leaks");
}

VC_MAIN
