// Result holds exactly one of a value and an error, through construction, copy, move, conversion, access and mapping.
// @configs cxx17 cxx20
#include "tracked.hpp"
#include <NazaraUtils/Result.hpp>

namespace
{
	using U32 = std::uint32_t;
	using V = tracked::Object<0>;
	using E = tracked::Object<1>;
	using R = Nz::Result<V, E>;
	using RV = Nz::Result<void, E>;
	using RI = Nz::Result<U32, U32>;

	// arbitrary results: which alternative, and its payload
	struct Ctx
	{
		bool ok, ok2; U32 x, y;
		Ctx()
		{
			tracked::start();
			ok = vc::any<bool>("ok"); ok2 = vc::any<bool>("ok2");
			x = vc::any<U32>("x"); y = vc::any<U32>("y");
			vc::requires_(x != tracked::Moved && y != tracked::Moved);
		}
		~Ctx() { VC_ENSURES(tracked::alive == 0, "every object is destroyed"); }
		R first() const { return ok ? R(R::ValueTag{}, x) : R(R::ErrorTag{}, x); }
		R second() const { return ok2 ? R(R::ValueTag{}, y) : R(R::ErrorTag{}, y); }
		RV vfirst() const { return ok ? RV(Nz::Ok()) : RV(RV::ErrorTag{}, x); }
		RV vsecond() const { return ok2 ? RV(RV::ValueTag{}) : RV(RV::ErrorTag{}, y); }
	};
	void is(const R& r, bool ok, U32 x, int = 0)
	{
		VC_ENSURES(r.IsOk() == ok && r.IsErr() == !ok && bool(r) == ok, "exactly one alternative, the expected one");
		VC_ENSURES((ok ? r.GetValue().value : r.GetError().value) == x, "the payload is the expected one");
	}
	void is(const RV& r, bool ok, U32 x)
	{
		VC_ENSURES(r.IsOk() == ok && r.IsErr() == !ok && bool(r) == ok, "exactly one alternative, the expected one");
		if (!ok) VC_ENSURES(r.GetError().value == x, "the error is the expected one");
	}
	// the moved-from result keeps its alternative
	void moved(const R& r, bool ok) { is(r, ok, tracked::Moved); }
	void moved(const RV& r, bool ok) { is(r, ok, tracked::Moved); }
}

VC_PROOF(Tags)
{
	Ctx c;
	R r = c.first();
	is(r, c.ok, c.x);
	R two(R::ValueTag{}, c.x, c.y), twoE(R::ErrorTag{}, c.x, c.y), none(R::ErrorTag{}), def;
	is(two, true, c.x ^ c.y);
	is(twoE, false, c.x ^ c.y);
	is(none, false, 0);
	is(def, true, 0);
	VC_ENSURES(tracked::alive == 5, "one object per result");
}

VC_PROOF(OkErr_Lvalue)
{
	Ctx c;
	V v(c.x); E e(c.y);
	const V cv(c.x); const E ce(c.y);
	R r1(Nz::Ok(v)), r2(Nz::Err(e)), r3(Nz::Ok(cv)), r4(Nz::Err(ce)), r5(v);
	is(r1, true, c.x); is(r2, false, c.y); is(r3, true, c.x); is(r4, false, c.y); is(r5, true, c.x);
	VC_ENSURES(v.value == c.x && e.value == c.y && cv.value == c.x && ce.value == c.y, "a copied argument is left unchanged");
	RV r6(Nz::Err(e)), r7(Nz::Err(ce));
	is(r6, false, c.y); is(r7, false, c.y);
	VC_ENSURES(e.value == c.y && ce.value == c.y, "a copied error is left unchanged");
}

VC_PROOF(OkErr_Rvalue)
{
	Ctx c;
	V v(c.x), v2(c.x); E e(c.y), e2(c.y);
	tracked::copies = 0;
	R r1(Nz::Ok(std::move(v))), r2(Nz::Err(std::move(e))), r3(std::move(v2));
	RV r4(Nz::Err(std::move(e2)));
	is(r1, true, c.x); is(r2, false, c.y); is(r3, true, c.x); is(r4, false, c.y);
	VC_ENSURES(tracked::copies == 0, "a moved argument is not copied");
	VC_ENSURES(v.value == tracked::Moved && e.value == tracked::Moved && v2.value == tracked::Moved && e2.value == tracked::Moved, "a moved argument is moved from");
}

VC_PROOF(SameTypes)
{
	Ctx c;
	RI a = c.ok ? RI(Nz::Ok(c.x)) : RI(Nz::Err(c.x));
	VC_ENSURES(a.IsOk() == c.ok && (c.ok ? a.GetValue() : a.GetError()) == c.x, "a value and an error of the same type are told apart");
	RI b = c.ok2 ? RI(RI::ValueTag{}, c.y) : RI(RI::ErrorTag{}, c.y);
	a = b;
	VC_ENSURES(a.IsOk() == c.ok2 && (c.ok2 ? a.GetValue() : a.GetError()) == c.y, "assignment copies the alternative");
}

VC_PROOF(Copy)
{
	Ctx c;
	R a = c.first();
	R b(a);
	is(b, c.ok, c.x); is(a, c.ok, c.x);
	const RV va = c.vfirst();
	RV vb(va);
	is(vb, c.ok, c.x); is(va, c.ok, c.x);
}

VC_PROOF(Move)
{
	Ctx c;
	R a = c.first();
	tracked::copies = 0;
	R b(std::move(a));
	is(b, c.ok, c.x); moved(a, c.ok);
	RV va = c.vfirst();
	RV vb(std::move(va));
	is(vb, c.ok, c.x); moved(va, c.ok);
	VC_ENSURES(tracked::copies == 0, "moving does not copy");
}

VC_PROOF(CopyAssign)
{
	Ctx c;
	R a = c.first(), b = c.second();
	auto& r = (a = b);
	VC_ENSURES(&r == &a, "returns the target");
	is(a, c.ok2, c.y); is(b, c.ok2, c.y);
	a = *&a;
	is(a, c.ok2, c.y);
	RV va = c.vfirst(), vb = c.vsecond();
	va = vb;
	is(va, c.ok2, c.y); is(vb, c.ok2, c.y);
	va = *&va;
	is(va, c.ok2, c.y);
}

VC_PROOF(MoveAssign)
{
	Ctx c;
	R a = c.first(), b = c.second();
	tracked::copies = 0;
	a = std::move(b);
	is(a, c.ok2, c.y); moved(b, c.ok2);
	RV va = c.vfirst(), vb = c.vsecond();
	va = std::move(vb);
	is(va, c.ok2, c.y); moved(vb, c.ok2);
	VC_ENSURES(tracked::copies == 0, "moving does not copy");
}

VC_PROOF(Convert)
{
	Ctx c;
	// from results of other types convertible to V and E
	RI s = c.ok ? RI(RI::ValueTag{}, c.x) : RI(RI::ErrorTag{}, c.x);
	R r(s);
	is(r, c.ok, c.x);
	VC_ENSURES(s.IsOk() == c.ok && (c.ok ? s.GetValue() : s.GetError()) == c.x, "the source is unchanged");
	R r2(std::move(s));
	is(r2, c.ok, c.x);
	Nz::Result<void, U32> vs = c.ok ? Nz::Result<void, U32>(Nz::Ok()) : Nz::Result<void, U32>(Nz::Err(c.x));
	RV rv(vs);
	is(rv, c.ok, c.x);
	RV rv2(std::move(vs));
	is(rv2, c.ok, c.x);
}

VC_PROOF(ConvertMoves)
{
	Ctx c;
	struct V2 : V { using V::V; };
	struct E2 : E { using E::E; };
	using R2 = Nz::Result<V2, E2>;
	R2 s = c.ok ? R2(R2::ValueTag{}, c.x) : R2(R2::ErrorTag{}, c.x);
	{
		R r(s);
		is(r, c.ok, c.x);
		VC_ENSURES((c.ok ? s.GetValue().value : s.GetError().value) == c.x, "converting a result leaves it unchanged");
	}
	tracked::copies = 0;
	R r(std::move(s));
	is(r, c.ok, c.x);
	VC_ENSURES(tracked::copies == 0 && s.IsOk() == c.ok && (c.ok ? s.GetValue().value : s.GetError().value) == tracked::Moved, "converting a moved result moves its payload");
}

VC_PROOF(WrongAccess_Value)
{
	Ctx c;
	vc::requires_(!c.ok);
	unsigned how = vc::range<unsigned>("how", 0, 7);
	vc::may_throw();
	R r = c.first();
	const R& cr = r;
	switch (how)
	{
		case 0: r.GetValue(); break;
		case 1: cr.GetValue(); break;
		case 2: std::move(r).GetValue(); break;
		case 3: *r; break;
		case 4: *cr; break;
		case 5: *std::move(r); break;
		case 6: r.operator->(); break;
		case 7: cr.operator->(); break;
	}
	VC_ENSURES(false, "the value of an error is never given");
}

VC_PROOF(WrongAccess_Error)
{
	Ctx c;
	vc::requires_(c.ok);
	unsigned how = vc::range<unsigned>("how", 0, 5);
	vc::may_throw();
	R r = c.first(); RV v = c.vfirst();
	const R& cr = r; const RV& cv = v;
	switch (how)
	{
		case 0: r.GetError(); break;
		case 1: cr.GetError(); break;
		case 2: std::move(r).GetError(); break;
		case 3: v.GetError(); break;
		case 4: cv.GetError(); break;
		case 5: std::move(v).GetError(); break;
	}
	VC_ENSURES(false, "the error of a value is never given");
}

VC_PROOF(Expect_Ok)
{
	Ctx c;
	vc::requires_(c.ok);
	R r = c.first(); RV v = c.vfirst();
	std::string s("message");
	r.Expect("message"); r.Expect(s); v.Expect("message"); v.Expect(s);
	is(r, true, c.x); is(v, true, 0);
}

VC_PROOF(Expect_Err)
{
	Ctx c;
	vc::requires_(!c.ok);
	unsigned how = vc::range<unsigned>("how", 0, 3);
	R r = c.first(); RV v = c.vfirst();
	std::string s("message");
	vc::may_throw();
	switch (how)
	{
		case 0: r.Expect("message"); break;
		case 1: r.Expect(s); break;
		case 2: v.Expect("message"); break;
		case 3: v.Expect(s); break;
	}
	VC_ENSURES(false, "Expect does not return on an error");
}

VC_PROOF(Access)
{
	Ctx c;
	R r = c.first();
	const R& cr = r;
	if (c.ok)
	{
		VC_ENSURES(&r.GetValue() == &cr.GetValue() && &*r == &r.GetValue() && &*cr == &r.GetValue() && r.operator->() == &r.GetValue() && cr.operator->() == &r.GetValue(), "every access designates the held value");
		r->value = c.y;
		is(r, true, c.y);
		V v = *std::move(r);
		VC_ENSURES(v.value == c.y && r.IsOk() && r->value == tracked::Moved, "*move(r) gives the value to move from");
		r->value = c.x;
		V v2 = std::move(r).GetValue();
		VC_ENSURES(v2.value == c.x && r->value == tracked::Moved, "move(r).GetValue() gives the value to move from");
	}
	else
	{
		VC_ENSURES(&r.GetError() == &cr.GetError(), "every access designates the held error");
		r.GetError().value = c.y;
		is(r, false, c.y);
		E e = std::move(r).GetError();
		VC_ENSURES(e.value == c.y && cr.GetError().value == tracked::Moved, "move(r).GetError() gives the error to move from");
	}
	RV v = c.vfirst();
	if (!c.ok)
	{
		E e = std::move(v).GetError();
		VC_ENSURES(e.value == c.x && v.IsErr() && v.GetError().value == tracked::Moved, "move(r).GetError() gives the error to move from");
	}
}

VC_PROOF(ValueOr)
{
	Ctx c;
	R r = c.first();
	{
		V d(c.y);
		V v = r.GetValueOr(d);
		VC_ENSURES(v.value == (c.ok ? c.x : c.y) && d.value == c.y, "the value, or the default");
		is(r, c.ok, c.x);
	}
	{
		V d(c.y);
		V v = r.GetValueOr(std::move(d));
		VC_ENSURES(v.value == (c.ok ? c.x : c.y) && d.value == (c.ok ? c.y : tracked::Moved), "the default is used only on an error");
	}
	tracked::copies = 0;
	V v = std::move(r).GetValueOr(c.y);
	VC_ENSURES(v.value == (c.ok ? c.x : c.y) && tracked::copies == 0, "a moved result gives its value without copying it");
}

VC_PROOF(Map_Const)
{
	Ctx c;
	const R r = c.first();
	int calls = 0;
	const void* seen = nullptr;
	auto m = r.Map([&](const V& v) { ++calls; seen = &v; return v.value ^ c.y; });
	VC_ENSURES(calls == (c.ok ? 1 : 0) && m.IsOk() == c.ok, "the functor is called once on a value, never on an error");
	if (c.ok) VC_ENSURES(seen == &r.GetValue() && m.GetValue() == (c.x ^ c.y), "maps the value"); else VC_ENSURES(m.GetError().value == c.x, "keeps the error");
	auto m2 = r.Map([&](const V&) { ++calls; });
	VC_ENSURES(calls == (c.ok ? 2 : 0), "the functor is called once on a value, never on an error");
	is(m2, c.ok, c.x);
	is(r, c.ok, c.x);
}

VC_PROOF(Map_Move)
{
	Ctx c;
	int calls = 0;
	{
		R r = c.first();
		tracked::copies = 0;
		R m = std::move(r).Map([&](V&& v) { ++calls; return V(std::move(v)); });
		is(m, c.ok, c.x);
		moved(r, c.ok);
		VC_ENSURES(calls == (c.ok ? 1 : 0) && tracked::copies == 0, "moves the value or the error through");
	}
	R r = c.first();
	RV m = std::move(r).Map([&](V&& v) { ++calls; V t(std::move(v)); });
	is(m, c.ok, c.x);
	moved(r, c.ok);
	VC_ENSURES(calls == (c.ok ? 2 : 0), "the functor is called once on a value, never on an error");
}

VC_PROOF(Map_Void)
{
	Ctx c;
	const RV r = c.vfirst();
	int calls = 0;
	auto m = r.Map([&] { ++calls; return c.y; });
	VC_ENSURES(calls == (c.ok ? 1 : 0) && m.IsOk() == c.ok, "the functor is called once on a value, never on an error");
	if (c.ok) VC_ENSURES(m.GetValue() == c.y, "maps"); else VC_ENSURES(m.GetError().value == c.x, "keeps the error");
	RV m2 = r.Map([&] { ++calls; });
	is(m2, c.ok, c.x);
	RV q = c.vfirst();
	RV m3 = std::move(q).Map([&] { ++calls; });
	is(m3, c.ok, c.x);
	if (!c.ok) moved(q, false);
	RV q2 = c.vfirst();
	auto m4 = std::move(q2).Map([&] { ++calls; return c.y; });
	VC_ENSURES(calls == (c.ok ? 4 : 0) && m4.IsOk() == c.ok, "the functor is called once on a value, never on an error");
	if (c.ok) VC_ENSURES(m4.GetValue() == c.y, "maps"); else VC_ENSURES(m4.GetError().value == c.x, "keeps the error");
}

namespace
{
	R tryBoth(const Ctx& c, int& steps)
	{
		NAZARA_TRY(c.vfirst());
		++steps;
		NAZARA_TRY_VALUE(V v, c.second());
		++steps;
		v.value ^= 1;
		return Nz::Ok(std::move(v));
	}
}

VC_PROOF(Try)
{
	Ctx c;
	int steps = 0;
	R r = tryBoth(c, steps);
	VC_ENSURES(steps == (!c.ok ? 0 : !c.ok2 ? 1 : 2), "stops at the first error");
	is(r, c.ok && c.ok2, !c.ok ? c.x : !c.ok2 ? c.y : c.y ^ 1);
}
VC_MAIN
