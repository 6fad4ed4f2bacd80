// FunctionRef calls the callable it was made from.
// @configs cxx17 cxx20
#include "tracked.hpp"
#include <NazaraUtils/FunctionRef.hpp>

namespace
{
	using U32 = std::uint32_t;
	using V = tracked::Object<0>;

	int called[2];
	U32 seenA, seenB;
	U32 first(U32 a, U32 b) { ++called[0]; seenA = a; seenB = b; return a - b; }
	U32 second(U32 a, U32 b) { ++called[1]; seenA = a; seenB = b; return b - a; }

	struct Functor
	{
		U32 salt; int calls = 0, constCalls = 0, rvalue = 0;
		explicit Functor(U32 s) : salt(s) {}
		U32 operator()(U32 a, U32 b) { ++calls; seenA = a; seenB = b; return a ^ salt; }
	};
	struct Ctx
	{
		U32 a, b, s;
		Ctx() { tracked::start(); called[0] = called[1] = 0; a = vc::any<U32>("a"); b = vc::any<U32>("b"); s = vc::any<U32>("s"); vc::requires_(s != tracked::Moved); }
		~Ctx() { VC_ENSURES(tracked::alive == 0, "every object is destroyed"); }
	};
	using F = Nz::FunctionRef<U32(U32, U32)>;
}

VC_PROOF(Functions)
{
	Ctx c;
	const F f(first);
	Nz::FunctionRef g(second);
	VC_ENSURES(bool(f) && bool(g), "refers to a function");
	U32 r = f(c.a, c.b);
	VC_ENSURES(r == c.a - c.b && called[0] == 1 && called[1] == 0 && seenA == c.a && seenB == c.b, "calls its function once with the arguments");
	r = g(c.a, c.b);
	VC_ENSURES(r == c.b - c.a && called[0] == 1 && called[1] == 1 && seenA == c.a && seenB == c.b, "calls its function once with the arguments");
	U32(*p)(U32, U32) = c.s & 1 ? first : second;
	F h(p);
	r = h(c.a, c.b);
	VC_ENSURES(r == (c.s & 1 ? c.a - c.b : c.b - c.a), "calls through a function pointer");
}

VC_PROOF(Functors)
{
	Ctx c;
	Functor x(c.s), y(~c.s);
	F f(x);
	U32 r = f(c.a, c.b);
	VC_ENSURES(r == (c.a ^ c.s) && x.calls == 1 && y.calls == 0 && seenA == c.a && seenB == c.b, "calls the object it refers to, not a copy");
	F g(y);
	F h(f);
	r = h(c.a, c.b);
	VC_ENSURES(r == (c.a ^ c.s) && x.calls == 2, "a copy refers to the same object");
	h = g;
	r = h(c.a, c.b);
	VC_ENSURES(r == (c.a ^ ~c.s) && y.calls == 1 && x.calls == 2, "assignment changes the referred object");
	r = f(c.b, c.a);
	VC_ENSURES(r == (c.b ^ c.s) && x.calls == 3, "and leaves the source unchanged");
	F m(std::move(h));
	r = m(c.a, c.b);
	VC_ENSURES(r == (c.a ^ ~c.s) && y.calls == 2, "moving refers to the same object");
	x.salt = c.b;
	r = f(c.a, c.b);
	VC_ENSURES(r == (c.a ^ c.b), "sees the changes of the object");
}

VC_PROOF(Copies)
{
	Ctx c;
	Functor x(c.s), y(~c.s);
	F f(x), g(y);
	const F cf(x);
	F a(f), b(cf), d(std::move(f)), e(nullptr);
	unsigned how = vc::range<unsigned>("how", 0, 3);
	{
		F inner(y);
		const F cinner(y);
		if (how == 0) e = inner; else if (how == 1) e = cinner; else if (how == 2) e = std::move(inner); else e = F(y);
		inner = F(x);
	}
	f = g;
	VC_ENSURES(f(c.a, c.b) == (c.a ^ ~c.s) && y.calls == 1, "assignment changes the referred object");
	VC_ENSURES(a(c.a, c.b) == (c.a ^ c.s) && b(c.a, c.b) == (c.a ^ c.s) && d(c.a, c.b) == (c.a ^ c.s) && x.calls == 3, "copies do not follow their source");
	VC_ENSURES(e(c.a, c.b) == (c.a ^ ~c.s) && y.calls == 2, "an assigned reference outlives its source");
}

VC_PROOF(Lambdas)
{
	Ctx c;
	int n = 0;
	auto l = [&n, s = c.s](U32 a, U32 b) { ++n; return a + b + s; };
	F f(l);
	VC_ENSURES(f(c.a, c.b) == c.a + c.b + c.s && n == 1, "calls the lambda once");
	auto take = [&](F g) { return g(c.a, c.b); };
	VC_ENSURES(take([&](U32 a, U32 b) { ++n; return a - b; }) == c.a - c.b && n == 2, "a temporary can be called during the call it is given to");
	F nested(f);
	auto over = [&](U32 a, U32 b) { return nested(b, a) + 1; };
	F outer(over);
	VC_ENSURES(outer(c.a, c.b) == c.a + c.b + c.s + 1 && n == 3, "references nest");
}

VC_PROOF(References)
{
	Ctx c;
	V v(c.s);
	const V* seen = nullptr;
	auto byRef = [&](V& x) -> V& { seen = &x; x.value ^= 1; return x; };
	Nz::FunctionRef<V&(V&)> f(byRef);
	V& r = f(v);
	VC_ENSURES(&r == &v && seen == &v && v.value == (c.s ^ 1), "references go through");
	auto byConst = [&](const V& x) { seen = &x; return x.value; };
	Nz::FunctionRef<U32(const V&)> g(byConst);
	tracked::copies = tracked::moves = 0;
	VC_ENSURES(g(v) == (c.s ^ 1) && seen == &v && tracked::copies == 0 && tracked::moves == 0, "const references go through without a copy");
	auto sink = [&](V&& x) { V t(std::move(x)); return t.value; };
	Nz::FunctionRef<U32(V&&)> h(sink);
	VC_ENSURES(h(std::move(v)) == (c.s ^ 1) && v.value == tracked::Moved && tracked::copies == 0, "rvalues are moved through");
	V w(c.s);
	auto byValue = [&](V x) { return V(std::move(x)); };
	Nz::FunctionRef<V(V)> k(byValue);
	V out = k(w);
	VC_ENSURES(out.value == c.s && w.value == c.s && tracked::copies == 1, "a value argument is copied once");
	V out2 = k(std::move(w));
	VC_ENSURES(out2.value == c.s && w.value == tracked::Moved && tracked::copies == 1, "a moved value argument is not copied");
}

VC_PROOF(Null)
{
	Ctx c;
	F f(nullptr);
	VC_ENSURES(!f, "a null reference is empty");
	Functor x(c.s);
	F g(x);
	bool which = vc::any<bool>("which");
	if (which) f = g;
	VC_ENSURES(bool(f) == which, "assignment makes it refer to something");
	if (f) VC_ENSURES(f(c.a, c.b) == (c.a ^ c.s) && x.calls == 1, "and callable");
}

VC_PROOF(Void)
{
	Ctx c;
	U32 sum = 0;
	auto add = [&](U32 x) { sum += x; };
	Nz::FunctionRef<void(U32)> f(add);
	f(c.a); f(c.b);
	VC_ENSURES(sum == c.a + c.b, "called as many times as asked");
	auto conv = [&](U32 x) { return static_cast<std::uint8_t>(x); };
	Nz::FunctionRef<U32(U32)> g(conv);
	VC_ENSURES(g(c.a) == (c.a & 0xFF), "the result is converted");
}

VC_MAIN
