// Signal: an emission calls each connected slot exactly once, whatever is connected and disconnected meanwhile.
// @configs cxx17 cxx20 ndebug17
#include "signal.hpp"

VC_PROOF(Emit)
{
	run([]
	{
		Slots s;
		s.history();
		std::size_t n = 0;
		choose("n", n, Max + 1, Max);
		for (std::size_t i = 0; i < n; ++i) s.connect([](std::size_t) {});
		for (int k = 0; k < 2; ++k)
		{
			s.emit("x");
			VC_ENSURES(s.log.count == n, "calls each slot once");
			for (std::size_t i = 0; i < n; ++i) VC_ENSURES(s.log.order[i] == i, "calls the slots in order of connection");
		}
	});
}

// between emissions
VC_PROOF(Disconnect)
{
	run([]
	{
		Slots s;
		std::size_t n = 0, a = 0, b = 0, emitted = 0;
		choose("n", n, Max + 1, Max);
		choose("emitted", emitted, 2, 1);
		for (std::size_t i = 0; i < n; ++i) s.connect([](std::size_t) {});
		if (emitted) s.emit("before");
		choose("a", a, n + 1, Max);
		choose("b", b, n + 1, Max);
		if (a < n) s.c[a].Disconnect();
		if (b < n) { Connection copy = s.c[b]; copy.Disconnect(); }
		s.emit("x");
		for (std::size_t i = 0; i < n; ++i)
		{
			bool gone = i == a || i == b;
			VC_ENSURES(s.log.calls[i] == !gone && s.c[i].IsConnected() == !gone, "calls the connected slots once and the others never");
		}
		s.connect([](std::size_t) {});
		s.emit("y");
		for (std::size_t i = 0; i <= n; ++i)
			VC_ENSURES(s.log.calls[i] == (i == n || !(i == a || i == b)), "calls the connected slots once and the others never");
		s.signal.Clear();
		for (std::size_t i = 0; i <= n; ++i) { VC_ENSURES(!s.c[i].IsConnected(), "clearing disconnects every slot"); s.c[i].Disconnect(); }
		s.emit("z");
		VC_ENSURES(s.log.count == 0, "calls no slot");
		s.connect([](std::size_t) {});
		s.emit("t");
		VC_ENSURES(s.log.count == 1, "calls the new slot");
	});
}

VC_PROOF(DisconnectDuring) { disconnectDuring<3>(0, 3); }

// a slot may disconnect itself and go on using what it holds
VC_PROOF(DisconnectSelf)
{
	run([]
	{
		Ctx ctx;
		{
			Slots s;
			std::size_t n = 0, a = 0, how = 0;
			choose("n", n, Max, Max - 1);
			choose("a", a, n + 1, Max - 1);
			choose("how", how, 3, 2);
			for (std::size_t i = 0; i < a; ++i) s.connect([](std::size_t) {});
			U32 x = value("value");
			bool done = false;
			{
				T t(x);
				Slots* p = &s; bool* q = &done;
				s.connect([t, p, q, x, how](std::size_t i)
				{
					if (how == 0) p->c[i].Disconnect();
					else if (how == 1) { p->c[i].Disconnect(); p->c[i].Disconnect(); }
					else { p->signal.Clear(); p->c[i].Disconnect(); }
					t.used();
					VC_ENSURES(t.value == x && !p->c[i].IsConnected(), "its callback lives until it returns");
					*q = true;
				});
			}
			for (std::size_t i = a; i < n; ++i) s.connect([](std::size_t) {});
			s.emit("x");
			VC_ENSURES(done && (how == 2 || s.log.count == n + 1), "calls each slot once");
			live(0);
			done = false;
			s.emit("y");
			VC_ENSURES(!done && s.log.count == (how == 2 ? 0 : n) && s.log.calls[a] == 0, "calls the connected slots once and the others never");
		}
	});
}

// a slot that is connected during an emission leaves the others alone, and is called from the next emission on at the latest
VC_PROOF(ConnectDuring)
{
	run([]
	{
		Slots s;
		std::size_t n = 0, a = 0, b = 0;
		choose("n", n, Max + 1, Max);
		if (n == 0) return;
		choose("a", a, n, Max - 1);
		choose("b", b, n + 1, Max);
		struct D { Slots* s; std::size_t a, b; bool done; std::size_t before; } d = { &s, a, b, false, 1 };
		D* p = &d;
		for (std::size_t i = 0; i < n; ++i)
			s.connect([p, n](std::size_t i)
			{
				if (i != p->a || p->done) return;
				p->done = true;
				p->s->connect([](std::size_t) {});
				if (p->b < n) { p->before = p->s->log.calls[p->b]; p->s->c[p->b].Disconnect(); }
			});
		s.emit("x");
		for (std::size_t i = 0; i < n; ++i) VC_ENSURES(s.log.calls[i] == (i == b ? d.before : 1), "calls each slot once, unless it was disconnected before its turn");
		VC_ENSURES(s.log.calls[n] <= 1, "calls the new slot at most once");
		s.emit("y");
		for (std::size_t i = 0; i <= n; ++i) VC_ENSURES(s.log.calls[i] == (i == n || i != b), "calls the connected slots once and the others never");
	});
}

VC_PROOF(Move)
{
	run([]
	{
		Slots s, d;
		std::size_t n = 0, k = 0, how = 0, j = 0;
		choose("n", n, Max + 1, Max);
		choose("k", k, 3, 2);
		choose("how", how, 2, 1);
		choose("j", j, n + 1, Max);
		for (std::size_t i = 0; i < n; ++i) s.connect([](std::size_t) {});
		for (std::size_t i = 0; i < k; ++i) d.connect([](std::size_t) {});
		auto check = [&](Signal& to)
		{
			s.log.reset(); d.log.reset();
			s.log.expected = vc::any<U32>("x");
			s.signal(0);
			VC_ENSURES(s.log.count == 0 && d.log.count == 0, "a signal moved from has no slot");
			if (j < n) { s.c[j].Disconnect(); VC_ENSURES(!s.c[j].IsConnected(), "a moved slot can be disconnected"); }
			to(s.log.expected);
			for (std::size_t i = 0; i < n; ++i) VC_ENSURES(s.log.calls[i] == (i != j) && s.c[i].IsConnected() == (i != j), "the connections follow the slots");
			VC_ENSURES(d.log.count == 0, "the slots of the target are gone");
			Connection c = s.signal.Connect([](U32) {});
			VC_ENSURES(c.IsConnected(), "a signal moved from can be used again");
			s.signal(1);
			c.Disconnect();
		};
		if (how) { Signal to(std::move(s.signal)); check(to); for (std::size_t i = 0; i < k; ++i) VC_ENSURES(d.c[i].IsConnected(), "keeps other connections"); }
		else
		{
			auto& r = (d.signal = std::move(s.signal));
			VC_ENSURES(&r == &d.signal, "returns the target");
			for (std::size_t i = 0; i < k; ++i) VC_ENSURES(!d.c[i].IsConnected(), "the slots of the target are gone");
			check(d.signal);
		}
	});
}

VC_PROOF(Copy)
{
	run([]
	{
		Slots s, d;
		std::size_t n = 0, k = 0;
		choose("n", n, 3, 2);
		choose("k", k, 3, 2);
		for (std::size_t i = 0; i < n; ++i) s.connect([](std::size_t) {});
		for (std::size_t i = 0; i < k; ++i) d.connect([](std::size_t) {});
		Signal to(s.signal);
		to(5);
		VC_ENSURES(s.log.count == 0, "copying a signal copies no slot");
		auto& r = (d.signal = s.signal);
		VC_ENSURES(&r == &d.signal, "returns the target");
		d.emit("x");
		VC_ENSURES(d.log.count == k && s.log.count == 0, "copying a signal copies no slot");
		s.emit("y");
		VC_ENSURES(s.log.count == n, "keeps its slots");
	});
}

// an emission made by a slot
VC_PROOF(Nested)
{
	run([]
	{
		Slots s;
		std::size_t n = 0, a = 0;
		choose("n", n, Max + 1, Max);
		if (n == 0) return;
		choose("a", a, n, Max - 1);
		bool done = false;
		bool* q = &done; Slots* p = &s;
		for (std::size_t i = 0; i < n; ++i)
			s.connect([p, q, a](std::size_t i) { if (i == a && !*q) { *q = true; p->signal(p->log.expected); } });
		s.emit("x");
		for (std::size_t i = 0; i < n; ++i)
		{
			VC_ENSURES(s.log.calls[i] >= (i <= a ? 2 : 1), "an emission made by a slot calls every slot");
			VC_ENSURES(s.log.calls[i] == 2, "an emission made by a slot leaves the one in progress complete");
		}
		s.emit("y");
		for (std::size_t i = 0; i < n; ++i) VC_ENSURES(s.log.calls[i] == 1, "calls each slot once");
	});
}

// a connection guard disconnects its slot exactly when it ends or takes another one
VC_PROOF(Guards)
{
	run([]
	{
		Slots s;
		for (int i = 0; i < 3; ++i) s.connect([](std::size_t) {});
		std::size_t how = 0, at = 0;
		choose("how", how, 9, 8);
		choose("at", at, 3, 2);
		std::size_t other = (at + 1) % 3;
		auto state = [&](bool a, bool o) { VC_ENSURES(s.c[at].IsConnected() == a && s.c[other].IsConnected() == o && s.c[(at + 2) % 3].IsConnected(), "disconnects the slots it gives up only"); };
		{
			Guard g(s.c[at]);
			VC_ENSURES(g.IsConnected() && &g.GetConnection() == &g.GetConnection(), "holds the connection");
			state(true, true);
			switch (how)
			{
				case 0: break;
				case 1: g.Disconnect(); VC_ENSURES(!g.IsConnected(), "disconnects"); state(false, true); break;
				case 2: { Guard h(std::move(g)); VC_ENSURES(h.IsConnected() && !g.IsConnected(), "gives up the connection"); state(true, true); } state(false, true); break;
				case 3: { Guard h(s.c[other]); auto& r = (h = std::move(g)); VC_ENSURES(&r == &h && h.IsConnected() && !g.IsConnected(), "gives up the connection"); state(true, false); } state(false, false); break;
				case 4: { auto& r = (g = s.c[other]); VC_ENSURES(&r == &g && g.IsConnected(), "holds the other connection"); state(false, true); break; }
				case 5: { Connection c = s.c[other]; auto& r = (g = std::move(c)); VC_ENSURES(&r == &g && g.IsConnected() && !c.IsConnected(), "holds the other connection"); state(false, true); break; }
				case 6: { auto& r = (g = std::move(g)); VC_ENSURES(&r == &g && g.IsConnected(), "keeps the connection"); state(true, true); break; }
				case 7: { auto& r = (g = std::move(g.GetConnection())); VC_ENSURES(&r == &g && g.IsConnected(), "keeps the connection"); state(true, true); break; }
				case 8: { U32 seen = 0; U32* p = &seen; g.Connect(s.signal, [p](U32 x) { *p = x; }); state(false, true); s.emit("x"); VC_ENSURES(g.IsConnected() && seen == s.log.expected, "connects the new slot"); break; }
			}
		}
		state(false, how == 0 || how == 1 || how == 2 || how > 5);
		s.emit("z");
		VC_ENSURES(s.log.count == (how == 0 || how == 1 || how == 2 || how > 5 ? 2 : 1), "calls the connected slots once and the others never");
	});
}
VC_PROOF(GuardOutlives)
{
	bounds();
	Guard g, none;
	VC_ENSURES(!none.IsConnected(), "an empty guard has no connection");
	none.Disconnect();
	Connection c, moved;
	{
		Signal s;
		g = s.Connect([](U32) {});
		c = s.Connect([](U32) {});
		Connection copy(c);
		moved = std::move(copy);
		VC_ENSURES(g.IsConnected() && c.IsConnected() && moved.IsConnected() && !copy.IsConnected(), "holds the connection");
		Connection temp(std::move(moved));
		VC_ENSURES(temp.IsConnected() && !moved.IsConnected(), "gives up the connection");
		moved = temp;
	}
	VC_ENSURES(!g.IsConnected() && !c.IsConnected() && !moved.IsConnected(), "a signal that ends disconnects its slots");
	c.Disconnect();
}

// methods, and arguments by value or by reference
namespace
{
	struct Receiver
	{
		U32 sum = 0;
		mutable U32 seen = 0;
		void add(U32 x, U32& out) { sum += x; out = sum; }
		void look(U32 x, U32& out) const { seen = x; out += x; }
	};
}
VC_PROOF(Methods)
{
	bounds();
	using S = Nz::Signal<U32, U32&>;
	S s;
	Receiver r[4];
	const Receiver& c2 = r[2];
	s.Connect(r[0], &Receiver::add);
	s.Connect(&r[1], &Receiver::add);
	s.Connect(c2, &Receiver::look);
	s.Connect(static_cast<const Receiver*>(&r[3]), &Receiver::look);
	U32 x = vc::any<U32>("x"), y = vc::any<U32>("y"), out = 0;
	s(x, out);
	VC_ENSURES(r[0].sum == x && r[1].sum == x && r[2].seen == x && r[3].seen == x && r[2].sum == 0, "calls the method of each object");
	VC_ENSURES(out == static_cast<U32>(x + x + x), "passes references through");
	s(y, out);
	VC_ENSURES(r[0].sum == static_cast<U32>(x + y) && r[3].seen == y, "calls the method of each object");
}
VC_PROOF(Values)
{
	bounds();
	Ctx ctx;
	{
		Nz::Signal<T> s;
		U32 x = value("x"), a = 0, b = 0;
		U32 *p = &a, *q = &b;
		std::function<void(T)> first = [p](T t) { *p = t.value; T stolen(std::move(t)); };
		s.Connect(first);
		s.Connect([q](T t) { *q = t.value; });
		T t(x);
		s(t);
		VC_ENSURES(a == x && b == x && t.value == x, "each slot receives its own copy of an argument passed by value");
		VC_ENSURES(tracked::alive == 1, "no copy is kept");
	}
}

VC_MAIN
