// Slots of a signal that log their calls.
#pragma once
#include "seq.hpp"
#include <NazaraUtils/Signal.hpp>

namespace
{
	using namespace seq;
	using Signal = Nz::Signal<U32>;
	using Connection = Signal::Connection;
	using Guard = Signal::ConnectionGuard;
	constexpr std::size_t Max = 4;

	void bounds() { vc::bounded("at most 4 slots and 2 disconnections during an emission; arguments are arbitrary"); }

	// what the slots did
	struct Log
	{
		std::size_t calls[Max + 2] = {};
		std::size_t order[16] = {};
		std::size_t count = 0;
		U32 expected = 0;

		void call(std::size_t i, U32 x) { VC_ENSURES(x == expected, "a slot receives the argument"); ++calls[i]; if (count < 16) order[count] = i; ++count; }
		void reset() { *this = Log(); }
	};

	// n slots connected in order after some were connected and disconnected
	struct Slots
	{
		Signal signal;
		Connection c[Max + 2];
		Log log;
		std::size_t n = 0;

		template<typename F> void connect(F f) { std::size_t i = n++; Slots* s = this; c[i] = signal.Connect([s, i, f](U32 x) { s->log.call(i, x); f(i); }); VC_ENSURES(c[i].IsConnected(), "connects"); }
		void emit(const char* name) { log.reset(); log.expected = vc::any<U32>(name); signal(log.expected); }
		void history()
		{
			std::size_t h = 0;
			choose("history", h, 3, 2);
			if (h == 0) return;
			Connection a = signal.Connect([](U32) {}), b = signal.Connect([](U32) {});
			if (h == 2) signal(0);
			a.Disconnect();
			VC_ENSURES(!a.IsConnected() && b.IsConnected(), "disconnects this slot only");
			if (h == 1) signal(0);
			b.Disconnect();
			VC_ENSURES(!b.IsConnected(), "disconnects this slot only");
		}
	};
	template<typename F> void run(F f) { bounds(); enumerate([&] { f(); }); }
}

// during an emission: slot a1 disconnects b1 and slot a2 disconnects b2
template<std::size_t Most> void disconnectDuring(std::size_t first, std::size_t count)
{
	run([=]
	{
		Slots s;
		std::size_t n = 0, a1 = 0, b1 = 0, a2 = 0, b2 = 0;
		choose("n", n, Most + 1, Most);
		if (n <= first) return;
		choose("a1", a1, n < first + count ? n - first : count, Most - 1);
		a1 += first;
		choose("b1", b1, n, Most - 1);
		choose("a2", a2, n + 1, Most);
		if (a2 < n) { if (!choose("b2", b2, n, Most - 1)) return; }
		struct D { Slots* s; std::size_t a[2], b[2]; std::size_t before[Max]; bool gone[Max], done[2]; } d = { &s, { a1, a2 }, { b1, b2 }, {}, {}, {} };
		D* p = &d;
		for (std::size_t i = 0; i < n; ++i)
			s.connect([p](std::size_t i)
			{
				for (int k = 0; k < 2; ++k)
					if (i == p->a[k] && !p->done[k])
					{
						p->done[k] = true;
						std::size_t b = p->b[k];
						if (!p->gone[b]) { p->gone[b] = true; p->before[b] = p->s->log.calls[b]; }
						p->s->c[b].Disconnect();
						VC_ENSURES(!p->s->c[b].IsConnected(), "a slot is disconnected at once");
					}
			});
		s.emit("x");
		for (std::size_t i = 0; i < n; ++i)
			VC_ENSURES(s.log.calls[i] == (d.gone[i] ? d.before[i] : 1), "calls each slot once, unless it was disconnected before its turn");
		VC_ENSURES(d.done[0] || d.gone[a1], "every slot is called");
		d.done[0] = d.done[1] = true;
		s.emit("y");
		for (std::size_t i = 0; i < n; ++i)
			VC_ENSURES(s.log.calls[i] == !d.gone[i] && s.c[i].IsConnected() == !d.gone[i], "calls the connected slots once and the others never");
	});
}
