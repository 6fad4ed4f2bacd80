// Sequence containers against a plain model: an array of values and a size.
#pragma once
#include "tracked.hpp"
#include <cstddef>

namespace seq
{
	using U32 = std::uint32_t;
	using T = tracked::Object<0>;

	template<std::size_t Cap> struct Model
	{
		U32 v[Cap];
		std::size_t n = 0;

		void push(U32 x) { v[n++] = x; }
		void insert(std::size_t at, U32 x) { for (std::size_t i = Cap - 1; i > 0; --i) if (i > at && i <= n) v[i] = v[i - 1]; for (std::size_t i = 0; i < Cap; ++i) if (i == at) v[i] = x; ++n; }
		void erase(std::size_t at, std::size_t count) { for (std::size_t i = 0; i < Cap; ++i) if (i >= at && i + count < n) v[i] = get(i + count); n -= count; }
		void resize(std::size_t count, U32 x) { for (std::size_t i = 0; i < Cap; ++i) if (i >= n && i < count) v[i] = x; n = count; }
		U32 get(std::size_t at) const { U32 r = 0; for (std::size_t i = 0; i < Cap; ++i) if (i == at) r = v[i]; return r; }
	};

	// Choices are arbitrary values (symbolic), or enumerated one after the other when the contract says so:
	// f is then run once for each combination of choices, and only the elements stay symbolic.
	struct Choices { bool on; unsigned count, pos; std::size_t digit[8], radix[8]; };
	inline Choices choices;
	inline bool choose(const char* name, std::size_t& x, std::size_t count, std::size_t max)
	{
		if (!choices.on)
		{
			x = vc::range<std::size_t>(name, 0, max);
			vc::requires_(x < count);
			return true;
		}
		if (count == 0) return false;
		Choices& c = choices;
		if (c.pos == c.count) { c.digit[c.pos] = 0; c.radix[c.pos] = count; ++c.count; }
		x = c.digit[c.pos++];
		return true;
	}
	template<typename F> void enumerate(F&& f)
	{
		Choices& c = choices;
		c.on = true; c.count = 0;
		for (bool more = true; more;)
		{
			c.pos = 0;
			f();
			more = false;
			c.count = c.pos;
			while (c.count > 0)
			{
				if (++c.digit[c.count - 1] < c.radix[c.count - 1]) { more = true; break; }
				--c.count;
			}
		}
		c.on = false;
	}

	// fills a container with any number of elements (at most max), a fresh value each
	template<typename C, std::size_t Cap> void fill(const char* size, const char* values, C& c, Model<Cap>& m, std::size_t max = Cap)
	{
		std::size_t n = 0;
		choose(size, n, max + 1, max);
		for (std::size_t i = 0; i < max; ++i)
		{
			U32 x = vc::any<U32>(values);
			vc::requires_(x != tracked::Moved);
			if (i < n) { c.emplace_back(x); m.push(x); }
		}
	}
	template<typename C, std::size_t Cap> void same(const C& c, const Model<Cap>& m)
	{
		VC_ENSURES(c.size() == m.n && c.empty() == (m.n == 0), "has the expected size");
		for (std::size_t i = 0; i < Cap; ++i)
			if (i < m.n) { const T& o = c.data()[i]; o.used(); VC_ENSURES(o.value == m.v[i], "has the expected elements, in order"); }
	}
	inline U32 value(const char* name) { U32 x = vc::any<U32>(name); vc::requires_(x != tracked::Moved); return x; }

	struct Ctx { Ctx() { tracked::start(); } ~Ctx() { VC_ENSURES(tracked::alive == 0, "every element is destroyed"); } };
}

namespace seq
{
	inline void live(std::size_t n) { VC_ENSURES(tracked::alive == static_cast<int>(n), "as many objects as elements"); }

	// preconditions on the size
	inline bool given(bool c) { if (choices.on) return c; vc::requires_(c); return true; }
	template<std::size_t Cap> bool room(const Model<Cap>& m) { return given(m.n < Cap); }
	template<std::size_t Cap> bool some(const Model<Cap>& m) { return given(m.n > 0); }
	template<std::size_t Cap> bool atMost(const Model<Cap>& m, std::size_t n) { return given(m.n <= n); }

	// Operations on any container c that matches the model m and can hold Cap elements.
	// Each contract is: an arbitrary content, one operation, the content of the model.

	template<typename C, std::size_t Cap> void pushBack(C& c, Model<Cap>& m)
	{
		if (!room(m)) return;
		U32 x = value("x");
		std::size_t how = 0;
		choose("how", how, 6, 5);
		if (how == 0) { T t(x); auto& r = c.push_back(t); VC_ENSURES(&r == &c.back() && t.value == x, "copies its argument at the end"); }
		else if (how == 1) { T t(x); tracked::copies = 0; auto& r = c.push_back(std::move(t)); VC_ENSURES(&r == &c.back() && t.value == tracked::Moved && tracked::copies == 0, "moves its argument to the end"); }
		else if (how == 2) { auto& r = c.emplace_back(x); VC_ENSURES(&r == &c.back(), "constructs at the end"); }
		else if (how == 3) { std::size_t j = 0; if (!choose("j", j, m.n, Cap - 1)) return; c.push_back(c[j]); x = m.get(j); }
		else if (how == 4) { std::size_t j = 0; if (!choose("j", j, m.n, Cap - 1)) return; c.emplace_back(c[j]); x = m.get(j); }
		else { U32 y = value("y"); c.emplace_back(x, y); x ^= y; }
		m.push(x);
		same(c, m);
		live(m.n);
	}

	template<typename C, std::size_t Cap> void insert(C& c, Model<Cap>& m)
	{
		if (!room(m)) return;
		std::size_t at = 0;
		choose("at", at, m.n + 1, Cap - 1);
		U32 x = value("x");
		std::size_t how = 0;
		choose("how", how, 5, 4);
		typename C::iterator it;
		if (how == 0) { T t(x); it = c.insert(c.begin() + at, t); VC_ENSURES(t.value == x, "copies its argument"); }
		else if (how == 1) { T t(x); tracked::copies = 0; it = c.insert(c.begin() + at, std::move(t)); VC_ENSURES(t.value == tracked::Moved && tracked::copies == 0, "moves its argument"); }
		else if (how == 2) { it = c.emplace(c.cbegin() + at, x); }
		else if (how == 3) { std::size_t j = 0; if (!choose("j", j, m.n, Cap - 1)) return; it = c.insert(c.begin() + at, c[j]); x = m.get(j); }
		else { U32 y = value("y"); it = c.emplace(c.begin() + at, x, y); x ^= y; }
		m.insert(at, x);
		VC_ENSURES(it == c.begin() + at, "returns the inserted element");
		same(c, m);
		live(m.n);
	}

	template<typename C, std::size_t Cap> void eraseOne(C& c, Model<Cap>& m)
	{
		std::size_t at = 0;
		if (!choose("at", at, m.n, Cap - 1)) return;
		auto it = c.erase(c.begin() + at);
		m.erase(at, 1);
		VC_ENSURES(it == c.begin() + at, "returns the following element");
		same(c, m);
		live(m.n);
	}

	template<typename C, std::size_t Cap> void eraseRange(C& c, Model<Cap>& m)
	{
		std::size_t at = 0, count = 0;
		choose("at", at, m.n + 1, Cap);
		choose("count", count, m.n - at + 1, Cap);
		auto it = c.erase(c.cbegin() + at, c.cbegin() + at + count);
		m.erase(at, count);
		VC_ENSURES(it == c.begin() + at, "returns the following element");
		same(c, m);
		live(m.n);
	}

	template<typename C, std::size_t Cap> void popBack(C& c, Model<Cap>& m)
	{
		if (!some(m)) return;
		c.pop_back();
		m.n--;
		same(c, m);
		live(m.n);
	}

	template<typename C, std::size_t Cap> void clear(C& c, Model<Cap>& m)
	{
		c.clear();
		m.n = 0;
		same(c, m);
		live(0);
		U32 x = value("x");
		c.push_back(T(x));
		m.push(x);
		same(c, m);
		live(1);
	}

	template<typename C, std::size_t Cap> void resize(C& c, Model<Cap>& m)
	{
		std::size_t count = 0;
		choose("count", count, Cap + 1, Cap);
		std::size_t how = 0;
		choose("how", how, 3, 2);
		U32 x = 0;
		if (how == 0) c.resize(count);
		else if (how == 1) { x = value("x"); T t(x); c.resize(count, t); }
		else { if (!atMost(m, count)) return; std::size_t j = 0; if (!choose("j", j, m.n, Cap - 1)) return; x = m.get(j); c.resize(count, c[j]); }
		m.resize(count, x);
		same(c, m);
		live(m.n);
	}

	template<typename C, std::size_t Cap> void access(C& c, Model<Cap>& m)
	{
		const C& cc = c;
		VC_ENSURES(c.begin() == c.data() && c.end() == c.data() + m.n && cc.begin() == cc.data() && cc.end() == cc.data() + m.n && c.cbegin() == cc.data() && c.cend() == cc.data() + m.n && cc.data() == c.data(), "iterates over its elements");
		VC_ENSURES(c.rbegin().base() == c.end() && c.rend().base() == c.begin() && cc.rbegin().base() == cc.end() && cc.rend().base() == cc.begin() && c.crbegin().base() == cc.end() && c.crend().base() == cc.begin(), "iterates backwards over its elements");
		VC_ENSURES(c.size() == m.n && c.empty() == (m.n == 0) && c.size() <= c.capacity() && c.capacity() <= c.max_size(), "its size is within its capacity");
		if (m.n > 0)
		{
			std::size_t j = 0;
			choose("j", j, m.n, Cap - 1);
			VC_ENSURES(&c[j] == c.data() + j && &cc[j] == c.data() + j && &c.front() == c.data() && &cc.front() == c.data() && &c.back() == c.data() + (m.n - 1) && &cc.back() == c.data() + (m.n - 1), "designates its elements");
			U32 x = value("x");
			c[j] = T(x);
			for (std::size_t i = 0; i < Cap; ++i) if (i == j) m.v[i] = x;
		}
		same(c, m);
		live(m.n);
	}
}

// Operations on containers of a trivial type, of any size: v holds the n elements of src and may hold cap.
namespace seq
{
	template<typename C> void anyPush(C& v, const U32* src, std::size_t n, std::size_t cap)
	{
		vc::requires_(n < cap);
		U32 x = vc::any<U32>("x");
		bool emplace = vc::any<bool>("emplace"), own = vc::any<bool>("own");
		if (own) { vc::requires_(n > 0); x = src[0]; if (emplace) v.emplace_back(v[0]); else v.push_back(v[0]); }
		else if (emplace) v.emplace_back(x);
		else v.push_back(x);
		std::size_t k = vc::any<std::size_t>("k");
		VC_ENSURES(v.size() == n + 1 && v[n] == x && v.back() == x, "appends the element");
		vc::requires_(k < n);
		VC_ENSURES(v[k] == src[k], "keeps the other elements");
	}
	template<typename C> void anyInsert(C& v, const U32* src, std::size_t n, std::size_t cap)
	{
		vc::requires_(n < cap);
		U32 x = vc::any<U32>("x");
		std::size_t at = vc::any<std::size_t>("at"), j = vc::any<std::size_t>("j");
		vc::requires_(at <= n);
		bool own = vc::any<bool>("own");
		typename C::iterator it;
		if (own) { vc::requires_(j < n); x = src[j]; it = v.insert(v.begin() + at, v[j]); }
		else it = v.insert(v.begin() + at, x);
		VC_ENSURES(it == v.begin() + at && v.size() == n + 1 && v[at] == x, "inserts the element");
		std::size_t k = vc::any<std::size_t>("k");
		vc::requires_(k < n);
		VC_ENSURES(v[k < at ? k : k + 1] == src[k], "keeps the other elements");
	}
	template<typename C> void anyErase(C& v, const U32* src, std::size_t n)
	{
		std::size_t at = vc::any<std::size_t>("at"), count = vc::any<std::size_t>("count");
		vc::requires_(at <= n && count <= n - at);
		auto it = v.erase(v.begin() + at, v.begin() + at + count);
		VC_LEMMA(v.size() == n - count, "removes the range");
		VC_ENSURES(it == v.begin() + at, "returns the following element");
		std::size_t k = vc::any<std::size_t>("k");
		vc::requires_(k < n - count);
		const U32* data = v.data();
		if (k < at) VC_ENSURES(data[k] == src[k], "keeps the elements before");
		else VC_ENSURES(data[k] == src[k + count], "keeps the elements after");
	}
	template<typename C> void anyEraseOne(C& v, const U32* src, std::size_t n)
	{
		std::size_t at = vc::any<std::size_t>("at");
		vc::requires_(at < n);
		auto it = v.erase(v.begin() + at);
		VC_ENSURES(it == v.begin() + at && v.size() == n - 1, "removes the element");
		std::size_t k = vc::any<std::size_t>("k");
		vc::requires_(k < n - 1);
		VC_ENSURES(v[k] == src[k < at ? k : k + 1], "keeps the other elements");
	}
	template<typename C> void anyResize(C& v, const U32* src, std::size_t n, std::size_t cap)
	{
		std::size_t count = vc::any<std::size_t>("count");
		vc::requires_(count <= cap);
		bool def = vc::any<bool>("def");
		U32 x = vc::any<U32>("x");
		if (def) x = 0;
		std::size_t k = vc::any<std::size_t>("k");
		vc::requires_(k < count);
		const U32* data = v.data();
		auto done = [&](std::size_t i) { return k < n || data[i] == x; };
		auto kept = [&] { return k >= n || data[k] == src[k]; };
		auto size = [&] { return v.size() == n; };
		vc::hint_split(k, done);
		vc::hint_all(kept);
		vc::hint_all(size);
		if (def) v.resize(count); else v.resize(count, x);
		VC_ENSURES(v.size() == count, "has the new size");
		VC_ENSURES(k >= n || v[k] == src[k], "keeps the first elements");
		VC_ENSURES(k < n || !def || v[k] == 0, "default-constructs the others");
		VC_ENSURES(k < n || def || v[k] == x, "copies the others");
	}
	template<typename C> void anyPop(C& v, const U32* src, std::size_t n)
	{
		std::size_t k = vc::any<std::size_t>("k");
		if (vc::any<bool>("clear")) { v.clear(); VC_ENSURES(v.empty() && v.size() == 0, "has no element"); return; }
		vc::requires_(n > 0);
		v.pop_back();
		vc::requires_(k < n - 1);
		VC_ENSURES(v.size() == n - 1 && v[k] == src[k], "removes the last element");
	}
	template<typename C> void anyAccess(C& v, const U32* src, std::size_t n)
	{
		const C& c = v;
		std::size_t k = vc::any<std::size_t>("k");
		vc::requires_(k < n);
		VC_ENSURES(v.size() == n && !v.empty() && &v[k] == v.data() + k && &c[k] == &v[k] && v.end() == v.begin() + n && &*v.begin() == v.data() && &v.front() == v.data() && &v.back() == v.data() + n - 1 && &c.front() == v.data() && &c.back() == v.data() + n - 1, "designates its elements");
		VC_ENSURES(v[k] == src[k] && *(v.begin() + k) == src[k] && v.rbegin()[n - 1 - k] == src[k], "reads its elements");
		U32 x = vc::any<U32>("x");
		std::size_t j = vc::any<std::size_t>("j");
		vc::requires_(j < n);
		v[j] = x;
		VC_ENSURES(v[k] == (k == j ? x : src[k]) && v.size() == n, "an element is written alone");
	}
}

namespace seq
{
	// d is empty and v holds the n elements of src: assign(d, v) copies (or moves) them
	template<typename C, typename F> void anyAssign(C& d, const C& v, const U32* src, std::size_t n, F assign)
	{
		std::size_t k = vc::any<std::size_t>("k");
		vc::requires_(k < n);
		const U32* data = d.data();
		auto count = [&](std::size_t i) { return d.size() == i; };
		auto done = [&](std::size_t i) { return data[i] == src[i]; };
		auto source = [&] { return v.size() == n && v.data()[k] == src[k]; };
		vc::hint_at(count);
		vc::hint_split(k, done);
		vc::hint_all(source);
		assign();
		VC_ENSURES(d.size() == n && d[k] == src[k], "has the elements of the other");
	}
}
