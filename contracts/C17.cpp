// MemoryPool: entries are distinct, stable and each holds one object from its allocation until it is freed.
// @configs cxx17 cxx20 ndebug17
#include "seq.hpp"
#include <NazaraUtils/MemoryPool.hpp>

namespace
{
	using namespace seq;
	constexpr std::size_t Block = 2, Max = 4;
	using Pool = Nz::MemoryPool<T>;

	void bounds() { vc::bounded("pools of at most 2 blocks of 2 entries, every set of used entries; values are arbitrary"); }

	// what the entries should be
	struct Entries
	{
		bool used[Max + Block] = {};
		U32 value[Max + Block] = {};
		T* at[Max + Block] = {};
		std::size_t blocks = 0;

		std::size_t count() const { std::size_t n = 0; for (bool u : used) n += u; return n; }
		std::size_t firstFree() const { std::size_t i = 0; while (i < blocks * Block && used[i]) ++i; return i; }
		void add(std::size_t i, U32 v, T* p) { used[i] = true; value[i] = v; at[i] = p; if (i >= blocks * Block) ++blocks; }
	};
	void same(Pool& pool, const Entries& m)
	{
		const Pool& cpool = pool;
		std::size_t n = m.count();
		VC_ENSURES(pool.GetAllocatedEntryCount() == n && pool.size() == n, "counts its used entries");
		VC_ENSURES(pool.GetBlockCount() == m.blocks && pool.GetBlockSize() == Block && pool.GetFreeEntryCount() == m.blocks * Block - n, "counts its blocks and free entries");
		auto it = pool.begin();
		auto cit = cpool.begin();
		for (std::size_t i = 0; i < m.blocks * Block; ++i)
		{
			if (!m.used[i]) continue;
			VC_ENSURES(pool.RetrieveFromIndex(i) == m.at[i] && cpool.RetrieveFromIndex(i) == m.at[i] && pool.RetrieveEntryIndex(m.at[i]) == i, "an entry keeps its index and its address");
			m.at[i]->used();
			VC_ENSURES(m.at[i]->value == m.value[i], "an entry keeps its object");
			for (std::size_t j = 0; j < i; ++j)
				if (m.used[j]) VC_ENSURES(m.at[j] != m.at[i], "entries are distinct");
			VC_ENSURES(it != pool.end() && cit != cpool.cend() && it.GetIndex() == i && &*it == m.at[i] && &*cit == m.at[i], "iterates over its used entries in order");
			if (i % 2) ++it; else { auto old = it++; VC_ENSURES(&*old == m.at[i], "post-increment returns the entry it leaves"); }
			++cit;
		}
		VC_ENSURES(it == pool.end() && cit == cpool.end(), "iterates over nothing else");
		live(n);
	}
	// any set of used entries: all are taken and some are freed
	void make(Pool& pool, Entries& m, const char* name)
	{
		std::size_t n = 0, mask = 0;
		choose("n", n, Max + 1, Max);
		m.blocks = 1;
		for (std::size_t i = 0; i < n; ++i)
		{
			std::size_t index;
			U32 v = value(name);
			T* p = pool.Allocate(index, v);
			VC_ENSURES(index == i, "takes the first free entry");
			m.add(i, v, p);
		}
		choose("mask", mask, std::size_t(1) << n, (std::size_t(1) << Max) - 1);
		for (std::size_t i = 0; i < n; ++i)
			if (mask >> i & 1) { pool.Free(i); m.used[i] = false; }
	}
	template<typename F> void with(F f)
	{
		Ctx ctx;
		bounds();
		enumerate([&] { { Pool pool(Block); Entries m; make(pool, m, "v"); f(pool, m); } live(0); });
	}
	void take(Pool& pool, Entries& m)
	{
		std::size_t index = 99;
		U32 x = value("x");
		std::size_t i = m.firstFree();
		T* p = pool.Allocate(index, x);
		VC_ENSURES(index == i && p, "takes the first free entry, or a new block");
		m.add(i, x, p);
	}
}

VC_PROOF(State) { with([](Pool& pool, Entries& m) { same(pool, m); }); }
VC_PROOF(Allocate)
{
	with([](Pool& pool, Entries& m)
	{
		std::size_t defer = 0;
		choose("defer", defer, 2, 1);
		if (!defer) take(pool, m);
		else
		{
			std::size_t index = 99, i = m.firstFree();
			U32 x = value("x");
			T* p = pool.Allocate(Pool::DeferConstruct, index);
			VC_ENSURES(index == i && tracked::alive == int(m.count()), "constructs nothing");
			new (p) T(x);
			m.add(i, x, p);
		}
		same(pool, m);
	});
}
VC_PROOF(Free)
{
	with([](Pool& pool, Entries& m)
	{
		std::size_t i = 0, keep = 0;
		choose("i", i, Max, Max - 1);
		if (!given(m.used[i])) return;
		choose("keep", keep, 2, 1);
		if (keep) { T* p = m.at[i]; pool.Free(i, Pool::NoDestruction); live(m.count()); p->used(); p->~T(); }
		else pool.Free(i);
		m.used[i] = false;
		same(pool, m);
		take(pool, m);
		same(pool, m);
	});
}
VC_PROOF(Reset)
{
	with([](Pool& pool, Entries& m)
	{
		std::size_t clear = 0;
		choose("clear", clear, 2, 1);
		if (clear) { pool.Clear(); m.blocks = 0; } else pool.Reset();
		for (bool& u : m.used) u = false;
		same(pool, m);
		take(pool, m);
		take(pool, m);
		take(pool, m);
		same(pool, m);
	});
}
VC_PROOF(Move)
{
	with([](Pool& pool, Entries& m)
	{
		Pool other(std::move(pool));
		same(other, m);
		pool.Clear();
		Entries none;
		take(pool, none);
		VC_ENSURES(pool.RetrieveFromIndex(0)->value == none.value[0], "a pool moved from can be used again");
		live(m.count() + 1);
	});
}
VC_PROOF(MoveAssign)
{
	with([](Pool& pool, Entries& m)
	{
		std::size_t before = m.count(), n = 0;
		Pool other(1 + Block);
		choose("k", n, 3, 2);
		for (std::size_t i = 0; i < n; ++i) { std::size_t index; other.Allocate(index, value("o")); }
		live(before + n);
		auto& r = (other = std::move(pool));
		VC_ENSURES(&r == &other, "returns the target");
		same(other, m);
		take(other, m);
		same(other, m);
	});
}
// entries are found by address, whatever their alignment; addresses of other pools are not
VC_PROOF(Find)
{
	with([](Pool& pool, Entries& m)
	{
		Pool other(Block);
		std::size_t index;
		T* p = other.Allocate(index, value("o"));
		VC_ENSURES(pool.RetrieveEntryIndex(p) == Pool::InvalidIndex, "an entry of another pool is not found");
		if (m.used[0]) VC_ENSURES(other.RetrieveEntryIndex(m.at[0]) == Pool::InvalidIndex, "an entry of another pool is not found");
	});
}
VC_PROOF(Aligned)
{
	bounds();
	struct E { U32 v; };
	Nz::MemoryPool<E, 16> pool(3);
	E* p[4];
	U32 v[4];
	for (std::size_t i = 0; i < 4; ++i)
	{
		std::size_t index;
		v[i] = vc::any<U32>("v");
		p[i] = pool.Allocate(index, E{ v[i] });
		VC_ENSURES(index == i, "takes the first free entry");
		VC_ENSURES(reinterpret_cast<std::uintptr_t>(p[i]) % 16 == 0, "entries are aligned");
	}
	for (std::size_t i = 0; i < 4; ++i)
		VC_ENSURES(pool.RetrieveEntryIndex(p[i]) == i && pool.RetrieveFromIndex(i) == p[i] && p[i]->v == v[i], "an entry keeps its index, its address and its object");
}
// blocks of more entries than a machine word has bits: each entry is freed and taken again
VC_PROOF(Wide)
{
	vc::bounded("blocks of 67 entries; pairs of freed entries at a distance of 1 and 64; values are arbitrary");
	constexpr std::size_t N = 67;
	Nz::MemoryPool<U32> pool(N);
	U32* p[N];
	std::size_t index;
	for (std::size_t i = 0; i < N; ++i) { p[i] = pool.Allocate(index, U32(i)); VC_ENSURES(index == i, "takes the first free entry"); }
	for (std::size_t i = 0; i < N; ++i)
	{
		std::size_t j = (i + (i % 2 ? 1 : 64)) % N, first = i < j ? i : j, last = i < j ? j : i;
		pool.Free(i);
		pool.Free(j);
		VC_ENSURES(pool.GetAllocatedEntryCount() == N - 2 && pool.GetFreeEntryCount() == 2 && pool.GetBlockCount() == 1, "counts its used entries");
		U32 x = vc::any<U32>("x"), y = vc::any<U32>("y");
		U32* a = pool.Allocate(index, x);
		VC_ENSURES(index == first && a == p[first], "takes the first free entry");
		U32* b = pool.Allocate(index, y);
		VC_ENSURES(index == last && b == p[last], "takes the first free entry");
		VC_ENSURES(*a == x && *b == y && pool.GetFreeEntryCount() == 0, "an entry keeps its object");
	}
	pool.Free(1); pool.Free(5); pool.Free(63); pool.Free(64); pool.Free(N - 1);
	auto it = pool.begin();
	for (std::size_t i = 0; i < N; ++i)
		if (i != 1 && i != 5 && i != 63 && i != 64 && i != N - 1) { VC_ENSURES(it.GetIndex() == i && &*it == p[i], "iterates over its used entries in order"); ++it; }
	VC_ENSURES(it == pool.end(), "iterates over nothing else");
	for (std::size_t i : { 1, 5, 63, 64, int(N - 1) }) { pool.Allocate(index); VC_ENSURES(index == i, "takes the first free entry"); }
	U32* q = pool.Allocate(index, U32(1002));
	VC_ENSURES(index == N && *q == 1002 && pool.GetBlockCount() == 2 && pool.RetrieveEntryIndex(q) == N, "takes an entry of a new block");
}
// removing the current entry while iterating
VC_PROOF(FreeWhileIterating)
{
	with([](Pool& pool, Entries& m)
	{
		std::size_t seen = 0;
		for (auto it = pool.begin(); it != pool.end();)
		{
			std::size_t i = it.GetIndex();
			VC_ENSURES(i < m.blocks * Block && m.used[i], "visits used entries");
			if (i % 2) { pool.Free(i); m.used[i] = false; }
			++it;
			++seen;
		}
		same(pool, m);
	});
}

VC_MAIN
