// Contract language.
//
// A contract is an ordinary C++ function introduced by VC_PROOF(name) that
//   - introduces arbitrary inputs        (vc::any, vc::range, vc::size, vc::mem),
//   - states preconditions               (vc::requires_),
//   - calls the real NazaraUtils function,
//   - states postconditions              (VC_ENSURES(cond, "what")).
// With VC_SYMBOLIC the translation unit is compiled to LLVM IR and every postcondition (and every implicit
// obligation: bounds, shifts, overflow, lifetime, library assertions) is discharged for all inputs.
// Without it the very same contract is an executable program, used to replay counterexamples and to look for
// a concrete failing input once an obligation has failed.
#pragma once

#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <utility>

#ifdef VC_SYMBOLIC

extern "C"
{
	std::uint64_t __vc_any(const char* name, unsigned bits);
	float __vc_any_f32(const char* name);
	double __vc_any_f64(const char* name);
	void __vc_assume(bool);
	void __vc_check(bool, const char* label);
	void __vc_lemma(bool, const char* label);
	std::uint64_t __vc_name(const char* name, std::uint64_t v);
	void __vc_cover(const char* label, bool);
	void* __vc_mem(const char* name, std::size_t count, std::size_t elemSize);
	void* __vc_mem_cap(const char* name, std::size_t count, std::size_t capacity, std::size_t elemSize);
	void* __vc_alloc(std::size_t count, std::size_t elemSize);
	void __vc_free(void*);
	void __vc_fill(void*, std::size_t count, std::uint64_t value, std::size_t elemSize);
	void __vc_hint_split(void* fn, void* ctx, std::size_t k);
	void __vc_hint_all(void* fn, void* ctx);
	void __vc_hint_at(void* fn, void* ctx);
	void __vc_hint_acc(void* fn, void* ctx);
	void __vc_axiom(void* fn, void* ctx);
	void __vc_clear_hints();
	void __vc_stub(void* real, void* stub);
	void __vc_inductive(bool);
	void __vc_prune(bool);
	void __vc_unroll(unsigned);
	void __vc_reject();
	void __vc_may_throw();
	void __vc_bounded(const char*);
	std::uint64_t __vc_uf(const char* name, unsigned bits, unsigned nargs, ...);
	std::uint8_t __vc_shadow_get(const void*);
	void __vc_shadow_set(const void*, std::uint8_t);
	std::size_t __vc_objoff(const void*);
	bool __vc_same_object(const void*, const void*);
	bool __vc_is_freed(const void*);
	std::uint64_t __vc_live_heap();
	void __vc_inst(std::size_t byteIndex);
	void __vc_strlen_inst(std::size_t index);
	void __vc_cstr(const void*, std::size_t length);
}

#define VC_PROOF(name) extern "C" void vcproof_##name()

namespace vc
{
	template<typename T> T any(const char* name)
	{
		if constexpr (std::is_same_v<T, bool>)
			return __vc_any(name, 1) != 0;
		else if constexpr (std::is_same_v<T, float>)
			return __vc_any_f32(name);
		else if constexpr (std::is_same_v<T, double>)
			return __vc_any_f64(name);
		else
			return static_cast<T>(__vc_any(name, sizeof(T) * 8));
	}
	inline void requires_(bool c) { __vc_assume(c); }
	inline void assume(bool c) { __vc_assume(c); }
	inline void cover(const char* l, bool c) { __vc_cover(l, c); }
	template<typename T> T range(const char* name, T lo, T hi) { T v = any<T>(name); __vc_assume(v >= lo && v <= hi); return v; }
	// a size that is unbounded for the proof (up to symMax) and at most nativeMax when looking for inputs natively
	inline std::size_t size(const char* name, std::size_t symMax, std::size_t /*nativeMax*/) { return range<std::size_t>(name, 0, symMax); }
	template<typename T> T* mem(const char* name, std::size_t n) { return static_cast<T*>(__vc_mem(name, n, sizeof(T))); }
	// a C string of length n: the terminator is at n (that no character before is null is an axiom to instantiate with notNull)
	inline char* cstring(const char* name, std::size_t n) { char* p = mem<char>(name, n + 1); __vc_assume(p[n] == 0); __vc_cstr(p, n); return p; }
	template<typename F> void hint_split(std::size_t k, F& f) { bool (*fn)(void*, std::size_t) = [](void* c, std::size_t i) -> bool { return (*static_cast<F*>(c))(i); }; __vc_hint_split(reinterpret_cast<void*>(fn), &f, k); }
	template<typename F> void hint_all(F& f) { bool (*fn)(void*) = [](void* c) -> bool { return (*static_cast<F*>(c))(); }; __vc_hint_all(reinterpret_cast<void*>(fn), &f); }
	template<typename F> void hint_at(F& f) { bool (*fn)(void*, std::size_t) = [](void* c, std::size_t i) -> bool { return (*static_cast<F*>(c))(i); }; __vc_hint_at(reinterpret_cast<void*>(fn), &f); }
	template<typename F> void hint_acc(F& f) { bool (*fn)(void*, std::size_t, std::uint64_t) = [](void* c, std::size_t i, std::uint64_t a) -> bool { return (*static_cast<F*>(c))(i, a); }; __vc_hint_acc(reinterpret_cast<void*>(fn), &f); }
	template<typename F> void axiom(F& f) { bool (*fn)(void*, std::size_t) = [](void* c, std::size_t i) -> bool { return (*static_cast<F*>(c))(i); }; __vc_axiom(reinterpret_cast<void*>(fn), &f); }
	inline void clear_hints() { __vc_clear_hints(); }
	template<typename R> void stub(R* real, R* by) { __vc_stub(reinterpret_cast<void*>(real), reinterpret_cast<void*>(by)); }
	// a member function replaced by its contract, a function taking the object first
	template<typename M, typename R> void stub_member(M real, R* by) { void* f; std::memcpy(&f, &real, sizeof f); __vc_stub(f, reinterpret_cast<void*>(by)); }
	inline void inductive() { __vc_inductive(true); }
	// branches that the assumptions exclude are left out (decided by the solver one by one)
	inline void prune() { __vc_prune(true); }
	inline void unroll(unsigned n) { __vc_unroll(n); }
	// from here on the library may report a broken precondition by an assertion failure: execution stops there
	inline void may_reject() { __vc_reject(); }
	// from here on the library may throw an exception: execution of the contract stops there
	inline void may_throw() { __vc_may_throw(); }
	// labels the contract as bounded: it is reported as such and never counted as proved
	inline void bounded(const char* what) { __vc_bounded(what); }
	template<typename R, typename N, typename... A> R spec(const char* name, N&&, A... a) { return static_cast<R>(__vc_uf(name, sizeof(R) * 8, sizeof...(A), static_cast<std::uint64_t>(a)...)); }
	// names a value: the solver sees a fresh variable constrained to equal it
	template<typename T, typename F> T ghost(const char* name, F&& f) { T v = any<T>(name); __vc_assume(v == f()); return v; }
	// names a value: the solver sees a variable wherever the code computes the same term
	inline std::size_t named(const char* name, std::size_t v) { return __vc_name(name, v); }
	inline bool searching() { return false; }
	constexpr bool symbolic = true;
}

#define VC_ENSURES(cond, label) __vc_check(static_cast<bool>(cond), label)
// a proved condition that later obligations may use
#define VC_LEMMA(cond, label) __vc_lemma(static_cast<bool>(cond), label)

#else // native execution

#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <map>
#include <memory>
#include <new>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>

namespace vc
{
	struct Rejected {};

	struct Runtime
	{
		bool replay = false;
		std::map<std::string, std::vector<std::uint64_t>> values;
		std::map<std::string, int> seen;
		std::mt19937_64 rng;
		std::deque<std::unique_ptr<unsigned char[]>> mems;
		std::set<const void*> live;
		std::map<const void*, std::uint8_t> shadow;
		char* log = nullptr; // shared record of the inputs of the current execution
		std::size_t logLen = 0, logCap = 0;
		unsigned scale = 0;

		void record(const std::string& name, const std::uint64_t* v, std::size_t n)
		{
			if (!log) return;
			auto put = [&](const char* s, std::size_t l) { if (logLen + l + 1 < logCap) { std::memcpy(log + logLen, s, l); logLen += l; log[logLen] = 0; } };
			put(name.data(), name.size());
			char buf[32];
			for (std::size_t i = 0; i < n; ++i) { int l = std::snprintf(buf, sizeof buf, " %llu", static_cast<unsigned long long>(v[i])); put(buf, l); }
			put("\n", 1);
		}
		std::string unique(const char* n) { int c = seen[n]++; return c == 0 ? std::string(n) : std::string(n) + "#" + std::to_string(c); }
		std::uint64_t draw(unsigned bits)
		{
			std::uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
			switch (rng() % 10)
			{
				case 0: return 0;
				case 1: return m;
				case 2: return (1ull << (rng() % bits)) & m;
				case 3: return ((1ull << (rng() % bits)) - 1) & m;
				case 4: case 5: return (rng() % 8) & m;
				case 6: return (~(rng() % 8)) & m;
				case 7: return (rng() >> (rng() % 64)) & m;
				default: return rng() & m;
			}
		}
	};
	inline Runtime& rt() { static Runtime r; return r; }

	inline std::uint64_t any_bits(const char* name, unsigned bits)
	{
		Runtime& r = rt();
		std::string n = r.unique(name);
		std::uint64_t v;
		if (r.replay) { auto it = r.values.find(n); v = it == r.values.end() || it->second.empty() ? 0 : it->second[0]; }
		else v = r.draw(bits);
		if (bits < 64) v &= (1ull << bits) - 1;
		r.record(n, &v, 1);
		return v;
	}
	template<typename T> T any(const char* name)
	{
		if constexpr (std::is_same_v<T, bool>)
			return any_bits(name, 1) != 0;
		else if constexpr (std::is_same_v<T, float>)
		{
			Runtime& r = rt();
			std::uint32_t b; float f;
			if (!r.replay && r.rng() % 2) { static const float sp[] = { 0.f, -0.f, 1.f, -1.f, 0.5f, 2.f, 1e30f, -1e30f, 1e-30f, 3.14159265f, 100.f }; f = (r.rng() % 2) ? sp[r.rng() % 11] : (float(std::int64_t(r.rng())) / 9.3e17f) * float(1 << (r.rng() % 10)); std::memcpy(&b, &f, 4); std::string n = r.unique(name); std::uint64_t v = b; r.record(n, &v, 1); return f; }
			b = static_cast<std::uint32_t>(any_bits(name, 32)); std::memcpy(&f, &b, 4); return f;
		}
		else if constexpr (std::is_same_v<T, double>)
		{
			Runtime& r = rt();
			std::uint64_t b; double f;
			if (!r.replay && r.rng() % 2) { static const double sp[] = { 0., -0., 1., -1., 0.5, 2., 1e300, -1e300, 1e-300, 3.14159265, 100. }; f = (r.rng() % 2) ? sp[r.rng() % 11] : (double(std::int64_t(r.rng())) / 9.3e18) * double(1 << (r.rng() % 10)); std::memcpy(&b, &f, 8); std::string n = r.unique(name); r.record(n, &b, 1); return f; }
			b = any_bits(name, 64); std::memcpy(&f, &b, 8); return f;
		}
		else
			return static_cast<T>(any_bits(name, sizeof(T) * 8));
	}
	inline void requires_(bool c) { if (!c) throw Rejected{}; }
	inline void assume(bool c) { if (!c) throw Rejected{}; }
	inline void cover(const char*, bool) {}
	template<typename T> T range(const char* name, T lo, T hi)
	{
		Runtime& r = rt();
		std::string n = r.unique(name);
		std::uint64_t v;
		if (r.replay) { auto it = r.values.find(n); v = it == r.values.end() || it->second.empty() ? static_cast<std::uint64_t>(lo) : it->second[0]; }
		else
		{
			std::uint64_t span = static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo);
			std::uint64_t o = (r.rng() % 4 == 0) ? (r.rng() % 2 ? 0 : span) : (span == ~0ull ? r.rng() : ((r.rng() % 2 && span > 16) ? r.rng() % 16 : r.rng() % (span + 1)));
			v = static_cast<std::uint64_t>(lo) + o;
		}
		T t = static_cast<T>(v);
		std::uint64_t rec = static_cast<std::uint64_t>(t);
		r.record(n, &rec, 1);
		if (!(t >= lo && t <= hi)) throw Rejected{};
		return t;
	}
	inline std::size_t size(const char* name, std::size_t symMax, std::size_t nativeMax)
	{
		Runtime& r = rt();
		if (r.replay) return range<std::size_t>(name, 0, symMax);
		std::size_t m = r.scale ? (nativeMax < r.scale ? nativeMax : r.scale) : nativeMax;
		return range<std::size_t>(name, 0, m < symMax ? m : symMax);
	}
	template<typename T> T* mem(const char* name, std::size_t n)
	{
		Runtime& r = rt();
		std::string nm = r.unique(name);
		if (n > (1u << 26))
		{
			// only when a counterexample asks for it: address space without storage
			if (!r.replay || n > (std::size_t(1) << 43)) throw Rejected{};
			void* m = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (m == MAP_FAILED) throw Rejected{};
			T* p = static_cast<T*>(m);
			auto it = r.values.find(nm);
			if (it != r.values.end())
				for (std::size_t i = 0; i < n && i < it->second.size(); ++i) { T x = static_cast<T>(it->second[i]); std::memcpy(&p[i], &x, sizeof(T)); }
			return p;
		}
		// exact-size allocation so that AddressSanitizer sees every overrun
		r.mems.emplace_back(new (std::align_val_t(16)) unsigned char[n * sizeof(T) + 0]);
		unsigned char* base = r.mems.back().release();
		r.mems.pop_back();
		T* p = reinterpret_cast<T*>(base);
		std::vector<std::uint64_t> vals(n);
		unsigned mode = static_cast<unsigned>(r.rng() % 6);
		auto it = r.values.find(nm);
		for (std::size_t i = 0; i < n; ++i)
		{
			std::uint64_t v = 0;
			if (r.replay) v = it != r.values.end() && i < it->second.size() ? it->second[i] : 0;
			else if (mode == 0) v = 0;
			else if (mode == 1) v = ~0ull;
			else if (mode == 2) v = (r.rng() % 4 == 0) ? r.draw(sizeof(T) * 8) : 0;
			else v = r.draw(sizeof(T) * 8);
			T x = static_cast<T>(v);
			std::memcpy(&p[i], &x, sizeof(T));
			vals[i] = v & (sizeof(T) >= 8 ? ~0ull : (1ull << (8 * (sizeof(T) & 7))) - 1);
		}
		r.record(nm, vals.data(), n);
		return p;
	}
	inline char* cstring(const char* name, std::size_t n)
	{
		char* p = mem<char>(name, n + 1);
		p[n] = 0;
		for (std::size_t i = 0; i < n; ++i) if (p[i] == 0) { if (rt().replay) throw Rejected{}; p[i] = char(1 + rt().rng() % 255); }
		std::vector<std::uint64_t> v(n + 1);
		for (std::size_t i = 0; i <= n; ++i) v[i] = static_cast<unsigned char>(p[i]);
		rt().record(name, v.data(), n + 1);
		return p;
	}
	template<typename F> void hint_split(std::size_t, F&) {}
	template<typename F> void hint_all(F&) {}
	template<typename F> void hint_at(F&) {}
	template<typename F> void hint_acc(F&) {}
	template<typename F> void axiom(F&) {}
	inline void clear_hints() {}
	template<typename R> void stub(R*, R*) {}
	template<typename M, typename R> void stub_member(M, R*) {}
	inline void inductive() {}
	inline void prune() {}
	inline void unroll(unsigned) {}
	inline sigjmp_buf& rejectPoint() { static sigjmp_buf b; return b; }
	inline void may_reject() { auto h = [](int) { siglongjmp(rejectPoint(), 1); }; std::signal(SIGABRT, h); std::signal(SIGTRAP, h); std::signal(SIGILL, h); }
	inline bool& throwing() { static bool b; return b; }
	inline void may_throw() { throwing() = true; }
	inline void bounded(const char*) {}
	template<typename R, typename N, typename... A> R spec(const char*, N&& native, A... a) { return static_cast<R>(native(a...)); }
	template<typename T, typename F> T ghost(const char*, F&& f) { return f(); }
	inline std::size_t named(const char*, std::size_t v) { return v; }
	// looking for a failing input natively: contracts may keep the inputs small
	inline bool searching() { return !rt().replay; }
	constexpr bool symbolic = false;

	struct Proof { const char* name; void (*fn)(); Proof* next; };
	inline Proof*& proofs() { static Proof* p = nullptr; return p; }
	struct Reg { Proof p; Reg(const char* n, void (*f)()) { p.name = n; p.fn = f; p.next = proofs(); proofs() = &p; } };

	[[noreturn]] inline void fail(const char* label, const char* file, int line)
	{
		std::fprintf(stderr, "ENSURES FAILED: %s (%s:%d)\n", label, file, line);
		std::fflush(stderr);
		_exit(1);
	}
}

inline void __vc_free(void*) {}
// leaks are only decided symbolically
inline std::uint64_t __vc_live_heap() { return 0; }
inline std::uint8_t __vc_shadow_get(const void* p) { auto& m = vc::rt().shadow; auto it = m.find(p); return it == m.end() ? 0 : it->second; }
inline void __vc_shadow_set(const void* p, std::uint8_t v) { vc::rt().shadow[p] = v; }
inline void __vc_inst(std::size_t) {}
inline void __vc_strlen_inst(std::size_t) {}

#define VC_PROOF(name) static void vcproof_##name(); static vc::Reg vcreg_##name(#name, &vcproof_##name); static void vcproof_##name()
#define VC_ENSURES(cond, label) do { if (!(cond)) vc::fail(label, __FILE__, __LINE__); } while (false)
#define VC_LEMMA(cond, label) VC_ENSURES(cond, label)

namespace vc
{
	inline int runOne(Proof* p)
	{
		Runtime& r = rt();
		r.seen.clear();
		r.shadow.clear();
		r.live.clear();
		if (sigsetjmp(rejectPoint(), 1) != 0) { std::signal(SIGABRT, SIG_DFL); std::signal(SIGTRAP, SIG_DFL); std::signal(SIGILL, SIG_DFL); return 0; }
		throwing() = false;
		try { p->fn(); } catch (Rejected&) { return 3; } catch (...) { if (throwing()) return 0; throw; }
		return 0;
	}

	inline int driver(int argc, char** argv)
	{
		if (argc < 3) { for (Proof* p = proofs(); p; p = p->next) std::printf("%s\n", p->name); return 0; }
		std::string mode = argv[1], name = argv[2];
		Proof* pr = nullptr;
		for (Proof* p = proofs(); p; p = p->next) if (name == p->name) pr = p;
		if (!pr) { std::fprintf(stderr, "no proof %s\n", name.c_str()); return 2; }
		Runtime& r = rt();
		if (mode == "replay" && argc >= 4)
		{
			r.replay = true;
			std::ifstream in(argv[3]);
			std::string line;
			while (std::getline(in, line))
			{
				if (line.empty() || line[0] == '#') continue;
				std::istringstream ss(line); std::string n; ss >> n; std::vector<std::uint64_t> v; std::uint64_t x;
				while (ss >> x) v.push_back(x);
				r.values[n] = v;
			}
			alarm(20);
			int rc = runOne(pr);
			if (rc == 3) std::fprintf(stderr, "precondition not met\n"); else std::fprintf(stderr, "contract holds on this input\n");
			return rc;
		}
		if (mode == "search" && argc >= 6)
		{
			// search <proof> <seed> <seconds> <outfile>: forked batches, the parent reads the failing inputs
			std::uint64_t seed = std::strtoull(argv[3], nullptr, 10);
			double secs = std::atof(argv[4]);
			std::size_t cap = 1 << 20;
			char* log = static_cast<char*>(mmap(nullptr, cap + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
			std::uint64_t* counters = reinterpret_cast<std::uint64_t*>(log + cap);
			timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
			auto elapsed = [&] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec - t0.tv_sec) + 1e-9 * double(t.tv_nsec - t0.tv_nsec); };
			std::uint64_t batch = 0;
			std::string err = std::string(argv[5]) + ".err";
			while (elapsed() < secs)
			{
				++batch;
				pid_t pid = fork();
				if (pid == 0)
				{
					FILE* f = std::freopen(err.c_str(), "w", stderr); (void)f;
					r.log = log; r.logCap = cap;
					for (int i = 0; i < 20000; ++i)
					{
						r.rng.seed(seed * 1000003 + batch * 20011 + std::uint64_t(i));
						r.scale = (i % 8 < 4) ? 4 + unsigned(i % 8) * 8 : (i % 8 < 6 ? 80 : 0);
						r.logLen = 0; log[0] = 0;
						itimerval tv{}; tv.it_value.tv_sec = 10; setitimer(ITIMER_REAL, &tv, nullptr);
						if (runOne(pr) == 0) ++counters[0]; else ++counters[1];
						if ((i & 63) == 0 && elapsed() >= secs) break;
					}
					_exit(0);
				}
				int status = 0;
				waitpid(pid, &status, 0);
				if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
				{
					FILE* f = std::fopen(argv[5], "w");
					if (WIFSIGNALED(status)) std::fprintf(f, "# terminated by signal %d%s\n", WTERMSIG(status), WTERMSIG(status) == SIGALRM ? " (does not terminate)" : "");
					std::fputs(log, f); std::fclose(f);
					std::printf("FOUND after %llu executions\n", static_cast<unsigned long long>(counters[0] + counters[1]));
					return 1;
				}
			}
			std::printf("NONE in %llu executions (%llu rejected)\n", static_cast<unsigned long long>(counters[0]), static_cast<unsigned long long>(counters[1]));
			return 0;
		}
		return 2;
	}
}

#define VC_MAIN int main(int argc, char** argv) { return vc::driver(argc, argv); }

#endif // VC_SYMBOLIC

#ifndef VC_MAIN
#define VC_MAIN
#endif
