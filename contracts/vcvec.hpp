// The assumed contract of std::vector<T> for trivially copyable T, used as the container of the verified bitsets.
// Every access is checked against the current size (operator[], back, iterators); capacity is unbounded.
// Natively the real std::vector is used instead.
#pragma once
#include "vc.hpp"
#include <iterator>
#include <vector>

#ifdef VC_SYMBOLIC
namespace vc
{
	// the pointer of a container to its buffer, kept outside of the object (which then has no pointer)
	template<typename T>
	class Slot
	{
		static T*& slot(unsigned i) { static T* p1 = nullptr; static T* p2 = nullptr; static T* p3 = nullptr; static T* p4 = nullptr; return i == 1 ? p1 : i == 2 ? p2 : i == 3 ? p3 : p4; }
		static unsigned& used() { static unsigned n = 0; return n; }
		unsigned m_id = 0;

	public:
		Slot() = default;
		Slot(std::nullptr_t) {}
		// the buffers exist from the start: taking one writes no pointer
		static void prepare(std::size_t cap) { used() = 0; for (unsigned i = 1; i <= 4; ++i) slot(i) = static_cast<T*>(__vc_alloc(cap, sizeof(T))); }
		void make(std::size_t) { m_id = ++used(); __vc_check(m_id <= 4, "the contract uses at most 4 buffers"); }
		operator T*() const { return m_id == 0 ? nullptr : slot(m_id); }
		explicit operator bool() const { return m_id != 0; }
	};

	template<typename T, typename P = T*>
	class Vec
	{
		static constexpr std::size_t Cap = std::size_t(1) << 42;

		template<typename V, typename R>
		struct It
		{
			using iterator_category = std::random_access_iterator_tag;
			using value_type = T;
			using difference_type = std::ptrdiff_t;
			using pointer = R*;
			using reference = R&;

			V* v = nullptr;
			std::size_t i = 0;

			It() = default;
			It(V* v_, std::size_t i_) : v(v_), i(i_) {}
			template<typename V2, typename R2> It(const It<V2, R2>& o) : v(o.v), i(o.i) {}
			R& operator*() const { return (*v)[i]; }
			R* operator->() const { return &(*v)[i]; }
			R& operator[](std::ptrdiff_t n) const { return (*v)[i + std::size_t(n)]; }
			It& operator++() { ++i; return *this; }
			It operator++(int) { It c(*this); ++i; return c; }
			It& operator--() { --i; return *this; }
			It operator--(int) { It c(*this); --i; return c; }
			It& operator+=(std::ptrdiff_t n) { i += std::size_t(n); return *this; }
			It& operator-=(std::ptrdiff_t n) { i -= std::size_t(n); return *this; }
			It operator+(std::ptrdiff_t n) const { return It(v, i + std::size_t(n)); }
			It operator-(std::ptrdiff_t n) const { return It(v, i - std::size_t(n)); }
			friend It operator+(std::ptrdiff_t n, const It& it) { return it + n; }
			std::ptrdiff_t operator-(const It& o) const { return std::ptrdiff_t(i - o.i); }
			bool operator==(const It& o) const { return i == o.i; }
			bool operator!=(const It& o) const { return i != o.i; }
			bool operator<(const It& o) const { return i < o.i; }
			bool operator>(const It& o) const { return i > o.i; }
			bool operator<=(const It& o) const { return i <= o.i; }
			bool operator>=(const It& o) const { return i >= o.i; }
		};

	public:
		static void prepare() { P::prepare(Cap); }
		using value_type = T;
		using size_type = std::size_t;
		using iterator = It<Vec, T>;
		using const_iterator = It<const Vec, const T>;
		using reverse_iterator = std::reverse_iterator<iterator>;
		using const_reverse_iterator = std::reverse_iterator<const_iterator>;

		Vec() = default;
		explicit Vec(std::size_t n) { resize(n); }
		Vec(std::size_t n, const T& v) { resize(n, v); }
		Vec(const Vec& o) { copy(o); }
		Vec(Vec&& o) noexcept : m_p(o.m_p), m_n(o.m_n) { o.m_p = nullptr; o.m_n = 0; }
		Vec& operator=(const Vec& o) { if (this != &o) copy(o); return *this; }
		Vec& operator=(Vec&& o) noexcept { if (this != &o) { m_p = o.m_p; m_n = o.m_n; o.m_p = nullptr; o.m_n = 0; } return *this; }

		std::size_t size() const { return m_n; }
		bool empty() const { return m_n == 0; }
		std::size_t capacity() const { return m_p ? Cap : 0; }
		std::size_t max_size() const { return Cap - 1; }
		void reserve(std::size_t n) { __vc_check(n < Cap, "container size is below max_size"); if (n != 0) buffer(); }
		void clear() { m_n = 0; }
		void resize(std::size_t n) { resize(n, T()); }
		void resize(std::size_t n, const T& v)
		{
			T x = v;
			__vc_check(n < Cap, "container size is below max_size");
			touched() = this;
			buffer();
			if (n > m_n)
				__vc_fill(m_p + m_n, n - m_n, static_cast<std::uint64_t>(x), sizeof(T));
			m_n = n;
		}
		void push_back(const T& v)
		{
			T x = v;
			__vc_check(m_n + 1 < Cap, "container size is below max_size");
			buffer();
			m_p[m_n++] = x;
		}
		template<typename... A> T& emplace_back(A&&... a) { push_back(T(std::forward<A>(a)...)); return back(); }
		template<typename... A> iterator emplace(const_iterator pos, A&&... a)
		{
			T x(std::forward<A>(a)...);
			__vc_check(pos.v == this && pos.i <= m_n, "insertion position is within the container");
			__vc_check(m_n + 1 < Cap, "container size is below max_size");
			buffer();
			std::memmove(m_p + pos.i + 1, m_p + pos.i, (m_n - pos.i) * sizeof(T));
			m_p[pos.i] = x;
			++m_n;
			return iterator(this, pos.i);
		}
		iterator erase(const_iterator pos) { return erase(pos, pos + 1); }
		iterator erase(const_iterator first, const_iterator last)
		{
			__vc_check(first.v == this && last.v == this && first.i <= last.i && last.i <= m_n, "erased range is within the container");
			if (first.i != last.i)
				std::memmove(m_p + first.i, m_p + last.i, (m_n - last.i) * sizeof(T));
			m_n -= last.i - first.i;
			return iterator(this, first.i);
		}
		void pop_back() { __vc_check(m_n > 0, "pop_back of a non-empty container"); --m_n; }
		void assign(std::size_t n, const T& v) { T x = v; m_n = 0; resize(n, x); }
		T& operator[](std::size_t i) { __vc_check(i < m_n, "container index is below its size"); return m_p[i]; }
		const T& operator[](std::size_t i) const { __vc_check(i < m_n, "container index is below its size"); return m_p[i]; }
		T& at(std::size_t i) { return (*this)[i]; }
		const T& at(std::size_t i) const { return (*this)[i]; }
		T& back() { return (*this)[m_n - 1]; }
		const T& back() const { return (*this)[m_n - 1]; }
		T& front() { return (*this)[0]; }
		const T& front() const { return (*this)[0]; }
		T* data() { return m_p; }
		const T* data() const { return m_p; }
		iterator begin() { return iterator(this, 0); }
		iterator end() { return iterator(this, m_n); }
		const_iterator begin() const { return const_iterator(this, 0); }
		const_iterator end() const { return const_iterator(this, m_n); }
		const_iterator cbegin() const { return begin(); }
		const_iterator cend() const { return end(); }
		reverse_iterator rbegin() { return reverse_iterator(end()); }
		reverse_iterator rend() { return reverse_iterator(begin()); }
		const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
		const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
		void swap(Vec& o) { P p = m_p; m_p = o.m_p; o.m_p = p; std::swap(m_n, o.m_n); }
		friend void swap(Vec& a, Vec& b) { a.swap(b); }

		// the container that was resized last (only used by loop hints)
		static Vec*& touched() { static Vec* p = nullptr; return p; }
		// replaces the contents by n arbitrary elements
		const T* havoc(const char* name, std::size_t n)
		{
			m_n = n;
			m_p = static_cast<T*>(__vc_mem_cap(name, n, Cap, sizeof(T)));
			return m_p;
		}

	private:
		void buffer()
		{
			if (!m_p)
				make(m_p);
		}
		static void make(T*& p) { p = static_cast<T*>(__vc_alloc(Cap, sizeof(T))); }
		static void make(Slot<T>& s) { s.make(Cap); }
		void copy(const Vec& o)
		{
			m_n = o.m_n;
			m_p = nullptr;
			if (o.m_n != 0)
			{
				make(m_p);
				std::memcpy(m_p, o.m_p, o.m_n * sizeof(T));
			}
		}

		P m_p = nullptr;
		std::size_t m_n = 0;
	};
	template<typename V> void prepare() { V::prepare(); }
}
#else
namespace vc
{
	template<typename T> struct Slot {};
	template<typename T, typename P = void> using Vec = std::vector<T>;
	template<typename V> void prepare() {}
}
#endif
