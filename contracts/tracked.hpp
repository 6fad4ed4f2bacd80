// An element type whose objects check the discipline of their lifetime: constructed where there is no object,
// used and destroyed where there is one; a moved-from object holds Moved.
#pragma once
#include "vc.hpp"

namespace tracked
{
	enum : std::uint8_t { None = 0, Live = 1 };
	constexpr std::uint32_t Moved = 0xDEAD;
	inline int alive = 0; // objects that are alive
	inline int copies = 0, moves = 0;

	template<int Tag> struct Object
	{
		std::uint32_t value;

		void born() { VC_ENSURES(__vc_shadow_get(this) == None, "an object is constructed where there is none"); __vc_shadow_set(this, Live); ++alive; }
		void used() const { VC_ENSURES(__vc_shadow_get(this) == Live, "an object is used during its lifetime"); }

		Object() : value(0) { born(); }
		Object(std::uint32_t v) : value(v) { born(); }
		Object(std::uint32_t a, std::uint32_t b) : value(a ^ b) { born(); }
		Object(const Object& o) : value((o.used(), o.value)) { born(); ++copies; }
		Object(Object&& o) noexcept : value((o.used(), o.value)) { o.value = Moved; born(); ++moves; }
		~Object() { VC_ENSURES(__vc_shadow_get(this) == Live, "an object is destroyed once"); __vc_shadow_set(this, None); --alive; }
		Object& operator=(const Object& o) { used(); o.used(); value = o.value; ++copies; return *this; }
		Object& operator=(Object&& o) noexcept { used(); o.used(); std::uint32_t v = o.value; o.value = Moved; value = v; ++moves; return *this; }
		bool operator==(const Object& o) const { used(); o.used(); return value == o.value; }
	};
	inline void start() { alive = copies = moves = 0; }
}
