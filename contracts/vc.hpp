// Contract vocabulary.  Everything declared here and not defined is interpreted by the
// verification-condition generator (/verif/vc); the native replay runtime (native.cpp) defines it
// for concrete execution.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <utility>
#include <noarr/structures_extended.hpp>
#include <noarr/traversers.hpp>

using sz = std::size_t;
using zh = std::uint64_t;  // handle of a mathematical integer

#define VC_PURE __attribute__((const, nothrow))

extern "C" {
void vc_requires(bool c) noexcept;           // precondition: assumed from here on
__attribute__((nomerge)) void vc_ensures(int line, bool c) noexcept;  // postcondition / assertion: proved, then available as a lemma
void vc_case(int k, bool c) noexcept;         // verify separately under c and under not c (complete case split)
void vc_reach(int line) noexcept;            // this point must be reachable (vacuity guard)

// mathematical integers
zh vz_u(sz) VC_PURE;
zh vz_s(long) VC_PURE;
zh vz_add(zh, zh) VC_PURE;
zh vz_sub(zh, zh) VC_PURE;
zh vz_mul(zh, zh) VC_PURE;
zh vz_div(zh, zh) VC_PURE;  // floor division, divisor > 0
zh vz_mod(zh, zh) VC_PURE;
zh vz_ite(bool, zh, zh) VC_PURE;
bool vz_eq(zh, zh) VC_PURE;
bool vz_le(zh, zh) VC_PURE;
bool vz_lt(zh, zh) VC_PURE;
bool vb_and(bool, bool) VC_PURE;
bool vb_or(bool, bool) VC_PURE;
bool vb_not(bool) VC_PURE;
bool vb_id(bool) VC_PURE;

// ghost variables
__attribute__((nomerge)) sz vg_get(int slot) noexcept;
__attribute__((nomerge)) void vg_set(int slot, sz v) noexcept;

// the abstract structure: offset and size functions, known only through the structure contract:
//   requires i_k < l_k for all k
//   ensures  off + elem <= size   and   distinct index tuples have disjoint [off, off+elem)
sz abs_off(int id, sz elem, sz l0, sz l1, sz l2, sz i0, sz i1, sz i2) VC_PURE;
sz abs_size(int id, sz elem, sz l0, sz l1, sz l2) VC_PURE;
// the same functions, applied to mathematical integers in specifications
zh vz_abs_off(int id, zh elem, zh l0, zh l1, zh l2, zh i0, zh i1, zh i2) VC_PURE;
zh vz_abs_size(int id, zh elem, zh l0, zh l1, zh l2) VC_PURE;
// an unconstrained pure function (for generic callback payloads)
sz vu_fun(int id, sz, sz, sz) VC_PURE;
// readable memory of the given size at an arbitrary address, with arbitrary contents that do not change
const char *vc_memory(sz size) noexcept;
// frame condition: after vc_track, every store to memory that is not an object of the contract itself must be the one
// announced last by vc_expect (address, width, value), and that store must have happened when the next one is announced
void vc_track() noexcept;
__attribute__((nomerge)) void vc_expect(int line, const void *p, sz n, sz value) noexcept;
__attribute__((nomerge)) void vc_expect_done(int line) noexcept;
}

struct B {
	bool b;
	explicit constexpr B(bool x) : b(x) {}
	friend B operator&&(B x, B y) { return B(vb_and(x.b, y.b)); }
	friend B operator||(B x, B y) { return B(vb_or(x.b, y.b)); }
	friend B operator!(B x) { return B(vb_not(x.b)); }
	B implies(B y) const { return B(vb_or(vb_not(b), y.b)); }
};
struct Z {
	zh v;
	struct raw {};
	Z(raw, zh x) : v(x) {}
	Z(sz x) : v(vz_u(x)) {}
	Z(unsigned x) : v(vz_u(x)) {}
	Z(int x) : v(vz_s(x)) {}
	Z(long x) : v(vz_s(x)) {}
	template<sz N>
	Z(std::integral_constant<sz, N>) : v(vz_u(N)) {}
	friend Z operator+(Z a, Z b) { return Z(raw{}, vz_add(a.v, b.v)); }
	friend Z operator-(Z a, Z b) { return Z(raw{}, vz_sub(a.v, b.v)); }
	friend Z operator*(Z a, Z b) { return Z(raw{}, vz_mul(a.v, b.v)); }
	friend Z operator/(Z a, Z b) { return Z(raw{}, vz_div(a.v, b.v)); }
	friend Z operator%(Z a, Z b) { return Z(raw{}, vz_mod(a.v, b.v)); }
	friend B operator==(Z a, Z b) { return B(vz_eq(a.v, b.v)); }
	friend B operator!=(Z a, Z b) { return !(a == b); }
	friend B operator<(Z a, Z b) { return B(vz_lt(a.v, b.v)); }
	friend B operator<=(Z a, Z b) { return B(vz_le(a.v, b.v)); }
	friend B operator>(Z a, Z b) { return b < a; }
	friend B operator>=(Z a, Z b) { return b <= a; }
};
inline Z zite(B c, Z a, Z b) { return Z(Z::raw{}, vz_ite(c.b, a.v, b.v)); }
inline Z zmin(Z a, Z b) { return zite(a < b, a, b); }

inline B as_b(B x) { return x; }
inline B as_b(bool x) { return B(vb_id(x)); }

#define REQ(...) vc_requires(as_b(__VA_ARGS__).b)
#define ENS(...) vc_ensures(__LINE__, as_b(__VA_ARGS__).b)
#define CASE(k, ...) vc_case(k, as_b(__VA_ARGS__).b)
#define EXPECT_STORE(p, n, v) vc_expect(__LINE__, p, n, v)
#define STORES_DONE() vc_expect_done(__LINE__)
#define REACH() vc_reach(__LINE__)
#define CONTRACT(name, ...) extern "C" void ct_##name(__VA_ARGS__)
// a type-level (compile-time decided) fact, recorded as an obligation as well
#define ENS_TYPE(...)                                                                                                  \
	do {                                                                                                               \
		constexpr bool vc_t_ = (__VA_ARGS__);                                                                          \
		vc_ensures(__LINE__, vc_t_);                                                                                   \
	} while (0)

// value of an index/length/size as machine integer irrespective of static (integral_constant) or dynamic
template<class T>
constexpr sz val(T x) {
	return static_cast<sz>(x);
}

#define TWO64 (Z(Z::raw{}, vz_mul(vz_u(sz(1) << 32), vz_u(sz(1) << 32))))  // 2^64

// shorthands used by the contract programs
template<auto D, class S>
inline Z zlen(S s) {
	return Z(val(s | noarr::get_length<D>()));
}
template<auto D, class S, class St>
inline Z zlen(S s, St st) {
	return Z(val(s | noarr::get_length<D>(st)));
}
template<class S>
inline Z zsz(S s) {
	return Z(val(s | noarr::get_size()));
}
template<auto... D, class S, class... I>
inline Z zof(S s, I... i) {
	return Z(val(s | noarr::offset<D...>(i...)));
}
