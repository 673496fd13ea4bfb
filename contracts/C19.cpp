// C19 introspection agrees with the real offsets
#include "abs.hpp"
#include <noarr/introspection.hpp>
#include <noarr/structures/introspection/offset_along.hpp>
#include <noarr/structures/structs/zcurve.hpp>
using namespace noarr;

// A structure known through its introspection contract: two dimensions with arbitrary lengths and strides.  The
// library's own layouts are put under contract separately below; every transformation is verified against this contract.
struct lin_t {
	sz n_, m_, sx_, sy_, size_;
	using signature = function_sig<'x', dynamic_arg_length, function_sig<'y', dynamic_arg_length, scalar_sig<int>>>;

	template<IsState State>
	static constexpr auto sub_state(State st) noexcept {
		return st.template remove<index_in<'x'>, index_in<'y'>>();
	}
	template<IsState State>
	static constexpr auto clean_state(State st) noexcept {
		return sub_state(st);
	}
	template<IsState State>
	constexpr auto sub_structure(State) const noexcept {
		return scalar<int>();
	}
	constexpr auto sub_structure() const noexcept { return scalar<int>(); }
	template<IsState State>
	static consteval bool has_size() noexcept {
		return true;
	}
	template<IsState State>
	constexpr auto size(State) const noexcept {
		return size_;
	}
	template<IsState State>
	constexpr auto align(State) const noexcept {
		return constexpr_arithmetic::make_const<alignof(int)>();
	}
	template<auto Q, IsState State>
	static consteval bool has_length() noexcept {
		if constexpr (Q == 'x' || Q == 'y')
			return !state_contains<State, index_in<Q>>;
		else
			return false;
	}
	template<auto Q, IsState State>
	requires (has_length<Q, State>())
	constexpr auto length(State) const noexcept {
		return Q == 'x' ? n_ : m_;
	}
	template<class Sub, IsState State>
	static consteval bool has_strict_offset_of() noexcept {
		return std::is_same_v<Sub, scalar<int>> && state_contains<State, index_in<'x'>, index_in<'y'>>;
	}
	template<class Sub, IsState State, class Start = constexpr_arithmetic::make_const<0>>
	requires (has_strict_offset_of<Sub, State>())
	constexpr auto strict_offset_of(State st, Start start = Start{}) const noexcept {
		using namespace constexpr_arithmetic;
		return sx_ * val(get_index<'x'>(st)) + sy_ * val(get_index<'y'>(st)) + start;
	}
	template<class Sub, IsState State>
	static consteval bool has_strict_state_at() noexcept {
		return false;
	}
};
namespace noarr::helpers {
template<auto Q, class State>
inline constexpr bool lin_free = (Q == 'x' || Q == 'y') && !state_contains<State, index_in<Q>>;
template<IsDim auto Q, IsState State>
struct has_stride_along<Q, lin_t, State> {
	static constexpr bool value = lin_free<Q, State>;
	static constexpr auto stride(lin_t s, State) noexcept
	requires value
	{
		return Q == 'x' ? s.sx_ : s.sy_;
	}
};
template<IsDim auto Q, IsState State>
struct has_offset_along<Q, lin_t, State> {
	static constexpr bool value = (Q == 'x' || Q == 'y') && state_contains<State, index_in<'x'>, index_in<'y'>>;
	static constexpr auto offset(lin_t s, State st) noexcept
	requires value
	{
		return (Q == 'x' ? s.sx_ : s.sy_) * val(get_index<Q>(st));
	}
};
template<IsDim auto Q, IsState State>
struct is_uniform_along<Q, lin_t, State> {
	static constexpr bool value = lin_free<Q, State>;
};
template<IsDim auto Q, IsState State>
struct has_lower_bound_along<Q, lin_t, State> {
	static constexpr bool value = lin_free<Q, State>;
	static constexpr bool is_monotonic() noexcept { return true; }
	static constexpr auto lower_bound(lin_t, State) noexcept { return constexpr_arithmetic::make_const<0>(); }
	static constexpr auto lower_bound_at(lin_t, State) noexcept { return constexpr_arithmetic::make_const<0>(); }
	static constexpr auto lower_bound(lin_t s, State, auto min, auto end) noexcept {
		vc_ensures(__LINE__, (Z(val(min)) < Z(val(end)) && Z(val(end)) <= Z(Q == 'x' ? s.n_ : s.m_)).b);
		return (Q == 'x' ? s.sx_ : s.sy_) * val(min);
	}
	static constexpr auto lower_bound_at(lin_t s, State, auto min, auto end) noexcept {
		vc_ensures(__LINE__, (Z(val(min)) < Z(val(end)) && Z(val(end)) <= Z(Q == 'x' ? s.n_ : s.m_)).b);
		return val(min);
	}
};
}
static_assert(IsStruct<lin_t>);

using S0 = state<>;
// offsets fit
#define LIN(n, m, sx, sy)                                                                                              \
	REQ(Z(n) * Z(sx) + Z(m) * Z(sy) < TWO64);                                                                          \
	lin_t a{n, m, sx, sy, 0};

template<auto... D, class S, class... I>
inline sz mof(S s, I... i) {
	return val(s | offset<D...>(i...));
}

// (a) consecutive indices differ by the stride; P holds the other dimensions
template<auto D, auto... P, class S, class St, class... I>
inline void stride_ok(S s, St st, sz i, I... o) {
	ENS_TYPE(HasStrideAlong<S, D, St>);
	if constexpr (HasStrideAlong<S, D, St>) {
		auto f = s ^ fix(st);
		sz d = mof<D, P...>(f, i + 1, o...) - mof<D, P...>(f, i, o...);
		ENS(Z(d) == Z(static_cast<sz>(stride_along<D>(s, st))));
		ENS(Z(static_cast<sz>(stride_along<D>(f, S0()))) == Z(d));
	}
}
template<auto D, class S, class St>
inline void stride_no(S, St) {
	ENS_TYPE(!HasStrideAlong<S, D, St>);
	ENS_TYPE(!HasLowerBoundAlong<S, D, St>);
	ENS_TYPE(!IsUniformAlong<S, D, St>);
}
// (b) the change of the full offset is the change of the contribution
template<auto D, auto... P, class S, class... I>
inline void offset_ok(S s, sz i, sz j, I... o) {
	using St = decltype(idx<D, P...>(i, o...));
	ENS_TYPE(HasOffsetAlong<S, D, St>);
	if constexpr (HasOffsetAlong<S, D, St>) {
		sz d = mof<D, P...>(s, i, o...) - mof<D, P...>(s, j, o...);
		sz e = static_cast<sz>(offset_along<D>(s, idx<D, P...>(i, o...))) - static_cast<sz>(offset_along<D>(s, idx<D, P...>(j, o...)));
		ENS(Z(d) == Z(e));
	}
}
// (c)
template<auto D, auto P, class S>
inline void uniform_ok(S s, sz i, sz j, sz o, sz q) {
	ENS_TYPE(IsUniformAlong<S, D, S0>);
	ENS(is_uniform_along<D>(s, S0()));
	ENS(Z(mof<D, P>(s, i, o) - mof<D, P>(s, j, o)) == Z(mof<D, P>(s, i, q) - mof<D, P>(s, j, q)));
}
// (d) g(i): the contribution of index i
template<auto D, class S, class St, class G>
inline void bound_ok(S s, St st, sz min, sz end, sz i, G g) {
	ENS_TYPE(HasLowerBoundAlong<S, D, St>);
	if constexpr (HasLowerBoundAlong<S, D, St>) {
		Z lb = Z(val(lower_bound_along<D>(s, st, min, end))), at = Z(val(lower_bound_at<D>(s, st, min, end)));
		ENS(Z(min) <= at && at < Z(end));
		ENS(lb == g(at));
		ENS(lb <= g(Z(i)));
	}
}
template<auto D, class S, class St, class G>
inline void bound_all_ok(S s, St st, Z len, sz i, G g) {
	ENS_TYPE(HasLowerBoundAlong<S, D, St>);
	if constexpr (HasLowerBoundAlong<S, D, St>) {
		Z lb = Z(val(lower_bound_along<D>(s, st))), at = Z(val(lower_bound_at<D>(s, st)));
		ENS(Z(0) <= at && at < len);
		ENS(lb == g(at));
		ENS(lb <= g(Z(i)));
	}
}

// ---------------------------------------------------------------- shift, slice, span, step, reverse
inline auto twice_renamed() { return rename<'x', 'y', 'y', 'x'>() ^ rename<'x', 'y', 'y', 'x'>(); }
#define IDX(l) REQ(Z(i) + Z(1) < (l) && Z(j) < (l) && Z(o) < Z(m) && Z(q) < Z(m))
#define RNG(l) REQ(Z(min) < Z(end) && Z(end) <= (l) && Z(min) <= Z(k) && Z(k) < Z(end))
template<bool OtherStride, class S, class F>
inline void view(S s, sz n, sz m, sz sx, sz sy, Z l, sz i, sz j, sz o, sz q, sz min, sz end, sz k, F f) {
	// f: inner index of outer index
	IDX(l);
	RNG(l);
	stride_ok<'x', 'y'>(s, S0(), i, o);
	stride_ok<'x'>(s, idx<'y'>(o), i);
	if constexpr (OtherStride)
		stride_ok<'y', 'x'>(s, S0(), q, i);
	stride_no<'x'>(s, idx<'x'>(i));
	stride_no<'z'>(s, S0());
	offset_ok<'x', 'y'>(s, i, j, o);
	offset_ok<'y', 'x'>(s, o, q, i);
	ENS(Z(val(offset_along<'x'>(s, idx<'x', 'y'>(i, o)))) == f(Z(i)) * Z(sx));
	ENS(Z(val(offset_along<'y'>(s, idx<'x', 'y'>(i, o)))) == Z(o) * Z(sy));
	ENS_TYPE(!HasOffsetAlong<S, 'z', decltype(idx<'x', 'y'>(0, 0))> && !HasOffsetAlong<S, 'x', decltype(idx<'y'>(0))>);
	uniform_ok<'x', 'y'>(s, i, j, o, q);
	uniform_ok<'y', 'x'>(s, o, q, i, j);
}
template<class S, class F>
inline void view_bound(S s, sz n, sz m, sz sx, sz sy, Z l, sz i, sz o, sz min, sz end, sz k, sz p, sz r, sz t, F f) {
	REQ(Z(i) < l && Z(o) < Z(m));
	RNG(l);
	REQ(Z(p) < Z(r) && Z(r) <= Z(m) && Z(p) <= Z(t) && Z(t) < Z(r));
	auto gx = [&](Z v) { return f(v) * Z(sx); };
	auto gy = [&](Z v) { return v * Z(sy); };
	bound_ok<'x'>(s, S0(), min, end, k, gx);
	bound_ok<'x'>(s, idx<'y'>(o), min, end, k, gx);
	bound_ok<'y'>(s, S0(), p, r, t, gy);
	bound_all_ok<'x'>(s, S0(), l, i, gx);
	bound_all_ok<'y'>(s, S0(), Z(m), o, gy);
}
#define VIEW(other, name, struc, extra, pre, l, fexp)                                                                  \
	CONTRACT(name, sz n, sz m, sz sx, sz sy, sz i, sz j, sz o, sz q, sz min, sz end, sz k, sz e0, sz e1) {             \
		LIN(n, m, sx, sy);                                                                                             \
		extra;                                                                                                         \
		REQ(Z(q) + Z(1) < Z(m));                                                                                       \
		REQ(pre);                                                                                                      \
		view<other>(a ^ struc, n, m, sx, sy, l, i, j, o, q, min, end, k, [&](Z v) { return fexp; });                          \
	}
#define BOUND(name, struc, extra, pre, l, fexp)                                                                        \
	CONTRACT(bound_##name, sz n, sz m, sz sx, sz sy, sz i, sz o, sz min, sz end, sz k, sz p, sz r, sz t, sz e0, sz e1) { \
		LIN(n, m, sx, sy);                                                                                             \
		extra;                                                                                                         \
		REQ(pre);                                                                                                      \
		view_bound(a ^ struc, n, m, sx, sy, l, i, o, min, end, k, p, r, t, [&](Z v) { return fexp; });                 \
	}
#define BOTH(name, struc, extra, pre, l, fexp)                                                                         \
	VIEW(true, name, struc, extra, pre, l, fexp)                                                                           \
	BOUND(name, struc, extra, pre, l, fexp)

BOTH(shift, shift<'x'>(e0), , Z(e0) <= Z(n), Z(n) - Z(e0), v + Z(e0))
BOTH(slice, slice<'x'>(e0, e1), , Z(e0) + Z(e1) <= Z(n), Z(e1), v + Z(e0))
BOTH(span, span<'x'>(e0, e1), , Z(e0) <= Z(e1) && Z(e1) <= Z(n), Z(e1) - Z(e0), v + Z(e0))
BOTH(reverse, reverse<'x'>(), , Z(0) <= Z(n), Z(n), Z(n) - Z(1) - v)
BOTH(hoist, hoist<'y'>(), , Z(0) <= Z(n), Z(n), v)
BOTH(bcast_other, bcast<'b'>(e0) ^ fix<'b'>(e1), , Z(e1) < Z(e0), Z(n), v)
BOTH(renamed, twice_renamed(), , Z(0) <= Z(n), Z(n), v)
BOTH(slice_of_reverse, reverse<'x'>() ^ slice<'x'>(e0, e1), , Z(e0) + Z(e1) <= Z(n), Z(e1), Z(n) - Z(1) - (v + Z(e0)))
BOTH(reverse_of_span, span<'x'>(e0, e1) ^ reverse<'x'>(), , Z(e0) <= Z(e1) && Z(e1) <= Z(n), Z(e1) - Z(e0), Z(e0) + (Z(e1) - Z(e0) - Z(1) - v))
BOTH(shift_of_reverse, reverse<'x'>() ^ shift<'x'>(e0), , Z(e0) <= Z(n), Z(n) - Z(e0), Z(n) - Z(1) - (v + Z(e0)))
BOTH(shift_shift, shift<'x'>(e0) ^ shift<'x'>(e1), , Z(e0) + Z(e1) <= Z(n), Z(n) - Z(e0) - Z(e1), v + Z(e0) + Z(e1))
BOTH(literal, shift<'x'>(lit<2>) ^ slice<'x'>(lit<3>, lit<7>), , Z(12) <= Z(n), Z(7), v + Z(5))
VIEW(false, step, step<'x'>(e0, e1), , Z(e0) < Z(e1) && Z(n) + Z(e1) <= TWO64, zite(Z(e0) < Z(n), (Z(n) - Z(e0) - Z(1)) / Z(e1) + Z(1), Z(0)), v * Z(e1) + Z(e0))
VIEW(false, step_of_reverse, reverse<'x'>() ^ step<'x'>(e0, e1), , Z(e0) < Z(e1) && Z(n) + Z(e1) <= TWO64, zite(Z(e0) < Z(n), (Z(n) - Z(e0) - Z(1)) / Z(e1) + Z(1), Z(0)), Z(n) - Z(1) - (v * Z(e1) + Z(e0)))

// known finding (the upstream tests expect it): the stride of the other dimensions is multiplied by the step
CONTRACT(step_other_stride, sz n, sz m, sz sx, sz sy, sz i, sz o, sz e0, sz e1) {
	LIN(n, m, sx, sy);
	REQ(Z(e0) < Z(e1) && Z(n) + Z(e1) <= TWO64 && Z(i) * Z(e1) + Z(e0) < Z(n) && Z(o) + Z(1) < Z(m) && Z(sy) * Z(e1) < TWO64);
	auto s = a ^ step<'x'>(e0, e1);
	const Z d = Z(mof<'x', 'y'>(s, i, o + 1)) - Z(mof<'x', 'y'>(s, i, o));
	const Z r = Z(val(stride_along<'y'>(s, S0())));
	ENS(d == Z(sy) && (r == d || r == d * Z(e1)));
	ENS(r == d);
}
// ---------------------------------------------------------------- layouts
// vector over an arbitrary structure: the stride is the size of the inner one
CONTRACT(vector, sz n, sz m, sz sx, sz sy, sz size, sz l, sz i, sz j, sz o, sz q, sz min, sz end, sz k) {
	REQ(Z(n) * Z(sx) + Z(m) * Z(sy) <= Z(size) && Z(l) * Z(size) < TWO64);
	lin_t a{n, m, sx, sy, size};
	REQ(Z(o) + Z(1) < Z(n) && Z(q) < Z(m) && Z(i) + Z(1) < Z(l) && Z(j) < Z(l));
	REQ(Z(min) < Z(end) && Z(end) <= Z(l) && Z(min) <= Z(k) && Z(k) < Z(end));
	auto u = a ^ vector<'v'>();
	auto s = u ^ set_length<'v'>(l);
	stride_ok<'v', 'x', 'y'>(s, S0(), i, o, q);
	stride_ok<'x', 'v', 'y'>(s, S0(), o, i, q);
	stride_ok<'x', 'v'>(s, idx<'y'>(q), o, i);
	offset_ok<'v', 'x', 'y'>(s, i, j, o, q);
	auto st = idx<'v', 'x', 'y'>(i, o, q);
	auto full = idx<'v', 'x', 'y'>(i, o, q);
	ENS(Z(mof<'v', 'x', 'y'>(s, i, o, q)) == Z(val(offset_along<'v'>(s, st))) + Z(val(offset_along<'x'>(s, st))) + Z(val(offset_along<'y'>(s, st))));
	ENS(Z(val(offset_along<'v'>(s, full))) == Z(i) * Z(size) && Z(val(offset_along<'x'>(s, full))) == Z(o) * Z(sx));
	auto g = [&](Z v) { return v * Z(size); };
	bound_ok<'v'>(s, S0(), min, end, k, g);
	bound_ok<'v'>(u, state<state_item<length_in<'v'>, sz>>(l), min, end, k, g);
	bound_all_ok<'v'>(s, S0(), Z(l), i, g);
	bound_all_ok<'x'>(s, S0(), Z(n), o, [&](Z v) { return v * Z(sx); });
	ENS_TYPE(IsUniformAlong<decltype(s), 'v', S0> && IsUniformAlong<decltype(s), 'x', S0>);
	stride_no<'v'>(s, idx<'v'>(i));
	stride_no<'v'>(u, S0());
	ENS_TYPE(!HasOffsetAlong<decltype(s), 'v', S0>);
}
CONTRACT(vector_uniform, sz n, sz m, sz i, sz j, sz o, sz q) {
	REQ(Z(n) * Z(m) * Z(4) < TWO64);
	REQ(Z(i) < Z(n) && Z(j) < Z(n) && Z(o) < Z(m) && Z(q) < Z(m));
	auto s = scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m);
	uniform_ok<'x', 'y'>(s, i, j, o, q);
	uniform_ok<'y', 'x'>(s, o, q, i, j);
	ENS(Z(val(stride_along<'x'>(s, S0()))) == Z(4) && Z(val(stride_along<'y'>(s, S0()))) == Z(4) * Z(n));
	ENS(Z(val(offset_along<'x'>(s, idx<'x', 'y'>(i, o)))) == Z(i) * Z(4) && Z(val(offset_along<'y'>(s, idx<'x', 'y'>(i, o)))) == Z(o) * Z(n) * Z(4));
	ENS_TYPE(is_contiguous<decltype(s), S0>());
	// only the inner length is needed for the inner stride, both for the outer
	auto u = scalar<int>() ^ vector<'x'>() ^ vector<'y'>();
	using lx = state<state_item<length_in<'x'>, sz>>;
	using ly = state<state_item<length_in<'y'>, sz>>;
	ENS_TYPE(HasStrideAlong<decltype(u), 'x', lx> && !HasStrideAlong<decltype(u), 'y', lx> && !HasStrideAlong<decltype(u), 'y', ly> && !HasStrideAlong<decltype(u), 'x', ly>);
	ENS_TYPE(HasLowerBoundAlong<decltype(u), 'x', lx> && !HasLowerBoundAlong<decltype(u), 'y', lx> && !HasLowerBoundAlong<decltype(u), 'x', ly>);
}
CONTRACT(bcast, sz n, sz m, sz sx, sz sy, sz l, sz i, sz j, sz o, sz q, sz min, sz end, sz k) {
	LIN(n, m, sx, sy);
	REQ(Z(o) + Z(1) < Z(n) && Z(q) < Z(m) && Z(i) + Z(1) < Z(l) && Z(j) < Z(l));
	REQ(Z(min) < Z(end) && Z(end) <= Z(l) && Z(min) <= Z(k) && Z(k) < Z(end));
	auto s = a ^ bcast<'b'>(l);
	stride_ok<'b', 'x', 'y'>(s, S0(), i, o, q);
	stride_ok<'x', 'b', 'y'>(s, S0(), o, i, q);
	offset_ok<'b', 'x', 'y'>(s, i, j, o, q);
	offset_ok<'x', 'b', 'y'>(s, o, o + 1, i, q);
	ENS(Z(val(offset_along<'b'>(s, idx<'b', 'x', 'y'>(i, o, q)))) == Z(0));
	ENS(Z(val(stride_along<'b'>(s, S0()))) == Z(0));
	auto g = [&](Z) { return Z(0); };
	bound_ok<'b'>(s, S0(), min, end, k, g);
	bound_all_ok<'b'>(s, S0(), Z(l), i, g);
	bound_all_ok<'x'>(s, S0(), Z(n), o, [&](Z v) { return v * Z(sx); });
	ENS_TYPE(IsUniformAlong<decltype(s), 'b', S0> && IsUniformAlong<decltype(s), 'x', S0>);
	stride_no<'b'>(s, idx<'b'>(i));
	stride_no<'b'>(a ^ bcast<'b'>(), S0());
}
CONTRACT(tuple, sz n, sz m, sz sx, sz sy, sz size, sz l, sz i, sz o, sz q, sz min, sz end, sz k) {
	REQ(Z(n) * Z(sx) + Z(m) * Z(sy) <= Z(size) && Z(size) * Z(2) + Z(l) * Z(4) < TWO64);
	lin_t a{n, m, sx, sy, size};
	auto s = pack(scalar<int>() ^ vector<'v'>(l), a, scalar<double>() ^ vector<'v'>(l)) ^ tuple<'t'>();
	using S = decltype(s);
	REQ(Z(o) < Z(n) && Z(q) < Z(m));
	REQ(Z(l) * Z(12) + Z(size) < TWO64);
	REQ(Z(min) < Z(end) && Z(end) <= Z(n) && Z(min) <= Z(k) && Z(k) < Z(end));
	auto st = idx<'t', 'x', 'y'>(lit<1>, o, q);
	ENS(Z(mof<'t', 'x', 'y'>(s, lit<1>, o, q)) == Z(val(offset_along<'t'>(s, st))) + Z(val(offset_along<'x'>(s, st))) + Z(val(offset_along<'y'>(s, st))));
	ENS(Z(val(offset_along<'t'>(s, st))) == Z(4) * Z(l) && Z(val(offset_along<'x'>(s, st))) == Z(o) * Z(sx));
	REQ(Z(i) < Z(l));
	ENS(Z(val(offset_along<'t'>(s, idx<'t', 'v'>(lit<2>, i)))) == Z(4) * Z(l) + Z(size));
	ENS(Z(val(offset_along<'v'>(s, idx<'t', 'v'>(lit<2>, i)))) == Z(8) * Z(i));
	// members follow one another
	ENS(Z(val(lower_bound_along<'t'>(s, S0()))) == Z(0) && Z(val(lower_bound_at<'t'>(s, S0()))) == Z(0));
	ENS(Z(val(lower_bound_along<'t'>(s, S0(), lit<1>, lit<3>))) == Z(4) * Z(l) && Z(val(lower_bound_at<'t'>(s, S0(), lit<1>, lit<3>))) == Z(1));
	ENS(Z(val(lower_bound_along<'t'>(s, S0(), lit<2>, lit<3>))) == Z(4) * Z(l) + Z(size) && Z(val(lower_bound_at<'t'>(s, S0(), lit<2>, lit<3>))) == Z(2));
	bound_all_ok<'x'>(s, idx<'t'>(lit<1>), Z(n), o, [&](Z v) { return v * Z(sx); });
	ENS_TYPE(!HasOffsetAlong<S, 'x', decltype(idx<'x', 'y'>(0, 0))> && !HasOffsetAlong<S, 'x', decltype(idx<'t', 'x', 'y'>(lit<0>, 0, 0))>);
	ENS_TYPE(!HasStrideAlong<S, 't', S0> && !IsUniformAlong<S, 't', S0> && !HasLowerBoundAlong<S, 't', decltype(idx<'t'>(lit<0>))>);
	ENS_TYPE(!HasLowerBoundAlong<S, 'x', S0> && !HasLowerBoundAlong<S, 'v', decltype(idx<'t'>(lit<1>))>);
}
// ---------------------------------------------------------------- names
CONTRACT(rename, sz n, sz m, sz sx, sz sy, sz i, sz j, sz o, sz q, sz min, sz end, sz k) {
	LIN(n, m, sx, sy);
	REQ(Z(i) + Z(1) < Z(n) && Z(j) < Z(n) && Z(o) < Z(m) && Z(q) < Z(m));
	REQ(Z(min) < Z(end) && Z(end) <= Z(n) && Z(min) <= Z(k) && Z(k) < Z(end));
	auto s = a ^ rename<'x', 'a'>();
	stride_ok<'a', 'y'>(s, S0(), i, o);
	offset_ok<'a', 'y'>(s, i, j, o);
	offset_ok<'y', 'a'>(s, o, q, i);
	uniform_ok<'a', 'y'>(s, i, j, o, q);
	bound_ok<'a'>(s, S0(), min, end, k, [&](Z v) { return v * Z(sx); });
	bound_all_ok<'a'>(s, S0(), Z(n), i, [&](Z v) { return v * Z(sx); });
	stride_no<'x'>(s, S0());
	stride_no<'a'>(s, idx<'a'>(i));
	ENS_TYPE(!HasOffsetAlong<decltype(s), 'x', decltype(idx<'a', 'y'>(0, 0))>);
	// swapped names
	auto w = a ^ rename<'x', 'y', 'y', 'x'>();
	ENS(Z(val(stride_along<'y'>(w, S0()))) == Z(sx) && Z(val(stride_along<'x'>(w, S0()))) == Z(sy));
	ENS(Z(val(offset_along<'y'>(w, idx<'y', 'x'>(i, o)))) == Z(i) * Z(sx) && Z(val(offset_along<'x'>(w, idx<'y', 'x'>(i, o)))) == Z(o) * Z(sy));
	bound_ok<'y'>(w, S0(), min, end, k, [&](Z v) { return v * Z(sx); });
}
CONTRACT(setters, sz n, sz m, sz sx, sz sy, sz i, sz j, sz o, sz q, sz min, sz end, sz k) {
	LIN(n, m, sx, sy);
	REQ(Z(i) + Z(1) < Z(n) && Z(j) < Z(n) && Z(o) < Z(m) && Z(q) < Z(m));
	REQ(Z(min) < Z(end) && Z(end) <= Z(n) && Z(min) <= Z(k) && Z(k) < Z(end));
	auto s = a ^ fix<'y'>(o);
	stride_ok<'x'>(s, S0(), i);
	offset_ok<'x'>(s, i, j);
	bound_ok<'x'>(s, S0(), min, end, k, [&](Z v) { return v * Z(sx); });
	bound_all_ok<'x'>(s, S0(), Z(n), i, [&](Z v) { return v * Z(sx); });
	stride_no<'y'>(s, S0());
	ENS(Z(val(offset_along<'y'>(s, idx<'x'>(i)))) == Z(o) * Z(sy));
	ENS(Z(mof<'x'>(s, i)) == Z(val(offset_along<'x'>(s, idx<'x'>(i)))) + Z(o) * Z(sy));
	ENS_TYPE(IsUniformAlong<decltype(s), 'x', S0> && !IsUniformAlong<decltype(s), 'y', S0>);
	// literal index
	auto t = a ^ fix<'y'>(lit<3>);
	stride_ok<'x'>(t, S0(), i);
	stride_no<'y'>(t, S0());
}
CONTRACT(join, sz n, sz m, sz sx, sz sy, sz i, sz j) {
	LIN(n, m, sx, sy);
	REQ(Z(n) == Z(m) && Z(i) + Z(1) < Z(n) && Z(j) < Z(n));
	auto s = a ^ join<'x', 'y', 'j'>();
	using S = decltype(s);
	stride_ok<'j'>(s, S0(), i);
	offset_ok<'j'>(s, i, j);
	ENS_TYPE(IsUniformAlong<S, 'j', S0>);
	stride_no<'x'>(s, S0());
	stride_no<'y'>(s, S0());
	stride_no<'j'>(s, idx<'j'>(i));
	ENS_TYPE(!HasOffsetAlong<S, 'x', decltype(idx<'j'>(0))> && !HasOffsetAlong<S, 'y', decltype(idx<'j'>(0))>);
	auto k = a ^ join<'x', 'y', 'x'>();
	stride_ok<'x'>(k, S0(), i);
	offset_ok<'x'>(k, i, j);
}
// ---------------------------------------------------------------- blocks: x is split into X (blocks) and k (within)
// the contributions of all dimensions of a plain linear layout sum to its offset
template<auto... D, class S, class... I>
inline void sum_ok(S s, I... i) {
	Z t = Z(0);
	((t = t + Z(val(offset_along<D>(s, idx<D...>(i...))))), ...);
	ENS(Z(mof<D...>(s, i...)) == t);
}
// D: 0 increasing, 1 reversed inner structure
template<class S>
inline void blocks_linear(S s, Z len, sz sx, sz i, sz j, sz o, sz q, sz y) {
	// i, j: blocks; o, q: within the block
	stride_ok<'X', 'k', 'y'>(s, S0(), i, o, y);
	stride_ok<'X', 'k'>(s, idx<'y'>(y), i, o);
	stride_ok<'k', 'X', 'y'>(s, S0(), o, i, y);
	stride_ok<'k', 'y'>(s, idx<'X'>(i), o, y);
	stride_ok<'y', 'X', 'k'>(s, S0(), y, i, o);
	stride_no<'x'>(s, S0());
	offset_ok<'X', 'k', 'y'>(s, i, j, o, y);
	offset_ok<'k', 'X', 'y'>(s, o, q, i, y);
	offset_ok<'y', 'X', 'k'>(s, y, y + 1, i, o);
	ENS_TYPE(!HasOffsetAlong<S, 'x', decltype(idx<'X', 'k', 'y'>(0, 0, 0))>);
	ENS_TYPE(IsUniformAlong<S, 'X', S0> && IsUniformAlong<S, 'k', S0> && IsUniformAlong<S, 'y', S0>);
	ENS(Z(mof<'X', 'k', 'y'>(s, i, o, y) - mof<'X', 'k', 'y'>(s, j, o, y)) == Z(mof<'X', 'k', 'y'>(s, i, q, y + 1) - mof<'X', 'k', 'y'>(s, j, q, y + 1)));
	ENS(Z(mof<'X', 'k', 'y'>(s, i, o, y) - mof<'X', 'k', 'y'>(s, i, q, y)) == Z(mof<'X', 'k', 'y'>(s, j, o, y + 1) - mof<'X', 'k', 'y'>(s, j, q, y + 1)));
}
#define BLK_PRE                                                                                                        \
	REQ(Z(c) * Z(b) < TWO64 && Z(0) < Z(b));                                                                           \
	const sz n = c * b;                                                                                                \
	LIN(n, m, sx, sy);                                                                           \
	REQ(Z(i) + Z(1) < Z(c) && Z(j) < Z(c) && Z(o) + Z(1) < Z(b) && Z(q) < Z(b) && Z(y) + Z(1) < Z(m));
CONTRACT(into_blocks, sz m, sz sx, sz sy, sz b, sz c, sz i, sz j, sz o, sz q, sz y) {
	BLK_PRE;
	blocks_linear(a ^ into_blocks<'x', 'X', 'k'>(b), Z(b), sx, i, j, o, q, y);
	sum_ok<'X', 'k', 'y'>(a ^ into_blocks<'x', 'X', 'k'>(b), i, o, y);
}
CONTRACT(into_blocks_reversed, sz m, sz sx, sz sy, sz b, sz c, sz i, sz j, sz o, sz q, sz y) {
	BLK_PRE;
	blocks_linear(a ^ reverse<'x'>() ^ into_blocks<'x', 'X', 'k'>(b), Z(b), sx, i, j, o, q, y);
}
CONTRACT(into_blocks_count, sz m, sz sx, sz sy, sz b, sz c, sz i, sz j, sz o, sz q, sz y) {
	BLK_PRE;
	blocks_linear(a ^ into_blocks<'x', 'X', 'k'>() ^ set_length<'X'>(c), Z(b), sx, i, j, o, q, y);
	ENS(Z(c * b) / Z(c) == Z(b));
	sum_ok<'X', 'k', 'y'>(a ^ into_blocks<'x', 'X', 'k'>() ^ set_length<'X'>(c), i, o, y);
}
// bounds: gX(i) = f(i * b), gk(j) = f(j)
#define BND_PRE(cnt)                                                                                                   \
	REQ(Z(min) < Z(end) && Z(end) <= (cnt) && Z(min) <= Z(k) && Z(k) < Z(end) && Z(i) < (cnt));                        \
	REQ(Z(p) < Z(r) && Z(r) <= Z(b) && Z(p) <= Z(t) && Z(t) < Z(r) && Z(o) < Z(b));
#define BLKB(name, struc, nexp, fexp)                                                                                  \
	CONTRACT(bound_##name, sz sx, sz b, sz c, sz i, sz o, sz min, sz end, sz k, sz p, sz r, sz t, sz e0, sz e1) {      \
		const sz m = 1, sy = 0;                                                                                        \
		REQ(Z(c) * Z(b) + Z(e0) + Z(e1) < TWO64 && Z(0) < Z(b));                                                       \
		const sz n = nexp;                                                                                             \
		LIN(n, m, sx, sy);                                                                                             \
		BND_PRE(Z(c));                                                                                                 \
		auto s = a ^ struc ^ into_blocks<'x', 'X', 'k'>(b);                                                            \
		auto f = [&](Z v) { return (fexp) * Z(sx); };                                                                  \
		auto gX = [&](Z v) { return f(v * Z(b)); };                                                                    \
		bound_ok<'X'>(s, S0(), min, end, k, gX);                                                                       \
		bound_all_ok<'X'>(s, S0(), Z(c), i, gX);                                                                       \
		bound_ok<'k'>(s, S0(), p, r, t, f);                                                                            \
		bound_all_ok<'k'>(s, S0(), Z(b), o, f);                                                                        \
		bound_ok<'y'>(s, S0(), sz(0), sz(1), sz(0), [&](Z) { return Z(0); });                                          \
		stride_no<'X'>(s, idx<'X', 'k'>(i, o));                                                                        \
		ENS_TYPE(!HasLowerBoundAlong<decltype(s), 'x', S0> && !HasLowerBoundAlong<decltype(s), 'X', decltype(idx<'X'>(0))> && !HasLowerBoundAlong<decltype(s), 'k', decltype(idx<'k'>(0))>); \
	}
BLKB(blocks, hoist<'x'>(), c * b, v)
BLKB(blocks_of_shift, shift<'x'>(e0), c * b + e0, v + Z(e0))
BLKB(blocks_of_reverse, reverse<'x'>(), c * b, Z(n) - Z(1) - v)
BLKB(blocks_of_slice, slice<'x'>(e0, c * b), c * b + e0 + e1, v + Z(e0))
// ---------------------------------------------------------------- static blocks (body and border)
#define STA_PRE                                                                                                        \
	const sz m = 3;                                                                                                    \
	LIN(n, m, sx, sy);                                                                                                 \
	auto s = a ^ into_blocks_static<'x', 'B', 'X', 'k'>(lit<4>);                                                       \
	using S = decltype(s);                                                                                             \
	(void)sizeof(S);
CONTRACT(static_body, sz n, sz sx, sz sy, sz i, sz j, sz o, sz q, sz y) {
	STA_PRE;
	REQ(Z(i) + Z(1) < Z(n) / Z(4) && Z(j) < Z(n) / Z(4) && Z(o) + Z(1) < Z(4) && Z(q) < Z(4) && Z(y) < Z(2));
	auto body = s ^ fix<'B'>(lit<0>);
	auto bi = idx<'B'>(lit<0>);
	stride_ok<'X', 'k', 'y'>(s, bi, i, o, y);
	stride_ok<'k', 'X', 'y'>(s, bi, o, i, y);
	stride_ok<'y', 'X', 'k'>(s, bi, y, i, o);
	offset_ok<'X', 'k', 'y'>(body, i, j, o, y);
	offset_ok<'k', 'X', 'y'>(body, o, q, i, y);
	offset_ok<'y', 'X', 'k'>(body, y, y + 1, i, o);
	sum_ok<'X', 'k', 'y'>(body, i, o, y);
	sum_ok<'B', 'X', 'k', 'y'>(s, lit<0>, i, o, y);
	uniform_ok<'X', 'k'>(body ^ fix<'y'>(y), i, j, o, q);
	uniform_ok<'k', 'X'>(body ^ fix<'y'>(y), o, q, i, j);
	ENS_TYPE(!HasStrideAlong<S, 'B', S0> && !HasStrideAlong<S, 'x', S0> && !HasOffsetAlong<S, 'x', decltype(idx<'B', 'X', 'k', 'y'>(lit<0>, 0, 0, 0))>);
}
CONTRACT(static_border, sz n, sz sx, sz sy, sz o, sz q, sz y) {
	STA_PRE;
	REQ(Z(o) + Z(1) < Z(n) % Z(4) && Z(q) < Z(n) % Z(4) && Z(y) < Z(2));
	auto border = s ^ fix<'B'>(lit<1>);
	auto bi = idx<'B'>(lit<1>);
	stride_ok<'k', 'X', 'y'>(s, bi, o, 0, y);
	stride_ok<'y', 'X', 'k'>(s, bi, y, 0, o);
	offset_ok<'k', 'X', 'y'>(border, o, q, 0, y);
	offset_ok<'y', 'X', 'k'>(border, y, y + 1, 0, o);
	sum_ok<'B', 'X', 'k', 'y'>(s, lit<1>, 0, o, y);
	// body to border
	auto z = [&](auto v, sz k) { return mof<'B', 'X', 'k', 'y'>(s, v, 0, k, y); };
	auto al = [&](auto v, sz k) { return val(offset_along<'B'>(s, idx<'B', 'X', 'k', 'y'>(v, 0, k, y))); };
	ENS(Z(z(lit<1>, o)) - Z(z(lit<0>, o)) == Z(al(lit<1>, o)) - Z(al(lit<0>, o)));
	ENS(Z(z(lit<1>, o)) - Z(z(lit<0>, o)) == Z(z(lit<1>, q)) - Z(z(lit<0>, q)));
	ENS_TYPE(IsUniformAlong<S, 'B', S0>);
}
#define STAB(name, struc, pre, l, fexp)                                                                                \
	CONTRACT(bound_static_##name, sz n, sz sx, sz i, sz o, sz min, sz end, sz k, sz p, sz r, sz t, sz e0) {            \
		const sz m = 1, sy = 0, b = 4;                                                                                 \
		LIN(n, m, sx, sy);                                                                                             \
		REQ(pre);                                                                                                      \
		auto s = a ^ struc ^ into_blocks_static<'x', 'B', 'X', 'k'>(lit<4>);                                           \
		auto f = [&](Z v) { return (fexp) * Z(sx); };                                                                  \
		BND_PRE((l) / Z(4));                                                                                           \
		auto gX = [&](Z v) { return f(v * Z(b)); };                                                                    \
		auto bi = idx<'B'>(lit<0>);                                                                                    \
		bound_ok<'X'>(s, bi, min, end, k, gX);                                                                         \
		bound_all_ok<'X'>(s, bi, (l) / Z(4), i, gX);                                                                   \
		bound_ok<'k'>(s, bi, p, r, t, f);                                                                              \
		bound_all_ok<'k'>(s, bi, Z(4), o, f);                                                                          \
		ENS_TYPE(!HasLowerBoundAlong<decltype(s), 'X', S0> && !HasLowerBoundAlong<decltype(s), 'k', S0> && !HasLowerBoundAlong<decltype(s), 'B', decltype(bi)> && !HasLowerBoundAlong<decltype(s), 'x', S0>); \
	}                                                                                                                  \
	CONTRACT(bound_is_border_##name, sz n, sz sx, sz e0) {                                                             \
		const sz m = 1, sy = 0;                                                                                        \
		LIN(n, m, sx, sy);                                                                                             \
		REQ(pre);                                                                                                      \
		REQ(Z(4) < (l) && Z(0) < (l) % Z(4));                                                                          \
		auto s = a ^ struc ^ into_blocks_static<'x', 'B', 'X', 'k'>(lit<4>);                                           \
		auto f = [&](Z v) { return (fexp) * Z(sx); };                                                                  \
		auto gB = [&](Z v) { return f(v * ((l) - (l) % Z(4))); };                                                      \
		bound_all_ok<'B'>(s, S0(), Z(2), 0, gB);                                                                       \
		bound_all_ok<'B'>(s, S0(), Z(2), 1, gB);                                                                       \
		bound_ok<'B'>(s, S0(), sz(0), sz(1), sz(0), gB);                                                               \
		bound_ok<'B'>(s, S0(), sz(1), sz(2), sz(1), gB);                                                               \
	}
STAB(plain, hoist<'x'>(), Z(0) <= Z(n), Z(n), v)
STAB(of_shift, shift<'x'>(e0), Z(e0) <= Z(n), Z(n) - Z(e0), v + Z(e0))
STAB(of_reverse, reverse<'x'>(), Z(0) <= Z(n), Z(n), Z(n) - Z(1) - v)
// ---------------------------------------------------------------- dynamic blocks
CONTRACT(dynamic_blocks, sz n, sz sx, sz sy, sz b, sz i, sz j, sz o, sz q, sz y) {
	const sz m = 3;
	LIN(n, m, sx, sy);
	REQ(Z(n) + Z(b) <= TWO64 && Z(0) < Z(b) && Z(o) + Z(1) < Z(b) && Z(q) < Z(b) && Z(y) < Z(2));
	REQ((Z(i) + Z(1)) * Z(b) + Z(o) < Z(n) && Z(i) * Z(b) + Z(o) + Z(1) < Z(n) && Z(j) * Z(b) + Z(o) < Z(n) && Z(i) * Z(b) + Z(q) < Z(n) && Z(j) * Z(b) + Z(q) < Z(n));
	auto s = a ^ into_blocks_dynamic<'x', 'X', 'k', 'P'>(b);
	using S = decltype(s);
	stride_ok<'X', 'k', 'P', 'y'>(s, S0(), i, o, 0, y);
	stride_ok<'k', 'X', 'P', 'y'>(s, S0(), o, i, 0, y);
	stride_ok<'y', 'X', 'k', 'P'>(s, S0(), y, i, o, 0);
	offset_ok<'X', 'k', 'P', 'y'>(s, i, j, o, 0, y);
	offset_ok<'k', 'X', 'P', 'y'>(s, o, q, i, 0, y);
	offset_ok<'y', 'X', 'k', 'P'>(s, y, y + 1, i, o, 0);
	sum_ok<'X', 'k', 'P', 'y'>(s, i, o, 0, y);
	auto p = s ^ fix<'P'>(0) ^ fix<'y'>(y);
	uniform_ok<'X', 'k'>(p, i, j, o, q);
	uniform_ok<'k', 'X'>(p, o, q, i, j);
	stride_no<'x'>(s, S0());
	ENS_TYPE(!HasOffsetAlong<S, 'x', decltype(idx<'X', 'k', 'P', 'y'>(0, 0, 0, 0))>);
}
#define DYNB(name, struc, nexp, fexp)                                                                                  \
	CONTRACT(bound_dynamic_##name, sz l, sz sx, sz b, sz i, sz o, sz min, sz end, sz k, sz p, sz r, sz t, sz e0) {     \
		const sz m = 1, sy = 0;                                                                                        \
		REQ(Z(l) + Z(e0) + Z(b) <= TWO64 && Z(0) < Z(b) && Z(b) <= Z(l));                                              \
		const sz n = nexp;                                                                                             \
		LIN(n, m, sx, sy);                                                                                             \
		auto s = a ^ struc ^ into_blocks_dynamic<'x', 'X', 'k', 'P'>(b);                                               \
		auto f = [&](Z v) { return (fexp) * Z(sx); };                                                                  \
		BND_PRE((Z(l) + Z(b) - Z(1)) / Z(b));                                                                          \
		auto gX = [&](Z v) { return f(v * Z(b)); };                                                                    \
		bound_ok<'X'>(s, S0(), min, end, k, gX);                                                                       \
		bound_all_ok<'X'>(s, S0(), (Z(l) + Z(b) - Z(1)) / Z(b), i, gX);                                                \
		bound_ok<'k'>(s, S0(), p, r, t, f);                                                                            \
		bound_all_ok<'k'>(s, S0(), Z(b), o, f);                                                                        \
	}
DYNB(plain, hoist<'x'>(), l, v)
DYNB(of_shift, shift<'x'>(e0), l + e0, v + Z(e0))
DYNB(of_reverse, reverse<'x'>(), l, Z(n) - Z(1) - v)
// ---------------------------------------------------------------- merged blocks
CONTRACT(merge_blocks, sz n, sz m, sz sx, sz sy, sz t, sz u) {
	LIN(n, m, sx, sy);
	REQ(Z(n) * Z(m) < TWO64 && Z(t) < Z(n) * Z(m) && Z(u) < Z(n) * Z(m));
	auto s = a ^ merge_blocks<'x', 'y', 't'>();
	using S = decltype(s);
	offset_ok<'t'>(s, t, u);
	ENS(Z(mof<'t'>(s, t)) == Z(val(offset_along<'t'>(s, idx<'t'>(t)))));
	auto g = [&](Z v) { return v / Z(m) * Z(sx) + v % Z(m) * Z(sy); };
	bound_all_ok<'t'>(s, S0(), Z(n) * Z(m), t, g);
	ENS_TYPE(IsUniformAlong<S, 't', S0> && !HasStrideAlong<S, 't', S0>);
	ENS_TYPE(!HasLowerBoundAlong<S, 'x', S0> && !HasLowerBoundAlong<S, 'y', S0> && !IsUniformAlong<S, 'x', S0> && !IsUniformAlong<S, 'y', S0>);
	ENS_TYPE(!HasOffsetAlong<S, 'x', decltype(idx<'t'>(0))> && !HasOffsetAlong<S, 'y', decltype(idx<'t'>(0))>);
}
// the range is given by the block and the place in it of its first (f, p) and last (l, q) element and of one in between
CONTRACT(bound_merged, sz n, sz m, sz sx, sz sy, sz f, sz p, sz l, sz q, sz c, sz d) {
	LIN(n, m, sx, sy);
	REQ(Z(n) * Z(m) < TWO64 && Z(f) <= Z(c) && Z(c) <= Z(l) && Z(l) < Z(n) && Z(p) < Z(m) && Z(q) < Z(m) && Z(d) < Z(m));
	const sz min = f * m + p, end = l * m + q + 1, k = c * m + d;
	REQ(Z(min) <= Z(k) && Z(k) < Z(end));
	CASE(0, Z(c) == Z(f));
	CASE(1, Z(c) == Z(l));
	auto s = a ^ merge_blocks<'x', 'y', 't'>();
	bound_ok<'t'>(s, S0(), min, end, k, [&](Z v) { return v / Z(m) * Z(sx) + v % Z(m) * Z(sy); });
}
// merged views: N, M the lengths seen by merge_blocks; fx, fy the inner indices
#define MERGB(name, struc, nexp, mexp, fx, fy)                                                                         \
	CONTRACT(bound_merged_##name, sz N, sz M, sz sx, sz sy, sz e0, sz e1, sz c, sz d) {                                \
		REQ(Z(N) + Z(e0) < TWO64 && Z(M) + Z(e1) < TWO64);                                                             \
		const sz n = nexp;                                                                                             \
		const sz m = mexp;                                                                                             \
		LIN(n, m, sx, sy);                                                                                             \
		REQ(Z(N) * Z(M) < TWO64 && Z(c) < Z(N) && Z(d) < Z(M));                                                        \
		auto s = a ^ struc ^ merge_blocks<'x', 'y', 't'>();                                                            \
		auto g = [&](Z v) {                                                                                            \
			const Z i = v / Z(M);                                                                                      \
			const Z j = v % Z(M);                                                                                      \
			return (fx) * Z(sx) + (fy) * Z(sy);                                                                        \
		};                                                                                                             \
		bound_all_ok<'t'>(s, S0(), Z(N) * Z(M), c * M + d, g);                                                         \
	}
MERGB(of_shift, (shift<'x', 'y'>(e0, e1)), N + e0, M + e1, i + Z(e0), j + Z(e1))
MERGB(of_reverse, reverse<'x'>() ^ reverse<'y'>(), N, M, Z(N) - Z(1) - i, Z(M) - Z(1) - j)
MERGB(of_mixed, reverse<'x'>() ^ shift<'y'>(e1), N, M + e1, Z(N) - Z(1) - i, j + Z(e1))
// ---------------------------------------------------------------- dimensions that a view does not touch
// v: the outer vector; d, e: two indices of the dimension D that the view made
template<auto D, bool Stride = true, bool Bound = true, class S>
inline void untouched(S s, sz size, sz l, sz i, sz j, sz d, sz e, sz min, sz end, sz k) {
	REQ(Z(i) + Z(1) < Z(l) && Z(j) < Z(l) && Z(min) < Z(end) && Z(end) <= Z(l) && Z(min) <= Z(k) && Z(k) < Z(end));
	if constexpr (Stride) {
		stride_ok<'v', D>(s, S0(), i, d);
		ENS(Z(val(stride_along<'v'>(s, S0()))) == Z(size));
	}
	offset_ok<'v', D>(s, i, j, d);
	ENS(Z(val(offset_along<'v'>(s, idx<'v', D>(i, d)))) == Z(i) * Z(size));
	uniform_ok<'v', D>(s, i, j, d, e);
	auto g = [&](Z x) { return x * Z(size); };
	if constexpr (Bound) {
		bound_ok<'v'>(s, S0(), min, end, k, g);
		bound_all_ok<'v'>(s, S0(), Z(l), i, g);
	}
	stride_no<'v'>(s, idx<'v'>(i));
	stride_no<'z'>(s, S0());
	ENS_TYPE(!HasOffsetAlong<S, 'z', decltype(idx<'v', D>(0, 0))>);
}
#define LINV                                                                                                           \
	REQ(Z(n) * Z(sx) + Z(m) * Z(sy) <= Z(size) && Z(l) * Z(size) < TWO64);                                             \
	auto a = lin_t{n, m, sx, sy, size} ^ vector<'v'>(l);
#define VARGS sz n, sz m, sz sx, sz sy, sz size, sz l, sz i, sz j, sz d, sz e, sz min, sz end, sz k
CONTRACT(untouched_join, VARGS) {
	LINV;
	REQ(Z(d) < Z(n) && Z(d) < Z(m) && Z(e) < Z(n) && Z(e) < Z(m));
	auto s = a ^ join<'x', 'y', 'j'>();
	untouched<'j', true, false>(s, size, l, i, j, d, e, min, end, k);
	offset_ok<'j', 'v'>(s, d, e, i);
	uniform_ok<'j', 'v'>(s, d, e, i, j);
}
CONTRACT(untouched_merge, VARGS) {
	LINV;
	REQ(Z(n) * Z(m) < TWO64 && Z(d) < Z(n) * Z(m) && Z(e) < Z(n) * Z(m));
	auto s = a ^ merge_blocks<'x', 'y', 't'>();
	untouched<'t', false>(s, size, l, i, j, d, e, min, end, k);
	offset_ok<'t', 'v'>(s, d, e, i);
	uniform_ok<'t', 'v'>(s, d, e, i, j);
}
CONTRACT(untouched_bcast, VARGS) {
	LINV;
	REQ(Z(d) < Z(n) && Z(e) < Z(n) && Z(m) > Z(0));
	untouched<'b'>(a ^ fix<'x', 'y'>(0, 0) ^ bcast<'b'>(n), size, l, i, j, d, e, min, end, k);
}
CONTRACT(uniform_zcurve, sz n, sz m, sz sx, sz sy, sz size, sz l, sz i, sz j, sz d, sz e) {
	LINV;
	REQ(Z(n) <= Z(2) && Z(m) <= Z(2) && Z(d) < Z(n) * Z(m) && Z(e) < Z(n) * Z(m) && Z(i) < Z(l) && Z(j) < Z(l));
	auto s = a ^ merge_zcurve<'x', 'y', 't'>::maxlen_alignment<2, 1>();
	using S = decltype(s);
	uniform_ok<'v', 't'>(s, i, j, d, e);
	uniform_ok<'t', 'v'>(s, d, e, i, j);
	ENS_TYPE(!IsUniformAlong<S, 'x', S0> && !IsUniformAlong<S, 'y', S0> && !IsUniformAlong<S, 'z', S0> && !IsUniformAlong<S, 't', decltype(idx<'t'>(0))>);
	ENS_TYPE(!HasStrideAlong<S, 't', S0> && !HasStrideAlong<S, 'x', S0> && !HasStrideAlong<S, 'y', S0>);
}
// blocks of another dimension; the presence dimension has a single index
CONTRACT(untouched_blocks, sz c, sz m, sz sx, sz size, sz l, sz i, sz j, sz d, sz b, sz min, sz end, sz k) {
	REQ((Z(d) + Z(2) + Z(c)) * (Z(b) + Z(3)) < TWO64);
	const sz e = b + 2, n = (d + 2 + c) * e, sy = 0;
	LINV;
	REQ(Z(m) > Z(0));
	auto f = a ^ fix<'y'>(0);
	const sz o = 1;
	untouched<'X'>(f ^ into_blocks<'x', 'X', 'k'>(e) ^ fix<'k'>(o), size, l, i, j, d, d + 1, min, end, k);
	untouched<'X'>(f ^ into_blocks_dynamic<'x', 'X', 'k', 'P'>(e) ^ fix<'k', 'P'>(o, 0), size, l, i, j, d, d + 1, min, end, k);
}
CONTRACT(untouched_static, sz c, sz m, sz sx, sz size, sz l, sz i, sz j, sz d, sz e, sz min, sz end, sz k) {
	REQ((Z(d) + Z(2)) * Z(4) + Z(c) < TWO64 && Z(m) > Z(0));
	const sz n = (d + 2) * 4 + c, sy = 0;
	LINV;
	auto f = a ^ fix<'y'>(0) ^ into_blocks_static<'x', 'B', 'X', 'k'>(lit<4>);
	const sz o = 1;
	untouched<'X'>(f ^ fix<'B', 'k'>(lit<0>, o), size, l, i, j, d, d + 1, min, end, k);
	REQ(Z(e) < Z(n) % Z(4));
	untouched<'k'>(f ^ fix<'B', 'X'>(lit<1>, 0), size, l, i, j, 0, e, min, end, k);
}
CONTRACT(presence, sz n, sz sx, sz b, sz i, sz o) {
	const sz m = 1, sy = 0;
	LIN(n, m, sx, sy);
	REQ(Z(n) + Z(b) <= TWO64 && Z(0) < Z(b) && Z(o) < Z(b) && Z(i) * Z(b) + Z(o) < Z(n));
	auto s = a ^ fix<'y'>(0) ^ into_blocks_dynamic<'x', 'X', 'k', 'P'>(b);
	auto g = [&](Z) { return Z(0); };
	ENS_TYPE(HasOffsetAlong<decltype(s), 'P', decltype(idx<'X', 'k', 'P'>(0, 0, 0))>);
	ENS(Z(val(offset_along<'P'>(s, idx<'X', 'k', 'P'>(i, o, 0)))) == Z(0));
	if constexpr (HasLowerBoundAlong<decltype(s), 'P', S0>) {
		bound_all_ok<'P'>(s, S0(), Z(1), 0, g);
		bound_ok<'P'>(s, S0(), 0, 1, 0, g);
	}
	ENS_TYPE(IsUniformAlong<decltype(s), 'P', S0>);
}
// ---------------------------------------------------------------- contiguous: every byte belongs to an element
// the element that covers byte t is given (a ghost witness), and no element reaches behind the size
template<auto... D, class S, class... I>
inline void cover_ok(S s, Z size, sz t, Z elem, I... i) {
	ENS_TYPE(is_contiguous<S, S0>());
	ENS_TYPE(IsContiguous<S, S0>);
	ENS(is_contiguous(s, S0()) && is_contiguous(S0())(s));
	ENS(Z(val(s | get_size())) == size);
	const Z o = Z(mof<D...>(s, i...));
	ENS(o <= Z(t) && Z(t) < o + elem && o + elem <= size);
}
template<class S, class St = S0>
inline void not_contiguous(S, St = St()) {
	ENS_TYPE(!is_contiguous<S, St>());
	ENS_TYPE(!IsContiguous<S, St>);
}
CONTRACT(contiguous_vectors, sz n, sz m, sz t) {
	REQ(Z(n) * Z(m) * Z(4) < TWO64 && Z(t) < Z(n) * Z(m) * Z(4) && Z(0) < Z(n));
	auto u = scalar<int>() ^ vector<'x'>() ^ vector<'y'>();
	auto s = u ^ set_length<'x', 'y'>(n, m);
	const Z z = Z(n) * Z(m) * Z(4);
	const sz i = t / 4 % n, j = t / 4 / n;
	cover_ok<'x', 'y'>(s, z, t, Z(4), i, j);
	cover_ok<'x', 'y'>(s ^ hoist<'x'>(), z, t, Z(4), i, j);
	cover_ok<'x', 'y'>(s ^ reorder<'x', 'y'>(), z, t, Z(4), i, j);
	cover_ok<'a', 'y'>(s ^ rename<'x', 'a'>(), z, t, Z(4), i, j);
	cover_ok<'x', 'y'>(s ^ reverse<'x'>(), z, t, Z(4), n - 1 - i, j);
	cover_ok<'x', 'y'>(s ^ reverse<'y'>(), z, t, Z(4), i, m - 1 - j);
	cover_ok<'x', 'y', 'b'>(s ^ bcast<'b'>(3), z, t, Z(4), i, j, 1);
	// an element is contiguous; a structure without its lengths, or with gaps, is not
	ENS_TYPE(is_contiguous<scalar<int>, S0>() && is_contiguous<decltype(s), decltype(idx<'x', 'y'>(0, 0))>());
	not_contiguous(u);
	not_contiguous(scalar<int>() ^ vector<'x'>() ^ vector<'y'>(m));
	not_contiguous(scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>());
	not_contiguous(u, state<state_item<length_in<'x'>, sz>>(n));
	not_contiguous(s ^ bcast<'b'>());
	not_contiguous(s ^ step<'x'>(0, 2));
	not_contiguous(s ^ step<'y'>(0, 2));
	not_contiguous(s ^ step<'y'>(0, 2) ^ reverse<'x'>() ^ hoist<'x'>());
	not_contiguous(s ^ into_blocks<'x', 'X', 'k'>(2) ^ fix<'k'>(1));
	not_contiguous(s ^ into_blocks<'x', 'X', 'k'>(), idx<'y'>(0));
	not_contiguous(u ^ into_blocks_static<'x', 'B', 'X', 'k'>(lit<4>) ^ fix<'B'>(lit<0>));
	not_contiguous(u ^ into_blocks_static<'x', 'B', 'X', 'k'>(lit<4>), idx<'B'>(lit<1>));
	not_contiguous(u ^ into_blocks_dynamic<'x', 'X', 'k', 'P'>(2));
	not_contiguous(u ^ into_blocks<'x', 'X', 'k'>(2));
	not_contiguous(s ^ into_blocks_dynamic<'x', 'X', 'k', 'P'>(2), idx<'k'>(1));
	not_contiguous(s ^ into_blocks_static<'x', 'B', 'X', 'k'>(lit<4>));
	not_contiguous(s ^ into_blocks_static<'x', 'B', 'X', 'k'>(lit<4>) ^ fix<'B'>(lit<0>), idx<'k'>(1));
}
CONTRACT(contiguous_blocks, sz c, sz b, sz m, sz t) {
	REQ(Z(c) * Z(b) * Z(m) * Z(8) < TWO64 && Z(t) < Z(c) * Z(b) * Z(m) * Z(8) && Z(0) < Z(c) && Z(0) < Z(b) && Z(c) * Z(b) < TWO64);
	const Z z = Z(c) * Z(b) * Z(m) * Z(8);
	auto s = scalar<double>() ^ vector<'x'>(c * b) ^ vector<'y'>(m);
	const sz e = t / 8, j = e / (c * b), i = e % (c * b);
	cover_ok<'X', 'k', 'y'>(s ^ into_blocks<'x', 'X', 'k'>(b), z, t, Z(8), i / b, i % b, j);
}
CONTRACT(contiguous_tuple, sz n, sz m, sz t) {
	REQ(Z(n) * Z(4) + Z(m) * Z(4) < TWO64 && Z(t) < Z(n) * Z(4) + Z(m) * Z(4));
	auto s = pack(scalar<int>() ^ vector<'x'>(n), scalar<float>() ^ vector<'y'>(m)) ^ tuple<'t'>();
	const Z z = Z(n) * Z(4) + Z(m) * Z(4);
	if (t < n * 4)
		cover_ok<'t', 'x'>(s, z, t, Z(4), lit<0>, t / 4);
	else
		cover_ok<'t', 'y'>(s, z, t, Z(4), lit<1>, (t - n * 4) / 4);
	auto v = pack(scalar<int>() ^ vector<'x'>(n), scalar<float>() ^ vector<'y'>()) ^ tuple<'t'>();
	not_contiguous(v);
	not_contiguous(v, idx<'t'>(lit<1>));
	ENS_TYPE(is_contiguous<decltype(v), decltype(idx<'t'>(lit<0>))>());
	not_contiguous(pack(scalar<int>() ^ vector<'x'>(n) ^ step<'x'>(0, 2), scalar<float>() ^ vector<'y'>(m)) ^ tuple<'t'>());
}
