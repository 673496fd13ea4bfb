// C08 shift / slice / span
#include "abs.hpp"
using namespace noarr;
using A = absn::abs_t<0, int, 'x', 'y'>;
using AY = absn::abs_t<0, int, 'y', 'x'>;
using U = absn::absu_t<0, int, 'x', 'y'>;

// s is a view of (n, m) whose element i in x is original element i + st and has length l
template<class S>
inline void window(S s, Z n, sz m, Z st, Z l, sz i, sz y) {
	ENS(zlen<'x'>(s) == l);
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zsz(s) == zsize<0, int>(n, m));
	ENS(zof<'x', 'y'>(s, i, y) == zoff<0, int>(n, m, Z(i) + st, y));
	ENS(zof<'y', 'x'>(s, y, i) == zoff<0, int>(n, m, Z(i) + st, y));
	ENS(zlen<'x'>(s ^ fix<'y'>(y)) == l);
	ENS(zlen<'y'>(s ^ fix<'x'>(i)) == Z(m));
	ENS(zof<'y'>(s ^ fix<'x'>(i), y) == zoff<0, int>(n, m, Z(i) + st, y));
	ENS(zsz(s ^ fix<'x'>(i)) == zsize<0, int>(n, m));
}
#define PRE_SH REQ(Z(st) <= Z(n) && Z(i) < Z(n) - Z(st) && Z(y) < Z(m))
#define PRE_SL REQ(Z(st) + Z(l) <= Z(n) && Z(i) < Z(l) && Z(y) < Z(m))
#define PRE_SP REQ(Z(st) <= Z(e) && Z(e) <= Z(n) && Z(i) < Z(e) - Z(st) && Z(y) < Z(m))

CONTRACT(shift_sized, sz n, sz m, sz st, sz i, sz y) {
	PRE_SH;
	A a{{n, m}};
	window(a ^ shift<'x'>(st), n, m, st, Z(n) - Z(st), i, y);
}
CONTRACT(shift_unsized_below, sz n, sz m, sz st, sz i, sz y) {
	PRE_SH;
	U u{};
	window(u ^ set_length<'x', 'y'>(n, m) ^ shift<'x'>(st), n, m, st, Z(n) - Z(st), i, y);
}
CONTRACT(shift_length_through, sz l, sz m, sz st, sz i, sz y) {
	REQ(Z(l) + Z(st) < TWO64 && Z(i) < Z(l) && Z(y) < Z(m));
	U u{};
	window(u ^ set_length<'y'>(m) ^ shift<'x'>(st) ^ set_length<'x'>(l), Z(l) + Z(st), m, st, l, i, y);
}
CONTRACT(shift_length_state, sz l, sz m, sz st, sz i, sz y) {
	REQ(Z(l) + Z(st) < TWO64 && Z(i) < Z(l) && Z(y) < Z(m));
	U u{};
	auto s = u ^ shift<'x'>(st);
	auto q = empty_state.with<length_in<'x'>, length_in<'y'>>(l, m);
	ENS(zlen<'x'>(s, q) == Z(l));
	ENS(zlen<'y'>(s, q) == Z(m));
	ENS(Z(val(s | get_size(q))) == zsize<0, int>(Z(l) + Z(st), m));
	auto q2 = q.with<index_in<'x'>, index_in<'y'>>(i, y);
	ENS(Z(val(s | offset(q2))) == zoff<0, int>(Z(l) + Z(st), m, Z(i) + Z(st), y));
	auto in = state_at<U>(s, q2);
	ENS(Z(val(get_index<'x'>(in))) == Z(i) + Z(st));
	ENS(Z(val(get_length_in<'x'>(in))) == Z(l) + Z(st));
	ENS(Z(val(get_index<'y'>(in))) == Z(y));
	ENS(Z(val(get_length_in<'y'>(in))) == Z(m));
}
CONTRACT(shift_lit, sz n, sz m, sz i, sz y) {
	sz st = 5;
	PRE_SH;
	A a{{n, m}};
	window(a ^ shift<'x'>(lit<5>), n, m, 5, Z(n) - Z(5), i, y);
}
CONTRACT(shift_zero, sz n, sz m, sz i, sz y) {
	sz st = 0;
	PRE_SH;
	A a{{n, m}};
	window(a ^ shift<'x'>(lit<0>), n, m, 0, n, i, y);
}
CONTRACT(shift_empty, sz n, sz m) {
	A a{{n, m}};
	ENS(zlen<'x'>(a ^ shift<'x'>(n)) == Z(0));
}
CONTRACT(shift_two, sz n, sz m, sz s0, sz s1, sz i, sz y) {
	REQ(Z(s0) <= Z(n) && Z(s1) <= Z(m) && Z(i) < Z(n) - Z(s0) && Z(y) < Z(m) - Z(s1));
	A a{{n, m}};
	auto s = a ^ shift<'x', 'y'>(s0, s1);
	ENS(zlen<'x'>(s) == Z(n) - Z(s0));
	ENS(zlen<'y'>(s) == Z(m) - Z(s1));
	ENS(zof<'x', 'y'>(s, i, y) == zoff<0, int>(n, m, Z(i) + Z(s0), Z(y) + Z(s1)));
	ENS(zsz(s) == zsize<0, int>(n, m));
	auto t = a ^ shift<'y'>(s1) ^ shift<'x'>(s0);
	ENS(zof<'x', 'y'>(t, i, y) == zoff<0, int>(n, m, Z(i) + Z(s0), Z(y) + Z(s1)));
}
CONTRACT(shift_inner_dim, sz n, sz m, sz st, sz i, sz y) {
	PRE_SH;
	AY a{{m, n}};
	auto s = a ^ shift<'x'>(st);
	ENS(zlen<'x'>(s) == Z(n) - Z(st));
	ENS(zof<'x', 'y'>(s, i, y) == zoff<0, int>(m, n, y, Z(i) + Z(st)));
}
CONTRACT(shift_shift, sz n, sz m, sz st, sz s2, sz i, sz y) {
	REQ(Z(st) + Z(s2) <= Z(n) && Z(i) < Z(n) - Z(st) - Z(s2) && Z(y) < Z(m));
	A a{{n, m}};
	window(a ^ shift<'x'>(st) ^ shift<'x'>(s2), n, m, Z(st) + Z(s2), Z(n) - Z(st) - Z(s2), i, y);
}
CONTRACT(slice_sized, sz n, sz m, sz st, sz l, sz i, sz y) {
	PRE_SL;
	A a{{n, m}};
	window(a ^ slice<'x'>(st, l), n, m, st, l, i, y);
}
CONTRACT(slice_unsized_below, sz n, sz m, sz st, sz l, sz i, sz y) {
	PRE_SL;
	U u{};
	window(u ^ set_length<'x', 'y'>(n, m) ^ slice<'x'>(st, l), n, m, st, l, i, y);
}
CONTRACT(slice_len_through, sz n, sz m, sz st, sz l, sz i, sz y) {
	PRE_SL;
	U u{};
	window(u ^ slice<'x'>(st, l) ^ set_length<'x', 'y'>(n, m), n, m, st, l, i, y);
}
CONTRACT(slice_lit_start, sz n, sz m, sz l, sz i, sz y) {
	sz st = 3;
	PRE_SL;
	A a{{n, m}};
	window(a ^ slice<'x'>(lit<3>, l), n, m, 3, l, i, y);
}
CONTRACT(slice_lit_len, sz n, sz m, sz st, sz i, sz y) {
	sz l = 6;
	PRE_SL;
	A a{{n, m}};
	auto s = a ^ slice<'x'>(st, lit<6>);
	window(s, n, m, st, 6, i, y);
	ENS_TYPE(decltype(s | get_length<'x'>())::value == 6);
}
CONTRACT(slice_len_only, sz n, sz m, sz l, sz i, sz y) {
	sz st = 0;
	PRE_SL;
	A a{{n, m}};
	window(a ^ slice<'x'>(l), n, m, 0, l, i, y);
}
CONTRACT(slice_inner_dim, sz n, sz m, sz st, sz l, sz i, sz y) {
	PRE_SL;
	AY a{{m, n}};
	auto s = a ^ slice<'x'>(st, l);
	ENS(zlen<'x'>(s) == Z(l));
	ENS(zof<'x', 'y'>(s, i, y) == zoff<0, int>(m, n, y, Z(i) + Z(st)));
}
CONTRACT(span_sized, sz n, sz m, sz st, sz e, sz i, sz y) {
	PRE_SP;
	A a{{n, m}};
	window(a ^ span<'x'>(st, e), n, m, st, Z(e) - Z(st), i, y);
}
CONTRACT(span_unsized_below, sz n, sz m, sz st, sz e, sz i, sz y) {
	PRE_SP;
	U u{};
	window(u ^ set_length<'x', 'y'>(n, m) ^ span<'x'>(st, e), n, m, st, Z(e) - Z(st), i, y);
}
CONTRACT(span_len_through, sz n, sz m, sz st, sz e, sz i, sz y) {
	PRE_SP;
	U u{};
	window(u ^ span<'x'>(st, e) ^ set_length<'x', 'y'>(n, m), n, m, st, Z(e) - Z(st), i, y);
}
CONTRACT(span_lit_start, sz n, sz m, sz e, sz i, sz y) {
	sz st = 3;
	PRE_SP;
	A a{{n, m}};
	window(a ^ span<'x'>(lit<3>, e), n, m, 3, Z(e) - Z(3), i, y);
}
CONTRACT(span_lit_end, sz n, sz m, sz st, sz i, sz y) {
	sz e = 9;
	PRE_SP;
	A a{{n, m}};
	window(a ^ span<'x'>(st, lit<9>), n, m, st, Z(9) - Z(st), i, y);
}
CONTRACT(span_lit_both, sz n, sz m, sz i, sz y) {
	sz st = 2, e = 9;
	PRE_SP;
	A a{{n, m}};
	auto s = a ^ span<'x'>(lit<2>, lit<9>);
	window(s, n, m, 2, 7, i, y);
	ENS_TYPE(decltype(s | get_length<'x'>())::value == 7);
}
CONTRACT(span_end_only, sz n, sz m, sz e, sz i, sz y) {
	sz st = 0;
	PRE_SP;
	A a{{n, m}};
	window(a ^ span<'x'>(e), n, m, 0, e, i, y);
}
CONTRACT(span_inner_dim, sz n, sz m, sz st, sz e, sz i, sz y) {
	PRE_SP;
	AY a{{m, n}};
	auto s = a ^ span<'x'>(st, e);
	ENS(zlen<'x'>(s) == Z(e) - Z(st));
	ENS(zof<'x', 'y'>(s, i, y) == zoff<0, int>(m, n, y, Z(i) + Z(st)));
}
// composition
CONTRACT(slice_of_shift, sz n, sz m, sz s0, sz st, sz l, sz i, sz y) {
	REQ(Z(s0) + Z(st) + Z(l) <= Z(n) && Z(i) < Z(l) && Z(y) < Z(m));
	A a{{n, m}};
	window(a ^ shift<'x'>(s0) ^ slice<'x'>(st, l), n, m, Z(s0) + Z(st), l, i, y);
}
CONTRACT(span_of_slice, sz n, sz m, sz s0, sz l0, sz st, sz e, sz i, sz y) {
	REQ(Z(s0) + Z(l0) <= Z(n) && Z(st) <= Z(e) && Z(e) <= Z(l0) && Z(i) < Z(e) - Z(st) && Z(y) < Z(m));
	A a{{n, m}};
	window(a ^ slice<'x'>(s0, l0) ^ span<'x'>(st, e), n, m, Z(s0) + Z(st), Z(e) - Z(st), i, y);
}
CONTRACT(shift_of_span, sz n, sz m, sz st, sz e, sz s2, sz i, sz y) {
	REQ(Z(st) <= Z(e) && Z(e) <= Z(n) && Z(s2) <= Z(e) - Z(st) && Z(i) < Z(e) - Z(st) - Z(s2) && Z(y) < Z(m));
	A a{{n, m}};
	window(a ^ span<'x'>(st, e) ^ shift<'x'>(s2), n, m, Z(st) + Z(s2), Z(e) - Z(st) - Z(s2), i, y);
}
CONTRACT(symmetric, sz n, sz m, sz o, sz i, sz y) {
	REQ(Z(2) * Z(o) <= Z(n) && Z(i) < Z(n) - Z(2) * Z(o) && Z(y) < Z(m));
	A a{{n, m}};
	window(a ^ symmetric_span<'x'>(a, o), n, m, o, Z(n) - Z(2) * Z(o), i, y);
}
CONTRACT(symmetric_two, sz n, sz m, sz o, sz p, sz i, sz y) {
	REQ(Z(2) * Z(o) <= Z(n) && Z(i) < Z(n) - Z(2) * Z(o) && Z(2) * Z(p) <= Z(m) && Z(y) < Z(m) - Z(2) * Z(p));
	A a{{n, m}};
	auto s = a ^ symmetric_spans<'x', 'y'>(a, o, p);
	ENS(zlen<'x'>(s) == Z(n) - Z(2) * Z(o));
	ENS(zlen<'y'>(s) == Z(m) - Z(2) * Z(p));
	ENS(zof<'x', 'y'>(s, i, y) == zoff<0, int>(n, m, Z(i) + Z(o), Z(y) + Z(p)));
}
// all static
CONTRACT(all_static, sz i) {
	auto b = scalar<int>() ^ array<'x', 12>();
	auto sh = b ^ shift<'x'>(lit<5>);
	auto sl = b ^ slice<'x'>(lit<2>, lit<6>);
	auto sp = b ^ span<'x'>(lit<2>, lit<6>);
	ENS_TYPE(decltype(sh | get_length<'x'>())::value == 7 && decltype(sh | get_size())::value == 48);
	ENS_TYPE(decltype(sl | get_length<'x'>())::value == 6 && decltype(sl | get_size())::value == 48);
	ENS_TYPE(decltype(sp | get_length<'x'>())::value == 4 && decltype(sp | get_size())::value == 48);
	ENS_TYPE(decltype(sh | offset<'x'>(lit<3>))::value == 32);
	ENS_TYPE(decltype(sl | offset<'x'>(lit<3>))::value == 20);
	ENS_TYPE(decltype(sp | offset<'x'>(lit<3>))::value == 20);
	REQ(Z(i) < Z(4));
	ENS(zof<'x'>(sh, i) == (Z(i) + Z(5)) * Z(4));
	ENS(zof<'x'>(sl, i) == (Z(i) + Z(2)) * Z(4));
	ENS(zof<'x'>(sp, i) == (Z(i) + Z(2)) * Z(4));
}
// tuple dimensions (members of different types, static parameters)
CONTRACT(tuple_views, sz k, sz i) {
	REQ(Z(k) > Z(0) && Z(k) * Z(64) < TWO64 && Z(i) < Z(k));
	auto t = pack(scalar<double>() ^ vector<'v'>(k), scalar<long>() ^ vector<'v'>(k), scalar<int>() ^ vector<'v'>(k) ^ slice<'v'>(sz(0), k),
	              scalar<char>()) ^ tuple<'t'>();
	auto sh = t ^ shift<'t'>(lit<1>);
	auto sl = t ^ slice<'t'>(lit<1>, lit<2>);
	auto sp = t ^ span<'t'>(lit<1>, lit<3>);
	ENS_TYPE(decltype(sh | get_length<'t'>())::value == 3);
	ENS_TYPE(decltype(sl | get_length<'t'>())::value == 2);
	ENS_TYPE(decltype(sp | get_length<'t'>())::value == 2);
	ENS_TYPE(std::is_same_v<scalar_t<decltype(sh), decltype(idx<'t'>(lit<2>))>, char>);
	ENS_TYPE(std::is_same_v<scalar_t<decltype(sl), decltype(idx<'t', 'v'>(lit<1>, sz(0)))>, int>);
	ENS_TYPE(std::is_same_v<scalar_t<decltype(sp), decltype(idx<'t', 'v'>(lit<0>, sz(0)))>, long>);
	ENS(zof<'t', 'v'>(sh, lit<0>, i) == zof<'t', 'v'>(t, lit<1>, i));
	ENS(zof<'t'>(sh, lit<2>) == zof<'t'>(t, lit<3>));
	ENS(zof<'t', 'v'>(sl, lit<1>, i) == zof<'t', 'v'>(t, lit<2>, i));
	ENS(zof<'t', 'v'>(sp, lit<1>, i) == zof<'t', 'v'>(t, lit<2>, i));
	ENS(zsz(sh) == zsz(t) && zsz(sl) == zsz(t) && zsz(sp) == zsz(t));
}
// ---- over every structure of the library
#include "every.hpp"
namespace every {
template<auto... D>
struct windows {
	template<auto Q, class V, class S, class St>
	static void is(V v, S s, St st, sz a, Z l) {
		auto vt = with<Q>(st, get_index<Q>(st) - a);
		ENS(at(v, vt) == at(s, st));
		ENS(length<Q>(v) == l);
		others<Q, D...>::keep(s, st, v, vt);
	}
	template<auto Q, class S, class St>
	static void one(S s, St st, sz a, sz b) {
		Z i = Z(sz(get_index<Q>(st)));
		REQ(Z(a) <= i && i < Z(a) + Z(b) && Z(a) + Z(b) <= length<Q>(s));
		is<Q>(s ^ shift<Q>(a), s, st, a, length<Q>(s) - Z(a));
		is<Q>(s ^ slice<Q>(a, b), s, st, a, Z(b));
		is<Q>(s ^ span<Q>(a, a + b), s, st, a, Z(b));
	}
	template<class S, class St>
	static void go(S s, St st, sz q, sz a, sz b) {
		if constexpr ((... && plain<D, S>))
			pick<D...>(q, [&]<auto Q>() { one<Q>(s, st, a, b); });
		else // only some combinations of indices are valid
			ENS(at(s, st) + Z(sizeof(scalar_t<S, St>)) <= Z(val(s | get_size())));
	}
};
} // namespace every
#define EVERY_CHECK windows
#include "every.inc"
