// C05 into_blocks_dynamic
#include "abs.hpp"
using namespace noarr;
using A = absn::abs_t<0, int, 'x', 'y'>;
using AY = absn::abs_t<0, int, 'y', 'x'>;
using U = absn::absu_t<0, int, 'x', 'y'>;

#define CEIL(n, b) ((Z(n) + Z(b) - Z(1)) / Z(b))
#define PRE REQ(Z(b) > Z(0) && Z(n) + Z(b) <= TWO64 && Z(i) < CEIL(n, b) && Z(j) < Z(b) && Z(y) < Z(m))

template<auto Ma, auto Mi, auto Pr, class S>
inline void lengths(S s, sz n, sz m, sz b, sz i, sz j) {
	ENS(zlen<Ma>(s) == CEIL(n, b));
	ENS(zlen<Mi>(s) == Z(b));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zlen<Pr>(s ^ fix<Ma, Mi>(i, j)) == zite(Z(i) * Z(b) + Z(j) < Z(n), Z(1), Z(0)));
	ENS(zlen<Pr>(s ^ fix<Mi>(j) ^ fix<Ma>(i)) == zite(Z(i) * Z(b) + Z(j) < Z(n), Z(1), Z(0)));
}

CONTRACT(len_fresh, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE;
	A a{{n, m}};
	auto s = a ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>(b);
	lengths<'a', 'b', 'p'>(s, n, m, b, i, j);
	ENS(zsz(s) == zsize<0, int>(n, m));
	ENS_TYPE(!decltype(s)::has_length<'x', state<>>());
}
CONTRACT(off_fresh, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE;
	REQ(Z(i) * Z(b) + Z(j) < Z(n));
	A a{{n, m}};
	auto s = a ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>(b);
	ENS(zof<'a', 'b', 'p', 'y'>(s, i, j, sz(0), y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
	ENS(zof<'p', 'y', 'b', 'a'>(s, lit<0>, y, j, i) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
	auto f = s ^ fix<'a', 'b'>(i, j) ^ fix<'p'>(sz(0));
	ENS(zof<'y'>(f, y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
	ENS(zlen<'y'>(f) == Z(m));
	ENS(zsz(f) == zsize<0, int>(n, m));
}
CONTRACT(minor_same, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE;
	A a{{n, m}};
	auto s = a ^ into_blocks_dynamic<'x', 'a', 'x', 'p'>(b);
	lengths<'a', 'x', 'p'>(s, n, m, b, i, j);
	REQ(Z(i) * Z(b) + Z(j) < Z(n));
	ENS(zof<'a', 'x', 'p', 'y'>(s, i, j, sz(0), y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
	ENS(zsz(s) == zsize<0, int>(n, m));
}
CONTRACT(major_same, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE;
	A a{{n, m}};
	auto s = a ^ into_blocks_dynamic<'x', 'x', 'b', 'p'>(b);
	lengths<'x', 'b', 'p'>(s, n, m, b, i, j);
	REQ(Z(i) * Z(b) + Z(j) < Z(n));
	ENS(zof<'x', 'b', 'p', 'y'>(s, i, j, sz(0), y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
	ENS(zsz(s) == zsize<0, int>(n, m));
}
CONTRACT(present_same, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE;
	AY a{{m, n}};
	auto s = a ^ into_blocks_dynamic<'x', 'a', 'b', 'x'>(b);
	lengths<'a', 'b', 'x'>(s, n, m, b, i, j);
	REQ(Z(i) * Z(b) + Z(j) < Z(n));
	ENS(zof<'a', 'b', 'x', 'y'>(s, i, j, sz(0), y) == zoff<0, int>(m, n, y, Z(i) * Z(b) + Z(j)));
	ENS(zsz(s) == zsize<0, int>(m, n));
}
// block count given
#define PRE_K REQ(Z(k) > Z(0) && Z(n) + Z(k) <= TWO64 && Z(k) * CEIL(n, k) < TWO64 && Z(i) < Z(k) && Z(j) < CEIL(n, k) && Z(y) < Z(m))
CONTRACT(count_given, sz n, sz m, sz k, sz i, sz j, sz y) {
	PRE_K;
	A a{{n, m}};
	auto s = a ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>() ^ set_length<'a'>(k);
	Z bl = CEIL(n, k);
	ENS(zlen<'a'>(s) == Z(k));
	ENS(zlen<'b'>(s) == bl);
	ENS(zlen<'y'>(s) == Z(m));
	ENS(Z(i) * bl <= (Z(k) - Z(1)) * bl);
	ENS(zlen<'p'>(s ^ fix<'a', 'b'>(i, j)) == zite(Z(i) * bl + Z(j) < Z(n), Z(1), Z(0)));
	ENS(zsz(s) == zsize<0, int>(n, m));
	REQ(Z(i) * bl + Z(j) < Z(n));
	ENS(zof<'a', 'b', 'p', 'y'>(s, i, j, sz(0), y) == zoff<0, int>(n, m, Z(i) * bl + Z(j), y));
}
CONTRACT(count_static, sz n, sz m, sz i, sz j, sz y) {
	REQ(Z(n) + Z(6) < TWO64 && Z(i) < Z(6) && Z(j) < CEIL(n, 6) && Z(y) < Z(m));
	A a{{n, m}};
	auto s = a ^ into_blocks_dynamic<'x', 'a', 'x', 'p'>() ^ set_length<'a'>(lit<6>);
	Z bl = CEIL(n, 6);
	ENS(zlen<'a'>(s) == Z(6));
	ENS(zlen<'x'>(s) == bl);
	ENS(zlen<'p'>(s ^ fix<'a', 'x'>(i, j)) == zite(Z(i) * bl + Z(j) < Z(n), Z(1), Z(0)));
	REQ(Z(i) * bl + Z(j) < Z(n));
	ENS(zof<'a', 'x', 'p', 'y'>(s, i, j, sz(0), y) == zoff<0, int>(n, m, Z(i) * bl + Z(j), y));
}
// unsized inner structure: both lengths set, no padding element exists
CONTRACT(unsized_both, sz m, sz k, sz b, sz i, sz j, sz y) {
	REQ(Z(k) * Z(b) < TWO64 && Z(i) < Z(k) && Z(j) < Z(b) && Z(y) < Z(m));
	U u{};
	auto s = u ^ set_length<'y'>(m) ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>() ^ set_length<'a', 'b'>(k, b);
	ENS(zlen<'a'>(s) == Z(k));
	ENS(zlen<'b'>(s) == Z(b));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zlen<'p'>(s ^ fix<'a', 'b'>(i, j)) == Z(1));
	ENS(zsz(s) == zsize<0, int>(Z(k) * Z(b), m));
	ENS(zof<'a', 'b', 'p', 'y'>(s, i, j, sz(0), y) == zoff<0, int>(Z(k) * Z(b), m, Z(i) * Z(b) + Z(j), y));
}
CONTRACT(unsized_below, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE;
	U u{};
	auto s = u ^ set_length<'x', 'y'>(n, m) ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>(b);
	lengths<'a', 'b', 'p'>(s, n, m, b, i, j);
	REQ(Z(i) * Z(b) + Z(j) < Z(n));
	ENS(zof<'a', 'b', 'p', 'y'>(s, i, j, sz(0), y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
}
CONTRACT(state_len, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE;
	A a{{n, m}};
	auto s = a ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>();
	auto st = empty_state.with<length_in<'b'>>(b);
	ENS(zlen<'a'>(s, st) == CEIL(n, b));
	ENS(zlen<'a'>(s, st.with<index_in<'b'>>(j)) == CEIL(n, b));
	ENS(zlen<'b'>(s, st.with<index_in<'a'>>(i)) == Z(b));
	auto st2 = st.with<index_in<'a'>, index_in<'b'>>(i, j);
	ENS(zlen<'p'>(s, st2) == zite(Z(i) * Z(b) + Z(j) < Z(n), Z(1), Z(0)));
	ENS(zlen<'y'>(s, st2) == Z(m));
	REQ(Z(i) * Z(b) + Z(j) < Z(n));
	auto st3 = st2.with<index_in<'p'>, index_in<'y'>>(sz(0), y);
	auto in = state_at<A>(s, st3);
	ENS(Z(val(get_index<'x'>(in))) == Z(i) * Z(b) + Z(j));
	ENS(Z(val(get_index<'y'>(in))) == Z(y));
	ENS(Z(val(s | get_size(st3))) == zsize<0, int>(n, m));
}
CONTRACT(static_block, sz n, sz m, sz i, sz j, sz y) {
	REQ(Z(n) + Z(4) < TWO64 && Z(i) < CEIL(n, 4) && Z(j) < Z(4) && Z(y) < Z(m));
	A a{{n, m}};
	auto s = a ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>(lit<4>);
	ENS(zlen<'a'>(s) == CEIL(n, 4));
	ENS(zlen<'b'>(s) == Z(4));
	ENS(zlen<'p'>(s ^ fix<'a', 'b'>(i, j)) == zite(Z(i) * Z(4) + Z(j) < Z(n), Z(1), Z(0)));
	REQ(Z(i) * Z(4) + Z(j) < Z(n));
	ENS(zof<'a', 'b', 'p', 'y'>(s, i, j, sz(0), y) == zoff<0, int>(n, m, Z(i) * Z(4) + Z(j), y));
}
CONTRACT(static_len_block, sz i, sz j) {
	auto s = scalar<int>() ^ array<'x', 14>() ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>(lit<4>);
	REQ(Z(i) < Z(4) && Z(j) < Z(4));
	ENS(zlen<'a'>(s) == Z(4));
	ENS(zlen<'b'>(s) == Z(4));
	ENS(zlen<'p'>(s ^ fix<'a', 'b'>(i, j)) == zite(Z(i) * Z(4) + Z(j) < Z(14), Z(1), Z(0)));
	REQ(Z(i) * Z(4) + Z(j) < Z(14));
	ENS(zof<'a', 'b', 'p'>(s, i, j, lit<0>) == (Z(i) * Z(4) + Z(j)) * Z(4));
	ENS(zlen<'p'>(s ^ fix<'a', 'b'>(lit<3>, lit<1>)) == Z(1));
	ENS(zlen<'p'>(s ^ fix<'a', 'b'>(lit<3>, lit<2>)) == Z(0));
}
// coverage: every original element is the image of exactly one present (block, index)
CONTRACT(onto, sz n, sz m, sz b, sz p, sz y) {
	REQ(Z(b) > Z(0) && Z(n) + Z(b) <= TWO64 && Z(p) < Z(n) && Z(y) < Z(m));
	A a{{n, m}};
	auto s = a ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>(b);
	sz i = p / b, j = p % b;
	ENS(Z(i) * Z(b) + Z(j) == Z(p));
	ENS(Z(i) < zlen<'a'>(s) && Z(j) < zlen<'b'>(s));
	ENS(zlen<'p'>(s ^ fix<'a', 'b'>(i, j)) == Z(1));
	ENS(zof<'a', 'b', 'p', 'y'>(s, i, j, sz(0), y) == zof<'x', 'y'>(a, p, y));
}
CONTRACT(one_to_one, sz n, sz m, sz b, sz i, sz j, sz y, sz i2, sz j2, sz y2) {
	PRE;
	REQ(Z(i2) < CEIL(n, b) && Z(j2) < Z(b) && Z(y2) < Z(m) && Z(i) * Z(b) + Z(j) < Z(n) && Z(i2) * Z(b) + Z(j2) < Z(n));
	REQ(Z(i) != Z(i2) || Z(j) != Z(j2) || Z(y) != Z(y2));
	A a{{n, m}};
	auto s = a ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>(b);
	auto in1 = state_at<A>(s ^ fix<'a', 'b', 'p', 'y'>(i, j, sz(0), y), empty_state);
	auto in2 = state_at<A>(s ^ fix<'a', 'b', 'p', 'y'>(i2, j2, sz(0), y2), empty_state);
	ENS(Z(get_index<'x'>(in1)) != Z(get_index<'x'>(in2)) || Z(get_index<'y'>(in1)) != Z(get_index<'y'>(in2)));
}
CONTRACT(strip, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE;
	A a{{n, m}};
	auto s = a ^ strip_mine_dynamic<'x', 'a', 'b', 'p'>(b);
	lengths<'a', 'b', 'p'>(s, n, m, b, i, j);
	REQ(Z(i) * Z(b) + Z(j) < Z(n));
	ENS(zof<'a', 'b', 'p', 'y'>(s, i, j, sz(0), y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
}
// the traversal visits original elements 0,1,..,n-1, each once (one dimension; any n, b)
using A1 = absn::abs_t<0, int, 'x'>;
CONTRACT(traverse_pd, sz n, sz b) {
	REQ(Z(b) > Z(0) && Z(n) + Z(b) <= TWO64);
	CASE(0, Z(n) == Z(0));
	A1 a{{n}};
	auto s = a ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>(b);
	vg_set(0, 0);
	traverser(s).for_each([&](auto st) {
		auto in = state_at<A1>(s, st);
		ENS(Z(val(get_index<'x'>(in))) == Z(vg_get(0)));
		ENS(Z(vg_get(0)) < Z(n));
		vg_set(0, vg_get(0) + 1);
	});
	ENS(Z(vg_get(0)) == Z(n));
}
// ---- over every structure of the library
#include "every.hpp"
namespace every {
template<auto... D>
struct covered {
	template<auto Q, class S, class St>
	static void one(S s, St st, sz a, sz b) {
		const sz j = get_index<Q>(st), l = s | get_length<Q>();
		REQ(Z(b) > Z(0) && Z(l) + Z(b) <= TWO64 && Z(a) < CEIL(l, b) && Z(j) < Z(b));
		auto v = s ^ into_blocks_dynamic<Q, 'M', 'N', 'P'>(b);
		ENS(length<'M'>(v) == CEIL(l, b) && length<'N'>(v) == Z(b));
		auto mn = idx<'M', 'N'>(a, j);
		ENS(Z(val(v | get_length<'P'>(mn))) == zite(Z(a) * Z(b) + Z(j) < Z(l), Z(1), Z(0)));
		ENS(length<'P'>(v ^ fix<'N', 'M'>(j, a)) == zite(Z(a) * Z(b) + Z(j) < Z(l), Z(1), Z(0)));
		auto vt = without<Q>(st) & idx<'M', 'N', 'P'>(a, j, sz(0));
		others<Q, D...>::keep(s, st, v, vt);
		REQ(Z(a) * Z(b) + Z(j) < Z(l));
		ENS(at(v, vt) == at(s, with<Q>(st, a * b + j)));
	}
	template<class S, class St>
	static void go(S s, St st, sz q, sz a, sz b) {
		if constexpr ((... && plain<D, S>))
			pick<D...>(q, [&]<auto Q>() { one<Q>(s, st, a, b); });
		else // only some combinations of indices are valid
			ENS(at(s, st) + Z(sizeof(scalar_t<S, St>)) <= Z(val(s | get_size())));
	}
};
} // namespace every
#define WITHOUT_STEP // nested divisions; the contracts above have the cases
#define EVERY_CHECK covered
#include "every.inc"
