// C09 step / reverse
#include "abs.hpp"
using namespace noarr;
using A = absn::abs_t<0, int, 'x', 'y'>;
using AY = absn::abs_t<0, int, 'y', 'x'>;
using U = absn::absu_t<0, int, 'x', 'y'>;

// number of k with st + k*d < n
inline Z count(Z n, Z st, Z d) { return zite(st < n, (n - st - Z(1)) / d + Z(1), Z(0)); }
#define PRE REQ(Z(st) < Z(d) && Z(n) + Z(d) <= TWO64 && Z(k) < count(n, st, d) && Z(y) < Z(m))

template<class S>
inline void stepped(S s, sz n, sz m, Z st, Z d, sz k, sz y) {
	Z l = count(n, st, d);
	ENS(zlen<'x'>(s) == l);
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zsz(s) == zsize<0, int>(n, m));
	ENS(Z(k) * d + st < Z(n));
	ENS(zof<'x', 'y'>(s, k, y) == zoff<0, int>(n, m, Z(k) * d + st, y));
	ENS(zlen<'x'>(s ^ fix<'y'>(y)) == l);
	ENS(zlen<'y'>(s ^ fix<'x'>(k)) == Z(m));
	ENS(zof<'y'>(s ^ fix<'x'>(k), y) == zoff<0, int>(n, m, Z(k) * d + st, y));
	ENS(zsz(s ^ fix<'x'>(k)) == zsize<0, int>(n, m));
}
CONTRACT(step_sized, sz n, sz m, sz st, sz d, sz k, sz y) {
	PRE;
	A a{{n, m}};
	stepped(a ^ step<'x'>(st, d), n, m, st, d, k, y);
}
CONTRACT(step_auto, sz n, sz m, sz st, sz d, sz k, sz y) {
	PRE;
	A a{{n, m}};
	stepped(a ^ step(st, d), n, m, st, d, k, y);
}
CONTRACT(step_unsized_below, sz n, sz m, sz st, sz d, sz k, sz y) {
	PRE;
	U u{};
	stepped(u ^ set_length<'x', 'y'>(n, m) ^ step<'x'>(st, d), n, m, st, d, k, y);
}
CONTRACT(step_len_through, sz n, sz m, sz st, sz d, sz k, sz y) {
	PRE;
	U u{};
	stepped(u ^ step<'x'>(st, d) ^ set_length<'x', 'y'>(n, m), n, m, st, d, k, y);
}
CONTRACT(step_lit_both, sz n, sz m, sz k, sz y) {
	sz st = 1, d = 3;
	PRE;
	A a{{n, m}};
	stepped(a ^ step<'x'>(lit<1>, lit<3>), n, m, 1, 3, k, y);
}
CONTRACT(step_lit_stride, sz n, sz m, sz st, sz k, sz y) {
	sz d = 4;
	PRE;
	A a{{n, m}};
	stepped(a ^ step<'x'>(st, lit<4>), n, m, st, 4, k, y);
}
CONTRACT(step_lit_start, sz n, sz m, sz d, sz k, sz y) {
	sz st = 2;
	PRE;
	A a{{n, m}};
	stepped(a ^ step<'x'>(lit<2>, d), n, m, 2, d, k, y);
}
CONTRACT(step_one, sz n, sz m, sz k, sz y) {
	REQ(Z(n) + Z(1) <= TWO64 && Z(k) < Z(n) && Z(y) < Z(m));
	A a{{n, m}};
	stepped(a ^ step<'x'>(lit<0>, lit<1>), n, m, 0, 1, k, y);
}
// the length also for starts at or past the end of the dimension (no elements), n may be 0
CONTRACT(step_len_all, sz n, sz m, sz st, sz d) {
	REQ(Z(st) < Z(d) && Z(n) + Z(d) <= TWO64);
	A a{{n, m}};
	auto s = a ^ step<'x'>(st, d);
	Z l = zlen<'x'>(s);
	ENS(l == count(n, st, d));
	// first index that is invalid
	ENS(l * Z(d) + Z(st) >= Z(n));
	ENS(l == Z(0) || (l - Z(1)) * Z(d) + Z(st) < Z(n));
}
CONTRACT(step_inner_dim, sz n, sz m, sz st, sz d, sz k, sz y) {
	PRE;
	AY a{{m, n}};
	auto s = a ^ step<'x'>(st, d);
	ENS(zlen<'x'>(s) == count(n, st, d));
	ENS(Z(k) * Z(d) + Z(st) < Z(n));
	ENS(zof<'x', 'y'>(s, k, y) == zoff<0, int>(m, n, y, Z(k) * Z(d) + Z(st)));
}
// partition: each element belongs to exactly the step p mod d, at position p div d
CONTRACT(step_partition, sz n, sz m, sz d, sz p, sz st, sz k, sz y) {
	REQ(Z(d) > Z(0) && Z(n) + Z(d) <= TWO64 && Z(p) < Z(n) && Z(y) < Z(m) && Z(st) < Z(d));
	A a{{n, m}};
	auto s = a ^ step<'x'>(p % d, d);
	sz q = p / d;
	ENS(Z(q) * Z(d) + Z(p % d) == Z(p));
	ENS(Z(q) < zlen<'x'>(s));
	ENS(zof<'x', 'y'>(s, q, y) == zof<'x', 'y'>(a, p, y));
	// and no other step contains it
	auto t = a ^ step<'x'>(st, d);
	REQ(Z(k) < zlen<'x'>(t) && Z(st) != Z(p) % Z(d));
	auto in = state_at<A>(t ^ fix<'x', 'y'>(k, y), empty_state);
	ENS(Z(val(get_index<'x'>(in))) != Z(p));
}
CONTRACT(step_of_step, sz n, sz m, sz st, sz d, sz s2, sz d2, sz k, sz y) {
	REQ(Z(st) < Z(d) && Z(s2) < Z(d2) && Z(n) + Z(d) <= TWO64 && Z(n) + Z(d2) <= TWO64);
	REQ(Z(k) < count(count(n, st, d), s2, d2) && Z(y) < Z(m));
	A a{{n, m}};
	auto s = a ^ step<'x'>(st, d) ^ step<'x'>(s2, d2);
	ENS(zlen<'x'>(s) == count(count(n, st, d), s2, d2));
	ENS(Z(k) * Z(d2) + Z(s2) < count(n, st, d));
	ENS((Z(k) * Z(d2) + Z(s2)) * Z(d) + Z(st) < Z(n));
	ENS(zof<'x', 'y'>(s, k, y) == zoff<0, int>(n, m, (Z(k) * Z(d2) + Z(s2)) * Z(d) + Z(st), y));
}
// tuple dimension
CONTRACT(step_tuple, sz k, sz i) {
	REQ(Z(k) > Z(0) && Z(k) * Z(64) < TWO64 && Z(i) < Z(k));
	auto t = pack(scalar<double>() ^ vector<'v'>(k), scalar<long>() ^ vector<'v'>(k), scalar<int>() ^ vector<'v'>(k),
	              scalar<float>() ^ vector<'v'>(k), scalar<char>() ^ vector<'v'>(k)) ^ tuple<'t'>();
	auto s = t ^ step<'t'>(lit<1>, lit<3>);
	ENS_TYPE(decltype(s | get_length<'t'>())::value == 2);
	ENS_TYPE(std::is_same_v<scalar_t<decltype(s), decltype(idx<'t', 'v'>(lit<1>, sz(0)))>, char>);
	ENS_TYPE(std::is_same_v<scalar_t<decltype(s), decltype(idx<'t', 'v'>(lit<0>, sz(0)))>, long>);
	ENS(zof<'t', 'v'>(s, lit<1>, i) == zof<'t', 'v'>(t, lit<4>, i));
	ENS(zof<'t', 'v'>(s, lit<0>, i) == zof<'t', 'v'>(t, lit<1>, i));
	auto r = t ^ reverse<'t'>();
	ENS_TYPE(decltype(r | get_length<'t'>())::value == 5);
	ENS_TYPE(std::is_same_v<scalar_t<decltype(r), decltype(idx<'t', 'v'>(lit<1>, sz(0)))>, float>);
	ENS(zof<'t', 'v'>(r, lit<0>, i) == zof<'t', 'v'>(t, lit<4>, i));
	ENS(zof<'t', 'v'>(r, lit<3>, i) == zof<'t', 'v'>(t, lit<1>, i));
}
// ---- reverse
#define PRE_R REQ(Z(i) < Z(n) && Z(y) < Z(m))
template<class S>
inline void reversed(S s, sz n, sz m, sz i, sz y) {
	ENS(zlen<'x'>(s) == Z(n));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zsz(s) == zsize<0, int>(n, m));
	ENS(zof<'x', 'y'>(s, i, y) == zoff<0, int>(n, m, Z(n) - Z(1) - Z(i), y));
	ENS(zof<'y'>(s ^ fix<'x'>(i), y) == zoff<0, int>(n, m, Z(n) - Z(1) - Z(i), y));
	ENS(zlen<'y'>(s ^ fix<'x'>(i)) == Z(m));
	ENS(zlen<'x'>(s ^ fix<'y'>(y)) == Z(n));
	ENS(zsz(s ^ fix<'x'>(i)) == zsize<0, int>(n, m));
}
CONTRACT(rev_sized, sz n, sz m, sz i, sz y) {
	PRE_R;
	A a{{n, m}};
	reversed(a ^ reverse<'x'>(), n, m, i, y);
}
CONTRACT(rev_unsized_below, sz n, sz m, sz i, sz y) {
	PRE_R;
	U u{};
	reversed(u ^ set_length<'x', 'y'>(n, m) ^ reverse<'x'>(), n, m, i, y);
}
CONTRACT(rev_len_through, sz n, sz m, sz i, sz y) {
	PRE_R;
	U u{};
	reversed(u ^ reverse<'x'>() ^ set_length<'x', 'y'>(n, m), n, m, i, y);
}
CONTRACT(rev_twice, sz n, sz m, sz i, sz y) {
	PRE_R;
	A a{{n, m}};
	auto s = a ^ reverse<'x'>() ^ reverse<'x'>();
	ENS(zlen<'x'>(s) == Z(n));
	ENS(zof<'x', 'y'>(s, i, y) == zof<'x', 'y'>(a, i, y));
}
CONTRACT(rev_two_dims, sz n, sz m, sz i, sz y) {
	PRE_R;
	A a{{n, m}};
	auto s = a ^ reverse<'x', 'y'>();
	ENS(zlen<'x'>(s) == Z(n) && zlen<'y'>(s) == Z(m));
	ENS(zof<'x', 'y'>(s, i, y) == zoff<0, int>(n, m, Z(n) - Z(1) - Z(i), Z(m) - Z(1) - Z(y)));
}
CONTRACT(rev_inner_dim, sz n, sz m, sz i, sz y) {
	PRE_R;
	AY a{{m, n}};
	auto s = a ^ reverse<'x'>();
	ENS(zlen<'x'>(s) == Z(n));
	ENS(zof<'x', 'y'>(s, i, y) == zoff<0, int>(m, n, y, Z(n) - Z(1) - Z(i)));
}
CONTRACT(rev_of_slice, sz n, sz m, sz st, sz l, sz i, sz y) {
	REQ(Z(st) + Z(l) <= Z(n) && Z(i) < Z(l) && Z(y) < Z(m));
	A a{{n, m}};
	auto s = a ^ slice<'x'>(st, l) ^ reverse<'x'>();
	ENS(zlen<'x'>(s) == Z(l));
	ENS(zof<'x', 'y'>(s, i, y) == zoff<0, int>(n, m, Z(st) + Z(l) - Z(1) - Z(i), y));
	auto t = a ^ reverse<'x'>() ^ slice<'x'>(st, l);
	ENS(zlen<'x'>(t) == Z(l));
	ENS(zof<'x', 'y'>(t, i, y) == zoff<0, int>(n, m, Z(n) - Z(1) - Z(i) - Z(st), y));
}
CONTRACT(rev_static, sz i) {
	REQ(Z(i) < Z(9));
	auto s = scalar<int>() ^ array<'x', 9>() ^ reverse<'x'>();
	ENS_TYPE(decltype(s | get_length<'x'>())::value == 9);
	ENS(zof<'x'>(s, i) == (Z(8) - Z(i)) * Z(4));
	ENS_TYPE(decltype(s | offset<'x'>(lit<2>))::value == 24);
}
// a dimension whose length depends on the reversed index (presence flag of dynamic blocks)
CONTRACT(rev_dependent_length, sz n, sz m, sz b, sz i, sz j, sz y) {
	REQ(Z(b) > Z(0) && Z(n) + Z(b) <= TWO64 && Z(i) < (Z(n) + Z(b) - Z(1)) / Z(b) && Z(j) < Z(b) && Z(y) < Z(m));
	A a{{n, m}};
	auto s = a ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>(b) ^ reverse<'a'>();
	Z nb = (Z(n) + Z(b) - Z(1)) / Z(b);
	Z blk = nb - Z(1) - Z(i);
	Z e = blk * Z(b) + Z(j);
	ENS(blk * Z(b) < Z(n));
	ENS(zlen<'a'>(s) == nb);
	ENS(zlen<'p'>(s ^ fix<'a', 'b'>(i, j)) == zite(e < Z(n), Z(1), Z(0)));
	REQ(e < Z(n));
	ENS(zof<'a', 'b', 'p', 'y'>(s, i, j, sz(0), y) == zoff<0, int>(n, m, e, y));
}
// ---- over every structure of the library
#include "every.hpp"
namespace every {
template<auto... D>
struct strided {
	template<auto Q, class S, class St>
	static void one(S s, St st, sz a, sz b) {
		const sz k = get_index<Q>(st);
		auto r = s ^ reverse<Q>();
		ENS(at(r, st) == at(s, with<Q>(st, (s | get_length<Q>()) - 1 - k)));
		ENS(length<Q>(r) == length<Q>(s));
		others<Q, D...>::keep(s, st, r, st);
		REQ(Z(a) < Z(b) && length<Q>(s) + Z(b) <= TWO64 && Z(k) < count(length<Q>(s), a, b));
		auto t = s ^ step<Q>(a, b);
		ENS(at(t, st) == at(s, with<Q>(st, k * b + a)));
		ENS(length<Q>(t) == count(length<Q>(s), a, b));
		others<Q, D...>::keep(s, st, t, st);
	}
	template<class S, class St>
	static void go(S s, St st, sz q, sz a, sz b) {
		if constexpr ((... && plain<D, S>))
			pick<D...>(q, [&]<auto Q>() { one<Q>(s, st, a, b); });
		else // only some combinations of indices are valid
			ENS(at(s, st) + Z(sizeof(scalar_t<S, St>)) <= Z(val(s | get_size())));
	}
};
} // namespace every
#define WITHOUT_STEP // nested divisions; the contracts above have the cases
#define WITHOUT_TILED_LAYOUT
#define EVERY_CHECK strided
#include "every.inc"
