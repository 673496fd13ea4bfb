// C06 into_blocks_static
#include "abs.hpp"
using namespace noarr;
using A = absn::abs_t<0, int, 'x', 'y'>;
using AY = absn::abs_t<0, int, 'y', 'x'>;
using U = absn::absu_t<0, int, 'x', 'y'>;
using A1 = absn::abs_t<0, int, 'x'>;

template<auto Br, auto Ma, auto Mi, class S>
inline void body_border(S s, sz n, sz m, sz b, sz i, sz j, sz y) {
	ENS(zlen<Br>(s) == Z(2));
	auto body = s ^ fix<Br>(lit<0>);
	auto bord = s ^ fix<Br>(lit<1>);
	ENS(zlen<Ma>(body) == Z(n) / Z(b));
	ENS(zlen<Mi>(body) == Z(b));
	ENS(zlen<Ma>(bord) == Z(1));
	ENS(zlen<Mi>(bord) == Z(n) % Z(b));
	ENS(zlen<'y'>(body) == Z(m));
	ENS(zlen<'y'>(bord) == Z(m));
	ENS(zsz(body) == zsize<0, int>(n, m));
	ENS(zsz(bord) == zsize<0, int>(n, m));
}
template<auto Br, auto Ma, auto Mi, class S>
inline void body_off(S s, sz n, sz m, sz b, sz i, sz j, sz y) {
	ENS(zof<Br, Ma, Mi, 'y'>(s, lit<0>, i, j, y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
	auto f = s ^ fix<Br>(lit<0>) ^ fix<Mi>(j);
	ENS(zlen<Ma>(f) == Z(n) / Z(b));
	auto g = s ^ fix<Br>(lit<0>) ^ fix<Ma>(i);
	ENS(zlen<Mi>(g) == Z(b));
	ENS(zlen<'y'>(f ^ fix<Ma>(i)) == Z(m));
	ENS(zof<'y'>(f ^ fix<Ma>(i), y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
}
template<auto Br, auto Ma, auto Mi, class S>
inline void border_off(S s, sz n, sz m, sz b, sz j, sz y) {
	ENS(zof<Br, Ma, Mi, 'y'>(s, lit<1>, lit<0>, j, y) == zoff<0, int>(n, m, (Z(n) / Z(b)) * Z(b) + Z(j), y));
	ENS(zof<Br, Ma, Mi, 'y'>(s, lit<1>, sz(0), j, y) == zoff<0, int>(n, m, (Z(n) / Z(b)) * Z(b) + Z(j), y));
	auto f = s ^ fix<Br>(lit<1>) ^ fix<Mi>(j);
	ENS(zlen<Ma>(f) == Z(1));
	auto g = s ^ fix<Br>(lit<1>) ^ fix<Ma>(sz(0));
	ENS(zlen<Mi>(g) == Z(n) % Z(b));
	ENS(zlen<'y'>(g ^ fix<Mi>(j)) == Z(m));
	ENS(zof<'y'>(g ^ fix<Mi>(j), y) == zoff<0, int>(n, m, (Z(n) / Z(b)) * Z(b) + Z(j), y));
}
#define PRE_BODY REQ(Z(b) > Z(0) && Z(i) < Z(n) / Z(b) && Z(j) < Z(b) && Z(y) < Z(m))
#define PRE_BORD REQ(Z(b) > Z(0) && Z(j) < Z(n) % Z(b) && Z(y) < Z(m))

CONTRACT(fresh_len, sz n, sz m, sz b, sz i, sz j, sz y) {
	REQ(Z(b) > Z(0));
	A a{{n, m}};
	auto s = a ^ into_blocks_static<'x', 'r', 'a', 'b'>(b);
	body_border<'r', 'a', 'b'>(s, n, m, b, i, j, y);
}
CONTRACT(fresh_body, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE_BODY;
	A a{{n, m}};
	body_off<'r', 'a', 'b'>(a ^ into_blocks_static<'x', 'r', 'a', 'b'>(b), n, m, b, i, j, y);
}
CONTRACT(fresh_border, sz n, sz m, sz b, sz j, sz y) {
	PRE_BORD;
	A a{{n, m}};
	border_off<'r', 'a', 'b'>(a ^ into_blocks_static<'x', 'r', 'a', 'b'>(b), n, m, b, j, y);
}
CONTRACT(minor_same_len, sz n, sz m, sz b, sz i, sz j, sz y) {
	REQ(Z(b) > Z(0));
	A a{{n, m}};
	body_border<'r', 'a', 'x'>(a ^ into_blocks_static<'x', 'r', 'a', 'x'>(b), n, m, b, i, j, y);
}
CONTRACT(minor_same_body, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE_BODY;
	A a{{n, m}};
	body_off<'r', 'a', 'x'>(a ^ into_blocks_static<'x', 'r', 'a', 'x'>(b), n, m, b, i, j, y);
}
CONTRACT(minor_same_border, sz n, sz m, sz b, sz j, sz y) {
	PRE_BORD;
	A a{{n, m}};
	border_off<'r', 'a', 'x'>(a ^ into_blocks_static<'x', 'r', 'a', 'x'>(b), n, m, b, j, y);
}
CONTRACT(major_same_len, sz n, sz m, sz b, sz i, sz j, sz y) {
	REQ(Z(b) > Z(0));
	A a{{n, m}};
	body_border<'r', 'x', 'b'>(a ^ into_blocks_static<'x', 'r', 'x', 'b'>(b), n, m, b, i, j, y);
}
CONTRACT(major_same_body, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE_BODY;
	A a{{n, m}};
	body_off<'r', 'x', 'b'>(a ^ into_blocks_static<'x', 'r', 'x', 'b'>(b), n, m, b, i, j, y);
}
CONTRACT(major_same_border, sz n, sz m, sz b, sz j, sz y) {
	PRE_BORD;
	A a{{n, m}};
	border_off<'r', 'x', 'b'>(a ^ into_blocks_static<'x', 'r', 'x', 'b'>(b), n, m, b, j, y);
}
CONTRACT(unsized_len, sz n, sz m, sz b, sz i, sz j, sz y) {
	REQ(Z(b) > Z(0));
	U u{};
	body_border<'r', 'a', 'b'>(u ^ set_length<'x', 'y'>(n, m) ^ into_blocks_static<'x', 'r', 'a', 'b'>(b), n, m, b, i, j, y);
}
CONTRACT(unsized_body, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE_BODY;
	U u{};
	body_off<'r', 'a', 'b'>(u ^ set_length<'x', 'y'>(n, m) ^ into_blocks_static<'x', 'r', 'a', 'b'>(b), n, m, b, i, j, y);
}
CONTRACT(unsized_border, sz n, sz m, sz b, sz j, sz y) {
	PRE_BORD;
	U u{};
	border_off<'r', 'a', 'b'>(u ^ set_length<'x', 'y'>(n, m) ^ into_blocks_static<'x', 'r', 'a', 'b'>(b), n, m, b, j, y);
}
// static block size over a run-time length
CONTRACT(lit_len, sz n, sz m, sz i, sz j, sz y) {
	A a{{n, m}};
	body_border<'r', 'a', 'b'>(a ^ into_blocks_static<'x', 'r', 'a', 'b'>(lit<4>), n, m, 4, i, j, y);
}
CONTRACT(lit_body, sz n, sz m, sz i, sz j, sz y) {
	sz b = 4;
	PRE_BODY;
	A a{{n, m}};
	body_off<'r', 'a', 'b'>(a ^ into_blocks_static<'x', 'r', 'a', 'b'>(lit<4>), n, m, 4, i, j, y);
}
CONTRACT(lit_border, sz n, sz m, sz j, sz y) {
	sz b = 4;
	PRE_BORD;
	A a{{n, m}};
	border_off<'r', 'a', 'b'>(a ^ into_blocks_static<'x', 'r', 'a', 'b'>(lit<4>), n, m, 4, j, y);
}
// everything static
CONTRACT(all_static, sz i, sz j, sz k) {
	auto s = scalar<int>() ^ array<'x', 14>() ^ into_blocks_static<'x', 'r', 'a', 'b'>(lit<4>);
	REQ(Z(i) < Z(3) && Z(j) < Z(4) && Z(k) < Z(2));
	auto body = s ^ fix<'r'>(lit<0>);
	auto bord = s ^ fix<'r'>(lit<1>);
	ENS_TYPE(decltype(body | get_length<'a'>())::value == 3);
	ENS_TYPE(decltype(body | get_length<'b'>())::value == 4);
	ENS_TYPE(decltype(bord | get_length<'a'>())::value == 1);
	ENS_TYPE(decltype(bord | get_length<'b'>())::value == 2);
	ENS(zof<'a', 'b'>(body, i, j) == (Z(i) * Z(4) + Z(j)) * Z(4));
	ENS(zof<'a', 'b'>(bord, lit<0>, k) == (Z(12) + Z(k)) * Z(4));
	ENS_TYPE(decltype(s | get_size())::value == 56);
}
// partition: every original element is in exactly one of body and border
CONTRACT(partition, sz n, sz m, sz b, sz p, sz y) {
	REQ(Z(b) > Z(0) && Z(p) < Z(n) && Z(y) < Z(m));
	A a{{n, m}};
	auto s = a ^ into_blocks_static<'x', 'r', 'a', 'b'>(b);
	auto body = s ^ fix<'r'>(lit<0>);
	auto bord = s ^ fix<'r'>(lit<1>);
	sz i = p / b, j = p % b;
	Z nb = zlen<'a'>(body);
	ENS(nb * Z(b) <= Z(n));
	if (i < val(body | get_length<'a'>())) {
		ENS(Z(j) < zlen<'b'>(body));
		ENS(zof<'a', 'b', 'y'>(body, i, j, y) == zof<'x', 'y'>(a, p, y));
		ENS(Z(p) < nb * Z(b));
	} else {
		ENS(Z(i) == nb);
		ENS(Z(j) < zlen<'b'>(bord));
		ENS(zof<'a', 'b', 'y'>(bord, lit<0>, j, y) == zof<'x', 'y'>(a, p, y));
		ENS(Z(p) >= nb * Z(b));
	}
}
// body and border elements never coincide
CONTRACT(disjoint, sz n, sz m, sz b, sz i, sz j, sz y, sz k, sz y2) {
	REQ(Z(b) > Z(0) && Z(i) < Z(n) / Z(b) && Z(j) < Z(b) && Z(y) < Z(m) && Z(k) < Z(n) % Z(b) && Z(y2) < Z(m));
	A a{{n, m}};
	auto s = a ^ into_blocks_static<'x', 'r', 'a', 'b'>(b);
	auto i1 = state_at<A>(s ^ fix<'r', 'a', 'b', 'y'>(lit<0>, i, j, y), empty_state);
	auto i2 = state_at<A>(s ^ fix<'r', 'a', 'b', 'y'>(lit<1>, lit<0>, k, y2), empty_state);
	ENS(Z(val(get_index<'x'>(i1))) < Z(val(get_index<'x'>(i2))));
}
CONTRACT(traverse_pd, sz n, sz b) {
	REQ(Z(b) > Z(0));
	CASE(0, Z(n) / Z(b) == Z(0));
	CASE(1, Z(n) % Z(b) == Z(0));
	A1 a{{n}};
	auto s = a ^ into_blocks_static<'x', 'r', 'a', 'b'>(b);
	vg_set(0, 0);
	traverser(s).for_each([&](auto st) {
		auto in = state_at<A1>(s, st);
		ENS(Z(val(get_index<'x'>(in))) == Z(vg_get(0)));
		ENS(Z(vg_get(0)) < Z(n));
		vg_set(0, vg_get(0) + 1);
	});
	ENS(Z(vg_get(0)) == Z(n));
}
// ---- over every structure of the library
#include "every.hpp"
namespace every {
template<auto... D>
struct parted {
	template<auto Q, class S, class St>
	static void one(S s, St st, sz a, sz b) {
		const sz j = get_index<Q>(st), l = s | get_length<Q>();
		REQ(Z(b) > Z(0));
		auto v = s ^ into_blocks_static<Q, 'P', 'M', 'N'>(b);
		auto body = v ^ fix<'P'>(lit<0>);
		auto bord = v ^ fix<'P'>(lit<1>);
		ENS_TYPE(decltype(v | get_length<'P'>())::value == 2);
		ENS(length<'M'>(body) == Z(l) / Z(b) && length<'N'>(body) == Z(b));
		ENS(length<'M'>(bord) == Z(1) && length<'N'>(bord) == Z(l) % Z(b));
		auto bt = without<Q>(st) & idx<'M', 'N'>(a, j);
		auto rt = without<Q>(st) & idx<'M', 'N'>(sz(0), j);
		others<Q, D...>::keep(s, st, body, bt);
		others<Q, D...>::keep(s, st, bord, rt);
		if (a < l / b) {
			REQ(Z(j) < Z(b));
			ENS(at(body, bt) == at(s, with<Q>(st, a * b + j)));
		} else {
			REQ(Z(j) < Z(l) % Z(b));
			ENS(at(bord, rt) == at(s, with<Q>(st, l / b * b + j)));
		}
	}
	template<class S, class St>
	static void go(S s, St st, sz q, sz a, sz b) {
		if constexpr ((... && plain<D, S>))
			pick<D...>(q, [&]<auto Q>() { one<Q>(s, st, a, b); });
		else // only some combinations of indices are valid
			ENS(at(s, st) + Z(sizeof(scalar_t<S, St>)) <= Z(val(s | get_size())));
	}
};
} // namespace every
#define WITHOUT_STEP // nested divisions; the contracts above have the cases
#define EVERY_CHECK parted
#include "every.inc"
