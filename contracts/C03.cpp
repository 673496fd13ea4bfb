// C03 exact layouts: scalar, array, vector, tuple
#include "abs.hpp"
#include <noarr/structures/structs/zcurve.hpp>
using namespace noarr;
using A = absn::abs_t<0, int, 'x', 'y'>;
using A2 = absn::abs_t<2, double, 'x', 'y'>;
using U = absn::absu_t<0, int, 'x', 'y'>;

struct odd7 {
	char c[7];
};
struct big24 {
	double d[3];
};

CONTRACT(scalars) {
	ENS_TYPE(decltype(scalar<char>() | get_size())::value == 1);
	ENS_TYPE(decltype(scalar<short>() | get_size())::value == 2);
	ENS_TYPE(decltype(scalar<int>() | get_size())::value == 4);
	ENS_TYPE(decltype(scalar<double>() | get_size())::value == 8);
	ENS_TYPE(decltype(scalar<long double>() | get_size())::value == 16);
	ENS_TYPE(decltype(scalar<odd7>() | get_size())::value == 7);
	ENS_TYPE(decltype(scalar<big24>() | get_size())::value == 24);
	ENS_TYPE(decltype(scalar<bool>() | get_size())::value == 1);
	ENS_TYPE(decltype(scalar<void *>() | get_size())::value == 8);
	ENS_TYPE(decltype(scalar<int>() | offset())::value == 0);
	ENS_TYPE(decltype(scalar<big24>() | offset())::value == 0);
}
// vector of an arbitrary structure, however it was assembled
template<class S>
inline void vec(S s, sz k, sz n, sz m, sz i, sz x, sz y) {
	Z S0 = zsize<0, int>(n, m);
	ENS(zlen<'v'>(s) == Z(k));
	ENS(zlen<'x'>(s) == Z(n));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zsz(s) == Z(k) * S0);
	ENS(Z(i) * S0 + S0 <= Z(k) * S0);
	Z o = Z(i) * S0 + zoff<0, int>(n, m, x, y);
	ENS(zof<'v', 'x', 'y'>(s, i, x, y) == o);
	ENS(zof<'x', 'y', 'v'>(s, x, y, i) == o);
	ENS(zlen<'v'>(s ^ fix<'x'>(x)) == Z(k));
	ENS(zlen<'x'>(s ^ fix<'v'>(i)) == Z(n));
	ENS(zsz(s ^ fix<'v'>(i)) == Z(k) * S0);
	ENS(zof<'x', 'y'>(s ^ fix<'v'>(i), x, y) == o);
}
#define PREV REQ(Z(k) * zsize<0, int>(n, m) < TWO64 && Z(i) < Z(k) && Z(x) < Z(n) && Z(y) < Z(m))
CONTRACT(vector_shortcut, sz k, sz n, sz m, sz i, sz x, sz y) {
	PREV;
	A a{{n, m}};
	vec(a ^ vector<'v'>(k), k, n, m, i, x, y);
}
CONTRACT(vector_set_length, sz k, sz n, sz m, sz i, sz x, sz y) {
	PREV;
	A a{{n, m}};
	vec(a ^ vector<'v'>() ^ set_length<'v'>(k), k, n, m, i, x, y);
	vec(a ^ (vector<'v'>() ^ set_length<'v'>(k)), k, n, m, i, x, y);
}
CONTRACT(vector_vectors, sz k, sz n, sz m, sz i, sz x, sz y) {
	PREV;
	A a{{n, m}};
	vec(a ^ vectors<'v'>(k), k, n, m, i, x, y);
	vec(a ^ vectors<'v'>() ^ set_length<'v'>(k), k, n, m, i, x, y);
}
CONTRACT(vector_like_, sz k, sz n, sz m, sz i, sz x, sz y) {
	PREV;
	A a{{n, m}};
	auto o = scalar<char>() ^ vector<'w'>(m) ^ vector<'v'>(k);
	vec(a ^ vector_like<'v'>(o), k, n, m, i, x, y);
	vec(a ^ vector<'v'>() ^ length_like<'v'>(o), k, n, m, i, x, y);
	vec(a ^ vectors_like<'v'>(o), k, n, m, i, x, y);
}
CONTRACT(vector_inner_unsized, sz k, sz n, sz m, sz i, sz x, sz y) {
	PREV;
	U u{};
	vec(u ^ vector<'v'>() ^ set_length<'x', 'v', 'y'>(n, k, m), k, n, m, i, x, y);
	vec(u ^ set_length<'y'>(m) ^ vector<'v'>(k) ^ set_length<'x'>(n), k, n, m, i, x, y);
}
CONTRACT(vector_lit, sz n, sz m, sz i, sz x, sz y) {
	sz k = 6;
	PREV;
	A a{{n, m}};
	auto s = a ^ vector<'v'>(lit<6>);
	ENS_TYPE(decltype(s | get_length<'v'>())::value == 6);
	vec(s, 6, n, m, i, x, y);
	auto t = a ^ array<'v', 6>();
	ENS_TYPE(decltype(t | get_length<'v'>())::value == 6);
	vec(t, 6, n, m, i, x, y);
}
CONTRACT(vector_lit_one, sz n, sz m, sz x, sz y) {
	sz k = 1, i = 0;
	PREV;
	A a{{n, m}};
	vec(a ^ vector<'v'>(lit<1>), 1, n, m, 0, x, y);
	vec(a ^ array<'v', 1>(), 1, n, m, 0, x, y);
	// also with a static zero index
	ENS(zof<'v', 'x', 'y'>(a ^ array<'v', 1>(), lit<0>, x, y) == zoff<0, int>(n, m, x, y));
}
CONTRACT(vector_state_len, sz k, sz n, sz m, sz i, sz x, sz y) {
	PREV;
	A a{{n, m}};
	auto s = a ^ vector<'v'>();
	auto st = empty_state.with<length_in<'v'>>(k);
	ENS(zlen<'v'>(s, st) == Z(k));
	ENS(zlen<'x'>(s, st) == Z(n));
	ENS(Z(val(s | get_size(st))) == Z(k) * zsize<0, int>(n, m));
	ENS(Z(i) * zsize<0, int>(n, m) + zsize<0, int>(n, m) <= Z(k) * zsize<0, int>(n, m));
	auto st2 = st.with<index_in<'v'>, index_in<'x'>, index_in<'y'>>(i, x, y);
	ENS(Z(val(s | offset(st2))) == Z(i) * zsize<0, int>(n, m) + zoff<0, int>(n, m, x, y));
	// offset of the whole element
	ENS(Z(val(s | offset<A>(st.with<index_in<'v'>>(i)))) == Z(i) * zsize<0, int>(n, m));
}
CONTRACT(vector_of_vector, sz k, sz q, sz n, sz m, sz i, sz j, sz x, sz y) {
	REQ(Z(q) * Z(k) * zsize<0, int>(n, m) < TWO64 && Z(k) * zsize<0, int>(n, m) < TWO64);
	REQ(Z(i) < Z(k) && Z(j) < Z(q) && Z(x) < Z(n) && Z(y) < Z(m));
	A a{{n, m}};
	Z S0 = zsize<0, int>(n, m);
	ENS(Z(i) * S0 + S0 <= Z(k) * S0);
	ENS(Z(j) * (Z(k) * S0) + Z(k) * S0 <= Z(q) * (Z(k) * S0));
	auto chk = [&](auto s) {
		ENS(zlen<'v'>(s) == Z(k) && zlen<'w'>(s) == Z(q));
		ENS(zsz(s) == Z(q) * Z(k) * S0);
		ENS(zof<'w', 'v', 'x', 'y'>(s, j, i, x, y) == Z(j) * (Z(k) * S0) + Z(i) * S0 + zoff<0, int>(n, m, x, y));
	};
	chk(a ^ vector<'v'>(k) ^ vector<'w'>(q));
	chk(a ^ vectors<'v', 'w'>(k, q));
	chk(a ^ vectors<'v', 'w'>() ^ set_length<'w', 'v'>(q, k));
}
// concrete row-major nests
CONTRACT(row_major_3d, sz a, sz b, sz c, sz i, sz j, sz k) {
	REQ(Z(a) * Z(b) * Z(c) * Z(7) < TWO64 && Z(i) < Z(a) && Z(j) < Z(b) && Z(k) < Z(c));
	auto s = scalar<odd7>() ^ vector<'x'>(a) ^ vector<'y'>(b) ^ vector<'z'>(c);
	ENS(zsz(s) == Z(a) * Z(b) * Z(c) * Z(7));
	ENS(zof<'x', 'y', 'z'>(s, i, j, k) == ((Z(k) * Z(b) + Z(j)) * Z(a) + Z(i)) * Z(7));
	auto t = scalar<odd7>() ^ vectors<'x', 'y', 'z'>(a, b, c);
	ENS(zof<'x', 'y', 'z'>(t, i, j, k) == zof<'x', 'y', 'z'>(s, i, j, k));
	auto u = scalar<odd7>() ^ vectors_like<'x', 'y', 'z'>(s);
	ENS(zof<'x', 'y', 'z'>(u, i, j, k) == zof<'x', 'y', 'z'>(s, i, j, k));
	ENS(zlen<'x'>(u) == Z(a) && zlen<'y'>(u) == Z(b) && zlen<'z'>(u) == Z(c));
}
CONTRACT(array_nest, sz i, sz j) {
	REQ(Z(i) < Z(5) && Z(j) < Z(9));
	auto s = scalar<big24>() ^ array<'x', 5>() ^ array<'y', 9>();
	ENS_TYPE(decltype(s | get_size())::value == 5 * 9 * 24);
	ENS_TYPE(decltype(s | get_length<'x'>())::value == 5 && decltype(s | get_length<'y'>())::value == 9);
	ENS(zof<'x', 'y'>(s, i, j) == (Z(j) * Z(5) + Z(i)) * Z(24));
	ENS_TYPE(decltype(s | offset<'x', 'y'>(lit<3>, lit<7>))::value == (7 * 5 + 3) * 24);
	array_t<'y', 9, array_t<'x', 5, scalar<big24>>> t{};
	ENS(zof<'x', 'y'>(t, i, j) == (Z(j) * Z(5) + Z(i)) * Z(24));
}
CONTRACT(array_mixed, sz n, sz i, sz j) {
	REQ(Z(i) < Z(5) && Z(j) < Z(n) && Z(n) * Z(40) < TWO64);
	auto s = scalar<double>() ^ array<'x', 5>() ^ vector<'y'>(n);
	auto t = scalar<double>() ^ vector<'y'>(n) ^ array<'x', 5>();
	ENS(zsz(s) == Z(n) * Z(40) && zsz(t) == Z(n) * Z(40));
	ENS(zof<'x', 'y'>(s, i, j) == Z(j) * Z(40) + Z(i) * Z(8));
	ENS(zof<'x', 'y'>(t, i, j) == Z(i) * Z(8) * Z(n) + Z(j) * Z(8));
}
CONTRACT(zero_length, sz n) {
	REQ(Z(n) * Z(8) < TWO64);
	ENS(zsz(scalar<double>() ^ vector<'x'>(sz(0)) ^ vector<'y'>(n)) == Z(0));
	ENS(zsz(scalar<double>() ^ array<'x', 0>() ^ vector<'y'>(n)) == Z(0));
	ENS(zsz(scalar<double>() ^ vector<'y'>(n)) == Z(8) * Z(n));
}
// ---- tuples: two arbitrary members with the same alignment (no padding)
CONTRACT(tuple_abs, sz n, sz m, sz x, sz y) {
	REQ(Z(x) < Z(n) && Z(y) < Z(m));
	using B1 = absn::abs_t<0, int, 'x', 'y'>;
	using B2 = absn::abs_t<1, char, 'y', 'x'>;   // alignment 1: never padded
	using B3 = absn::abs_t<2, char, 'x'>;
	Z s1 = zsize<0, int>(n, m), s2 = zsize<1, char>(m, n), s3 = zsize<2, char>(n, 1);
	REQ(s1 + s2 + s3 < TWO64);
	auto t = pack(B1{{n, m}}, B2{{m, n}}, B3{{n}}) ^ tuple<'t'>();
	ENS_TYPE(decltype(t | get_length<'t'>())::value == 3);
	ENS(zsz(t) == s1 + s2 + s3);
	ENS(zlen<'x'>(t ^ fix<'t'>(lit<0>)) == Z(n));
	ENS(zlen<'y'>(t ^ fix<'t'>(lit<1>)) == Z(m));
	ENS(zlen<'x'>(t ^ fix<'t'>(lit<2>)) == Z(n));
	ENS(zof<'t', 'x', 'y'>(t, lit<0>, x, y) == zoff<0, int>(n, m, x, y));
	ENS(zof<'t', 'x', 'y'>(t, lit<1>, x, y) == s1 + zoff<1, char>(m, n, y, x));
	ENS(zof<'t', 'x'>(t, lit<2>, x) == s1 + s2 + zoff<2, char>(n, 1, x, 0));
	ENS_TYPE(std::is_same_v<scalar_t<decltype(t), decltype(idx<'t'>(lit<0>))>, int>);
	ENS_TYPE(std::is_same_v<scalar_t<decltype(t), decltype(idx<'t'>(lit<1>))>, char>);
	ENS(Z(val(t | offset<B2>(idx<'t'>(lit<1>)))) == s1);
}
CONTRACT(tuple_static, sz i) {
	auto t = pack(scalar<double>(), scalar<int>(), scalar<short>(), scalar<char>()) ^ tuple<'t'>();
	ENS_TYPE(decltype(t | get_length<'t'>())::value == 4);
	ENS_TYPE(decltype(t | get_size())::value == 15);
	ENS_TYPE(decltype(t | offset<'t'>(lit<0>))::value == 0);
	ENS_TYPE(decltype(t | offset<'t'>(lit<1>))::value == 8);
	ENS_TYPE(decltype(t | offset<'t'>(lit<2>))::value == 12);
	ENS_TYPE(decltype(t | offset<'t'>(lit<3>))::value == 14);
	REQ(Z(i) < Z(10));
	auto v = t ^ array<'x', 10>();
	ENS_TYPE(decltype(v | get_size())::value == 150);
	ENS(zof<'t', 'x'>(v, lit<3>, i) == Z(15) * Z(i) + Z(14));
	ENS(zof<'t', 'x'>(v, lit<1>, i) == Z(15) * Z(i) + Z(8));
}
// members that need padding: still in declaration order, disjoint and inside
CONTRACT(tuple_padded, sz n, sz i, sz j) {
	REQ(Z(n) * Z(32) + Z(64) < TWO64 && Z(i) < Z(n) && Z(j) < Z(n));
	auto t = pack(scalar<char>() ^ vector<'v'>(n), scalar<double>() ^ vector<'v'>(n), scalar<short>() ^ vector<'v'>(n),
	              scalar<int>() ^ vector<'v'>(n)) ^ tuple<'t'>();
	Z o0 = zof<'t', 'v'>(t, lit<0>, i), o1 = zof<'t', 'v'>(t, lit<1>, j), o2 = zof<'t', 'v'>(t, lit<2>, i), o3 = zof<'t', 'v'>(t, lit<3>, j);
	ENS(o0 + Z(1) <= o1);
	ENS(o1 + Z(8) <= o2);
	ENS(o2 + Z(2) <= o3);
	ENS(o3 + Z(4) <= zsz(t));
	ENS(zof<'t', 'v'>(t, lit<1>, j) - zof<'t', 'v'>(t, lit<1>, sz(0)) == Z(8) * Z(j));
	ENS(zof<'t', 'v'>(t, lit<3>, j) - zof<'t', 'v'>(t, lit<3>, sz(0)) == Z(4) * Z(j));
}
CONTRACT(tuple_nested, sz n, sz m, sz i, sz j) {
	REQ(Z(n) * Z(8) + Z(m) * Z(8) + Z(8) < TWO64 && Z(i) < Z(n) && Z(j) < Z(m));
	auto in = pack(scalar<double>() ^ vector<'v'>(n), scalar<long>()) ^ tuple<'u'>();
	auto t = pack(in, scalar<double>() ^ vector<'w'>(m)) ^ tuple<'t'>();
	ENS(zsz(in) == Z(8) * Z(n) + Z(8));
	ENS(zsz(t) == Z(8) * Z(n) + Z(8) + Z(8) * Z(m));
	ENS(zof<'t', 'u', 'v'>(t, lit<0>, lit<0>, i) == Z(8) * Z(i));
	ENS(zof<'t', 'u'>(t, lit<0>, lit<1>) == Z(8) * Z(n));
	ENS(zof<'t', 'w'>(t, lit<1>, j) == Z(8) * Z(n) + Z(8) + Z(8) * Z(j));
	ENS_TYPE(decltype(t | get_length<'t'>())::value == 2 && decltype(t ^ fix<'t'>(lit<0>) | get_length<'u'>())::value == 2);
}
// a nested tuple with members of different alignments, at either place
CONTRACT(tuple_nested_mixed, sz n, sz i) {
	REQ(Z(n) * Z(64) < TWO64 && Z(i) < Z(n));
	auto in = pack(scalar<double>(), scalar<int>()) ^ tuple<'u'>();
	auto rin = pack(scalar<int>(), scalar<int>(), scalar<short>(), scalar<short>()) ^ tuple<'u'>();
	auto t = pack(in, scalar<int>()) ^ tuple<'t'>() ^ vector<'v'>(n);
	auto r = pack(rin, scalar<int>() ^ array<'w', 3>(), rin) ^ tuple<'t'>() ^ vector<'v'>(n);
	ENS(zsz(t) == Z(16) * Z(n) && zsz(r) == Z(36) * Z(n));
	ENS(zof<'t', 'u', 'v'>(t, lit<0>, lit<0>, i) == Z(16) * Z(i) && zof<'t', 'u', 'v'>(t, lit<0>, lit<1>, i) == Z(16) * Z(i) + Z(8));
	ENS(zof<'t', 'v'>(t, lit<1>, i) == Z(16) * Z(i) + Z(12));
	ENS(zof<'t', 'u', 'v'>(r, lit<0>, lit<3>, i) == Z(36) * Z(i) + Z(10));
	ENS(zof<'t', 'w', 'v'>(r, lit<1>, sz(2), i) == Z(36) * Z(i) + Z(20));
	ENS(zof<'t', 'u', 'v'>(r, lit<2>, lit<2>, i) == Z(36) * Z(i) + Z(32));
}
// members that are views: their alignment is that of their elements, so nothing is padded between equally aligned ones
template<class T>
inline void viewed(T m, sz n) {
	auto e = scalar<short>() ^ vector<'e'>(n);
	Z s = zsz(m);
	auto t = pack(e, m, scalar<short>()) ^ tuple<'q'>();
	ENS(zsz(t) == Z(2) * Z(n) + s + Z(2));
	ENS(zof<'q'>(t, lit<2>) == Z(2) * Z(n) + s);
	ENS(zof<'q', 'e'>(t, lit<0>, sz(0)) == Z(0));
}
CONTRACT(tuple_of_views, sz n, sz m, sz a, sz b) {
	REQ(Z(n) * Z(64) < TWO64 && Z(m) * Z(64) < TWO64 && Z(n) * Z(m) * Z(64) < TWO64 && Z(a) <= Z(b) && Z(b) <= Z(m) && Z(0) < Z(b));
	auto v = scalar<short>() ^ vector<'x'>(m);
	auto w = scalar<short>() ^ vector<'x'>(m) ^ vector<'y'>(n);
	viewed(v ^ shift<'x'>(a), n);
	viewed(v ^ slice<'x'>(a, b - a), n);
	viewed(v ^ span<'x'>(a, b), n);
	viewed(v ^ step<'x'>(a, b), n);
	viewed(v ^ reverse<'x'>(), n);
	viewed(v ^ fix<'x'>(a), n);
	viewed(v ^ rename<'x', 'z'>(), n);
	viewed(w ^ hoist<'x'>(), n);
	viewed(w ^ reorder<'x', 'y'>(), n);
	viewed(w ^ fix<'x', 'y'>(a, 0), n);
	viewed(w ^ join<'x', 'y', 'z'>(), n);
	viewed(w ^ merge_blocks<'y', 'x', 'z'>(), n);
	viewed(v ^ bcast<'z'>(n), n);
	viewed(v ^ into_blocks<'x', 'b', 'a'>(b), n);
	viewed(v ^ into_blocks_dynamic<'x', 'b', 'a', 'p'>(b), n);
	viewed(v ^ into_blocks_static<'x', 'f', 'b', 'a'>(lit<4>), n);
	viewed(v ^ into_blocks_static<'x', 'f', 'b', 'a'>(lit<4>) ^ fix<'f'>(lit<1>), n);
	viewed(w ^ merge_zcurve<'x', 'y', 'z'>::maxlen_alignment<1024, 1>(), n);
	viewed(pack(v, v) ^ tuple<'t'>(), n);
}
// operators composed before they are applied, to one structure and to several
CONTRACT(composed, sz n, sz m, sz i, sz j) {
	REQ(Z(n) * Z(m) * Z(16) < TWO64 && Z(n) * Z(16) < TWO64 && Z(i) < Z(n) && Z(j) < Z(m));
	auto d = scalar<double>();
	auto e = scalar<double>();
	auto f = scalar<float>();
	auto t = pack(d, f) ^ tuple<'t'>() ^ vector<'v'>(n) ^ vector<'w'>(m);
	auto u = pack(d, f) ^ (tuple<'t'>() ^ vector<'v'>(n) ^ vector<'w'>(m));
	auto v = pack(d, f) ^ (tuple<'t'>() ^ (vector<'v'>(n) ^ vector<'w'>(m)));
	auto w = pack(d, f) ^ tuple<'t'>() ^ (vector<'v'>() ^ set_length<'v'>(n) ^ vector<'w'>(m));
	ENS_TYPE(std::is_same_v<decltype(t), decltype(u)> && std::is_same_v<decltype(t), decltype(v)>);
	auto one = [&](auto s) {
		ENS(zlen<'v'>(s) == Z(n) && zlen<'w'>(s) == Z(m));
		ENS(zof<'t', 'v', 'w'>(s, lit<1>, i, j) == (Z(j) * Z(n) + Z(i)) * zsz(pack(d, f) ^ tuple<'t'>()) + Z(8));
		ENS(zof<'t', 'v', 'w'>(s, lit<0>, i, j) == (Z(j) * Z(n) + Z(i)) * zsz(pack(d, f) ^ tuple<'t'>()));
	};
	one(t);
	one(u);
	one(v);
	one(w);
	auto p = e ^ vector<'v'>(n) ^ vector<'w'>(m);
	auto q = e ^ (vector<'v'>(n) ^ vector<'w'>(m));
	auto r = e ^ (vector<'v'>(n) ^ (vector<'w'>(m) ^ hoist<'v'>()));
	ENS_TYPE(std::is_same_v<decltype(p), decltype(q)>);
	ENS(zof<'v', 'w'>(p, i, j) == zof<'v', 'w'>(q, i, j) && zof<'v', 'w'>(p, i, j) == zof<'v', 'w'>(r, i, j));
	ENS(zsz(p) == zsz(q) && zsz(p) == zsz(r) && zlen<'v'>(r) == Z(n) && zlen<'w'>(r) == Z(m));
}
CONTRACT(tuple_to_each, sz n, sz i) {
	REQ(Z(n) * Z(16) < TWO64 && Z(i) < Z(n));
	auto t = pack(scalar<double>(), scalar<float>()) ^ to_each(vector<'v'>(n)) ^ tuple<'t'>();
	ENS(zsz(t) == Z(12) * Z(n));
	ENS(zof<'t', 'v'>(t, lit<0>, i) == Z(8) * Z(i));
	ENS(zof<'t', 'v'>(t, lit<1>, i) == Z(8) * Z(n) + Z(4) * Z(i));
	ENS(zlen<'v'>(t ^ fix<'t'>(lit<1>)) == Z(n));
}
CONTRACT(tuple_unsized_members, sz n, sz i) {
	REQ(Z(n) * Z(16) < TWO64 && Z(i) < Z(n));
	auto t = pack(scalar<double>() ^ vector<'v'>(), scalar<float>() ^ vector<'v'>()) ^ tuple<'t'>() ^ set_length<'v'>(n);
	ENS(zsz(t) == Z(12) * Z(n));
	ENS(zof<'t', 'v'>(t, lit<1>, i) == Z(8) * Z(n) + Z(4) * Z(i));
	ENS(zof<'t', 'v'>(t, lit<0>, i) == Z(8) * Z(i));
}
// assembled after the example of another structure, with lengths of its own, from a state or of a traverser
template<class S>
inline void like3(S u, sz a, sz b, sz c, sz i, sz j, sz k) {
	ENS(zlen<'x'>(u) == Z(a) && zlen<'y'>(u) == Z(b) && zlen<'z'>(u) == Z(c));
	ENS(zsz(u) == Z(a) * Z(b) * Z(c) * Z(7));
	ENS(zof<'x', 'y', 'z'>(u, i, j, k) == ((Z(k) * Z(b) + Z(j)) * Z(a) + Z(i)) * Z(7));
}
CONTRACT(likes, sz a, sz b, sz c, sz i, sz j, sz k) {
	REQ(Z(a) * Z(b) * Z(c) * Z(7) < TWO64 && Z(i) < Z(a) && Z(j) < Z(b) && Z(k) < Z(c));
	auto e = scalar<odd7>();
	auto s = e ^ vectors<'x', 'y', 'z'>(a, b, c);
	auto u = e ^ vectors<'x', 'y', 'z'>();
	auto st = empty_state.with<length_in<'z'>, length_in<'x'>, length_in<'y'>>(c, a, b);
	like3(e ^ vectors_like(s), a, b, c, i, j, k);
	like3(e ^ vectors_like(u, st), a, b, c, i, j, k);
	like3(e ^ vectors_like<'x', 'y', 'z'>(u, st), a, b, c, i, j, k);
	like3(e ^ vector_like<'x'>(u, st) ^ vector_like<'y'>(s) ^ sized_vector<'z'>(c), a, b, c, i, j, k);
	like3(e ^ vector<'x'>(a) ^ vectors_like<'y', 'z'>(s), a, b, c, i, j, k);
	like3(u ^ lengths_like<'z', 'x', 'y'>(s), a, b, c, i, j, k);
	like3(u ^ lengths_like<'y', 'x', 'z'>(u, st), a, b, c, i, j, k);
	like3(u ^ length_like<'y'>(u, st) ^ length_like<'z'>(s) ^ set_length<'x'>(a), a, b, c, i, j, k);
	like3(e ^ vectors_like<'x', 'y', 'z'>(traverser(s)), a, b, c, i, j, k);
	like3(u ^ lengths_like<'x', 'z', 'y'>(traverser(s)), a, b, c, i, j, k);
	like3(e ^ vectors_like(traverser(s)), a, b, c, i, j, k);
	like3(e ^ vectors_like<'x', 'y', 'z'>(traverser(s, scalar<int>())), a, b, c, i, j, k);
}
// ---- layouts over every structure of the library
#include "every.hpp"
namespace every {
template<auto... D>
struct laid_out {
	template<class S, class St>
	static void go(S s, St st, sz q, sz a, sz b) {
		const sz e = s | get_size();
		REQ(Z(b) < Z(a) && Z(a) * Z(e) < TWO64 && at(s, st) + Z(sizeof(scalar_t<S, St>)) <= Z(e));
		auto v = s ^ vector<'V'>(a);
		auto vt = st.template with<index_in<'V'>>(b);
		ENS(at(v, vt) == Z(b) * Z(e) + at(s, st));
		ENS(Z(val(v | get_size())) == Z(a) * Z(e) && length<'V'>(v) == Z(a));
		(same_len<D, D>(s, st, v, vt), ...);
		ENS_TYPE(head<typename decltype(v)::signature> == 'V');
	}
};
} // namespace every
#define EVERY_CHECK laid_out
#include "every.inc"
