// C12 merge_zcurve
#include "abs.hpp"
#include <noarr/structures/structs/zcurve.hpp>
using namespace noarr;
using A = absn::abs_t<200, int, 'x', 'y'>;
using A3 = absn::abs_t<200, int, 'x', 'y', 'z'>;

// number of valid cells that precede (x,y) when the box X*Y is halved along x, then along y, then along x, ...
template<int Level>
inline Z rank2(Z X, Z Y, Z x, Z y) {
	if constexpr (Level == 0)
		return Z(0);
	else {
		Z h = Z(sz(1) << (Level - 1));
		B hx = h <= x, hy = h <= y;
		Z X1 = zite(hx, X - h, zmin(X, h)), x1 = zite(hx, x - h, x);
		Z Y1 = zite(hy, Y - h, zmin(Y, h)), y1 = zite(hy, y - h, y);
		return zite(hx, h * Y, Z(0)) + zite(hy, h * X1, Z(0)) + rank2<Level - 1>(X1, Y1, x1, y1);
	}
}
#define GEN2(name, L)                                                                                                  \
	CONTRACT(general_##name, sz n, sz m, sz t) {                                                                       \
		REQ(Z(n) <= Z(L) && Z(m) <= Z(L) && Z(t) < Z(n) * Z(m));                                                       \
		A a{{n, m}};                                                                                                   \
		auto s = a ^ merge_zcurve<'x', 'y', 't'>::maxlen_alignment<L, 1>();                                            \
		auto st = s.sub_state(idx<'t'>(t));                                                                            \
		Z x = Z(get_index<'x'>(st)), y = Z(get_index<'y'>(st));                                                        \
		ENS(x < Z(n) && y < Z(m));                                                                                     \
		ENS(rank2<std::countr_zero(sz(L))>(Z(n), Z(m), x, y) == Z(t));                                                 \
		ENS(zlen<'t'>(s) == Z(n) * Z(m));                                                                              \
		ENS(zof<'t'>(s, t) == zoff<200, int>(n, m, x, y));                                                             \
	}
GEN2(1, 1)
GEN2(2, 2)
GEN2(4, 4)
GEN2(8, 8)
template<int S, int K, sz D>
inline Z low(sz t, int d) {  // bits of dimension d (0 = most significant) from the low S*D bits of t
	Z r = Z(0);
	for (int k = 0; k < S; ++k)
		r = r + Z(t) / Z(sz(1) << (k * D + (D - 1 - d))) % Z(2) * Z(sz(1) << k);
	return r;
}
#define SPEC2(name, S)                                                                                                 \
	CONTRACT(special_##name, sz t) {                                                                                   \
		const sz n = sz(1) << S, m = n;                                                                                \
		REQ(Z(t) < Z(n) * Z(m));                                                                                       \
		A a{{n, m}};                                                                                                   \
		auto s = a ^ merge_zcurve<'x', 'y', 't'>::maxlen_alignment<(sz(1) << S), (sz(1) << S)>();                      \
		auto st = s.sub_state(idx<'t'>(t));                                                                            \
		Z x = Z(get_index<'x'>(st)), y = Z(get_index<'y'>(st));                                                        \
		ENS(x == low<S, S, 2>(t, 0) && y == low<S, S, 2>(t, 1));                                                       \
		ENS(x < Z(n) && y < Z(m));                                                                                     \
		ENS(zlen<'t'>(s) == Z(n) * Z(m));                                                                              \
		ENS(zof<'t'>(s, t) == zoff<200, int>(n, m, x, y));                                                             \
	}
SPEC2(1, 1)
SPEC2(2, 2)
SPEC2(4, 4)
SPEC2(8, 8)
SPEC2(16, 16)
SPEC2(29, 29)
#define MIX2(name, K, S, NM, ...)                                                                                      \
	CONTRACT(mixed_##name, sz na, sz mb, sz t) {                                                                       \
		const sz n = (na & NM) + 1 << S, m = (mb & NM) + 1 << S;                                                       \
		__VA_ARGS__;                                                                                                   \
		REQ(Z(n) <= Z(sz(1) << K) && Z(m) <= Z(sz(1) << K));                                                           \
		REQ(Z(n) * Z(m) < TWO64 && Z(t) < Z(n) * Z(m));                                                                \
		A a{{n, m}};                                                                                                   \
		auto s = a ^ merge_zcurve<'x', 'y', 't'>::maxlen_alignment<(sz(1) << K), (sz(1) << S)>();                      \
		auto st = s.sub_state(idx<'t'>(t));                                                                            \
		Z x = Z(get_index<'x'>(st)), y = Z(get_index<'y'>(st)), h = Z(sz(1) << S);                                     \
		ENS(x < Z(n) && y < Z(m));                                                                                     \
		ENS(rank2<K - S>(Z(n) / h, Z(m) / h, x / h, y / h) == Z(t) / (h * h));                                         \
		ENS(x % h == low<S, K, 2>(t, 0) && y % h == low<S, K, 2>(t, 1));                                               \
		ENS(zlen<'t'>(s) == Z(n) * Z(m));                                                                              \
		ENS(zof<'t'>(s, t) == zoff<200, int>(n, m, x, y));                                                             \
	}
MIX2(3_1, 3, 1, 3)
MIX2(4_2, 4, 2, 3)
MIX2(5_4, 5, 4, 1)
MIX2(17_16, 17, 16, 1)
MIX2(29_28, 29, 28, 1)
MIX2(34_0, 34, 0, 1)
// three dimensions
template<int Level>
inline Z rank3(Z X, Z Y, Z W, Z x, Z y, Z w) {
	if constexpr (Level == 0)
		return Z(0);
	else {
		Z h = Z(sz(1) << (Level - 1));
		B hx = h <= x, hy = h <= y, hw = h <= w;
		Z X1 = zite(hx, X - h, zmin(X, h)), Y1 = zite(hy, Y - h, zmin(Y, h)), W1 = zite(hw, W - h, zmin(W, h));
		return zite(hx, h * Y * W, Z(0)) + zite(hy, h * X1 * W, Z(0)) + zite(hw, h * X1 * Y1, Z(0)) + rank3<Level - 1>(X1, Y1, W1, zite(hx, x - h, x), zite(hy, y - h, y), zite(hw, w - h, w));
	}
}
template<int K, int S>
inline void cube(sz n, sz m, sz p, sz t) {
	A3 a{{n, m, p}};
	auto s = a ^ merge_zcurve<'x', 'y', 'z', 't'>::maxlen_alignment<(sz(1) << K), (sz(1) << S)>();
	auto st = s.sub_state(idx<'t'>(t));
	Z x = Z(get_index<'x'>(st)), y = Z(get_index<'y'>(st)), w = Z(get_index<'z'>(st)), h = Z(sz(1) << S);
	ENS(x < Z(n) && y < Z(m) && w < Z(p));
	ENS(rank3<K - S>(Z(n) / h, Z(m) / h, Z(p) / h, x / h, y / h, w / h) == Z(t) / (h * h * h));
	ENS(x % h == low<S, K, 3>(t, 0) && y % h == low<S, K, 3>(t, 1) && w % h == low<S, K, 3>(t, 2));
	ENS(zlen<'t'>(s) == Z(n) * Z(m) * Z(p));
	ENS(zof<'t'>(s, t) == zoff<200, int>(n, m, p, x, y, w));
}
#define CUBE(K, S, n, m, p)                                                                                            \
	CONTRACT(cube_##K##_##S##_##n##_##m##_##p, sz t) {                                                                 \
		REQ(Z(t) < Z((sz(n) << S) * (sz(m) << S) * (sz(p) << S)));                                                     \
		cube<K, S>(sz(n) << S, sz(m) << S, sz(p) << S, t);                                                             \
	}
CUBE(1, 0, 1, 1, 1)
CUBE(1, 0, 1, 1, 2)
CUBE(1, 0, 1, 2, 1)
CUBE(1, 0, 1, 2, 2)
CUBE(1, 0, 2, 1, 1)
CUBE(1, 0, 2, 1, 2)
CUBE(1, 0, 2, 2, 1)
CUBE(1, 0, 2, 2, 2)
CUBE(2, 0, 4, 4, 4)
CUBE(2, 0, 3, 4, 2)
CUBE(2, 0, 4, 3, 3)
CUBE(2, 0, 3, 3, 3)
CUBE(2, 0, 1, 4, 3)
CUBE(2, 0, 2, 1, 4)
CUBE(2, 0, 3, 1, 1)
CUBE(3, 0, 5, 3, 1)
CUBE(2, 1, 2, 2, 1)
CUBE(3, 1, 3, 2, 3)
CUBE(3, 3, 1, 1, 1)
CUBE(6, 5, 2, 1, 2)
CUBE(17, 16, 2, 1, 2)
CUBE(30, 0, 2, 1, 3)
CUBE(19, 19, 1, 1, 1)
// one and four dimensions
CONTRACT(line, sz n, sz t) {
	REQ(Z(n) <= Z(8) && Z(n) % Z(2) == Z(0) && Z(t) < Z(n));
	absn::abs_t<200, int, 'x'> a{{n}};
	auto s = a ^ merge_zcurve<'x', 't'>::maxlen_alignment<8, 1>();
	auto r = a ^ merge_zcurve<'x', 't'>::maxlen_alignment<8, 2>();
	ENS(zlen<'t'>(s) == Z(n) && zlen<'t'>(r) == Z(n));
	ENS(Z(get_index<'x'>(s.sub_state(idx<'t'>(t)))) == Z(t) && Z(get_index<'x'>(r.sub_state(idx<'t'>(t)))) == Z(t));
}
template<int S>
inline void tesseract(sz t) {
	const sz n = sz(1) << S;
	REQ(Z(t) < Z(n * n * n * n));
	auto s = scalar<char>() ^ vectors<'a', 'b', 'c', 'd'>(n, n, n, n) ^ merge_zcurve<'a', 'b', 'c', 'd', 't'>::maxlen_alignment<(sz(1) << S), (sz(1) << S)>();
	auto st = s.sub_state(idx<'t'>(t));
	ENS(Z(get_index<'a'>(st)) == low<S, S, 4>(t, 0) && Z(get_index<'b'>(st)) == low<S, S, 4>(t, 1));
	ENS(Z(get_index<'c'>(st)) == low<S, S, 4>(t, 2) && Z(get_index<'d'>(st)) == low<S, S, 4>(t, 3));
	ENS(zlen<'t'>(s) == Z(n * n * n * n) && zsz(s) == zlen<'t'>(s));
}
CONTRACT(tesseract_1, sz t) { tesseract<1>(t); }
CONTRACT(tesseract_3, sz t) { tesseract<3>(t); }
CONTRACT(tesseract_12, sz t) { tesseract<12>(t); }
// five dimensions: the special curve for dimension counts that do not divide the word
CONTRACT(penteract, sz t) {
	REQ(Z(t) < Z(sz(1) << 20));
	auto s = scalar<char>() ^ vectors<'a', 'b', 'c', 'd', 'e'>(16, 16, 16, 16, 16) ^ merge_zcurve<'a', 'b', 'c', 'd', 'e', 't'>::maxlen_alignment<16, 16>();
	auto st = s.sub_state(idx<'t'>(t));
	ENS(Z(get_index<'a'>(st)) == low<4, 4, 5>(t, 0) && Z(get_index<'b'>(st)) == low<4, 4, 5>(t, 1) && Z(get_index<'c'>(st)) == low<4, 4, 5>(t, 2));
	ENS(Z(get_index<'d'>(st)) == low<4, 4, 5>(t, 3) && Z(get_index<'e'>(st)) == low<4, 4, 5>(t, 4));
}
// names, order of the dimensions, other dimensions, given lengths, sizes, signatures
CONTRACT(names, sz n, sz m, sz p, sz t, sz k) {
	REQ(Z(n) <= Z(2) && Z(m) <= Z(2) && Z(t) < Z(n) * Z(m) && Z(k) < Z(p));
	absn::abs_t<0, int, 'x', 'z', 'y'> a{{n, p, m}};
	auto s = a ^ merge_zcurve<'x', 'y', 't'>::maxlen_alignment<2, 1>();
	auto sx = a ^ merge_zcurve<'x', 'y', 'x'>::maxlen_alignment<2, 1>();
	auto sy = a ^ merge_zcurve<'y', 'x', 'y'>::maxlen_alignment<2, 1>();
	auto st = s.sub_state(idx<'t', 'z'>(t, k));
	auto sty = sy.sub_state(idx<'y', 'z'>(t, k));
	ENS(Z(get_index<'z'>(st)) == Z(k) && Z(get_index<'z'>(sty)) == Z(k));
	ENS(rank2<1>(Z(n), Z(m), Z(get_index<'x'>(st)), Z(get_index<'y'>(st))) == Z(t));
	ENS(rank2<1>(Z(m), Z(n), Z(get_index<'y'>(sty)), Z(get_index<'x'>(sty))) == Z(t));
	ENS(zof<'t', 'z'>(s, t, k) == zoff<0, int>(n, p, m, Z(get_index<'x'>(st)), Z(k), Z(get_index<'y'>(st))));
	ENS(zof<'x', 'z'>(sx, t, k) == zof<'t', 'z'>(s, t, k));
	ENS(zof<'y', 'z'>(sy, t, k) == zoff<0, int>(n, p, m, Z(get_index<'x'>(sty)), Z(k), Z(get_index<'y'>(sty))));
	ENS(zsz(s) == zsz(a) && zsz(sx) == zsz(a) && zsz(sy) == zsz(a));
	ENS(zlen<'z'>(s) == Z(p) && zlen<'x'>(sx) == Z(n) * Z(m) && zlen<'y'>(sy) == Z(n) * Z(m) && zlen<'t'>(s) == Z(n) * Z(m));
	ENS_TYPE(!decltype(s)::has_length<'t', decltype(idx<'t'>(0))>());
	ENS_TYPE(decltype(s)::signature::all_accept<'t'> && !decltype(s)::signature::any_accept<'x'> && !decltype(s)::signature::any_accept<'y'>);
}
CONTRACT(static_lengths, sz t) {
	REQ(Z(t) < Z(12));
	auto d = scalar<int>() ^ vector<'x'>(sz(3)) ^ vector<'y'>(sz(4)) ^ merge_zcurve<'x', 'y', 't'>::maxlen_alignment<4, 1>();
	auto s = scalar<int>() ^ array<'x', 3>() ^ array<'y', 4>() ^ merge_zcurve<'x', 'y', 't'>::maxlen_alignment<4, 1>();
	auto h = scalar<int>() ^ array<'x', 3>() ^ vector<'y'>() ^ set_length<'y'>(4) ^ merge_zcurve<'x', 'y', 't'>::maxlen_alignment<4, 1>();
	ENS(zof<'t'>(s, t) == zof<'t'>(d, t) && zof<'t'>(h, t) == zof<'t'>(d, t));
	ENS(zlen<'t'>(s) == Z(12) && zlen<'t'>(h) == Z(12) && zsz(s) == Z(48));
	ENS_TYPE(decltype(s)::signature::arg_length::value == 12);
	ENS_TYPE(!decltype(h)::signature::arg_length::is_static);
	ENS(zof<'t'>(s, lit<7>) == zof<'t'>(d, 7) && zof<'t'>(s, lit<11>) == zof<'t'>(d, 11));
}
// lengths and indices beyond 32 bits: a window of the curve
#define WIDE2(name, K, n, m, from, count)                                                                              \
	CONTRACT(wide_##name, sz k) {                                                                                      \
		const sz t = sz(from) + k;                                                                                     \
		REQ(Z(k) < Z(count) && Z(t) < Z(sz(n)) * Z(sz(m)));                                                            \
		A a{{sz(n), sz(m)}};                                                                                           \
		auto s = a ^ merge_zcurve<'x', 'y', 't'>::maxlen_alignment<(sz(1) << K), 1>();                                 \
		auto st = s.sub_state(idx<'t'>(t));                                                                            \
		Z x = Z(get_index<'x'>(st)), y = Z(get_index<'y'>(st));                                                        \
		ENS(x < Z(sz(n)) && y < Z(sz(m)));                                                                             \
		ENS(rank2<K>(Z(sz(n)), Z(sz(m)), x, y) == Z(t));                                                               \
		ENS(zlen<'t'>(s) == Z(sz(n)) * Z(sz(m)));                                                                      \
		ENS(zof<'t'>(s, t) == zoff<200, int>(sz(n), sz(m), x, y));                                                     \
	}
WIDE2(half, 17, 1 << 17, 1 << 17, (sz(1) << 33) - 8, 16)
WIDE2(last, 18, (1 << 17) + 3, (1 << 17) + 5, sz((1 << 17) + 3) * ((1 << 17) + 5) - 16, 16)
WIDE2(tall, 20, 3, 1 << 20, (3 << 20) - 16, 16)
WIDE2(long, 33, (sz(1) << 33) - 1, 2, (sz(1) << 34) - 18, 16)
WIDE2(flat, 33, 2, (sz(1) << 33) - 1, (sz(1) << 34) - 18, 16)
