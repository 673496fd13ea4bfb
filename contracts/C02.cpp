// C02 different valid indices address disjoint memory
#include "abs.hpp"
using namespace noarr;

template<auto... D>
struct check {
	template<auto Q, class S, class St>
	static Z len(S s, St st) { return Z(val(s | get_length<Q>(st.template remove<index_in<Q>>()))); }
	template<class S, class St, class St2>
	static void go(S s, St a, St2 b) {
		(vc_requires((Z(val(get_index<D>(a))) < len<D>(s, a)).b), ...);
		(vc_requires((Z(val(get_index<D>(b))) < len<D>(s, b)).b), ...);
		REQ((B(vb_id(false)) || ... || (Z(val(get_index<D>(a))) != Z(val(get_index<D>(b))))));
		using T = scalar_t<S, St>;
		sz oa = val(s | offset(a)), ob = val(s | offset(b));
		ENS(Z(oa) + Z(sizeof(T)) <= Z(ob) || Z(ob) + Z(sizeof(T)) <= Z(oa));
	}
	template<class S>
	static void run(S s, sz i0, sz i1, sz i2, sz i3, sz j0, sz j1, sz j2, sz j3) {
		if constexpr (sizeof...(D) == 1)
			go(s, idx<D...>(i0), idx<D...>(j0));
		else if constexpr (sizeof...(D) == 2)
			go(s, idx<D...>(i0, i1), idx<D...>(j0, j1));
		else if constexpr (sizeof...(D) == 3)
			go(s, idx<D...>(i0, i1, i2), idx<D...>(j0, j1, j2));
		else
			go(s, idx<D...>(i0, i1, i2, i3), idx<D...>(j0, j1, j2, j3));
	}
};
#define UNP(...) __VA_ARGS__
#define STRUCT(name, pars, pre, expr, ...)                                                                             \
	CONTRACT(name, UNP pars, sz i0, sz i1, sz i2, sz i3, sz j0, sz j1, sz j2, sz j3) {                                 \
		pre;                                                                                                           \
		auto str_ = UNP expr;                                                                                           \
		check<__VA_ARGS__>::run(str_, i0, i1, i2, i3, j0, j1, j2, j3);                                                    \
	}
#include "structs.inc"

// members of a tuple, also with padding between them
CONTRACT(tuple_members, sz n, sz i, sz j) {
	REQ(Z(n) * Z(32) + Z(64) < TWO64 && Z(i) < Z(n) && Z(j) < Z(n));
	auto t = pack(scalar<char>() ^ vector<'v'>(n), scalar<double>() ^ vector<'v'>(n), scalar<int>() ^ vector<'v'>(n)) ^ tuple<'t'>();
	Z a = zof<'t', 'v'>(t, lit<0>, i), b = zof<'t', 'v'>(t, lit<1>, j), c = zof<'t', 'v'>(t, lit<2>, i);
	ENS(a + Z(1) <= b || b + Z(8) <= a);
	ENS(a + Z(1) <= c || c + Z(4) <= a);
	ENS(c + Z(4) <= b || b + Z(8) <= c);
}
CONTRACT(tuple_abs_members, sz n, sz m, sz x, sz y, sz x2, sz y2) {
	REQ(Z(x) < Z(n) && Z(y) < Z(m) && Z(x2) < Z(n) && Z(y2) < Z(m));
	using B1 = absn::abs_t<1, char, 'x', 'y'>;
	using B2 = absn::abs_t<2, double, 'y', 'x'>;
	using B3 = absn::abs_t<3, int, 'x'>;
	REQ(zsize<1, char>(n, m) + zsize<2, double>(m, n) + zsize<3, int>(n, 1) + Z(16) < TWO64);
	auto t = pack(B1{{n, m}}, B2{{m, n}}, B3{{n}}) ^ tuple<'t'>();
	Z a = zof<'t', 'x', 'y'>(t, lit<0>, x, y), b = zof<'t', 'x', 'y'>(t, lit<1>, x2, y2), c = zof<'t', 'x'>(t, lit<2>, x);
	ENS(a + Z(1) <= b || b + Z(8) <= a);
	ENS(b + Z(8) <= c || c + Z(4) <= b);
	ENS(a + Z(1) <= c || c + Z(4) <= a);
	// two elements of the same member inside an array of tuples
	REQ(Z(3) * zsz(t) < TWO64);
	auto v = t ^ array<'v', 3>();
	Z d = zof<'v', 't', 'x', 'y'>(v, sz(0), lit<1>, x, y), e = zof<'v', 't', 'x', 'y'>(v, sz(1), lit<0>, x2, y2);
	ENS(d + Z(8) <= e || e + Z(1) <= d);
}
// static border and body of a blocked dimension
CONTRACT(body_border, sz n, sz m, sz i, sz j, sz k, sz y, sz y2) {
	auto s = A{{n, m}} ^ into_blocks_static<'x', 's', 'a', 'b'>(lit<5>);
	auto p = s ^ fix<'s'>(lit<0>);
	auto q = s ^ fix<'s'>(lit<1>);
	REQ(Z(i) < zlen<'a'>(p) && Z(j) < zlen<'b'>(p) && Z(k) < zlen<'b'>(q) && Z(y) < Z(m) && Z(y2) < Z(m));
	Z a = zof<'a', 'b', 'y'>(p, i, j, y), b = zof<'a', 'b', 'y'>(q, sz(0), k, y2);
	ENS(a + Z(4) <= b || b + Z(4) <= a);
}
