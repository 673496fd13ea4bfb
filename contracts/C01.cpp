// C01 valid indices stay inside the structure's memory
#include "abs.hpp"
using namespace noarr;

template<auto... D>
struct check {
	template<auto Q, class S, class St>
	static Z len(S s, St st) { return Z(val(s | get_length<Q>(st.template remove<index_in<Q>>()))); }
	template<class S, class... I>
	static void go(S s, I... i) {
		auto st = idx<D...>(i...);
		(vc_requires((Z(i) < len<D>(s, st)).b), ...);
		using T = scalar_t<S, decltype(st)>;
		sz size = val(s | get_size());
		sz off = val(s | offset(st));
		ENS(Z(off) + Z(sizeof(T)) <= Z(size));
		// the same through fixed indices
		ENS(Z(val((s ^ fix(st)) | offset())) + Z(sizeof(T)) <= Z(val((s ^ fix(st)) | get_size())));
	}
	template<class S>
	static void run(S s, sz i0, sz i1, sz i2, sz i3) {
		if constexpr (sizeof...(D) == 1)
			go(s, i0);
		else if constexpr (sizeof...(D) == 2)
			go(s, i0, i1);
		else if constexpr (sizeof...(D) == 3)
			go(s, i0, i1, i2);
		else
			go(s, i0, i1, i2, i3);
	}
};
#define UNP(...) __VA_ARGS__
#define STRUCT(name, pars, pre, expr, ...)                                                                             \
	CONTRACT(name, UNP pars, sz i0, sz i1, sz i2, sz i3) {                                                             \
		pre;                                                                                                           \
		auto str_ = UNP expr;                                                                                           \
		check<__VA_ARGS__>::run(str_, i0, i1, i2, i3);                                                                    \
	}
#include "structs.inc"

// tuples: every member lies inside, also with padding
CONTRACT(tuple_all, sz n, sz i) {
	REQ(Z(n) * Z(32) + Z(64) < TWO64 && Z(i) < Z(n));
	auto t = pack(scalar<char>() ^ vector<'v'>(n), scalar<double>() ^ vector<'v'>(n), scalar<short>() ^ vector<'v'>(n),
	              scalar<int>() ^ vector<'v'>(n)) ^ tuple<'t'>();
	ENS(zof<'t', 'v'>(t, lit<0>, i) + Z(1) <= zsz(t));
	ENS(zof<'t', 'v'>(t, lit<1>, i) + Z(8) <= zsz(t));
	ENS(zof<'t', 'v'>(t, lit<2>, i) + Z(2) <= zsz(t));
	ENS(zof<'t', 'v'>(t, lit<3>, i) + Z(4) <= zsz(t));
}
CONTRACT(tuple_abs, sz n, sz m, sz x, sz y) {
	REQ(Z(x) < Z(n) && Z(y) < Z(m));
	using B1 = absn::abs_t<1, char, 'x', 'y'>;
	using B2 = absn::abs_t<2, double, 'y', 'x'>;
	using B3 = absn::abs_t<3, int, 'x'>;
	REQ(zsize<1, char>(n, m) + zsize<2, double>(m, n) + zsize<3, int>(n, 1) + Z(16) < TWO64);
	auto t = pack(B1{{n, m}}, B2{{m, n}}, B3{{n}}) ^ tuple<'t'>();
	ENS(zof<'t', 'x', 'y'>(t, lit<0>, x, y) + Z(1) <= zsz(t));
	ENS(zof<'t', 'x', 'y'>(t, lit<1>, x, y) + Z(8) <= zsz(t));
	ENS(zof<'t', 'x'>(t, lit<2>, x) + Z(4) <= zsz(t));
}
CONTRACT(bcast, sz n, sz m, sz l, sz x, sz y, sz c) {
	REQ(Z(x) < Z(n) && Z(y) < Z(m) && Z(c) < Z(l));
	auto s = A{{n, m}} ^ bcast<'q'>(l);
	ENS(zof<'x', 'y', 'q'>(s, x, y, c) + Z(4) <= zsz(s));
}
