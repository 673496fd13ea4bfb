// C11 fix / set_length
#include "abs.hpp"
using namespace noarr;
using A = absn::abs_t<0, int, 'x', 'y', 'z'>;
using U = absn::absu_t<0, int, 'x', 'y', 'z'>;

#define PARS sz n, sz m, sz p, sz i, sz j, sz k
#define PRE REQ(Z(i) < Z(n) && Z(j) < Z(m) && Z(k) < Z(p))
#define OFF zoff<0, int>(Z(n), Z(m), Z(p), Z(i), Z(j), Z(k))
#define SIZE zsize<0, int>(Z(n), Z(m), Z(p))

CONTRACT(fix_one, PARS) {
	PRE;
	A a{{n, m, p}};
	auto s = a ^ fix<'x'>(i);
	ENS(zlen<'y'>(s) == Z(m) && zlen<'z'>(s) == Z(p));
	ENS(zsz(s) == SIZE);
	ENS(zof<'y', 'z'>(s, j, k) == OFF);
	ENS(Z(val(s | offset(idx<'y', 'z'>(j, k)))) == OFF);
	ENS_TYPE(!decltype(s)::has_length<'x', state<>>());
	ENS_TYPE(std::is_same_v<sig_dim_tree<decltype(s)::signature>, dim_tree<'y', dim_tree<'z', dim_sequence<>>>>);
	auto t = a ^ fix<'y'>(j);
	ENS(zlen<'x'>(t) == Z(n) && zlen<'z'>(t) == Z(p));
	ENS(zof<'x', 'z'>(t, i, k) == OFF);
	ENS_TYPE(std::is_same_v<sig_dim_tree<decltype(t)::signature>, dim_tree<'x', dim_tree<'z', dim_sequence<>>>>);
	auto r = a ^ fix<'z'>(k);
	ENS(zlen<'x'>(r) == Z(n) && zlen<'y'>(r) == Z(m));
	ENS(zof<'y', 'x'>(r, j, i) == OFF);
	ENS(zsz(r) == SIZE);
}
CONTRACT(fix_many, PARS) {
	PRE;
	A a{{n, m, p}};
	auto o = [&](auto s) { return Z(val(s | offset())); };
	ENS(o(a ^ fix<'x', 'y', 'z'>(i, j, k)) == OFF);
	ENS(o(a ^ fix<'z', 'x', 'y'>(k, i, j)) == OFF);
	ENS(o(a ^ fix<'z'>(k) ^ fix<'y'>(j) ^ fix<'x'>(i)) == OFF);
	ENS(o(a ^ fix<'y', 'x'>(j, i) ^ fix<'z'>(k)) == OFF);
	ENS(o(a ^ fix<'x'>(i) ^ fix<'z', 'y'>(k, j)) == OFF);
	ENS(zsz(a ^ fix<'x', 'y', 'z'>(i, j, k)) == SIZE);
	ENS(zof<'x'>(a ^ fix<'y', 'z'>(j, k), i) == OFF);
	ENS(zof<'x'>(a ^ fix<'z', 'y'>(k, j), i) == OFF);
	ENS(zlen<'x'>(a ^ fix<'z', 'y'>(k, j)) == Z(n));
	ENS(zlen<'y'>(a ^ fix<'z'>(k) ^ fix<'x'>(i)) == Z(m));
}
CONTRACT(fix_state, PARS, sz w) {
	PRE;
	A a{{n, m, p}};
	auto o = [&](auto s) { return Z(val(s | offset())); };
	auto st = idx<'x', 'z', 'y'>(i, k, j);
	ENS(o(a ^ fix(st)) == OFF);
	ENS(o(a ^ fix<'x', 'y', 'z'>(st)) == OFF);
	ENS(zof<'y'>(a ^ fix<'z', 'x'>(st), j) == OFF);
	ENS(zof<'z'>(a ^ fix(idx<'y', 'x'>(j, i)), k) == OFF);
	ENS(zlen<'z'>(a ^ fix(idx<'y', 'x'>(j, i))) == Z(p));
	// length items in the state fix nothing
	auto st2 = empty_state.with<index_in<'x'>, length_in<'q'>, index_in<'y'>>(i, w, j);
	ENS(zof<'z'>(a ^ fix(st2), k) == OFF);
	auto tr = traverser(a).state();
	ENS(zlen<'x'>(a ^ fix(tr)) == Z(n));
}
CONTRACT(fix_lit, sz n, sz m, sz p, sz j, sz k) {
	REQ(Z(2) < Z(n) && Z(j) < Z(m) && Z(k) < Z(p));
	sz i = 2;
	A a{{n, m, p}};
	ENS(zof<'y', 'z'>(a ^ fix<'x'>(lit<2>), j, k) == OFF);
	ENS(zof<'z'>(a ^ fix<'x', 'y'>(lit<2>, j), k) == OFF);
	ENS(zof<'z'>(a ^ fix<'y', 'x'>(j, lit<2>), k) == OFF);
	ENS(zof<'x', 'y', 'z'>(a, lit<2>, j, k) == OFF);
	ENS(zlen<'y'>(a ^ fix<'x'>(lit<2>)) == Z(m));
}
// an index already fixed wins over an index of that name given later; fixing does not leak to other names
CONTRACT(fix_isolated, PARS, sz w) {
	PRE;
	REQ(Z(w) < Z(n));
	A a{{n, m, p}};
	auto s = a ^ fix<'x'>(i);
	ENS(Z(val(s | offset(idx<'x', 'y', 'z'>(w, j, k)))) == OFF);
	auto in = state_at<A>(s, idx<'y', 'z', 'q'>(j, k, w));
	ENS(Z(val(get_index<'x'>(in))) == Z(i));
	ENS(Z(val(get_index<'y'>(in))) == Z(j));
	ENS(Z(val(get_index<'z'>(in))) == Z(k));
	ENS(Z(val(get_index<'q'>(in))) == Z(w));
}
CONTRACT(fix_tuple, sz n, sz i) {
	REQ(Z(n) * Z(64) < TWO64 && Z(i) < Z(n));
	auto t = pack(scalar<double>() ^ vector<'v'>(n), scalar<int>() ^ vector<'w'>(n)) ^ tuple<'t'>();
	auto s0 = t ^ fix<'t'>(lit<0>);
	auto s1 = t ^ fix<'t'>(lit<1>);
	ENS(zlen<'v'>(s0) == Z(n));
	ENS(zlen<'w'>(s1) == Z(n));
	ENS(zsz(s0) == zsz(t) && zsz(s1) == zsz(t));
	ENS(zof<'v'>(s0, i) == zof<'t', 'v'>(t, lit<0>, i));
	ENS(zof<'w'>(s1, i) == zof<'t', 'w'>(t, lit<1>, i));
	ENS_TYPE(std::is_same_v<scalar_t<decltype(s0)>, double> && std::is_same_v<scalar_t<decltype(s1)>, int>);
	auto s2 = t ^ fix<'t', 'w'>(lit<1>, i);
	ENS(Z(val(s2 | offset())) == zof<'t', 'w'>(t, lit<1>, i));
}
// ---- set_length
template<class S>
inline void sized(S s, PARS) {
	ENS(zlen<'x'>(s) == Z(n));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zlen<'z'>(s) == Z(p));
	ENS(zsz(s) == SIZE);
	ENS(zof<'x', 'y', 'z'>(s, i, j, k) == OFF);
	ENS(zof<'z'>(s ^ fix<'y', 'x'>(j, i), k) == OFF);
	ENS(zlen<'x'>(s ^ fix<'y'>(j)) == Z(n));
	ENS(zsz(s ^ fix<'y', 'x'>(j, i)) == SIZE);
}
CONTRACT(len_many, PARS) {
	PRE;
	U u{};
	sized(u ^ set_length<'x', 'y', 'z'>(n, m, p), n, m, p, i, j, k);
	sized(u ^ set_length<'z', 'x', 'y'>(p, n, m), n, m, p, i, j, k);
}
CONTRACT(len_one_by_one, PARS) {
	PRE;
	U u{};
	sized(u ^ set_length<'x'>(n) ^ set_length<'y'>(m) ^ set_length<'z'>(p), n, m, p, i, j, k);
	sized(u ^ set_length<'z'>(p) ^ set_length<'y'>(m) ^ set_length<'x'>(n), n, m, p, i, j, k);
	sized(u ^ set_length<'y'>(m) ^ set_length<'x', 'z'>(n, p), n, m, p, i, j, k);
}
CONTRACT(len_state, PARS, sz w) {
	PRE;
	U u{};
	auto st = empty_state.with<length_in<'z'>, length_in<'x'>, length_in<'y'>>(p, n, m);
	sized(u ^ set_length(st), n, m, p, i, j, k);
	sized(u ^ set_length<'x', 'y', 'z'>(st), n, m, p, i, j, k);
	sized(u ^ set_length<'y', 'x'>(st) ^ set_length<'z'>(p), n, m, p, i, j, k);
	// index items set no length
	auto st2 = empty_state.with<length_in<'z'>, index_in<'q'>, length_in<'x'>>(p, w, n);
	sized(u ^ set_length(st2) ^ set_length<'y'>(m), n, m, p, i, j, k);
}
// equals supplying the length in the query state
CONTRACT(len_later, PARS) {
	PRE;
	U u{};
	auto st = empty_state.with<length_in<'x'>, length_in<'y'>, length_in<'z'>>(n, m, p);
	ENS(zlen<'x'>(u, st) == zlen<'x'>(u ^ set_length<'x', 'y', 'z'>(n, m, p)));
	auto s = u ^ set_length<'y'>(m);
	auto sx = empty_state.with<length_in<'x'>, length_in<'z'>>(n, p);
	ENS(zlen<'x'>(s, sx) == Z(n) && zlen<'y'>(s, sx) == Z(m) && zlen<'z'>(s, sx) == Z(p));
	ENS(Z(val(s | get_size(sx))) == SIZE);
	ENS(Z(val(s | offset(sx.with<index_in<'x'>, index_in<'y'>, index_in<'z'>>(i, j, k)))) == OFF);
	ENS(zlen<'z'>(s, sx.with<index_in<'x'>>(i)) == Z(p));
	ENS_TYPE(decltype(s)::has_length<'y', state<>>() && !decltype(s)::has_length<'x', state<>>());
	ENS_TYPE(!decltype(s)::has_size<state<>>());
}
CONTRACT(len_mixed_fix, PARS) {
	PRE;
	U u{};
	auto s = u ^ set_length<'x', 'z'>(n, p) ^ fix<'x'>(i) ^ set_length<'y'>(m) ^ fix<'z'>(k);
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zsz(s) == SIZE);
	ENS(zof<'y'>(s, j) == OFF);
}
CONTRACT(len_lit, sz n, sz p, sz i, sz j, sz k) {
	sz m = 7;
	PRE;
	U u{};
	auto s = u ^ set_length<'x', 'y', 'z'>(n, lit<7>, p);
	ENS_TYPE(decltype(s | get_length<'y'>())::value == 7);
	sized(s, n, m, p, i, j, k);
}
CONTRACT(len_vectors, PARS) {
	PRE;
	REQ(Z(n) * Z(m) * Z(p) * Z(4) < TWO64);
	auto s = scalar<int>() ^ vectors<'x', 'y', 'z'>();
	auto a = s ^ set_length<'x', 'y', 'z'>(n, m, p);
	auto b = s ^ set_length<'z'>(p) ^ set_length<'y', 'x'>(m, n);
	ENS(zof<'x', 'y', 'z'>(a, i, j, k) == ((Z(k) * Z(m) + Z(j)) * Z(n) + Z(i)) * Z(4));
	ENS(zof<'x', 'y', 'z'>(b, i, j, k) == ((Z(k) * Z(m) + Z(j)) * Z(n) + Z(i)) * Z(4));
	ENS(zsz(a) == Z(n) * Z(m) * Z(p) * Z(4));
	ENS(zsz(b) == Z(n) * Z(m) * Z(p) * Z(4));
	// like another structure
	auto c = s ^ lengths_like<'x', 'y', 'z'>(a);
	ENS(zof<'x', 'y', 'z'>(c, i, j, k) == ((Z(k) * Z(m) + Z(j)) * Z(n) + Z(i)) * Z(4));
}
// taken from a traverser (its state) and the zero state of a signature
CONTRACT(fix_like, PARS) {
	PRE;
	A a{{n, m, p}};
	auto st = idx<'y', 'x'>(j, i);
	auto t = traverser(a) ^ fix(st);
	auto s = a ^ fix(t);
	ENS(zlen<'z'>(s) == Z(p) && zof<'z'>(s, k) == OFF && zsz(s) == SIZE);
	auto r = a ^ fix<'y'>(t);
	ENS(zlen<'x'>(r) == Z(n) && zof<'x', 'z'>(r, i, k) == OFF);
	auto q = a ^ fix<'x', 'y'>(st);
	ENS(zlen<'z'>(q) == Z(p) && zof<'z'>(q, k) == OFF);
	auto z = fix_zeros(sig_dim_tree<A::signature>());
	ENS(Z(val(get_index<'x'>(z))) == Z(0) && Z(val(get_index<'y'>(z))) == Z(0) && Z(val(get_index<'z'>(z))) == Z(0));
	ENS(Z(val(a | offset(z))) == zoff<0, int>(Z(n), Z(m), Z(p), Z(0), Z(0), Z(0)));
}
// nothing to fix or set; lengths taken from a traverser
CONTRACT(nothing_fixed, PARS) {
	PRE;
	A a{{n, m, p}};
	auto all = [&](auto s) {
		ENS_TYPE(std::is_same_v<sig_dim_seq<typename decltype(s)::signature>, sig_dim_seq<A::signature>>);
		ENS(zlen<'x'>(s) == Z(n) && zlen<'y'>(s) == Z(m) && zlen<'z'>(s) == Z(p) && zsz(s) == SIZE);
		ENS(zof<'x', 'y', 'z'>(s, i, j, k) == OFF);
	};
	all(a ^ fix(empty_state));
	all(a ^ set_length(empty_state));
	all(a ^ set_length(idx<'x'>(i)));
	all(a ^ fix(traverser(a)));
	all(a ^ fix(state<state_item<length_in<'x'>, sz>>(n)));
}
CONTRACT(lengths_from, PARS) {
	PRE;
	REQ(Z(n) * Z(m) * Z(p) * Z(4) < TWO64 && Z(n) * Z(m) * Z(4) < TWO64 && Z(n) * Z(4) < TWO64);
	auto u = scalar<int>() ^ vector<'x'>() ^ vector<'y'>() ^ vector<'z'>();
	auto t = traverser(u) ^ set_length<'x', 'z'>(n, p) ^ set_length<'y'>(m);
	auto s = u ^ set_length(t);
	ENS(zlen<'x'>(s) == Z(n) && zlen<'y'>(s) == Z(m) && zlen<'z'>(s) == Z(p));
	ENS(zsz(s) == Z(n) * Z(m) * Z(p) * Z(4));
	ENS(zof<'x', 'y', 'z'>(s, i, j, k) == ((Z(k) * Z(m) + Z(j)) * Z(n) + Z(i)) * Z(4));
	auto r = u ^ set_length<'y', 'x'>(t.state()) ^ set_length<'z'>(p);
	ENS(zlen<'x'>(r) == Z(n) && zlen<'y'>(r) == Z(m) && zlen<'z'>(r) == Z(p));
	ENS(zof<'x', 'y', 'z'>(r, i, j, k) == ((Z(k) * Z(m) + Z(j)) * Z(n) + Z(i)) * Z(4));
}
CONTRACT(offset_forms, PARS) {
	PRE;
	A a{{n, m, p}};
	using E = scalar<int>;
	ENS(Z(val(offset<E, 'x', 'y', 'z'>(i, j, k)(a))) == OFF);
	ENS(Z(val(a | offset<E, 'z', 'x', 'y'>(k, i, j))) == OFF);
	ENS(Z(val(a | offset<E>(idx<'z', 'x', 'y'>(k, i, j)))) == OFF);
	ENS(Z(val(a | offset(idx<'z', 'x', 'y'>(k, i, j)))) == OFF);
	// the offset of a part
	REQ(Z(n) < Z(1000) && Z(m) < Z(1000) && Z(p) < Z(1000));
	auto row = scalar<int>() ^ vector<'x'>(n);
	auto mat = row ^ vector<'y'>(m);
	auto cube = mat ^ vector<'z'>(p);
	using R = decltype(scalar<int>() ^ vector<'x'>());
	auto u = scalar<int>() ^ vectors<'x', 'y', 'z'>();
	auto st = empty_state.with<length_in<'x'>, length_in<'y'>, length_in<'z'>>(n, m, p);
	ENS(Z(val(u | offset<R>(st & idx<'y', 'z'>(j, k)))) == (Z(k) * Z(m) + Z(j)) * Z(n) * Z(4));
	ENS(Z(val(cube | offset<'x', 'y', 'z'>(i, j, k))) == ((Z(k) * Z(m) + Z(j)) * Z(n) + Z(i)) * Z(4));
	ENS(has_offset<decltype(idx<'x', 'y', 'z'>(i, j, k))>()(a) && !has_offset<decltype(idx<'x', 'y'>(i, j))>()(a) && !has_offset()(a));
	ENS(has_length<'x'>()(a) && !has_length<'w'>()(a) && !(has_length<'x', decltype(idx<'x'>(i))>()(a)));
}

// ---- every structure of the library: fixing any of its indices is the same as supplying it in the query
namespace every {
template<auto... D>
struct check {
	// the lengths and their availability, with the index of F fixed and with it supplied
	template<auto Q, class S, class F, class St, class Rest>
	static void len(S s, F f, St st, Rest rest) {
		if constexpr (!state_contains<Rest, index_in<Q>>)
			return;
		else {
			auto a = st.template remove<index_in<Q>>();
			auto b = rest.template remove<index_in<Q>>();
			ENS_TYPE(S::template has_length<Q, decltype(a)>() == F::template has_length<Q, decltype(b)>());
			if constexpr (S::template has_length<Q, decltype(a)>())
				ENS(Z(val(s | get_length<Q>(a))) == Z(val(f | get_length<Q>(b))));
		}
	}
	template<auto Q, class S, class St>
	static void one(S s, St st) {
		auto f = s ^ fix<Q>(get_index<Q>(st));
		auto rest = st.template remove<index_in<Q>>();
		ENS(Z(val(f | offset(rest))) == Z(val(s | offset(st))));
		ENS(Z(val(f | get_size())) == Z(val(s | get_size())));
		(len<D>(s, f, st, rest), ...);
		ENS_TYPE(!decltype(f)::signature::template any_accept<Q>);
		ENS_TYPE((... && (D == Q || decltype(f)::signature::template any_accept<D>)));
		ENS_TYPE(std::is_same_v<scalar_t<decltype(f), decltype(rest)>, scalar_t<S, St>>);
		// an index given later does not replace the fixed one
		ENS(Z(val(f | offset(rest.template with<index_in<Q>>(sz(0))))) == Z(val(s | offset(st))));
	}
	template<class S, class... I>
	static void go(S s, I... i) {
		auto st = idx<D...>(i...);
		(vc_requires((Z(i) < Z(val(s | get_length<D>(st.template remove<index_in<D>>())))).b), ...);
		(one<D>(s, st), ...);
		ENS(Z(val((s ^ fix(st)) | offset())) == Z(val(s | offset(st))));
		ENS(Z(val((s ^ ... ^ fix<D>(i)) | offset())) == Z(val(s | offset(st))));
		ENS(Z(val((s ^ fix<D...>(i...)) | get_size())) == Z(val(s | get_size())));
	}
	template<class S>
	static void run(S s, sz i0, sz i1, sz i2, sz i3) {
		if constexpr (sizeof...(D) == 1)
			go(s, i0);
		else if constexpr (sizeof...(D) == 2)
			go(s, i0, i1);
		else if constexpr (sizeof...(D) == 3)
			go(s, i0, i1, i2);
		else
			go(s, i0, i1, i2, i3);
	}
};
#define UNP(...) __VA_ARGS__
#define STRUCT(name, pars, pre, expr, ...)                                                                             \
	CONTRACT(every_##name, UNP pars, sz i0, sz i1, sz i2, sz i3) {                                                     \
		pre;                                                                                                           \
		auto str_ = UNP expr;                                                                                          \
		check<__VA_ARGS__>::run(str_, i0, i1, i2, i3);                                                                 \
	}
#include "structs.inc"
#undef STRUCT

// ---- and setting a length is the same as supplying it in the query: L are the dimensions whose length is not known
template<auto... L>
struct lens {
	template<auto... D>
	struct dims {
		template<auto Q, class X, class Y, class Sx, class Sy>
		static void len(X x, Y y, Sx sx, Sy sy) {
			auto a = sx.template remove<index_in<Q>>();
			auto b = sy.template remove<index_in<Q>>();
			ENS_TYPE(X::template has_length<Q, decltype(a)>() && Y::template has_length<Q, decltype(b)>());
			ENS(Z(val(x | get_length<Q>(a))) == Z(val(y | get_length<Q>(b))));
		}
		// y has the lengths set, x gets them in the state
		template<class X, class Y, class Lens, class St>
		static void equal(X x, Y y, Lens ls, St st) {
			ENS(Z(val(x | offset(ls & st))) == Z(val(y | offset(st))));
			ENS_TYPE(X::template has_size<Lens>() && Y::template has_size<state<>>());
			ENS(Z(val(x | get_size(ls))) == Z(val(y | get_size())));
			(len<D>(x, y, ls & st, st), ...);
		}
		template<class S, class Lens, class... I>
		static void go(S s, Lens ls, I... i) {
			auto st = idx<D...>(i...);
			(vc_requires((Z(i) < Z(val(s | get_length<D>((ls & st).template remove<index_in<D>>())))).b), ...);
			equal(s, s ^ set_length(ls), ls, st);
			equal(s, s ^ set_length<L...>(ls), ls, st);
			equal(s, (s ^ ... ^ set_length<L>(get_length_in<L>(ls))), ls, st);
			// fixing afterwards
			ENS(Z(val((s ^ set_length(ls) ^ fix(st)) | offset())) == Z(val(s | offset(ls & st))));
		}
		template<class S, class Lens>
		static void run(S s, Lens ls, sz i0, sz i1, sz i2, sz i3) {
			if constexpr (sizeof...(D) == 1)
				go(s, ls, i0);
			else if constexpr (sizeof...(D) == 2)
				go(s, ls, i0, i1);
			else if constexpr (sizeof...(D) == 3)
				go(s, ls, i0, i1, i2);
			else
				go(s, ls, i0, i1, i2, i3);
		}
	};
};
#define UNSIZED(name, pars, pre, expr, dl, ll, ...)                                                                    \
	CONTRACT(later_##name, UNP pars, sz i0, sz i1, sz i2, sz i3) {                                                     \
		pre;                                                                                                           \
		auto str_ = UNP expr;                                                                                          \
		using L_ = lens<UNP dl>;                                                                                       \
		auto lens_ = lengths<UNP dl>(UNP ll);                                                                          \
		L_::template dims<__VA_ARGS__>::run(str_, lens_, i0, i1, i2, i3);                                              \
	}
template<auto... L, class... V>
inline auto lengths(V... v) { return empty_state.template with<length_in<L>...>(v...); }
UNSIZED(vector, (NM, sz k), FITS(Z(k) * zsize<0, int>(n, m)), (A{{n, m}} ^ vector<'v'>()), ('v'), (k), 'v', 'x', 'y')
UNSIZED(vector_u, (NM, sz k), FITS(Z(k) * zsize<0, int>(n, m)), (U{} ^ vector<'v'>()), ('x', 'v', 'y'), (n, k, m), 'v', 'x', 'y')
UNSIZED(vectors, (NM, sz p), FITS(Z(n) * Z(m) * Z(p) * Z(4)), (scalar<int>() ^ vectors<'x', 'y', 'z'>()), ('y', 'x', 'z'), (m, n, p), 'x', 'y', 'z')
UNSIZED(vectors_one, (NM, sz p), FITS(Z(n) * Z(m) * Z(p) * Z(4)), (scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>() ^ vector<'z'>(p)), ('y'), (m), 'x', 'y', 'z')
UNSIZED(array, (NM), , (U{} ^ array<'v', 12>()), ('x', 'y'), (n, m), 'v', 'x', 'y')
UNSIZED(bcast, (NM, sz k), , (A{{n, m}} ^ bcast<'v'>()), ('v'), (k), 'v', 'x', 'y')
UNSIZED(bcast_u, (NM, sz k), , (U{} ^ bcast<'v'>()), ('x', 'y', 'v'), (n, m, k), 'v', 'x', 'y')
UNSIZED(into_blocks, (NM, sz k, sz b), FITS(Z(k) * Z(b)), (U{} ^ into_blocks<'x', 'a', 'b'>()), ('a', 'y', 'b'), (k, m, b), 'a', 'b', 'y')
UNSIZED(into_blocks_size, (NM, sz b), REQ(Z(b) > Z(0)), (A{{n, m}} ^ into_blocks<'x', 'a', 'b'>()), ('b'), (b), 'a', 'b', 'y')
UNSIZED(into_blocks_count, (NM, sz k), REQ(Z(k) > Z(0)), (A{{n, m}} ^ into_blocks<'x', 'a', 'b'>()), ('a'), (k), 'a', 'b', 'y')
UNSIZED(into_blocks_given, (NM, sz k, sz b), FITS(Z(k) * Z(b)), (U{} ^ into_blocks<'x', 'a', 'b'>(b)), ('y', 'a'), (m, k), 'a', 'b', 'y')
UNSIZED(merge_blocks, (NM, sz p, sz q), REQ(Z(m) > Z(0)); FITS(Z(q) * Z(m)), (U3{} ^ set_length<'y', 'z'>(m, p) ^ merge_blocks<'x', 'y', 'v'>()), ('v'), (q * m), 'v', 'z')
UNSIZED(shift, (NM, sz a), FITS(Z(n) + Z(a)), (U{} ^ shift<'x'>(a)), ('x', 'y'), (n, m), 'x', 'y')
UNSIZED(shift2, (NM, sz a, sz b), FITS(Z(n) + Z(a)); FITS(Z(m) + Z(b)), (U{} ^ shift<'x', 'y'>(a, b)), ('y', 'x'), (m, n), 'x', 'y')
UNSIZED(shift_other, (NM, sz a), REQ(Z(a) <= Z(n)), (U{} ^ set_length<'x'>(n) ^ shift<'x'>(a)), ('y'), (m), 'x', 'y')
UNSIZED(slice, (NM, sz a, sz l), REQ(Z(a) + Z(l) <= Z(n)), (U{} ^ set_length<'x'>(n) ^ slice<'x'>(a, l)), ('y'), (m), 'x', 'y')
UNSIZED(span, (NM, sz a, sz e), REQ(Z(a) <= Z(e) && Z(e) <= Z(n)), (U{} ^ set_length<'x'>(n) ^ span<'x'>(a, e)), ('y'), (m), 'x', 'y')
UNSIZED(step, (NM, sz s, sz d), REQ(Z(s) < Z(d)); REQ(Z(n) + Z(d) <= TWO64), (U{} ^ set_length<'x'>(n) ^ step<'x'>(s, d)), ('y'), (m), 'x', 'y')
UNSIZED(reverse, (NM), , (U{} ^ reverse<'x'>()), ('x', 'y'), (n, m), 'x', 'y')
UNSIZED(rename, (NM, sz p), , (U3{} ^ rename<'x', 'y', 'y', 'z', 'z', 'x'>()), ('x', 'y', 'z'), (p, n, m), 'x', 'y', 'z')
UNSIZED(hoist, (NM, sz p), , (U3{} ^ hoist<'z', 'y'>()), ('x', 'y', 'z'), (n, m, p), 'x', 'y', 'z')
UNSIZED(reorder, (NM, sz p), , (U3{} ^ reorder<'z', 'x', 'y'>()), ('x', 'y', 'z'), (n, m, p), 'x', 'y', 'z')
UNSIZED(join, (NM), , (U3{} ^ join<'x', 'y', 'd'>()), ('z', 'd'), (m, n), 'd', 'z')
UNSIZED(fix, (NM, sz p, sz f), REQ(Z(f) < Z(m)), (U3{} ^ set_length<'y'>(m) ^ fix<'y'>(f) ^ set_length<'z'>(p)), ('x'), (n), 'x', 'z')
UNSIZED(half, (NM, sz p), , (U3{} ^ set_length<'y'>(m)), ('z', 'x'), (p, n), 'x', 'y', 'z')
UNSIZED(tiled, (NM, sz k), FITS(Z(n) * Z(m) * Z(512)), (scalar<int>() ^ array<'x', 16>() ^ vector<'X'>() ^ vector<'y'>() ^ rename<'X', 'q'>()), ('q', 'y'), (n, m), 'x', 'q', 'y')
} // namespace every
