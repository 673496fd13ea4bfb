// C10 rename / hoist / reorder / join / bcast
#include "abs.hpp"
using namespace noarr;
using A = absn::abs_t<0, int, 'x', 'y', 'z'>;
using U = absn::absu_t<0, int, 'x', 'y', 'z'>;
using SQ = absn::abs_t<1, float, 'x', 'y', 'z'>;

#define PARS sz n, sz m, sz p, sz i, sz j, sz k
#define PRE REQ(Z(i) < Z(n) && Z(j) < Z(m) && Z(k) < Z(p))
#define OFF zoff<0, int>(Z(n), Z(m), Z(p), Z(i), Z(j), Z(k))
#define SIZE zsize<0, int>(Z(n), Z(m), Z(p))

// a structure whose dimensions DX, DY, DZ are the inner x, y, z
template<auto DX, auto DY, auto DZ, class S>
inline void same(S s, PARS) {
	ENS(zlen<DX>(s) == Z(n));
	ENS(zlen<DY>(s) == Z(m));
	ENS(zlen<DZ>(s) == Z(p));
	ENS(zsz(s) == SIZE);
	ENS(zof<DX, DY, DZ>(s, i, j, k) == OFF);
	ENS(zof<DZ, DX, DY>(s, k, i, j) == OFF);
	ENS(zlen<DY>(s ^ fix<DX>(i)) == Z(m));
	ENS(zlen<DZ>(s ^ fix<DX>(i)) == Z(p));
	ENS(zlen<DX>(s ^ fix<DY>(j)) == Z(n));
	ENS(zlen<DX>(s ^ fix<DZ>(k)) == Z(n));
	ENS(zlen<DY>(s ^ fix<DZ>(k)) == Z(m));
	ENS(zof<DZ>(s ^ fix<DX, DY>(i, j), k) == OFF);
	ENS(zof<DX, DZ>(s ^ fix<DY>(j), i, k) == OFF);
	ENS(zsz(s ^ fix<DX, DZ>(i, k)) == SIZE);
	ENS(Z(val(s | offset(idx<DX, DY, DZ>(i, j, k)))) == OFF);
}
CONTRACT(rename_one, PARS) {
	PRE;
	A a{{n, m, p}};
	auto s = a ^ rename<'x', 'a'>();
	same<'a', 'y', 'z'>(s, n, m, p, i, j, k);
	auto t = a ^ rename<'y', 'b'>();
	same<'x', 'b', 'z'>(t, n, m, p, i, j, k);
	auto r = a ^ rename<'z', 'c'>();
	same<'x', 'y', 'c'>(r, n, m, p, i, j, k);
}
CONTRACT(rename_all, PARS) {
	PRE;
	A a{{n, m, p}};
	auto s = a ^ rename<'x', 'a', 'y', 'b', 'z', 'c'>();
	same<'a', 'b', 'c'>(s, n, m, p, i, j, k);
	auto t = a ^ rename<'z', 'c', 'x', 'a'>();
	same<'a', 'y', 'c'>(t, n, m, p, i, j, k);
}
CONTRACT(rename_swap, PARS) {
	PRE;
	A a{{n, m, p}};
	same<'y', 'x', 'z'>(a ^ rename<'x', 'y', 'y', 'x'>(), n, m, p, i, j, k);
	same<'z', 'y', 'x'>(a ^ rename<'z', 'x', 'x', 'z'>(), n, m, p, i, j, k);
}
CONTRACT(rename_cycle, PARS) {
	PRE;
	A a{{n, m, p}};
	same<'y', 'z', 'x'>(a ^ rename<'x', 'y', 'y', 'z', 'z', 'x'>(), n, m, p, i, j, k);
	same<'z', 'x', 'y'>(a ^ rename<'x', 'z', 'y', 'x', 'z', 'y'>(), n, m, p, i, j, k);
	// into a freed name: x gets y's name, y a fresh one
	same<'y', 'w', 'z'>(a ^ rename<'x', 'y', 'y', 'w'>(), n, m, p, i, j, k);
	same<'y', 'w', 'z'>(a ^ rename<'y', 'w', 'x', 'y'>(), n, m, p, i, j, k);
}
CONTRACT(rename_self, PARS) {
	PRE;
	A a{{n, m, p}};
	same<'x', 'b', 'z'>(a ^ rename<'x', 'x', 'y', 'b'>(), n, m, p, i, j, k);
}
CONTRACT(rename_chain, PARS) {
	PRE;
	A a{{n, m, p}};
	same<'x', 'y', 'z'>(a ^ rename<'x', 'y', 'y', 'x'>() ^ rename<'x', 'y', 'y', 'x'>(), n, m, p, i, j, k);
	same<'c', 'y', 'z'>(a ^ rename<'x', 'a'>() ^ rename<'a', 'b'>() ^ rename<'b', 'c'>(), n, m, p, i, j, k);
	same<'y', 'a', 'z'>(a ^ rename<'x', 'a'>() ^ rename<'y', 'x'>() ^ rename<'a', 'y'>() ^ rename<'x', 'a'>(), n, m, p, i, j, k);
}
CONTRACT(rename_named_dims, PARS) {
	PRE;
	static constexpr dim<11> da;
	static constexpr dim<12> db;
	A a{{n, m, p}};
	same<da, db, 'z'>(a ^ rename<'x', da, 'y', db>(), n, m, p, i, j, k);
}
// a length set through a rename, in either order, permuting
CONTRACT(rename_len_through, PARS) {
	PRE;
	U u{};
	same<'y', 'x', 'z'>(u ^ rename<'x', 'y', 'y', 'x'>() ^ set_length<'y', 'x', 'z'>(n, m, p), n, m, p, i, j, k);
	same<'y', 'x', 'z'>(u ^ set_length<'x'>(n) ^ rename<'x', 'y', 'y', 'x'>() ^ set_length<'x', 'z'>(m, p), n, m, p, i, j, k);
	same<'a', 'b', 'z'>(u ^ rename<'x', 'a', 'y', 'b'>() ^ set_length<'z', 'b', 'a'>(p, m, n), n, m, p, i, j, k);
}
// lengths and indices in the query state; tags for the hidden inner names must not leak inside
CONTRACT(rename_state, PARS, sz w) {
	PRE;
	U u{};
	auto s = u ^ rename<'x', 'a', 'y', 'b'>();
	auto st = empty_state.with<length_in<'a'>, length_in<'b'>, length_in<'z'>>(n, m, p);
	ENS(zlen<'a'>(s, st) == Z(n));
	ENS(zlen<'b'>(s, st) == Z(m));
	ENS(zlen<'z'>(s, st) == Z(p));
	ENS(Z(val(s | get_size(st))) == SIZE);
	auto st2 = st.with<index_in<'a'>, index_in<'b'>, index_in<'z'>>(i, j, k);
	ENS(Z(val(s | offset(st2))) == OFF);
	auto in = state_at<U>(s, st2);
	ENS(Z(val(get_index<'x'>(in))) == Z(i));
	ENS(Z(val(get_index<'y'>(in))) == Z(j));
	ENS(Z(val(get_length_in<'x'>(in))) == Z(n));
	ENS(Z(val(get_length_in<'y'>(in))) == Z(m));
	// an index for a dimension called x is not an index of the renamed dimension
	auto leak = state_at<U>(s, empty_state.with<index_in<'x'>, index_in<'b'>>(w, j));
	ENS_TYPE(!state_contains<decltype(leak), index_in<'x'>>);
	ENS(Z(val(get_index<'y'>(leak))) == Z(j));
	// a sized structure does not take an index under the old name
	auto sz_ = A{{n, m, p}} ^ rename<'x', 'a'>();
	ENS(zlen<'a'>(sz_, empty_state.with<index_in<'x'>>(w)) == Z(n));
}
CONTRACT(rename_tuple, sz n, sz i) {
	REQ(Z(n) * Z(64) < TWO64 && Z(i) < Z(n));
	auto t = pack(scalar<double>() ^ vector<'v'>(n), scalar<int>() ^ vector<'v'>(n), scalar<short>() ^ vector<'v'>(n)) ^ tuple<'t'>();
	auto s = t ^ rename<'t', 'v', 'v', 't'>();
	ENS_TYPE(decltype(s | get_length<'v'>())::value == 3);
	ENS(zlen<'t'>(s ^ fix<'v'>(lit<1>)) == Z(n));
	ENS(zof<'v', 't'>(s, lit<0>, i) == zof<'t', 'v'>(t, lit<0>, i));
	ENS(zof<'v', 't'>(s, lit<1>, i) == zof<'t', 'v'>(t, lit<1>, i));
	ENS(zof<'v', 't'>(s, lit<2>, i) == zof<'t', 'v'>(t, lit<2>, i));
	ENS(zsz(s) == zsz(t));
}

// ---- hoist / reorder
CONTRACT(hoist_each, PARS) {
	PRE;
	A a{{n, m, p}};
	same<'x', 'y', 'z'>(a ^ hoist<'x'>(), n, m, p, i, j, k);
	same<'x', 'y', 'z'>(a ^ hoist<'y'>(), n, m, p, i, j, k);
	same<'x', 'y', 'z'>(a ^ hoist<'z'>(), n, m, p, i, j, k);
	ENS_TYPE(std::is_same_v<sig_dim_tree<decltype(a ^ hoist<'z'>())::signature>, sig_dim_tree<absn::abs_t<0, int, 'z', 'x', 'y'>::signature>>);
	ENS_TYPE(std::is_same_v<sig_dim_tree<decltype(a ^ hoist<'y'>())::signature>, sig_dim_tree<absn::abs_t<0, int, 'y', 'x', 'z'>::signature>>);
}
CONTRACT(hoist_many, PARS) {
	PRE;
	A a{{n, m, p}};
	same<'x', 'y', 'z'>(a ^ hoist<'y', 'z'>(), n, m, p, i, j, k);
	same<'x', 'y', 'z'>(a ^ hoist<'z', 'x', 'y'>(), n, m, p, i, j, k);
	ENS_TYPE(std::is_same_v<sig_dim_tree<decltype(a ^ hoist<'y', 'z'>())::signature>, sig_dim_tree<absn::abs_t<0, int, 'y', 'z', 'x'>::signature>>);
	ENS_TYPE(std::is_same_v<sig_dim_tree<decltype(a ^ hoist<'z', 'x', 'y'>())::signature>, sig_dim_tree<absn::abs_t<0, int, 'z', 'x', 'y'>::signature>>);
	ENS_TYPE(std::is_same_v<sig_dim_tree<decltype(a ^ hoist<'y'>() ^ hoist<'z'>())::signature>, sig_dim_tree<absn::abs_t<0, int, 'z', 'y', 'x'>::signature>>);
}
CONTRACT(reorder_all, PARS) {
	PRE;
	A a{{n, m, p}};
	same<'x', 'y', 'z'>(a ^ reorder<'x', 'y', 'z'>(), n, m, p, i, j, k);
	same<'x', 'y', 'z'>(a ^ reorder<'z', 'y', 'x'>(), n, m, p, i, j, k);
	same<'x', 'y', 'z'>(a ^ reorder<'y', 'z', 'x'>(), n, m, p, i, j, k);
	ENS_TYPE(std::is_same_v<sig_dim_tree<decltype(a ^ reorder<'z', 'y', 'x'>())::signature>, sig_dim_tree<absn::abs_t<0, int, 'z', 'y', 'x'>::signature>>);
	ENS_TYPE(std::is_same_v<sig_dim_tree<decltype(a ^ reorder<'y', 'z', 'x'>())::signature>, sig_dim_tree<absn::abs_t<0, int, 'y', 'z', 'x'>::signature>>);
}
CONTRACT(hoist_unsized, PARS) {
	PRE;
	U u{};
	same<'x', 'y', 'z'>(u ^ hoist<'y'>() ^ set_length<'x', 'y', 'z'>(n, m, p), n, m, p, i, j, k);
	same<'x', 'y', 'z'>(u ^ set_length<'y'>(m) ^ reorder<'z', 'x', 'y'>() ^ set_length<'x', 'z'>(n, p), n, m, p, i, j, k);
	same<'x', 'y', 'z'>(u ^ set_length<'x', 'y'>(n, m) ^ hoist<'z', 'y'>() ^ set_length<'z'>(p), n, m, p, i, j, k);
}
CONTRACT(reorder_tuple, sz n, sz i) {
	REQ(Z(n) * Z(64) < TWO64 && Z(i) < Z(n));
	auto t = pack(scalar<double>(), scalar<int>(), scalar<short>()) ^ tuple<'t'>() ^ vector<'v'>(n);
	auto s = t ^ reorder<'t', 'v'>();
	ENS_TYPE(decltype(s | get_length<'t'>())::value == 3);
	ENS(zlen<'v'>(s) == Z(n));
	ENS(zlen<'v'>(s ^ fix<'t'>(lit<2>)) == Z(n));
	ENS(zof<'t', 'v'>(s, lit<2>, i) == zof<'t', 'v'>(t, lit<2>, i));
	ENS(zof<'v'>(s ^ fix<'t'>(lit<1>), i) == zof<'t', 'v'>(t, lit<1>, i));
	ENS_TYPE(std::is_same_v<scalar_t<decltype(s), decltype(idx<'t'>(lit<2>))>, short>);
	ENS(zsz(s) == zsz(t));
}
CONTRACT(chain, PARS) {
	PRE;
	A a{{n, m, p}};
	same<'q', 'y', 'x'>(a ^ hoist<'z'>() ^ rename<'x', 'q', 'z', 'x'>() ^ reorder<'y', 'x', 'q'>(), n, m, p, i, j, k);
	same<'y', 'x', 'z'>(a ^ reorder<'z', 'y', 'x'>() ^ rename<'x', 'y', 'y', 'x'>() ^ hoist<'x'>(), n, m, p, i, j, k);
	same<'a', 'b', 'c'>(a ^ rename<'x', 'a'>() ^ hoist<'z', 'y'>() ^ rename<'y', 'b', 'z', 'c'>() ^ hoist<'b'>(), n, m, p, i, j, k);
}
// strip-mining is blocking plus hoisting
CONTRACT(strip_mine, PARS, sz b, sz q) {
	REQ(Z(b) > Z(0) && Z(q) < Z(n) / Z(b) && Z(i) < Z(b) && Z(j) < Z(m) && Z(k) < Z(p));
	A a{{n, m, p}};
	auto s = a ^ strip_mine<'y', 'b', 'c'>(lit<1>);
	ENS_TYPE(std::is_same_v<sig_dim_tree<decltype(s)::signature>, dim_tree<'b', dim_tree<'x', dim_tree<'c', dim_tree<'z', dim_sequence<>>>>>>);
	auto t = a ^ strip_mine<'x', 'b'>(b);
	ENS(zlen<'b'>(t) == Z(n) / Z(b) && zlen<'x'>(t) == Z(b));
	ENS(zof<'b', 'x', 'y', 'z'>(t, q, i, j, k) == zoff<0, int>(n, m, p, Z(q) * Z(b) + Z(i), j, k));
	ENS(zsz(t) == SIZE);
}

// ---- join
#define PRE_J REQ(Z(i) < Z(n) && Z(k) < Z(p))
#define OFFJ zoff<0, int>(Z(n), Z(n), Z(p), Z(i), Z(i), Z(k))
template<auto J, class S>
inline void joined(S s, sz n, sz p, sz i, sz k) {
	ENS(zlen<J>(s) == Z(n));
	ENS(zlen<'z'>(s) == Z(p));
	ENS(zsz(s) == zsize<0, int>(n, n, p));
	ENS(zof<J, 'z'>(s, i, k) == OFFJ);
	ENS(zof<'z'>(s ^ fix<J>(i), k) == OFFJ);
	ENS(zof<J>(s ^ fix<'z'>(k), i) == OFFJ);
	ENS(zlen<'z'>(s ^ fix<J>(i)) == Z(p));
	ENS(zlen<J>(s ^ fix<'z'>(k)) == Z(n));
	ENS(zsz(s ^ fix<J>(i)) == zsize<0, int>(n, n, p));
}
CONTRACT(join_fresh, sz n, sz p, sz i, sz k) {
	PRE_J;
	A a{{n, n, p}};
	auto s = a ^ join<'x', 'y', 'd'>();
	joined<'d'>(s, n, p, i, k);
	ENS_TYPE(!decltype(s)::has_length<'x', state<>>() && !decltype(s)::has_length<'y', state<>>());
	ENS_TYPE(std::is_same_v<sig_dim_tree<decltype(s)::signature>, dim_tree<'d', dim_tree<'z', dim_sequence<>>>>);
}
CONTRACT(join_default, sz n, sz p, sz i, sz k) {
	PRE_J;
	A a{{n, n, p}};
	auto s = a ^ join<'x', 'y'>();
	joined<'x'>(s, n, p, i, k);
	ENS_TYPE(!decltype(s)::has_length<'y', state<>>());
}
CONTRACT(join_second_name, sz n, sz p, sz i, sz k) {
	PRE_J;
	A a{{n, n, p}};
	auto s = a ^ join<'x', 'y', 'y'>();
	joined<'y'>(s, n, p, i, k);
	ENS_TYPE(!decltype(s)::has_length<'x', state<>>());
	auto t = a ^ join<'y', 'x', 'd'>();
	joined<'d'>(t, n, p, i, k);
}
CONTRACT(join_nonadjacent, sz n, sz p, sz i, sz k) {
	PRE_J;
	A a{{n, p, n}};
	auto s = a ^ join<'x', 'z', 'd'>();
	ENS(zlen<'d'>(s) == Z(n));
	ENS(zlen<'y'>(s) == Z(p));
	ENS(zsz(s) == zsize<0, int>(n, p, n));
	ENS(zof<'d', 'y'>(s, i, k) == zoff<0, int>(n, p, n, i, k, i));
}
CONTRACT(join_unsized, sz n, sz p, sz i, sz k) {
	PRE_J;
	U u{};
	joined<'d'>(u ^ join<'x', 'y', 'd'>() ^ set_length<'d', 'z'>(n, p), n, p, i, k);
	joined<'x'>(u ^ set_length<'z'>(p) ^ join<'x', 'y'>() ^ set_length<'x'>(n), n, p, i, k);
	joined<'d'>(u ^ set_length<'x', 'y', 'z'>(n, n, p) ^ join<'x', 'y', 'd'>(), n, p, i, k);
}
CONTRACT(join_traverse_pd, sz n) {
	REQ(Z(n) * Z(n) * Z(4) < TWO64);
	CASE(0, Z(n) == Z(0));
	auto s = scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(n) ^ join<'x', 'y', 'd'>();
	vg_set(0, 0);
	traverser(s).for_each([&](auto st) {
		ENS(Z(val(get_index<'d'>(st))) == Z(vg_get(0)));
		ENS(Z(val(get_index<'d'>(st))) < Z(n));
		vg_set(0, vg_get(0) + 1);
	});
	ENS(Z(vg_get(0)) == Z(n));
}

// ---- bcast
template<auto D, class S>
inline void bcasted(S s, PARS, sz l, sz c, sz c2) {
	ENS(zlen<D>(s) == Z(l));
	ENS(zlen<'x'>(s) == Z(n));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zlen<'z'>(s) == Z(p));
	ENS(zsz(s) == SIZE);
	ENS(zof<D, 'x', 'y', 'z'>(s, c, i, j, k) == OFF);
	ENS(zof<'x', 'y', 'z'>(s ^ fix<D>(c2), i, j, k) == OFF);
	ENS(zlen<D>(s ^ fix<'x'>(i)) == Z(l));
	ENS(zlen<'x'>(s ^ fix<D>(c)) == Z(n));
	ENS(zsz(s ^ fix<D>(c)) == SIZE);
	ENS(zof<D>(s ^ fix<'z', 'x', 'y'>(k, i, j), c) == zof<D>(s ^ fix<'x', 'y', 'z'>(i, j, k), c2));
}
#define PRE_BC REQ(Z(i) < Z(n) && Z(j) < Z(m) && Z(k) < Z(p) && Z(c) < Z(l) && Z(c2) < Z(l))
CONTRACT(bcast_set, PARS, sz l, sz c, sz c2) {
	PRE_BC;
	A a{{n, m, p}};
	bcasted<'q'>(a ^ bcast<'q'>() ^ set_length<'q'>(l), n, m, p, i, j, k, l, c, c2);
	bcasted<'q'>(a ^ bcast<'q'>(l), n, m, p, i, j, k, l, c, c2);
}
CONTRACT(bcast_unsized, PARS, sz l, sz c, sz c2) {
	PRE_BC;
	U u{};
	bcasted<'q'>(u ^ bcast<'q'>() ^ set_length<'x', 'q', 'y', 'z'>(n, l, m, p), n, m, p, i, j, k, l, c, c2);
	bcasted<'q'>(u ^ set_length<'x', 'y'>(n, m) ^ bcast<'q'>(l) ^ set_length<'z'>(p), n, m, p, i, j, k, l, c, c2);
}
CONTRACT(bcast_many, PARS, sz l, sz c, sz l2, sz c2) {
	REQ(Z(i) < Z(n) && Z(j) < Z(m) && Z(k) < Z(p) && Z(c) < Z(l) && Z(c2) < Z(l2));
	A a{{n, m, p}};
	auto s = a ^ bcast<'q', 'r'>(l, l2);
	ENS(zlen<'q'>(s) == Z(l));
	ENS(zlen<'r'>(s) == Z(l2));
	ENS(zsz(s) == SIZE);
	ENS(zof<'q', 'r', 'x', 'y', 'z'>(s, c, c2, i, j, k) == OFF);
	auto t = a ^ bcast<'q', 'r'>() ^ set_length<'r', 'q'>(l2, l);
	ENS(zlen<'q'>(t) == Z(l));
	ENS(zlen<'r'>(t) == Z(l2));
	ENS(zof<'q', 'r', 'x', 'y', 'z'>(t, c, c2, i, j, k) == OFF);
}
CONTRACT(bcast_views, PARS, sz l, sz c, sz c2) {
	PRE_BC;
	A a{{n, m, p}};
	bcasted<'q'>(a ^ bcast<'w'>(l) ^ rename<'w', 'q'>(), n, m, p, i, j, k, l, c, c2);
	bcasted<'q'>(a ^ rename<'x', 'y', 'y', 'x'>() ^ bcast<'q'>(l) ^ rename<'x', 'y', 'y', 'x'>() ^ hoist<'y'>(), n, m, p, i, j, k, l, c, c2);
}
// ---- over every structure of the library
#include "every.hpp"
namespace every {
template<auto... D>
struct in_place {
	template<auto Q, class S, class St>
	static void one(S s, St st, sz a, sz b) {
		const sz i = get_index<Q>(st);
		auto r = s ^ rename<Q, 'R'>();
		auto rt = without<Q>(st).template with<index_in<'R'>>(i);
		ENS(at(r, rt) == at(s, st));
		same_len<Q, 'R'>(s, st, r, rt);
		others<Q, D...>::keep(s, st, r, rt);
		ENS_TYPE(decltype(r)::signature::template any_accept<'R'> && !decltype(r)::signature::template any_accept<Q>);
		auto h = s ^ hoist<Q>();
		ENS(at(h, st) == at(s, st));
		others<'R', D...>::keep(s, st, h, st);
		ENS_TYPE(head<typename decltype(h)::signature> == Q);
		auto c = s ^ bcast<'R'>(a);
		ENS(at(c, st.template with<index_in<'R'>>(b)) == at(s, st));
		ENS(length<'R'>(c) == Z(a));
		others<'R', D...>::keep(s, st, c, st.template with<index_in<'R'>>(b));
	}
	template<auto P, auto Q, auto... R>
	struct rotate {
		template<class S, class St>
		static void go(S s, St st) {
			auto o = s ^ reorder<R..., Q, P>();
			ENS(at(o, st) == at(s, st));
			others<'R', P, Q, R...>::keep(s, st, o, st);
			auto e = s ^ rename<P, Q, Q, P>();
			auto et = with<Q>(with<P>(st, get_index<Q>(st)), get_index<P>(st));
			ENS(at(e, et) == at(s, st));
			same_len<P, Q>(s, st, e, et);
			same_len<Q, P>(s, st, e, et);
			(same_len<R, R>(s, st, e, et), ...);
		}
	};
	template<class S, class St>
	static void go(S s, St st, sz q, sz a, sz b) {
		REQ(Z(b) < Z(a));
		(one<D>(s, st, a, b), ...);
		if constexpr (sizeof...(D) > 1)
			rotate<D...>::go(s, st);
	}
};
} // namespace every
#define EVERY_CHECK in_place
#include "every.inc"
