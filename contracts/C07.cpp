// C07 merge_blocks
#include "abs.hpp"
using namespace noarr;
using A = absn::abs_t<0, int, 'a', 'b', 'y'>;   // major, minor, bystander
using AR = absn::abs_t<0, int, 'y', 'b', 'a'>;  // minor declared outside of major
using U = absn::absu_t<0, int, 'a', 'b', 'y'>;
using D2 = absn::abs_t<0, int, 'x', 'y'>;

#define OFF(l0, l1, l2, i0, i1, i2) zoff<0, int>(Z(l0), Z(l1), Z(l2), Z(i0), Z(i1), Z(i2))
#define PRE REQ(Z(M) * Z(n) < TWO64 && Z(k) < Z(M) * Z(n) && Z(y) < Z(m))

CONTRACT(fresh, sz M, sz n, sz m, sz k, sz y) {
	PRE;
	A a{{M, n, m}};
	auto s = a ^ merge_blocks<'a', 'b', 'x'>();
	ENS(zlen<'x'>(s) == Z(M) * Z(n));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zsz(s) == zsize<0, int>(M, n, m));
	ENS(Z(k) / Z(n) < Z(M));
	ENS(zof<'x', 'y'>(s, k, y) == OFF(M, n, m, Z(k) / Z(n), Z(k) % Z(n), y));
	ENS(zof<'y'>(s ^ fix<'x'>(k), y) == OFF(M, n, m, Z(k) / Z(n), Z(k) % Z(n), y));
	ENS(zlen<'y'>(s ^ fix<'x'>(k)) == Z(m));
	ENS(zlen<'x'>(s ^ fix<'y'>(y)) == Z(M) * Z(n));
	ENS_TYPE(!decltype(s)::has_length<'a', state<>>() && !decltype(s)::has_length<'b', state<>>());
}
CONTRACT(default_minor, sz M, sz n, sz m, sz k, sz y) {
	PRE;
	A a{{M, n, m}};
	auto s = a ^ merge_blocks<'a', 'b'>();
	ENS(zlen<'b'>(s) == Z(M) * Z(n));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zsz(s) == zsize<0, int>(M, n, m));
	ENS(Z(k) / Z(n) < Z(M));
	ENS(zof<'b', 'y'>(s, k, y) == OFF(M, n, m, Z(k) / Z(n), Z(k) % Z(n), y));
}
CONTRACT(major_name, sz M, sz n, sz m, sz k, sz y) {
	PRE;
	A a{{M, n, m}};
	auto s = a ^ merge_blocks<'a', 'b', 'a'>();
	ENS(zlen<'a'>(s) == Z(M) * Z(n));
	ENS(Z(k) / Z(n) < Z(M));
	ENS(zof<'a', 'y'>(s, k, y) == OFF(M, n, m, Z(k) / Z(n), Z(k) % Z(n), y));
}
CONTRACT(reversed_nesting, sz M, sz n, sz m, sz k, sz y) {
	PRE;
	AR a{{m, n, M}};
	auto s = a ^ merge_blocks<'a', 'b', 'x'>();
	ENS(zlen<'x'>(s) == Z(M) * Z(n));
	ENS(zsz(s) == zsize<0, int>(m, n, M));
	ENS(Z(k) / Z(n) < Z(M));
	ENS(zof<'x', 'y'>(s, k, y) == OFF(m, n, M, y, Z(k) % Z(n), Z(k) / Z(n)));
}
CONTRACT(unsized_all_set, sz M, sz n, sz m, sz k, sz y) {
	PRE;
	U u{};
	auto s = u ^ set_length<'a', 'b', 'y'>(M, n, m) ^ merge_blocks<'a', 'b', 'x'>();
	ENS(zlen<'x'>(s) == Z(M) * Z(n));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zsz(s) == zsize<0, int>(M, n, m));
	ENS(Z(k) / Z(n) < Z(M));
	ENS(zof<'x', 'y'>(s, k, y) == OFF(M, n, m, Z(k) / Z(n), Z(k) % Z(n), y));
}
// merged length set, minor known
CONTRACT(merged_len_minor_known, sz L, sz n, sz m, sz k, sz y) {
	REQ(Z(n) > Z(0) && Z(k) < (Z(L) / Z(n)) * Z(n) && Z(y) < Z(m));
	U u{};
	auto s = u ^ set_length<'b', 'y'>(n, m) ^ merge_blocks<'a', 'b', 'x'>() ^ set_length<'x'>(L);
	ENS(zlen<'x'>(s) == Z(L));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zsz(s) == zsize<0, int>(Z(L) / Z(n), n, m));
	ENS(Z(k) / Z(n) < Z(L) / Z(n));
	ENS(zof<'x', 'y'>(s, k, y) == OFF(Z(L) / Z(n), n, m, Z(k) / Z(n), Z(k) % Z(n), y));
	auto t = u ^ set_length<'y'>(m) ^ merge_blocks<'a', 'b', 'x'>(n) ^ set_length<'x'>(L);
	ENS(zof<'x', 'y'>(t, k, y) == OFF(Z(L) / Z(n), n, m, Z(k) / Z(n), Z(k) % Z(n), y));
	ENS(zlen<'x'>(t) == Z(L));
	ENS(zsz(t) == zsize<0, int>(Z(L) / Z(n), n, m));
}
// merged length set, major known
CONTRACT(merged_len_major_known, sz L, sz M, sz m, sz k, sz y) {
	REQ(Z(M) > Z(0) && Z(L) >= Z(M) && Z(k) < Z(M) * (Z(L) / Z(M)) && Z(y) < Z(m));
	U u{};
	auto s = u ^ set_length<'a', 'y'>(M, m) ^ merge_blocks<'a', 'b', 'x'>() ^ set_length<'x'>(L);
	Z n = Z(L) / Z(M);
	ENS(n > Z(0));
	ENS(zlen<'x'>(s) == Z(L));
	ENS(zsz(s) == zsize<0, int>(M, n, m));
	ENS(Z(k) / n < Z(M));
	ENS(zof<'x', 'y'>(s, k, y) == OFF(M, n, m, Z(k) / n, Z(k) % n, y));
}
// lengths in the query state
CONTRACT(state_len, sz L, sz n, sz m, sz k, sz y) {
	REQ(Z(n) > Z(0) && Z(k) < (Z(L) / Z(n)) * Z(n) && Z(y) < Z(m));
	U u{};
	auto s = u ^ set_length<'b', 'y'>(n, m) ^ merge_blocks<'a', 'b', 'x'>();
	auto st = empty_state.with<length_in<'x'>>(L);
	ENS(zlen<'x'>(s, st) == Z(L));
	ENS(zlen<'y'>(s, st) == Z(m));
	ENS(Z(val(s | get_size(st))) == zsize<0, int>(Z(L) / Z(n), n, m));
	auto st2 = st.with<index_in<'x'>, index_in<'y'>>(k, y);
	ENS(Z(k) / Z(n) < Z(L) / Z(n));
	ENS(Z(val(s | offset(st2))) == OFF(Z(L) / Z(n), n, m, Z(k) / Z(n), Z(k) % Z(n), y));
	auto in = state_at<U>(s, st2);
	ENS(Z(val(get_index<'a'>(in))) == Z(k) / Z(n));
	ENS(Z(val(get_index<'b'>(in))) == Z(k) % Z(n));
	ENS(Z(val(get_length_in<'a'>(in))) == Z(L) / Z(n));
}
// round trips
CONTRACT(merge_of_split, sz k, sz b, sz m, sz p, sz y) {
	REQ(Z(b) > Z(0) && Z(k) * Z(b) < TWO64 && Z(p) < Z(k) * Z(b) && Z(y) < Z(m));
	sz n = k * b;
	D2 a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a', 'b'>(b) ^ merge_blocks<'a', 'b', 'z'>();
	ENS(zlen<'z'>(s) == Z(n));
	ENS(zsz(s) == zsize<0, int>(n, m));
	ENS(zof<'z', 'y'>(s, p, y) == zof<'x', 'y'>(a, p, y));
	auto t = a ^ into_blocks<'x', 'a'>(b) ^ merge_blocks<'a', 'x'>();
	ENS(zlen<'x'>(t) == Z(n));
	ENS(zof<'x', 'y'>(t, p, y) == zof<'x', 'y'>(a, p, y));
}
CONTRACT(split_of_merge, sz M, sz n, sz m, sz i, sz j, sz y) {
	REQ(Z(M) * Z(n) < TWO64 && Z(i) < Z(M) && Z(j) < Z(n) && Z(y) < Z(m));
	A a{{M, n, m}};
	auto s = a ^ merge_blocks<'a', 'b', 'x'>() ^ into_blocks<'x', 'c', 'd'>(n);
	ENS(zlen<'c'>(s) == Z(M));
	ENS(zlen<'d'>(s) == Z(n));
	ENS(zof<'c', 'd', 'y'>(s, i, j, y) == zof<'a', 'b', 'y'>(a, i, j, y));
	auto t = a ^ merge_blocks<'a', 'b', 'x'>() ^ into_blocks<'x', 'a', 'b'>() ^ set_length<'a'>(M);
	ENS(zlen<'a'>(t) == Z(M));
	ENS(zlen<'b'>(t) == Z(n));
	ENS(zof<'a', 'b', 'y'>(t, i, j, y) == zof<'a', 'b', 'y'>(a, i, j, y));
}
CONTRACT(injective, sz M, sz n, sz m, sz k, sz y, sz k2, sz y2) {
	PRE;
	REQ(Z(k2) < Z(M) * Z(n) && Z(y2) < Z(m) && (Z(k) != Z(k2) || Z(y) != Z(y2)));
	A a{{M, n, m}};
	auto s = a ^ merge_blocks<'a', 'b', 'x'>();
	auto i1 = state_at<A>(s ^ fix<'x', 'y'>(k, y), empty_state), i2 = state_at<A>(s ^ fix<'x', 'y'>(k2, y2), empty_state);
	ENS(Z(get_index<'a'>(i1)) != Z(get_index<'a'>(i2)) || Z(get_index<'b'>(i1)) != Z(get_index<'b'>(i2)) ||
	    Z(get_index<'y'>(i1)) != Z(get_index<'y'>(i2)));
}
// static lengths
CONTRACT(static_minor, sz M, sz k) {
	REQ(Z(M) * Z(24) < TWO64 && Z(k) < Z(M) * Z(6));
	auto s = scalar<int>() ^ array<'b', 6>() ^ vector<'a'>(M) ^ merge_blocks<'a', 'b', 'x'>();
	ENS(zlen<'x'>(s) == Z(M) * Z(6));
	ENS(zsz(s) == Z(M) * Z(24));
	ENS(zof<'x'>(s, k) == Z(k) * Z(4));
	auto t = scalar<int>() ^ vector<'a'>(M) ^ array<'b', 6>() ^ merge_blocks<'a', 'b', 'x'>();
	ENS(zlen<'x'>(t) == Z(M) * Z(6));
	ENS(Z(k) / Z(6) < Z(M));
	ENS((Z(k) % Z(6)) * (Z(M) * Z(4)) <= Z(5) * (Z(M) * Z(4)));
	ENS(zof<'x'>(t, k) == ((Z(k) % Z(6)) * Z(M) + Z(k) / Z(6)) * Z(4));
}
CONTRACT(all_static, sz k) {
	REQ(Z(k) < Z(12));
	auto s = scalar<int>() ^ array<'a', 3>() ^ array<'b', 4>() ^ merge_blocks<'a', 'b', 'x'>();
	ENS_TYPE(decltype(s | get_length<'x'>())::value == 12);
	ENS_TYPE(decltype(s | get_size())::value == 48);
	ENS(zof<'x'>(s, k) == ((Z(k) % Z(4)) * Z(3) + Z(k) / Z(4)) * Z(4));
	ENS_TYPE(decltype(s | offset<'x'>(lit<7>))::value == (3 * 3 + 1) * 4);
}
// ---- over every structure of the library
#include "every.hpp"
namespace every {
template<auto... D>
struct merged {
	template<class S, class St>
	static void go(S s, St st, sz q, sz a, sz b) {
		if constexpr (sizeof...(D) > 1)
			first<D...>::go(s, st, q, a, b);
		else
			first<D..., 'B'>::go(s ^ bcast<'B'>(b), st.template with<index_in<'B'>>(sz(0)), q, a, b);
	}
	template<auto P, auto Q, auto... R>
	struct first {
		template<class S, class St>
		static void go(S s, St st, sz q, sz a, sz b) {
			if constexpr (plain<P, S> && plain<Q, S> && (... && plain<R, S>)) {
				if (q == 0)
					pair<P, Q>(s, st, a);
				else
					pair<Q, P>(s, st, b);
			} else // only some combinations of indices are valid
				ENS(at(s, st) + Z(sizeof(scalar_t<S, St>)) <= Z(val(s | get_size())));
		}
		template<auto X, auto Y, class S, class St>
		static void pair(S s, St st, sz k) {
			REQ(length<X>(s) * length<Y>(s) < TWO64 && Z(k) < length<X>(s) * length<Y>(s));
			const sz l = s | get_length<Y>();
			auto v = s ^ merge_blocks<X, Y, 'M'>();
			auto vt = without<Y>(without<X>(st)).template with<index_in<'M'>>(k);
			ENS(at(v, vt) == at(s, with<Y>(with<X>(st, k / l), k % l)));
			ENS(length<'M'>(v) == length<X>(s) * length<Y>(s));
			(same_len<R, R>(s, st, v, vt), ...);
			ENS(Z(val(s | get_size())) == Z(val(v | get_size())));
		}
	};
};
} // namespace every
#define EVERY_CHECK merged
#include "every.inc"
