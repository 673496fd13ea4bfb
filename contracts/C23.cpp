// C23 static and dynamic parameters give identical results
#include "trav.hpp"
using namespace noarr;
using A = absn::abs_t<0, int, 'x', 'y'>;
using U = absn::absu_t<0, int, 'x', 'y'>;

// the static length the signature announces for a dimension
template<auto Q, class Sig>
struct sl {
	static constexpr bool value = false;
	static constexpr sz len = 0;
};
template<auto Q, class L, class R>
struct sl<Q, function_sig<Q, L, R>> {
	static constexpr bool value = L::is_static;
	static constexpr sz len = [] {
		if constexpr (L::is_static)
			return L::value;
		else
			return sz(0);
	}();
};
template<auto Q, auto D, class L, class R>
struct sl<Q, function_sig<D, L, R>> : sl<Q, R> {};

template<bool Dyn, sz L>
constexpr auto pick() {
	if constexpr (Dyn)
		return sz(L);
	else
		return lit<L>;
}
// f(p...) for every mixture of literals and run-time values; each is compared with the fully dynamic one
template<sz... L, class F, class C>
inline void mixtures(F f, C check) {
	constexpr sz K = sizeof...(L);
	auto ref = f(sz(L)...);
	[&]<sz... M>(std::index_sequence<M...>) {
		(([&] {
			 constexpr sz m = M;
			 [&]<sz... P>(std::index_sequence<P...>) {
				 constexpr sz v[] = {L...};
				 check(f(pick<(m >> P) & 1, v[P]>()...), ref);
			 }(std::make_index_sequence<K>());
		 }()),
		 ...);
	}(std::make_index_sequence<(sz(1) << K) - 1>());
}
// same dimensions, lengths, size, and the same offset of the given index tuple
template<auto... D, class S, class R, class... I>
inline void same(S s, R r, I... i) {
	(([&] {
		 ENS_TYPE(S::template has_length<D, state<>>() == R::template has_length<D, state<>>());
		 if constexpr (S::template has_length<D, state<>>()) {
			 ENS(zlen<D>(s) == zlen<D>(r));
			 if constexpr (sl<D, typename S::signature>::value)
				 ENS(Z(sl<D, typename S::signature>::len) == zlen<D>(s));
		 }
		 ENS_TYPE(S::signature::template all_accept<D> == R::signature::template all_accept<D>);
	 }()),
	 ...);
	ENS_TYPE(S::template has_size<state<>>() == R::template has_size<state<>>());
	if constexpr (S::template has_size<state<>>())
		ENS(zsz(s) == zsz(r));
	if constexpr (sizeof...(I) > 0)
		ENS(zof<D...>(s, i...) == zof<D...>(r, i...));
}

// --- the arithmetic on literals
template<sz X>
inline void arith(sz a) {
	using namespace constexpr_arithmetic;
	constexpr make_const<X> x{};
	ENS(Z(val(x + a)) == Z(sz(X + a)) && Z(val(a + x)) == Z(sz(a + X)));
	ENS(Z(val(x - a)) == Z(sz(X - a)) && Z(val(a - x)) == Z(sz(a - X)));
	ENS(Z(val(x * a)) == Z(sz(X * a)) && Z(val(a * x)) == Z(sz(a * X)));
	if constexpr (X != 0)
		ENS(Z(val(a / x)) == Z(a) / Z(X) && Z(val(a % x)) == Z(a) % Z(X));
	if (a != 0)
		ENS(Z(val(x / a)) == Z(X) / Z(a) && Z(val(x % a)) == Z(X) % Z(a));
}
template<sz X, sz Y>
inline void arith2() {
	using namespace constexpr_arithmetic;
	constexpr make_const<X> x{};
	constexpr make_const<Y> y{};
	ENS_TYPE(decltype(x + y)::value == sz(X + Y) && decltype(x - y)::value == sz(X - Y) && decltype(x * y)::value == sz(X * Y));
	if constexpr (Y != 0)
		ENS_TYPE(decltype(x / y)::value == X / Y && decltype(x % y)::value == X % Y);
}
CONTRACT(arithmetic, sz a) {
	arith<0>(a);
	arith<1>(a);
	arith<2>(a);
	arith<7>(a);
	arith<sz(-1)>(a);
	arith<sz(1) << 63>(a);
}
CONTRACT(arithmetic_literals) {
	arith2<0, 0>();
	arith2<0, 5>();
	arith2<5, 0>();
	arith2<1, 1>();
	arith2<7, 3>();
	arith2<3, 7>();
	arith2<sz(-1), 2>();
	arith2<sz(1) << 40, sz(1) << 23>();
}
// indices and lengths of every integer type are the value itself
CONTRACT(index_types, sz i) {
	ENS_TYPE(std::is_same_v<good_index_t<int>, sz> && std::is_same_v<good_index_t<unsigned char>, sz> && std::is_same_v<good_index_t<sz>, sz> && std::is_same_v<good_index_t<long long>, sz>);
	ENS_TYPE(std::is_same_v<good_index_t<lit_t<7>>, std::integral_constant<sz, 7>> && std::is_same_v<good_index_t<std::integral_constant<int, 7>>, sz>);
	ENS_TYPE(lit<0>.value == 0 && lit<sz(-1)>.value == sz(-1));
	auto t = idx<'x', 'y', 'z', 'w'>(lit<9>, i, (unsigned char)i, (unsigned)i);
	ENS(Z(val(get_index<'x'>(t))) == Z(9) && Z(val(get_index<'y'>(t))) == Z(i));
	ENS(Z(val(get_index<'z'>(t))) == Z(i) % Z(256) && Z(val(get_index<'w'>(t))) == Z(i) % Z(sz(1) << 32));
}

// --- layouts
CONTRACT(layouts, sz n, sz i, sz j, sz k) {
	REQ(Z(n) * Z(140) < TWO64 && Z(k) < Z(n) && Z(i) < Z(5) && Z(j) < Z(7));
	mixtures<5, 7>([=](auto p, auto q) { return scalar<int>() ^ vector<'x'>(p) ^ vector<'z'>(n) ^ vector<'y'>(q); },
	               [=](auto s, auto r) { same<'x', 'y', 'z'>(s, r, i, j, k); });
	mixtures<5, 7>([=](auto p, auto q) { return scalar<int>() ^ vectors<'x', 'z', 'y'>(p, n, q); },
	               [=](auto s, auto r) { same<'x', 'y', 'z'>(s, r, i, j, k); });
	mixtures<5, 7>([=](auto p, auto q) { return scalar<int>() ^ vector<'x'>() ^ vector<'z'>() ^ vector<'y'>() ^ set_length<'y', 'x'>(q, p) ^ set_length<'z'>(n); },
	               [=](auto s, auto r) { same<'x', 'y', 'z'>(s, r, i, j, k); });
	auto r = scalar<int>() ^ vector<'x'>(sz(5)) ^ vector<'z'>(n) ^ vector<'y'>(sz(7));
	same<'x', 'y', 'z'>(scalar<int>() ^ array<'x', 5>() ^ vector<'z'>(n) ^ array<'y', 7>(), r, i, j, k);
	same<'x', 'y', 'z'>(scalar<int>() ^ array<'x', 5>() ^ vector<'z'>(n) ^ vector<'y'>(7), r, i, j, k);
	same<'x', 'y', 'z'>(scalar<int>() ^ sized_vectors<'x', 'z', 'y'>(5, n, lit<7>), r, i, j, k);
}
CONTRACT(bcasts, sz n, sz i, sz j) {
	REQ(Z(n) * Z(4) < TWO64 && Z(j) < Z(n) && Z(i) < Z(5));
	mixtures<5>([=](auto p) { return scalar<int>() ^ vector<'y'>(n) ^ bcast<'x'>(p); },
	            [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
	mixtures<5>([=](auto p) { return scalar<int>() ^ bcast<'x'>() ^ vector<'y'>(n) ^ set_length<'x'>(p); },
	            [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
}
// all static: a size and an offset known at compile time are the run-time ones
CONTRACT(all_static, sz i, sz j) {
	REQ(Z(i) < Z(5) && Z(j) < Z(7));
	auto d = scalar<int>() ^ vector<'x'>(i + 1) ^ vector<'y'>(j + 1);
	auto s = scalar<int>() ^ vector<'x'>(lit<5>) ^ vector<'y'>(lit<7>);
	auto r = scalar<int>() ^ vector<'x'>(sz(5)) ^ vector<'y'>(sz(7));
	ENS_TYPE(decltype(s | get_size())::value == 140);
	ENS_TYPE(decltype(s | offset<'x', 'y'>(lit<4>, lit<6>))::value == 136);
	ENS_TYPE(decltype(s | offset<'y', 'x'>(lit<2>, lit<1>))::value == 44);
	ENS(zof<'x', 'y'>(s, lit<4>, lit<6>) == zof<'x', 'y'>(r, sz(4), sz(6)));
	ENS(zof<'x', 'y'>(s, lit<1>, j) == zof<'x', 'y'>(r, sz(1), j));
	ENS(zof<'x', 'y'>(s, i, lit<2>) == zof<'x', 'y'>(r, i, sz(2)));
	ENS(zof<'x', 'y'>(s, i, j) == (Z(j) * Z(5) + Z(i)) * Z(4));
	ENS(zof<'x', 'y'>(d, i, lit<0>) == Z(i) * Z(4) && zof<'x', 'y'>(d, lit<0>, j) == Z(j) * (Z(i) + Z(1)) * Z(4));
}
// --- indices given as literals, to any structure
CONTRACT(literal_indices, sz n, sz m, sz i, sz j) {
	REQ(Z(n) > Z(3) && Z(m) > Z(2) && Z(i) < Z(n) && Z(j) < Z(m));
	A a{{n, m}};
	ENS(zof<'x', 'y'>(a, lit<3>, j) == zof<'x', 'y'>(a, sz(3), j));
	ENS(zof<'x', 'y'>(a, i, lit<2>) == zof<'x', 'y'>(a, i, sz(2)));
	ENS(zof<'x', 'y'>(a, lit<3>, lit<2>) == zof<'x', 'y'>(a, sz(3), sz(2)));
	ENS(zof(a ^ fix<'x', 'y'>(lit<3>, j)) == zof<'x', 'y'>(a, 3, j));
	ENS(zof(a ^ fix<'x'>(lit<3>) ^ fix(idx<'y'>(lit<2>))) == zof<'x', 'y'>(a, 3, 2));
	ENS(Z(val(a | offset(idx<'x'>(lit<0>) & idx<'y'>(j)))) == zof<'x', 'y'>(a, sz(0), j));
	ENS(Z(val(a ^ fix<'y'>(lit<2>) | offset<'x'>(i))) == zof<'x', 'y'>(a, i, sz(2)));
}
CONTRACT(literal_state, sz n, sz m, sz i, sz j) {
	REQ(Z(n) > Z(9) && Z(m) > Z(9) && Z(i) < Z(n) && Z(j) < Z(m));
	U u{};
	auto r = u ^ set_length<'x', 'y'>(n, m);
	ENS(Z(val(u | offset(state<state_item<length_in<'x'>, sz>, state_item<length_in<'y'>, sz>>(n, m) & idx<'x', 'y'>(i, j)))) == zof<'x', 'y'>(r, i, j));
	auto r3 = u ^ set_length<'x', 'y'>(sz(5), m);
	REQ(Z(i) < Z(5));
	same<'x', 'y'>(u ^ set_length<'x'>(lit<5>) ^ set_length<'y'>(m), r3, i, j);
	same<'x', 'y'>(u ^ set_length<'y'>(m) ^ set_length<'x'>(lit<5>), r3, i, j);
	same<'x', 'y'>(u ^ set_length<'y', 'x'>(m, lit<5>), r3, i, j);
}
// --- views of an arbitrary structure
CONTRACT(view_shift, sz n, sz m, sz i, sz j) {
	REQ(Z(n) >= Z(5) && Z(m) >= Z(2) && Z(i) < Z(n) - Z(5) && Z(j) < Z(m) - Z(2));
	A a{{n, m}};
	mixtures<5, 2>([=](auto p, auto q) { return a ^ shift<'x', 'y'>(p, q); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
	mixtures<3, 2, 2>([=](auto p, auto q, auto o) { return a ^ shift<'x'>(p) ^ shift<'y'>(q) ^ shift<'x'>(o); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
	mixtures<0>([=](auto p) { return a ^ shift<'x'>(p); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
}
CONTRACT(view_slice, sz n, sz m, sz i, sz j) {
	REQ(Z(n) >= Z(9) && Z(i) < Z(4) && Z(j) < Z(m));
	A a{{n, m}};
	mixtures<5, 4>([=](auto p, auto q) { return a ^ slice<'x'>(p, q); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
	mixtures<4>([=](auto q) { return a ^ slice<'x'>(q); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
	mixtures<0, 4>([=](auto p, auto q) { return a ^ slice<'x'>(p, q); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
}
CONTRACT(view_span, sz n, sz m, sz i, sz j) {
	REQ(Z(n) >= Z(9) && Z(i) < Z(4) && Z(j) < Z(m));
	A a{{n, m}};
	mixtures<5, 9>([=](auto p, auto q) { return a ^ span<'x'>(p, q); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
	mixtures<9>([=](auto q) { return a ^ span<'x'>(q); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
	mixtures<0, 4>([=](auto p, auto q) { return a ^ span<'x'>(p, q); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
}
CONTRACT(view_step, sz n, sz m, sz i, sz j) {
	REQ(Z(n) + Z(3) < TWO64 && Z(1) + Z(i) * Z(3) < Z(n) && Z(j) < Z(m));
	A a{{n, m}};
	mixtures<1, 3>([=](auto p, auto q) { return a ^ step<'x'>(p, q); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
	mixtures<0, 1>([=](auto p, auto q) { return a ^ step<'x'>(p, q); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
	mixtures<1, 3>([=](auto p, auto q) { return a ^ step(p, q); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
}
CONTRACT(view_reverse, sz m, sz i, sz j) {
	REQ(Z(m) * Z(20) < TWO64 && Z(i) < Z(5) && Z(j) < Z(m));
	mixtures<5>([=](auto p) { return scalar<int>() ^ vector<'x'>(p) ^ vector<'y'>(m) ^ reverse<'x'>(); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
	mixtures<5>([=](auto p) { return scalar<int>() ^ vector<'x'>(p) ^ vector<'y'>(m) ^ reverse<'y'>(); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
}
// views of a structure whose own length may be a literal: the announced lengths are the actual ones
CONTRACT(view_of_static, sz m, sz j) {
	REQ(Z(m) * Z(52) < TWO64 && Z(j) < Z(m));
	auto base = [=](auto l) { return scalar<int>() ^ vector<'y'>(m) ^ vector<'x'>(l); };
	mixtures<13, 5>([=](auto l, auto p) { return base(l) ^ shift<'x'>(p); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, 7, j); });
	mixtures<13, 5, 4>([=](auto l, auto p, auto q) { return base(l) ^ slice<'x'>(p, q); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, 3, j); });
	mixtures<13, 5, 9>([=](auto l, auto p, auto q) { return base(l) ^ span<'x'>(p, q); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, 3, j); });
	mixtures<13, 1, 3>([=](auto l, auto p, auto q) { return base(l) ^ step<'x'>(p, q); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, 3, j); });
	mixtures<13, 0, 5>([=](auto l, auto p, auto q) { return base(l) ^ step<'x'>(p, q); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, 2, j); });
	mixtures<13, 4>([=](auto l, auto p) { return base(l) ^ fix<'x'>(p); }, [=](auto s, auto r) { same<'y'>(s, r, j); });
	mixtures<13>([=](auto l) { return base(l) ^ rename<'x', 'a'>() ^ hoist<'y'>(); }, [=](auto s, auto r) { same<'a', 'y'>(s, r, 12, j); });
}
CONTRACT(view_join, sz m, sz i, sz j) {
	REQ(Z(m) * Z(20) < TWO64 && Z(i) < Z(5) && Z(j) < Z(m));
	mixtures<5>([=](auto l) { return scalar<int>() ^ vector<'x'>(l) ^ vector<'y'>(m) ^ vector<'z'>(l) ^ join<'x', 'z'>(); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i, j); });
}
// --- blocks
CONTRACT(blocks, sz n, sz m, sz i, sz j, sz k) {
	REQ(Z(i) < Z(n) / Z(4) && Z(j) < Z(4) && Z(k) < Z(m));
	A a{{n, m}};
	mixtures<4>([=](auto p) { return a ^ into_blocks<'x', 'a', 'b'>(p); }, [=](auto s, auto r) { same<'a', 'b', 'y'>(s, r, i, j, k); });
	mixtures<4>([=](auto p) { return a ^ into_blocks<'x', 'a'>(p); }, [=](auto s, auto r) { same<'a', 'x', 'y'>(s, r, i, j, k); });
	mixtures<4>([=](auto p) { return a ^ into_blocks<'x', 'x', 'b'>(p); }, [=](auto s, auto r) { same<'x', 'b', 'y'>(s, r, i, j, k); });
	mixtures<4>([=](auto p) { return a ^ into_blocks<'x', 'a', 'b'>() ^ set_length<'b'>(p); }, [=](auto s, auto r) { same<'a', 'b', 'y'>(s, r, i, j, k); });
}
CONTRACT(blocks_count, sz n, sz m, sz i, sz j, sz k) {
	REQ(Z(i) < Z(4) && Z(j) < Z(n) / Z(4) && Z(k) < Z(m));
	A a{{n, m}};
	mixtures<4>([=](auto p) { return a ^ into_blocks<'x', 'a', 'b'>() ^ set_length<'a'>(p); }, [=](auto s, auto r) { same<'a', 'b', 'y'>(s, r, i, j, k); });
}
CONTRACT(blocks_unsized, sz m, sz i, sz j, sz k) {
	REQ(Z(m) * Z(64) < TWO64 && Z(i) < Z(3) && Z(j) < Z(4) && Z(k) < Z(m));
	mixtures<3, 4>([=](auto p, auto q) { return scalar<int>() ^ vector<'x'>() ^ vector<'y'>(m) ^ into_blocks<'x', 'a', 'b'>() ^ set_length<'a', 'b'>(p, q); }, [=](auto s, auto r) { same<'a', 'b', 'y'>(s, r, i, j, k); });
}
CONTRACT(blocks_of_static, sz m, sz i, sz j, sz k) {
	REQ(Z(m) * Z(64) < TWO64 && Z(i) < Z(3) && Z(j) < Z(4) && Z(k) < Z(m));
	mixtures<14, 4>([=](auto l, auto p) { return scalar<int>() ^ vector<'x'>(l) ^ vector<'y'>(m) ^ into_blocks<'x', 'a', 'b'>(p); }, [=](auto s, auto r) { same<'a', 'b', 'y'>(s, r, i, j, k); });
	mixtures<14, 4>([=](auto l, auto p) { return scalar<int>() ^ vector<'x'>(l) ^ vector<'y'>(m) ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>(p); }, [=](auto s, auto r) { same<'a', 'b', 'y', 'p'>(s, r, i, j, k, 0); });
	mixtures<14, 4>([=](auto l, auto p) { return scalar<int>() ^ vector<'x'>(l) ^ vector<'y'>(m) ^ into_blocks_static<'x', 'p', 'a', 'b'>(p) ^ fix<'p'>(lit<0>); }, [=](auto s, auto r) { same<'a', 'b', 'y'>(s, r, i, j, k); });
	REQ(Z(j) < Z(2));
	mixtures<14, 4>([=](auto l, auto p) { return scalar<int>() ^ vector<'x'>(l) ^ vector<'y'>(m) ^ into_blocks_static<'x', 'p', 'a', 'b'>(p) ^ fix<'p'>(lit<1>); }, [=](auto s, auto r) { same<'a', 'b', 'y'>(s, r, 0, j, k); });
}
CONTRACT(blocks_dynamic, sz n, sz m, sz i, sz j, sz k) {
	REQ(Z(n) + Z(4) < TWO64 && Z(j) < Z(4) && Z(i) * Z(4) + Z(j) < Z(n) && Z(k) < Z(m));
	A a{{n, m}};
	mixtures<4>([=](auto p) { return a ^ into_blocks_dynamic<'x', 'a', 'b', 'p'>(p); }, [=](auto s, auto r) {
		same<'a', 'b', 'y', 'p'>(s, r, i, j, k, 0);
		ENS(zlen<'p'>(s, idx<'a', 'b'>(i, j)) == zlen<'p'>(r, idx<'a', 'b'>(i, j)));
		ENS(zlen<'p'>(s, idx<'a', 'b'>(i + 1, j)) == zlen<'p'>(r, idx<'a', 'b'>(i + 1, j)));
		ENS(zlen<'p'>(s, idx<'a', 'b'>(i, lit<3>)) == zlen<'p'>(r, idx<'a', 'b'>(i, 3)));
		ENS(zlen<'p'>(s, idx<'a', 'b'>(lit<1>, lit<3>)) == zlen<'p'>(r, idx<'a', 'b'>(1, 3)));
	});
}
CONTRACT(blocks_static, sz n, sz m, sz i, sz j, sz k) {
	REQ(Z(i) < Z(n) / Z(4) && Z(j) < Z(4) && Z(k) < Z(m));
	A a{{n, m}};
	mixtures<4>([=](auto p) { return a ^ into_blocks_static<'x', 'p', 'a', 'b'>(p) ^ fix<'p'>(lit<0>); }, [=](auto s, auto r) { same<'a', 'b', 'y'>(s, r, i, j, k); });
	REQ(Z(j) < Z(n) % Z(4));
	mixtures<4>([=](auto p) { return a ^ into_blocks_static<'x', 'p', 'a', 'b'>(p) ^ fix<'p'>(lit<1>); }, [=](auto s, auto r) { same<'a', 'b', 'y'>(s, r, 0, j, k); });
}
CONTRACT(blocks_merge, sz m, sz t, sz j) {
	REQ(Z(m) * Z(80) < TWO64 && Z(t) < Z(20) && Z(j) < Z(m));
	mixtures<5, 4>([=](auto p, auto q) { return scalar<int>() ^ vector<'x'>(p) ^ vector<'y'>(m) ^ vector<'z'>(q) ^ merge_blocks<'x', 'z', 't'>(); }, [=](auto s, auto r) { same<'t', 'y'>(s, r, t, j); });
	mixtures<5, 4>([=](auto p, auto q) { return scalar<int>() ^ vector<'x'>(p) ^ vector<'y'>(m) ^ vector<'z'>(q) ^ merge_blocks<'z', 'x', 't'>(); }, [=](auto s, auto r) { same<'t', 'y'>(s, r, t, j); });
	mixtures<5>([=](auto p) { return scalar<int>() ^ vector<'x'>(p) ^ vector<'y'>(m) ^ merge_blocks<'x', 'y', 't'>(); }, [=](auto s, auto r) { same<'t'>(s, r, j); });
	mixtures<5>([=](auto p) { return scalar<int>() ^ vector<'x'>(p) ^ vector<'y'>(m) ^ merge_blocks<'y', 'x', 't'>(); }, [=](auto s, auto r) { same<'t'>(s, r, j); });
}
CONTRACT(blocks_merge_literal_index, sz m, sz j) {
	REQ(Z(m) * Z(80) < TWO64 && Z(m) > Z(2) && Z(j) < Z(m));
	auto s = scalar<int>() ^ vector<'x'>(lit<5>) ^ vector<'y'>(m) ^ vector<'z'>(lit<4>) ^ merge_blocks<'x', 'z', 't'>();
	auto r = scalar<int>() ^ vector<'x'>(sz(5)) ^ vector<'y'>(m) ^ vector<'z'>(sz(4)) ^ merge_blocks<'x', 'z', 't'>();
	ENS(zof<'t', 'y'>(s, lit<0>, j) == zof<'t', 'y'>(r, 0, j));
	ENS(zof<'t', 'y'>(s, lit<7>, j) == zof<'t', 'y'>(r, 7, j));
	ENS(zof<'t', 'y'>(s, lit<19>, j) == zof<'t', 'y'>(r, 19, j));
	ENS(zof<'t', 'y'>(r, lit<19>, j) == zof<'t', 'y'>(r, 19, j));
	ENS(zof<'t', 'y'>(s, lit<13>, lit<2>) == zof<'t', 'y'>(r, 13, 2));
}
// literal indices into blocks
CONTRACT(blocks_literal_index, sz n, sz m, sz i, sz j, sz k) {
	REQ(Z(n) >= Z(12) && Z(m) > Z(0) && Z(i) < Z(n) / Z(4) && Z(j) < Z(4) && Z(k) < Z(m));
	A a{{n, m}};
	mixtures<4>([=](auto p) { return a ^ into_blocks<'x', 'a', 'b'>(p); }, [=](auto s, auto r) {
		ENS(zof<'a', 'b', 'y'>(s, lit<2>, j, k) == zof<'a', 'b', 'y'>(r, sz(2), j, k));
		ENS(zof<'a', 'b', 'y'>(s, i, lit<3>, k) == zof<'a', 'b', 'y'>(r, i, sz(3), k));
		ENS(zof<'a', 'b', 'y'>(s, lit<0>, lit<0>, lit<0>) == zof<'a', 'b', 'y'>(r, 0, 0, 0));
		ENS(zof<'a', 'b', 'y'>(s, lit<2>, lit<1>, k) == zof<'a', 'b', 'y'>(r, 2, 1, k));
	});
	auto r = a ^ into_blocks<'x', 'a', 'b'>(sz(4));
	ENS(zof<'a', 'b', 'y'>(r, lit<2>, lit<1>, k) == zof<'a', 'b', 'y'>(r, 2, 1, k));
	ENS(zof<'a', 'b', 'y'>(r, lit<0>, lit<1>, k) == zof<'a', 'b', 'y'>(r, 0, 1, k));
}
CONTRACT(views_literal_index, sz n, sz m, sz k) {
	REQ(Z(n) >= Z(12) && Z(n) + Z(3) < TWO64 && Z(k) < Z(m));
	A a{{n, m}};
	mixtures<1, 3>([=](auto p, auto q) { return a ^ step<'x'>(p, q); }, [=](auto s, auto r) {
		ENS(zof<'x', 'y'>(s, lit<0>, k) == zof<'x', 'y'>(r, 0, k));
		ENS(zof<'x', 'y'>(s, lit<2>, k) == zof<'x', 'y'>(r, 2, k));
	});
	mixtures<2, 7>([=](auto p, auto q) { return a ^ shift<'x'>(p) ^ slice<'x'>(p, q) ^ reverse<'x'>(); }, [=](auto s, auto r) {
		ENS(zof<'x', 'y'>(s, lit<0>, k) == zof<'x', 'y'>(r, 0, k));
		ENS(zof<'x', 'y'>(s, lit<6>, k) == zof<'x', 'y'>(r, 6, k));
	});
	mixtures<2, 7>([=](auto p, auto q) { return a ^ reverse<'x'>() ^ span<'x'>(p, q); }, [=](auto s, auto r) {
		ENS(zof<'x', 'y'>(s, lit<0>, k) == zof<'x', 'y'>(r, 0, k));
		ENS(zof<'x', 'y'>(s, lit<4>, k) == zof<'x', 'y'>(r, 4, k));
	});
}
// chains
CONTRACT(chains, sz n, sz m, sz i, sz j, sz k) {
	REQ(Z(n) >= Z(30) && Z(n) + Z(30) < TWO64 && Z(i) < Z(2) && Z(j) < Z(4) && Z(k) < Z(m));
	A a{{n, m}};
	mixtures<2, 3, 4>([=](auto p, auto q, auto o) { return a ^ step<'x'>(p, q) ^ into_blocks<'x', 'a', 'b'>(o); }, [=](auto s, auto r) { same<'a', 'b', 'y'>(s, r, i, j, k); });
	mixtures<3, 20, 4>([=](auto p, auto q, auto o) { return a ^ span<'x'>(p, q) ^ into_blocks<'x', 'a', 'b'>(o) ^ reverse<'a'>(); }, [=](auto s, auto r) { same<'a', 'b', 'y'>(s, r, i, j, k); });
	mixtures<8, 4, 1>([=](auto p, auto q, auto o) { return a ^ into_blocks<'x', 'a', 'b'>(p) ^ into_blocks<'b', 'c', 'd'>(q) ^ fix<'c'>(o); }, [=](auto s, auto r) { same<'a', 'd', 'y'>(s, r, i, j, k); });
	mixtures<8, 2>([=](auto p, auto o) { return a ^ into_blocks<'x', 'a', 'b'>(p) ^ slice<'a'>(lit<0>, o) ^ merge_blocks<'a', 'b', 'x'>(); }, [=](auto s, auto r) { same<'x', 'y'>(s, r, i + j, k); });
}
// --- traversal
template<class T>
inline void visits(T t, sz lx, sz ly, sz sx, sz sy, sz dx) {
	lex<0, 'y', 'x'> e{{ly, lx}};
	e.start();
	t.for_each([&](auto st) { e.visit(val(get_index<'y'>(st)) - sy, (val(get_index<'x'>(st)) - sx) / dx); ENS(Z((val(get_index<'x'>(st)) - sx) % dx) == Z(0)); });
	e.finish();
}
#define TRV(name, ...) \
	CONTRACT(trav_##name, sz m) { CASE(0, Z(m) == Z(0)); REQ(Z(m) * Z(64) < TWO64); __VA_ARGS__ }
TRV(array, { visits(traverser(scalar<int>() ^ array<'x', 3>() ^ vector<'y'>(m)), 3, m, 0, 0, 1); })
TRV(vector, { visits(traverser(scalar<int>() ^ vector<'x'>(lit<3>) ^ vector<'y'>(m)), 3, m, 0, 0, 1); })
TRV(dynamic, { visits(traverser(scalar<int>() ^ vector<'x'>(sz(3)) ^ vector<'y'>(m)), 3, m, 0, 0, 1); })
#define TRB traverser(scalar<int>() ^ vector<'x'>(11) ^ vector<'y'>(m))
TRV(slice_s, { visits(TRB.order(slice<'x'>(lit<2>, lit<3>)), 3, m, 2, 0, 1); })
TRV(slice_d, { visits(TRB.order(slice<'x'>(2, 3)), 3, m, 2, 0, 1); })
TRV(slice_m, { visits(TRB.order(slice<'x'>(2, lit<3>)), 3, m, 2, 0, 1); })
TRV(span_s, { visits(TRB.order(span<'x'>(lit<2>, lit<5>)), 3, m, 2, 0, 1); })
TRV(span_d, { visits(TRB.order(span<'x'>(2, 5)), 3, m, 2, 0, 1); })
TRV(span_m, { visits(TRB.order(span<'x'>(lit<2>, 5)), 3, m, 2, 0, 1); })
TRV(shift_s, { visits(TRB.order(shift<'x'>(lit<7>)), 4, m, 7, 0, 1); })
TRV(shift_d, { visits(TRB.order(shift<'x'>(7)), 4, m, 7, 0, 1); })
TRV(step_s, { visits(TRB.order(step<'x'>(lit<1>, lit<4>)), 3, m, 1, 0, 4); })
TRV(step_d, { visits(TRB.order(step<'x'>(1, 4)), 3, m, 1, 0, 4); })
TRV(step_m, { visits(TRB.order(step<'x'>(1, lit<4>)), 3, m, 1, 0, 4); })
TRV(fix_s, { visits(TRB.order(fix<'x'>(lit<6>)), 1, m, 6, 0, 1); })
TRV(fix_d, { visits(TRB.order(fix<'x'>(6)), 1, m, 6, 0, 1); })
// a planner and for_sections see the same
TRV(sections_s, {
	lex<0, 'y', 'x'> e{{m, 3}};
	e.start();
	traverser(scalar<int>() ^ vector<'x'>(lit<3>) ^ vector<'y'>(m)).template for_sections<'y'>([&](auto t) { t.for_each([&](auto st) { e.visit_state(st); }); });
	e.finish();
})
TRV(dims_s, {
	lex<0, 'x', 'y'> e{{3, m}};
	e.start();
	traverser(scalar<int>() ^ vector<'x'>(lit<3>) ^ vector<'y'>(m)).template for_dims<'x', 'y'>([&](auto t) { e.visit_state(t.state()); });
	e.finish();
})
