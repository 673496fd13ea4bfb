// C24 compressed member storage
#include "abs.hpp"
#include <cstring>
using namespace noarr;

template<int K>
struct E {
	static constexpr int id = K;
};
template<int K>
struct V {
	sz v;
};
template<bool empty, int K>
using member = std::conditional_t<empty, E<K>, V<K>>;
template<bool empty, int K>
inline auto make(sz v) {
	if constexpr (empty)
		return E<K>();
	else
		return V<K>{v};
}
template<int K>
inline void is(const V<K> &x, sz v) {
	ENS(Z(x.v) == Z(v));
}
template<int K>
inline void is(const E<K> &, sz) {
	ENS_TYPE(true);
}
template<unsigned Mask, class C, int... K>
inline void read(const C &c, const sz *a, std::integer_sequence<int, K...>) {
	(is<K>(c.template get<K>(), a[K]), ...);
}
template<unsigned Mask, int... K>
inline void one(const sz *a, const sz *b, std::integer_sequence<int, K...> ks) {
	using C = strict_contain<member<(Mask >> K & 1), K>...>;
	// the types come out by position, and empty members take no room
	ENS_TYPE((... && std::is_same_v<std::remove_cvref_t<decltype(std::declval<C>().template get<K>())>, member<(Mask >> K & 1), K>>));
	ENS_TYPE((... && std::is_same_v<std::remove_cvref_t<std::tuple_element_t<K, C>>, member<(Mask >> K & 1), K>>));
	ENS_TYPE(std::tuple_size_v<C> == sizeof...(K));
	constexpr sz full = (sz(0) + ... + sz(!(Mask >> K & 1)));
	ENS_TYPE(sizeof(C) == (full ? full * sizeof(sz) : 1));
	ENS_TYPE(std::is_standard_layout_v<C> && std::is_trivially_copyable_v<C>);
	C c(make<(Mask >> K & 1), K>(a[K])...);
	read<Mask>(c, a, ks);
	auto copy = c;
	read<Mask>(copy, a, ks);
	C d(make<(Mask >> K & 1), K>(b[K])...);
	read<Mask>(d, b, ks);
	read<Mask>(c, a, ks);
	c = d;
	read<Mask>(c, b, ks);
	read<Mask>(copy, a, ks);
	// bytes
	alignas(C) char raw[sizeof(C)];
	std::memcpy(raw, &copy, sizeof(C));
	std::memcpy((void *)&d, raw, sizeof(C));
	read<Mask>(d, a, ks);
	// from lvalues
	[&](auto... m) {
		C e(m...);
		read<Mask>(e, a, ks);
		const C f(static_cast<const decltype(m) &>(m)...);
		read<Mask>(f, a, ks);
		auto g = helpers::contain(m...);
		ENS_TYPE(std::is_same_v<decltype(g), C>);
		read<Mask>(g, a, ks);
	}(make<(Mask >> K & 1), K>(a[K])...);
}
template<int N, unsigned... M>
inline void all(const sz *a, const sz *b, std::integer_sequence<unsigned, M...>) {
	(one<M>(a, b, std::make_integer_sequence<int, N>()), ...);
}
#define ALL(N)                                                                                                         \
	CONTRACT(all_##N, sz a, sz b, sz c, sz d, sz e, sz f, sz s, sz t, sz u, sz v, sz w, sz x) {                         \
		const sz p[6] = {a, b, c, d, e, f}, q[6] = {s, t, u, v, w, x};                                                 \
		all<N>(p, q, std::make_integer_sequence<unsigned, 1u << N>());                                                 \
	}
ALL(1)
ALL(2)
ALL(3)
ALL(4)
ALL(5)
#define HALF(name, from, ...)                                                                                          \
	CONTRACT(six_##name, sz a, sz b, sz c, sz d, sz e, sz f, sz s, sz t, sz u, sz v, sz w, sz x) {                      \
		const sz p[6] = {a, b, c, d, e, f}, q[6] = {s, t, u, v, w, x};                                                 \
		[&]<unsigned... M>(std::integer_sequence<unsigned, M...>) {                                                    \
			(one<from + M>(p, q, std::make_integer_sequence<int, 6>()), ...);                                          \
		}(std::make_integer_sequence<unsigned, 32>());                                                                 \
	}
HALF(low, 0)
HALF(high, 32)
CONTRACT(none) {
	ENS_TYPE(std::is_empty_v<strict_contain<>> && std::tuple_size_v<strict_contain<>> == 0);
}
// several empty members of one type; members of different sizes and alignments
CONTRACT(mixed, sz a, sz b, sz c) {
	using C = strict_contain<E<0>, std::uint8_t, E<0>, E<0>, std::uint32_t, sz, E<0>, std::uint16_t>;
	C x(E<0>(), (std::uint8_t)a, E<0>(), E<0>(), (std::uint32_t)b, c, E<0>(), (std::uint16_t)b);
	C y = x;
	C z(E<0>(), (std::uint8_t)b, E<0>(), E<0>(), (std::uint32_t)c, a, E<0>(), (std::uint16_t)c);
	ENS(Z(sz(x.get<1>())) == Z(a % 256) && Z(sz(x.get<4>())) == Z(b % 4294967296u) && Z(x.get<5>()) == Z(c) && Z(sz(x.get<7>())) == Z(b % 65536));
	ENS(Z(sz(y.get<1>())) == Z(a % 256) && Z(sz(y.get<4>())) == Z(b % 4294967296u) && Z(y.get<5>()) == Z(c) && Z(sz(y.get<7>())) == Z(b % 65536));
	y = z;
	ENS(Z(sz(y.get<1>())) == Z(b % 256) && Z(sz(y.get<4>())) == Z(c % 4294967296u) && Z(y.get<5>()) == Z(a) && Z(sz(y.get<7>())) == Z(c % 65536));
	ENS(Z(x.get<5>()) == Z(c));
	ENS_TYPE(std::is_standard_layout_v<C>);
}
// storage in storage
CONTRACT(nested, sz a, sz b, sz c, sz d) {
	using P = strict_contain<sz, E<0>, sz>;
	using Q = strict_contain<E<0>, E<1>>;
	strict_contain<P, Q, sz, strict_contain<Q, P>> n(P(a, E<0>(), b), Q(E<0>(), E<1>()), c, strict_contain<Q, P>(Q(), P(d, E<0>(), a)));
	auto m = n;
	ENS(Z(m.get<0>().get<0>()) == Z(a) && Z(m.get<0>().get<2>()) == Z(b) && Z(m.get<2>()) == Z(c));
	ENS(Z(m.get<3>().get<1>().get<0>()) == Z(d) && Z(m.get<3>().get<1>().get<2>()) == Z(a));
	// a storage that holds another one of its own kind first
	strict_contain<strict_contain<sz, E<0>>, E<0>> s(strict_contain<sz, E<0>>(d, E<0>()), E<0>());
	auto t = s;
	ENS(Z(t.get<0>().get<0>()) == Z(d));
	strict_contain<E<0>, strict_contain<E<0>, sz>> u(E<0>(), strict_contain<E<0>, sz>(E<0>(), c));
	auto v = u;
	ENS(Z(v.get<1>().get<1>()) == Z(c));
}
CONTRACT(bindings, sz a, sz b, sz c) {
	const strict_contain<sz, E<1>, sz, E<3>, V<4>> s(a, E<1>(), b, E<3>(), V<4>{c});
	const auto &[v, w, x, y, z] = s;
	ENS(Z(v) == Z(a) && Z(x) == Z(b) && Z(z.v) == Z(c));
	ENS_TYPE(std::is_same_v<std::remove_cvref_t<decltype(w)>, E<1>> && std::is_same_v<std::remove_cvref_t<decltype(y)>, E<3>>);
}
// concatenation keeps order and values
CONTRACT(cat, sz a, sz b, sz c, sz d) {
	using helpers::contain;
	auto x = contain(V<0>{a}, E<0>()), y = x;
	auto e = contain(E<1>());
	auto z = contain(V<1>{b}, V<2>{c});
	auto r = contain_cat(x, e, z, contain(E<2>(), V<3>{d}));
	ENS_TYPE(std::is_same_v<decltype(r), contain<V<0>, E<0>, E<1>, V<1>, V<2>, E<2>, V<3>>>);
	ENS(Z(r.get<0>().v) == Z(a) && Z(r.get<3>().v) == Z(b) && Z(r.get<4>().v) == Z(c) && Z(r.get<6>().v) == Z(d));
	auto s = contain_cat(contain_cat(x, z), contain<>(), contain_cat(z, y));
	ENS(Z(s.get<0>().v) == Z(a) && Z(s.get<2>().v) == Z(b) && Z(s.get<3>().v) == Z(c));
	ENS(Z(s.get<4>().v) == Z(b) && Z(s.get<5>().v) == Z(c) && Z(s.get<6>().v) == Z(a));
	auto t = contain_cat(z);
	ENS(Z(t.get<0>().v) == Z(b) && Z(t.get<1>().v) == Z(c));
	ENS_TYPE(std::tuple_size_v<decltype(contain_cat())> == 0);
}
// the storage of structures: every parameter of a chain is its own, also after copying
CONTRACT(structures, sz n, sz m, sz s, sz e, sz i, sz j) {
	REQ(Z(n) * Z(m) * Z(4) < TWO64 && Z(s) <= Z(e) && Z(e) <= Z(n) && Z(s) + Z(i) < Z(e) && Z(j) < Z(m));
	auto a = scalar<int>() ^ vector<'x'>() ^ vector<'y'>(m) ^ set_length<'x'>(n) ^ hoist<'x'>() ^ span<'x'>(s, e) ^ fix<'y'>(j);
	auto b = a;
	auto c = scalar<int>() ^ vector<'x'>() ^ vector<'y'>(n) ^ set_length<'x'>(m) ^ hoist<'x'>() ^ span<'x'>(e, s) ^ fix<'y'>(i);
	alignas(decltype(a)) char raw[sizeof(a)];
	std::memcpy(raw, &b, sizeof(b));
	std::memcpy((void *)&c, raw, sizeof(c));
	ENS(zof<'x'>(a, i) == (Z(j) * Z(n) + Z(s) + Z(i)) * Z(4) && zof<'x'>(b, i) == zof<'x'>(a, i) && zof<'x'>(c, i) == zof<'x'>(a, i));
	ENS(zsz(a) == Z(n) * Z(m) * Z(4) && zsz(c) == zsz(a) && zlen<'x'>(a) == Z(e) - Z(s) && zlen<'x'>(c) == zlen<'x'>(a));
	ENS_TYPE(sizeof(a) == 5 * sizeof(sz));
	ENS_TYPE(sizeof(scalar<int>() ^ array<'x', 3>() ^ hoist<'x'>()) == 1);
}
