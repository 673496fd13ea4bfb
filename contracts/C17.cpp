// C17 state: updatable finite map; arithmetic, comparisons and shortcuts on states
#include "abs.hpp"
using namespace noarr;
using A = absn::abs_t<0, int, 'x', 'y', 'z'>;
#define OFF(i, j, k) zoff<0, int>(Z(n), Z(m), Z(p), i, j, k)

using IX = index_in<'x'>;
using IY = index_in<'y'>;
using IZ = index_in<'z'>;
using LX = length_in<'x'>;
using LY = length_in<'y'>;
struct dim_x {};  // a dimension named by a type
struct other_tag {  // a user-defined tag
	using dims = dim_sequence<>;
	template<class P>
	static constexpr bool all_accept = true;
	template<class P>
	static constexpr bool any_accept = false;
	template<class F>
	using map = other_tag;
};
template<class T, class S>
Z g(S s) {
	return Z(val(s.template get<T>()));
}
template<class S, class... T>
constexpr bool has_exactly = state_contains<S, T...> && decltype(std::declval<S>().template remove<T...>())::is_empty;
// machine sums and differences (unsigned rules)
inline Z wadd(sz a, sz b) { return Z(a + b); }
inline Z wsub(sz a, sz b) { return Z(a - b); }

// construction
CONTRACT(make, sz a, sz b, sz c, sz d) {
	auto s = make_state<IX, IY, LX, other_tag>(a, b, c, d);
	ENS(g<IX>(s) == Z(a) && g<IY>(s) == Z(b) && g<LX>(s) == Z(c) && g<other_tag>(s) == Z(d));
	ENS_TYPE(has_exactly<decltype(s), IX, IY, LX, other_tag>);
	ENS_TYPE(!state_contains<decltype(s), LY> && !state_contains<decltype(s), IZ>);
	ENS_TYPE(!state_contains<decltype(s), IX, IZ> && state_contains<decltype(s), LX, IX>);
	auto t = make_state<other_tag, LX, IY, IX>(d, c, b, a);
	ENS(g<IX>(t) == Z(a) && g<IY>(t) == Z(b) && g<LX>(t) == Z(c) && g<other_tag>(t) == Z(d));
	auto u = idx<'y', 'z', 'x'>(b, c, a);
	ENS(g<IX>(u) == Z(a) && g<IY>(u) == Z(b) && g<IZ>(u) == Z(c));
	ENS_TYPE(has_exactly<decltype(u), IX, IY, IZ>);
	ENS(Z(get_index<'x'>(u)) == Z(a) && Z(get_index<'z'>(u)) == Z(c));
	ENS(Z(get_length_in<'x'>(s)) == Z(c));
	ENS_TYPE(empty_state.is_empty && !decltype(u)::is_empty);
}
CONTRACT(make_lit, sz a, sz b) {
	auto s = make_state<IX, LX, IY, LY>(lit<3>, a, lit<4>, b);
	ENS(g<IX>(s) == Z(3) && g<IY>(s) == Z(4) && g<LX>(s) == Z(a) && g<LY>(s) == Z(b));
	ENS_TYPE(state_get_t<decltype(s), IX>::value == 3 && state_get_t<decltype(s), IY>::value == 4);
	ENS_TYPE(std::is_same_v<state_get_t<decltype(s), LX>, sz>);
	auto t = idx<'x', 'y', 'z'>(a, lit<7>, b);
	ENS(g<IX>(t) == Z(a) && g<IY>(t) == Z(7) && g<IZ>(t) == Z(b));
	auto u = idx<'x', 'y', 'z'>(lit<5>, lit<6>, lit<7>);
	ENS(g<IX>(u) == Z(5) && g<IY>(u) == Z(6) && g<IZ>(u) == Z(7));
	auto w = idx<'x', 'y'>(lit<5>, a);
	ENS(g<IX>(w) == Z(5) && g<IY>(w) == Z(a));
	auto v = idx<'x', 'y'>(a, lit<5>);
	ENS(g<IX>(v) == Z(a) && g<IY>(v) == Z(5));
}
// conversion of the value types: every unsigned type keeps its value
CONTRACT(make_types, unsigned a, unsigned char b, unsigned short c) {
	auto s = idx<'x', 'y', 'z'>(a, b, c);
	ENS(g<IX>(s) == Z(sz(a)) && g<IY>(s) == Z(sz(b)) && g<IZ>(s) == Z(sz(c)));
}
// with: add or replace
CONTRACT(with_one, sz a, sz b, sz c, sz d) {
	auto s = make_state<IX, IY, LX>(a, b, c);
	auto t = s.with<IX>(d);
	ENS(g<IX>(t) == Z(d) && g<IY>(t) == Z(b) && g<LX>(t) == Z(c));
	ENS_TYPE(has_exactly<decltype(t), IX, IY, LX>);
	auto u = s.with<IY>(d);
	ENS(g<IX>(u) == Z(a) && g<IY>(u) == Z(d) && g<LX>(u) == Z(c));
	auto v = s.with<LX>(d);
	ENS(g<IX>(v) == Z(a) && g<IY>(v) == Z(b) && g<LX>(v) == Z(d));
	auto w = s.with<IZ>(d);
	ENS(g<IX>(w) == Z(a) && g<IY>(w) == Z(b) && g<LX>(w) == Z(c) && g<IZ>(w) == Z(d));
	ENS_TYPE(has_exactly<decltype(w), IX, IY, LX, IZ>);
	auto y = s.with<LY>(d);
	ENS(g<IX>(y) == Z(a) && g<IY>(y) == Z(b) && g<LX>(y) == Z(c) && g<LY>(y) == Z(d));
	// the original is unchanged
	ENS(g<IX>(s) == Z(a) && g<IY>(s) == Z(b) && g<LX>(s) == Z(c));
}
CONTRACT(with_many, sz a, sz b, sz c, sz d, sz e) {
	auto s = make_state<IX, IY, LX>(a, b, c);
	auto t = s.with<LX, IX>(d, e);
	ENS(g<IX>(t) == Z(e) && g<IY>(t) == Z(b) && g<LX>(t) == Z(d));
	auto u = s.with<IZ, IY>(d, e);
	ENS(g<IX>(u) == Z(a) && g<IY>(u) == Z(e) && g<LX>(u) == Z(c) && g<IZ>(u) == Z(d));
	ENS_TYPE(has_exactly<decltype(u), IX, IY, LX, IZ>);
	auto v = s.with<IY, LX, IX>(c, d, e);
	ENS(g<IX>(v) == Z(e) && g<IY>(v) == Z(c) && g<LX>(v) == Z(d));
	auto w = s.with<>();
	ENS(g<IX>(w) == Z(a) && g<IY>(w) == Z(b) && g<LX>(w) == Z(c));
	auto y = empty_state.with<IY, IX>(d, e);
	ENS(g<IX>(y) == Z(e) && g<IY>(y) == Z(d));
}
// last update wins, whatever happened before
CONTRACT(history, sz a, sz b, sz c, sz d, sz e, sz f) {
	auto s = empty_state.with<IX>(a).with<IY>(b).with<IX>(c).with<IZ>(d).remove<IY>().with<IY>(e).with<IZ>(f);
	ENS(g<IX>(s) == Z(c) && g<IY>(s) == Z(e) && g<IZ>(s) == Z(f));
	ENS_TYPE(has_exactly<decltype(s), IX, IY, IZ>);
	auto t = empty_state.with<IX>(lit<1>).with<IY>(b).with<IX>(c).with<IY>(lit<9>).with<IZ>(d);
	ENS(g<IX>(t) == Z(c) && g<IY>(t) == Z(9) && g<IZ>(t) == Z(d));
	auto u = (idx<'x'>(a) & idx<'y'>(b) & idx<'x'>(c) & idx<'z', 'y'>(d, e)).remove<IX>() & idx<'x'>(f);
	ENS(g<IX>(u) == Z(f) && g<IY>(u) == Z(e) && g<IZ>(u) == Z(d));
	// order of addition does not matter
	auto v = empty_state.with<IX>(a).with<IY>(b).with<LX>(c).with<LY>(d);
	auto w = empty_state.with<LY>(d).with<IY>(b).with<LX>(c).with<IX>(a);
	ENS(B(vb_id(v == w)) && B(vb_id(w == v)));
}
CONTRACT(with_lit, sz a, sz b, sz c) {
	auto s = make_state<IX, IY, LX>(lit<1>, a, b);
	auto t = s.with<IY>(lit<8>);
	ENS(g<IX>(t) == Z(1) && g<IY>(t) == Z(8) && g<LX>(t) == Z(b));
	auto u = s.with<IX>(c);
	ENS(g<IX>(u) == Z(c) && g<IY>(u) == Z(a) && g<LX>(u) == Z(b));
	auto v = t.with<LX, IZ>(lit<5>, lit<6>);
	ENS(g<IX>(v) == Z(1) && g<IY>(v) == Z(8) && g<LX>(v) == Z(5) && g<IZ>(v) == Z(6));
	auto w = v.with<IY>(a);
	ENS(g<IX>(w) == Z(1) && g<IY>(w) == Z(a) && g<LX>(w) == Z(5) && g<IZ>(w) == Z(6));
}
CONTRACT(remove_filter, sz a, sz b, sz c, sz d, sz e) {
	auto s = make_state<IX, IY, LX, LY, IZ>(a, b, c, d, e);
	auto t = s.remove<IY>();
	ENS(g<IX>(t) == Z(a) && g<LX>(t) == Z(c) && g<LY>(t) == Z(d) && g<IZ>(t) == Z(e));
	ENS_TYPE(has_exactly<decltype(t), IX, LX, LY, IZ> && !state_contains<decltype(t), IY>);
	auto u = s.remove<LY, IX, IZ>();
	ENS(g<IY>(u) == Z(b) && g<LX>(u) == Z(c));
	ENS_TYPE(has_exactly<decltype(u), IY, LX>);
	auto v = s.remove<other_tag, LX>();
	ENS(g<IX>(v) == Z(a) && g<IY>(v) == Z(b) && g<LY>(v) == Z(d) && g<IZ>(v) == Z(e));
	ENS_TYPE(has_exactly<decltype(v), IX, IY, LY, IZ>);
	ENS_TYPE(decltype(s.remove<IX, IY, LX, LY, IZ>())::is_empty);
	auto f = s.filter<IZ, LX>();
	ENS(g<LX>(f) == Z(c) && g<IZ>(f) == Z(e));
	ENS_TYPE(has_exactly<decltype(f), LX, IZ>);
	auto f2 = s.filter<IY, other_tag, IX>();
	ENS(g<IX>(f2) == Z(a) && g<IY>(f2) == Z(b));
	ENS_TYPE(has_exactly<decltype(f2), IX, IY>);
	ENS_TYPE(decltype(s.filter<>())::is_empty && decltype(s.filter<other_tag>())::is_empty);
	auto fi = filter_indices<'z', 'x'>(s);
	ENS(g<IX>(fi) == Z(a) && g<IZ>(fi) == Z(e));
	ENS_TYPE(has_exactly<decltype(fi), IX, IZ>);
	auto fi2 = filter_indices<'y', 'w'>(s);
	ENS(g<IY>(fi2) == Z(b));
	ENS_TYPE(has_exactly<decltype(fi2), IY>);
	auto fl = filter_lengths<'y', 'z'>(s);
	ENS(g<LY>(fl) == Z(d));
	ENS_TYPE(has_exactly<decltype(fl), LY>);
	auto [z, x] = get_indices<'z', 'x'>(s);
	ENS(Z(z) == Z(e) && Z(x) == Z(a));
	auto [ly, lx] = get_lengths_in<'y', 'x'>(s);
	ENS(Z(ly) == Z(d) && Z(lx) == Z(c));
	auto ll = make_state<LX, IY, LY>(lit<2>, b, lit<4>);
	auto rl = ll.remove<LX>();
	ENS(g<IY>(rl) == Z(b) && g<LY>(rl) == Z(4));
	auto rl2 = ll.remove<LY>();
	ENS(g<IY>(rl2) == Z(b) && g<LX>(rl2) == Z(2));
	ENS(g<LY>(ll.filter<LY, IY>()) == Z(4) && g<IY>(ll.filter<LY, IY>()) == Z(b));
}
// merge: the right operand wins, everything else is kept
CONTRACT(merge, sz a, sz b, sz c, sz d, sz e) {
	auto s = make_state<IX, IY, LX>(a, b, c);
	auto t = make_state<IZ, IY>(d, e);
	auto u = s & t;
	ENS(g<IX>(u) == Z(a) && g<IY>(u) == Z(e) && g<LX>(u) == Z(c) && g<IZ>(u) == Z(d));
	ENS_TYPE(has_exactly<decltype(u), IX, IY, LX, IZ>);
	auto v = t & s;
	ENS(g<IX>(v) == Z(a) && g<IY>(v) == Z(b) && g<LX>(v) == Z(c) && g<IZ>(v) == Z(d));
	ENS_TYPE(has_exactly<decltype(v), IX, IY, LX, IZ>);
	ENS(g<IY>(s & empty_state) == Z(b) && g<IY>(empty_state & t) == Z(e) && g<LX>(empty_state & s) == Z(c));
	auto w = s & idx<'x'>(lit<11>) & idx<'z'>(lit<12>);
	ENS(g<IX>(w) == Z(11) && g<IY>(w) == Z(b) && g<LX>(w) == Z(c) && g<IZ>(w) == Z(12));
	auto y = idx<'x', 'q'>(lit<11>, lit<13>) & s;
	ENS(g<IX>(y) == Z(a) && g<IY>(y) == Z(b) && g<LX>(y) == Z(c) && g<index_in<'q'>>(y) == Z(13));
}
// sums and differences are itemwise; an item missing from one operand counts as zero there
CONTRACT(plus_minus, sz a, sz b, sz c, sz d) {
	auto s = idx<'x', 'y'>(a, b);
	auto t = idx<'x', 'y'>(c, d);
	ENS(g<IX>(s + t) == wadd(a, c) && g<IY>(s + t) == wadd(b, d));
	ENS(g<IX>(s - t) == wsub(a, c) && g<IY>(s - t) == wsub(b, d));
	ENS_TYPE(has_exactly<decltype(s + t), IX, IY> && has_exactly<decltype(s - t), IX, IY>);
	auto p = idx<'y', 'x'>(d, c);
	ENS(g<IX>(s + p) == wadd(a, c) && g<IY>(s + p) == wadd(b, d));
	ENS(g<IX>(s - p) == wsub(a, c) && g<IY>(s - p) == wsub(b, d));
	ENS(g<IX>(p - s) == wsub(c, a) && g<IY>(p - s) == wsub(d, b));
	ENS_TYPE(has_exactly<decltype(s + p), IX, IY> && has_exactly<decltype(s - p), IX, IY>);
	ENS(g<IX>(+s) == Z(a) && g<IY>(+s) == Z(b));
	ENS(g<IX>(-s) == wsub(0, a) && g<IY>(-s) == wsub(0, b));
	ENS(g<IX>(s + empty_state) == Z(a) && g<IY>(empty_state + s) == Z(b));
	ENS(g<IX>(s - empty_state) == Z(a) && g<IY>(s - empty_state) == Z(b));
	ENS(g<IX>(empty_state - s) == wsub(0, a) && g<IY>(empty_state - s) == wsub(0, b));
	ENS(B(vb_id(s + t - t == s)) && B(vb_id(s - t + t == s)) && B(vb_id(s + p - p == s)));
}
CONTRACT(plus_minus_partial, sz a, sz b, sz c, sz d) {
	auto s = idx<'x', 'y'>(a, b);
	auto t = idx<'z', 'y'>(c, d);
	auto u = s + t;
	ENS(g<IX>(u) == Z(a) && g<IY>(u) == wadd(b, d) && g<IZ>(u) == Z(c));
	ENS_TYPE(has_exactly<decltype(u), IX, IY, IZ>);
	auto v = s - t;
	ENS(g<IX>(v) == Z(a) && g<IY>(v) == wsub(b, d) && g<IZ>(v) == wsub(0, c));
	ENS_TYPE(has_exactly<decltype(v), IX, IY, IZ>);
	auto w = t - s;
	ENS(g<IX>(w) == wsub(0, a) && g<IY>(w) == wsub(d, b) && g<IZ>(w) == Z(c));
	auto p = idx<'x'>(a) + idx<'y'>(b);
	auto q = idx<'x'>(a) - idx<'y'>(b);
	ENS(g<IX>(p) == Z(a) && g<IY>(p) == Z(b) && g<IX>(q) == Z(a) && g<IY>(q) == wsub(0, b));
	auto r = idx<'x', 'y', 'z'>(a, b, c) + idx<'y'>(d);
	auto r2 = idx<'x', 'y', 'z'>(a, b, c) - idx<'y'>(d);
	ENS(g<IX>(r) == Z(a) && g<IY>(r) == wadd(b, d) && g<IZ>(r) == Z(c));
	ENS(g<IX>(r2) == Z(a) && g<IY>(r2) == wsub(b, d) && g<IZ>(r2) == Z(c));
	auto r3 = idx<'y'>(d) + idx<'x', 'y', 'z'>(a, b, c);
	auto r4 = idx<'y'>(d) - idx<'x', 'y', 'z'>(a, b, c);
	ENS(g<IX>(r3) == Z(a) && g<IY>(r3) == wadd(b, d) && g<IZ>(r3) == Z(c));
	ENS(g<IX>(r4) == wsub(0, a) && g<IY>(r4) == wsub(d, b) && g<IZ>(r4) == wsub(0, c));
}
CONTRACT(plus_minus_lit, sz a, sz b) {
	auto s = idx<'x', 'y'>(a, lit<10>);
	auto t = idx<'x', 'y'>(lit<4>, b);
	ENS(g<IX>(s + t) == wadd(a, 4) && g<IY>(s + t) == wadd(10, b));
	ENS(g<IX>(s - t) == wsub(a, 4) && g<IY>(s - t) == wsub(10, b));
	ENS(g<IX>(t - s) == wsub(4, a) && g<IY>(t - s) == wsub(b, 10));
	ENS(g<IX>(s + s) == wadd(a, a) && g<IY>(s + s) == Z(20));
	ENS(g<IX>(s - s) == Z(0) && g<IY>(s - s) == Z(0));
	auto l3 = idx<'x'>(lit<3>);
	auto l4 = idx<'x'>(lit<4>);
	ENS(g<IX>(l3 + l4) == Z(7) && g<IX>(l4 - l3) == Z(1) && g<IX>(l3 + l3) == Z(6) && g<IX>(l3 - l3) == Z(0));
	ENS(g<IX>(-l3) == wsub(0, 3) && g<IX>(l3 - l4) == wsub(3, 4) && g<IX>(empty_state - l3) == wsub(0, 3));
	ENS(g<IY>(-s) == wsub(0, 10) && g<IX>(-s) == wsub(0, a));
	auto m = idx<'y', 'x'>(lit<1>, lit<2>) + idx<'x', 'z'>(lit<5>, a);
	ENS(g<IX>(m) == Z(7) && g<IY>(m) == Z(1) && g<IZ>(m) == Z(a));
	auto k = idx<'y', 'x'>(lit<1>, lit<2>) - idx<'x', 'z'>(lit<2>, a);
	ENS(g<IX>(k) == Z(0) && g<IY>(k) == Z(1) && g<IZ>(k) == wsub(0, a));
	auto zero = idx<'x', 'y'>(lit<0>, lit<0>);
	ENS(g<IX>(s + zero) == Z(a) && g<IY>(s + zero) == Z(10) && g<IX>(zero + s) == Z(a) && g<IX>(s - zero) == Z(a));
	ENS(g<IX>(zero - s) == wsub(0, a) && g<IY>(zero - s) == wsub(0, 10));
}
CONTRACT(compare, sz a, sz b, sz c, sz d) {
	auto s = idx<'x', 'y'>(a, b);
	auto t = idx<'x', 'y'>(c, d);
	auto p = idx<'y', 'x'>(d, c);
	B e = Z(a) == Z(c) && Z(b) == Z(d), le = Z(a) <= Z(c) && Z(b) <= Z(d), ge = Z(c) <= Z(a) && Z(d) <= Z(b);
	auto iff = [](bool x, B y) { return (as_b(x) && y) || (!as_b(x) && !y); };
	ENS(iff(s == t, e) && iff(s == p, e) && iff(p == s, e));
	ENS(iff(s != t, !e) && iff(s != p, !e));
	ENS(iff(s <= t, le) && iff(s <= p, le) && iff(p >= s, le));
	ENS(iff(s >= t, ge) && iff(s >= p, ge) && iff(p <= s, ge));
	ENS(iff(s < t, le && !e) && iff(s < p, le && !e));
	ENS(iff(s > t, ge && !e) && iff(p < s, ge && !e));
}
CONTRACT(compare_partial, sz a, sz b, sz c, sz d) {
	auto iff = [](bool x, B y) { return (as_b(x) && y) || (!as_b(x) && !y); };
	auto s = idx<'x', 'y'>(a, b);
	ENS(!as_b(s == idx<'x'>(a)) && !as_b(idx<'x'>(a) == s) && !as_b(s == idx<'x', 'z'>(a, b)));
	ENS(as_b(s != idx<'x'>(a)) && as_b(s != idx<'x', 'y', 'z'>(a, b, c)));
	ENS(!as_b(s == make_state<IX, LY>(a, b)));
	ENS(as_b(empty_state == empty_state) && !as_b(s == empty_state));
	// a state with fewer items compares below one that has them all, item by item
	ENS(iff(idx<'x'>(c) <= s, Z(c) <= Z(a)) && iff(idx<'y'>(c) < s, Z(c) <= Z(b)));
	ENS(!as_b(s <= idx<'x'>(c)) && !as_b(idx<'z'>(c) <= s) && as_b(empty_state <= s));
	auto l = idx<'x', 'y'>(lit<3>, d);
	ENS(iff(s == l, Z(a) == Z(3) && Z(b) == Z(d)) && iff(s <= l, Z(a) <= Z(3) && Z(b) <= Z(d)));
	ENS(iff(l == idx<'x', 'y'>(lit<3>, c), Z(c) == Z(d)) && !as_b(l == idx<'x', 'y'>(lit<4>, d)));
}
CONTRACT(neighbors, sz i, sz j, sz k, long d, long e) {
	REQ(Z(i) + Z(d) >= Z(0) && Z(i) + Z(d) < TWO64 && Z(j) + Z(e) >= Z(0) && Z(j) + Z(e) < TWO64);
	auto s = idx<'x', 'y', 'z'>(i, j, k);
	auto t = neighbor<'x'>(s, d);
	ENS(g<IX>(t) == Z(i) + Z(d) && g<IY>(t) == Z(j) && g<IZ>(t) == Z(k));
	ENS_TYPE(has_exactly<decltype(t), IX, IY, IZ>);
	auto u = neighbor<'x', 'y'>(s, d, e);
	ENS(g<IX>(u) == Z(i) + Z(d) && g<IY>(u) == Z(j) + Z(e) && g<IZ>(u) == Z(k));
	auto v = neighbor<'y', 'x'>(s, e, d);
	ENS(g<IX>(v) == Z(i) + Z(d) && g<IY>(v) == Z(j) + Z(e) && g<IZ>(v) == Z(k));
	auto w = neighbor<'y'>(neighbor<'x'>(make_state<LX, IY, IX>(k, j, i), d), e);
	ENS(g<IX>(w) == Z(i) + Z(d) && g<IY>(w) == Z(j) + Z(e) && g<LX>(w) == Z(k));
}
CONTRACT(neighbors_const, sz i, sz j) {
	REQ(Z(i) >= Z(1) && Z(j) + Z(3) < TWO64);
	auto s = idx<'x', 'y'>(i, j);
	auto t = neighbor<'x', 'y'>(s, -1, +1);
	ENS(g<IX>(t) == Z(i) - Z(1) && g<IY>(t) == Z(j) + Z(1));
	auto u = neighbor<'y'>(s, lit<3>);
	ENS(g<IX>(u) == Z(i) && g<IY>(u) == Z(j) + Z(3));
	auto v = neighbor<'y', 'x'>(s, lit<0>, 0);
	ENS(g<IX>(v) == Z(i) && g<IY>(v) == Z(j));
	auto w = neighbor<'y'>(idx<'x', 'y'>(lit<5>, j), 2);
	ENS(g<IX>(w) == Z(5) && g<IY>(w) == Z(j) + Z(2));
}
CONTRACT(update, sz i, sz j, sz k) {
	auto s = idx<'x', 'y', 'z'>(i, j, k);
	auto f = [](auto x) { return vu_fun(1, x, 0, 0); };
	auto t = update_index<'y'>(s, f);
	ENS(g<IX>(t) == Z(i) && g<IY>(t) == Z(vu_fun(1, j, 0, 0)) && g<IZ>(t) == Z(k));
	ENS_TYPE(has_exactly<decltype(t), IX, IY, IZ>);
	auto u = update_index<'x'>(update_index<'z'>(s, f), f);
	ENS(g<IX>(u) == Z(vu_fun(1, i, 0, 0)) && g<IY>(u) == Z(j) && g<IZ>(u) == Z(vu_fun(1, k, 0, 0)));
	auto v = update_index<'y'>(s, [](auto) { return lit<4>; });
	ENS(g<IX>(v) == Z(i) && g<IY>(v) == Z(4) && g<IZ>(v) == Z(k));
	auto w = update_index<'y'>(idx<'x', 'y'>(i, lit<7>), [](auto y) { return y + 1; });
	ENS(g<IX>(w) == Z(i) && g<IY>(w) == Z(8));
}
// symmetric span: leaves `o` positions on both sides out
CONTRACT(symspan, sz n, sz m, sz p, sz o, sz q, sz i, sz j, sz k) {
	REQ(Z(o) + Z(o) <= Z(n) && Z(q) + Z(q) <= Z(m) && Z(n) < TWO64);
	A a{{n, m, p}};
	auto s = a ^ symmetric_span<'x'>(a, o);
	ENS(zlen<'x'>(s) == Z(n) - Z(o) - Z(o) && zlen<'y'>(s) == Z(m) && zlen<'z'>(s) == Z(p));
	auto t = a ^ symmetric_spans<'x', 'y'>(a, o, q);
	ENS(zlen<'x'>(t) == Z(n) - Z(o) - Z(o) && zlen<'y'>(t) == Z(m) - Z(q) - Z(q) && zlen<'z'>(t) == Z(p));
	auto u = a ^ symmetric_spans<'y', 'x'>(a, empty_state, q, o);
	ENS(zlen<'x'>(u) == Z(n) - Z(o) - Z(o) && zlen<'y'>(u) == Z(m) - Z(q) - Z(q));
	REQ(Z(i) + Z(o) + Z(o) < Z(n) && Z(j) + Z(q) + Z(q) < Z(m) && Z(k) < Z(p));
	ENS(zof<'x', 'y', 'z'>(s, i, j, k) == OFF(Z(i) + Z(o), Z(j), Z(k)));
	ENS(zof<'x', 'y', 'z'>(t, i, j, k) == OFF(Z(i) + Z(o), Z(j) + Z(q), Z(k)));
	ENS(zof<'x', 'y', 'z'>(u, i, j, k) == OFF(Z(i) + Z(o), Z(j) + Z(q), Z(k)));
	ENS(zsz(t) == zsize<0, int>(Z(n), Z(m), Z(p)));
}
CONTRACT(symspan_same, sz n, sz m, sz p, sz o, sz i, sz j, sz k) {
	REQ(Z(o) + Z(o) <= Z(n) && Z(o) + Z(o) <= Z(m));
	A a{{n, m, p}};
	auto s = a ^ symmetric_span<'x', 'y'>(a, o);
	ENS(zlen<'x'>(s) == Z(n) - Z(o) - Z(o) && zlen<'y'>(s) == Z(m) - Z(o) - Z(o) && zlen<'z'>(s) == Z(p));
	REQ(Z(i) + Z(o) + Z(o) < Z(n) && Z(j) + Z(o) + Z(o) < Z(m) && Z(k) < Z(p));
	ENS(zof<'x', 'y', 'z'>(s, i, j, k) == OFF(Z(i) + Z(o), Z(j) + Z(o), Z(k)));
}
CONTRACT(symspan_lit, sz n, sz m, sz p, sz i, sz j, sz k) {
	REQ(Z(2) <= Z(n));
	A a{{n, m, p}};
	auto s = a ^ symmetric_span<'x'>(a, lit<1>);
	ENS(zlen<'x'>(s) == Z(n) - Z(2));
	REQ(Z(i) + Z(2) < Z(n) && Z(j) < Z(m) && Z(k) < Z(p));
	ENS(zof<'x', 'y', 'z'>(s, i, j, k) == OFF(Z(i) + Z(1), Z(j), Z(k)));
}
// a span in a traverser order restricts exactly like in a structure
CONTRACT(symspan_order, sz n, sz m, sz p, sz o) {
	REQ(Z(o) + Z(o) <= Z(n));
	A a{{n, m, p}};
	auto t = traverser(a).order(symmetric_span<'x'>(a, o));
	ENS(zlen<'x'>(t.top_struct()) == Z(n) - Z(o) - Z(o) && zlen<'y'>(t.top_struct()) == Z(m));
}
// the number of elements of a structure
CONTRACT(space_size, sz n, sz m, sz p) {
	A a{{n, m, p}};
	REQ(Z(n) * Z(m) < TWO64 && Z(m) * Z(p) < TWO64 && Z(n) * Z(m) * Z(p) < TWO64);
	ENS(Z(index_space_size(a)) == Z(n) * Z(m) * Z(p));
	ENS(Z(index_space_size(a ^ fix<'y'>(0))) == Z(n) * Z(p) || Z(n) * Z(p) >= TWO64);
	ENS(Z(index_space_size<dim_tree<'x', dim_tree<'y', dim_sequence<>>>>(a)) == Z(n) * Z(m));
}
CONTRACT(space_size_tuple, sz n, sz m) {
	REQ(Z(n) * Z(m) * Z(3) < TWO64 && Z(n) * Z(3) < TWO64);
	auto t = pack(scalar<int>(), scalar<char>(), scalar<double>()) ^ tuple<'t'>() ^ vector<'x'>(n);
	ENS(Z(index_space_size(t)) == Z(n) * Z(3));
	ENS(Z(index_space_size(t ^ fix<'t'>(lit<1>))) == Z(n));
	ENS(Z(index_space_size(scalar<int>())) == Z(1) && Z(index_space_size(t ^ fix<'x'>(0))) == Z(3));
	auto u = pack(scalar<int>()) ^ tuple<'t'>() ^ vector<'x'>(n) ^ array<'y', 5>();
	ENS(Z(index_space_size(u ^ fix<'x'>(0))) == Z(5));
}
