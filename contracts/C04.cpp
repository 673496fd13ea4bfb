// C04 into_blocks
#include "abs.hpp"
using namespace noarr;
using A = absn::abs_t<0, int, 'x', 'y'>;
using AY = absn::abs_t<0, int, 'y', 'x'>;
using U = absn::absu_t<0, int, 'x', 'y'>;

#define PRE_B REQ(Z(b) > Z(0) && Z(i) < Z(n) / Z(b) && Z(j) < Z(b) && Z(y) < Z(m))

CONTRACT(size_fresh, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE_B;
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a', 'b'>(b);
	ENS(zlen<'a'>(s) == Z(n) / Z(b));
	ENS(zlen<'b'>(s) == Z(b));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zsz(s) == zsize<0, int>(n, m));
	ENS(zof<'a', 'b', 'y'>(s, i, j, y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
	ENS(zof<'y', 'b', 'a'>(s, y, j, i) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
	ENS_TYPE(!decltype(s)::has_length<'x', state<>>());
}
CONTRACT(size_minor_same, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE_B;
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a'>(b);
	ENS(zlen<'a'>(s) == Z(n) / Z(b));
	ENS(zlen<'x'>(s) == Z(b));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zsz(s) == zsize<0, int>(n, m));
	ENS(zof<'a', 'x', 'y'>(s, i, j, y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
}
CONTRACT(size_major_same, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE_B;
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'x', 'b'>(b);
	ENS(zlen<'x'>(s) == Z(n) / Z(b));
	ENS(zlen<'b'>(s) == Z(b));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zsz(s) == zsize<0, int>(n, m));
	ENS(zof<'x', 'b', 'y'>(s, i, j, y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
}
CONTRACT(size_inner_dim, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE_B;
	AY a{{m, n}};
	auto s = a ^ into_blocks<'x', 'a', 'b'>(b);
	ENS(zlen<'a'>(s) == Z(n) / Z(b));
	ENS(zlen<'b'>(s) == Z(b));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zof<'a', 'b', 'y'>(s, i, j, y) == zoff<0, int>(m, n, y, Z(i) * Z(b) + Z(j)));
}
#define PRE_K REQ(Z(k) > Z(0) && Z(i) < Z(k) && Z(j) < Z(n) / Z(k) && Z(y) < Z(m))
CONTRACT(count_fresh, sz n, sz m, sz k, sz i, sz j, sz y) {
	PRE_K;
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a', 'b'>() ^ set_length<'a'>(k);
	ENS(zlen<'a'>(s) == Z(k));
	ENS(zlen<'b'>(s) == Z(n) / Z(k));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zsz(s) == zsize<0, int>(n, m));
	ENS(zof<'a', 'b', 'y'>(s, i, j, y) == zoff<0, int>(n, m, Z(i) * (Z(n) / Z(k)) + Z(j), y));
}
CONTRACT(count_minor_same, sz n, sz m, sz k, sz i, sz j, sz y) {
	PRE_K;
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a'>() ^ set_length<'a'>(k);
	ENS(zlen<'a'>(s) == Z(k));
	ENS(zlen<'x'>(s) == Z(n) / Z(k));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zof<'a', 'x', 'y'>(s, i, j, y) == zoff<0, int>(n, m, Z(i) * (Z(n) / Z(k)) + Z(j), y));
}
CONTRACT(count_major_same, sz n, sz m, sz k, sz i, sz j, sz y) {
	PRE_K;
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'x', 'b'>() ^ set_length<'x'>(k);
	ENS(zlen<'x'>(s) == Z(k));
	ENS(zlen<'b'>(s) == Z(n) / Z(k));
	ENS(zof<'x', 'b', 'y'>(s, i, j, y) == zoff<0, int>(n, m, Z(i) * (Z(n) / Z(k)) + Z(j), y));
}
// unsized inner structure: both lengths are set, inner length is their product
#define PRE_U REQ(Z(k) * Z(b) < TWO64 && Z(i) < Z(k) && Z(j) < Z(b) && Z(y) < Z(m))
CONTRACT(unsized_both, sz m, sz k, sz b, sz i, sz j, sz y) {
	PRE_U;
	U u{};
	auto s = u ^ set_length<'y'>(m) ^ into_blocks<'x', 'a', 'b'>() ^ set_length<'a', 'b'>(k, b);
	ENS(zlen<'a'>(s) == Z(k));
	ENS(zlen<'b'>(s) == Z(b));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zsz(s) == zsize<0, int>(Z(k) * Z(b), m));
	ENS(zof<'a', 'b', 'y'>(s, i, j, y) == zoff<0, int>(Z(k) * Z(b), m, Z(i) * Z(b) + Z(j), y));
}
CONTRACT(unsized_both_minor_same, sz m, sz k, sz b, sz i, sz j, sz y) {
	PRE_U;
	U u{};
	auto s = u ^ into_blocks<'x', 'a'>(b) ^ set_length<'y'>(m) ^ set_length<'a'>(k);
	ENS(zlen<'a'>(s) == Z(k));
	ENS(zlen<'x'>(s) == Z(b));
	ENS(zsz(s) == zsize<0, int>(Z(k) * Z(b), m));
	ENS(zof<'a', 'x', 'y'>(s, i, j, y) == zoff<0, int>(Z(k) * Z(b), m, Z(i) * Z(b) + Z(j), y));
}
// unsized innermost, length set below the split
CONTRACT(unsized_len_below, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE_B;
	U u{};
	auto s = u ^ set_length<'x', 'y'>(n, m) ^ into_blocks<'x', 'a', 'b'>(b);
	ENS(zlen<'a'>(s) == Z(n) / Z(b));
	ENS(zlen<'b'>(s) == Z(b));
	ENS(zsz(s) == zsize<0, int>(n, m));
	ENS(zof<'a', 'b', 'y'>(s, i, j, y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
}
// lengths supplied by the state at query time instead of set_length
CONTRACT(state_lengths, sz n, sz m, sz k, sz b, sz i, sz j, sz y) {
	PRE_U;
	U u{};
	auto s = u ^ into_blocks<'x', 'a', 'b'>();
	auto st = empty_state.with<length_in<'a'>, length_in<'b'>, length_in<'y'>>(k, b, m);
	ENS(zlen<'a'>(s, st) == Z(k));
	ENS(zlen<'b'>(s, st) == Z(b));
	ENS(zlen<'y'>(s, st) == Z(m));
	ENS(Z(val(s | get_size(st))) == zsize<0, int>(Z(k) * Z(b), m));
	auto st2 = st.with<index_in<'a'>, index_in<'b'>, index_in<'y'>>(i, j, y);
	ENS(Z(val(s | offset(st2))) == zoff<0, int>(Z(k) * Z(b), m, Z(i) * Z(b) + Z(j), y));
	auto in = state_at<U>(s, st2);
	ENS(Z(val(get_index<'x'>(in))) == Z(i) * Z(b) + Z(j));
	ENS(Z(val(get_index<'y'>(in))) == Z(y));
	ENS(Z(val(get_length_in<'x'>(in))) == Z(k) * Z(b));
	ENS(Z(val(get_length_in<'y'>(in))) == Z(m));
}
CONTRACT(state_len_minor, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE_B;
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a', 'b'>();
	auto st = empty_state.with<length_in<'b'>>(b);
	ENS(zlen<'a'>(s, st) == Z(n) / Z(b));
	ENS(zlen<'b'>(s, st) == Z(b));
	ENS(zlen<'a'>(s, st.with<index_in<'b'>>(j)) == Z(n) / Z(b));
	ENS(zlen<'b'>(s, st.with<index_in<'a'>>(i)) == Z(b));
	ENS(zlen<'y'>(s, st.with<index_in<'a'>, index_in<'b'>>(i, j)) == Z(m));
	ENS(Z(val(s | get_size(st))) == zsize<0, int>(n, m));
	auto st2 = st.with<index_in<'a'>, index_in<'b'>, index_in<'y'>>(i, j, y);
	ENS(Z(val(s | offset(st2))) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
	ENS(Z(val(s | get_size(st2))) == zsize<0, int>(n, m));
	auto in = state_at<A>(s, st2);
	ENS(Z(val(get_index<'x'>(in))) == Z(i) * Z(b) + Z(j));
}
CONTRACT(state_len_major, sz n, sz m, sz k, sz i, sz j, sz y) {
	PRE_K;
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a', 'b'>();
	auto st = empty_state.with<length_in<'a'>>(k);
	ENS(zlen<'a'>(s, st) == Z(k));
	ENS(zlen<'b'>(s, st) == Z(n) / Z(k));
	ENS(zlen<'a'>(s, st.with<index_in<'b'>>(j)) == Z(k));
	ENS(zlen<'b'>(s, st.with<index_in<'a'>>(i)) == Z(n) / Z(k));
	ENS(zlen<'y'>(s, st.with<index_in<'a'>, index_in<'b'>>(i, j)) == Z(m));
	auto st2 = st.with<index_in<'a'>, index_in<'b'>, index_in<'y'>>(i, j, y);
	ENS(Z(val(s | offset(st2))) == zoff<0, int>(n, m, Z(i) * (Z(n) / Z(k)) + Z(j), y));
	ENS(Z(val(s | get_size(st2))) == zsize<0, int>(n, m));
}
// static block size / count / indices
CONTRACT(static_size, sz n, sz m, sz i, sz j, sz y) {
	REQ(Z(i) < Z(n) / Z(4) && Z(j) < Z(4) && Z(y) < Z(m));
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a', 'b'>(lit<4>);
	ENS(zlen<'a'>(s) == Z(n) / Z(4));
	ENS(zlen<'b'>(s) == Z(4));
	ENS(zof<'a', 'b', 'y'>(s, i, j, y) == zoff<0, int>(n, m, Z(i) * Z(4) + Z(j), y));
}
CONTRACT(static_idx, sz n, sz m, sz b, sz i, sz j, sz y) {
	REQ(Z(b) > Z(3) && Z(i) < Z(n) / Z(b) && Z(j) < Z(b) && Z(y) < Z(m) && Z(2) < Z(n) / Z(b));
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a', 'b'>(b);
	ENS(zof<'a', 'b', 'y'>(s, lit<2>, j, y) == zoff<0, int>(n, m, Z(2) * Z(b) + Z(j), y));
	ENS(zof<'a', 'b', 'y'>(s, i, lit<3>, y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(3), y));
	ENS(zof<'a', 'b', 'y'>(s, lit<1>, lit<3>, y) == zoff<0, int>(n, m, Z(b) + Z(3), y));
}
CONTRACT(static_count, sz n, sz m, sz i, sz j, sz y) {
	REQ(Z(i) < Z(5) && Z(j) < Z(n) / Z(5) && Z(y) < Z(m));
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a', 'b'>() ^ set_length<'a'>(lit<5>);
	ENS(zlen<'a'>(s) == Z(5));
	ENS(zlen<'b'>(s) == Z(n) / Z(5));
	ENS(zof<'a', 'b', 'y'>(s, i, j, y) == zoff<0, int>(n, m, Z(i) * (Z(n) / Z(5)) + Z(j), y));
}
CONTRACT(fully_static, sz i, sz j) {
	REQ(Z(i) < Z(4) && Z(j) < Z(3));
	auto s = scalar<int>() ^ array<'x', 14>() ^ into_blocks<'x', 'a', 'b'>(lit<3>);
	ENS_TYPE(decltype(s | get_length<'a'>())::value == 4);
	ENS_TYPE(decltype(s | get_length<'b'>())::value == 3);
	ENS_TYPE(decltype(s | get_size())::value == 14 * sizeof(int));
	ENS(zof<'a', 'b'>(s, i, j) == (Z(i) * Z(3) + Z(j)) * Z(4));
	ENS_TYPE(decltype(s | offset<'a', 'b'>(lit<3>, lit<1>))::value == 40);
}
// exact correspondence when the block size divides the length; both directions
CONTRACT(bijective, sz k, sz m, sz b, sz p, sz q, sz y) {
	REQ(Z(b) > Z(0) && Z(k) * Z(b) < TWO64 && Z(y) < Z(m) && Z(p) < Z(k) * Z(b) && Z(q) < Z(k) * Z(b));
	sz n = k * b;
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a', 'b'>(b);
	// onto: every original element is reached by valid block indices
	sz pi = p / b, pj = p % b;
	ENS(Z(pi) < zlen<'a'>(s) && Z(pj) < zlen<'b'>(s));
	ENS(zof<'a', 'b', 'y'>(s, pi, pj, y) == zof<'x', 'y'>(a, p, y));
}
CONTRACT(injective, sz n, sz m, sz b, sz i, sz j, sz y, sz i2, sz j2, sz y2) {
	PRE_B;
	REQ(Z(i2) < Z(n) / Z(b) && Z(j2) < Z(b) && Z(y2) < Z(m));
	REQ(Z(i) != Z(i2) || Z(j) != Z(j2) || Z(y) != Z(y2));
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a', 'b'>(b);
	auto in1 = state_at<A>(s ^ fix<'a', 'b', 'y'>(i, j, y), empty_state);
	auto in2 = state_at<A>(s ^ fix<'a', 'b', 'y'>(i2, j2, y2), empty_state);
	ENS(Z(get_index<'x'>(in1)) != Z(get_index<'x'>(in2)) || Z(get_index<'y'>(in1)) != Z(get_index<'y'>(in2)));
}
CONTRACT(nested_major, sz n, sz m, sz b, sz c, sz h, sz i, sz j, sz y) {
	REQ(Z(b) > Z(0) && Z(c) > Z(0) && Z(h) < (Z(n) / Z(b)) / Z(c) && Z(i) < Z(c) && Z(j) < Z(b) && Z(y) < Z(m));
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a', 'b'>(b) ^ into_blocks<'a', 'h', 'i'>(c);
	ENS(zlen<'h'>(s) == (Z(n) / Z(b)) / Z(c));
	ENS(zlen<'i'>(s) == Z(c));
	ENS(zlen<'b'>(s) == Z(b));
	ENS(zof<'h', 'i', 'b', 'y'>(s, h, i, j, y) == zoff<0, int>(n, m, (Z(h) * Z(c) + Z(i)) * Z(b) + Z(j), y));
}
CONTRACT(nested_minor, sz n, sz m, sz b, sz c, sz i, sz j, sz k, sz y) {
	REQ(Z(b) > Z(0) && Z(c) > Z(0) && Z(i) < Z(n) / Z(b) && Z(j) < Z(b) / Z(c) && Z(k) < Z(c) && Z(y) < Z(m));
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a', 'b'>(b) ^ into_blocks<'b', 'j', 'k'>(c);
	ENS(zlen<'a'>(s) == Z(n) / Z(b));
	ENS(zlen<'j'>(s) == Z(b) / Z(c));
	ENS(zlen<'k'>(s) == Z(c));
	ENS(zof<'a', 'j', 'k', 'y'>(s, i, j, k, y) == zoff<0, int>(n, m, Z(i) * Z(b) + (Z(j) * Z(c) + Z(k)), y));
}
// concrete layout, both dimensions split
CONTRACT(two_dims_concrete, sz n, sz m, sz b, sz c, sz i, sz j, sz k, sz l) {
	REQ(Z(n) * Z(m) * Z(4) < TWO64 && Z(b) > Z(0) && Z(c) > Z(0));
	REQ(Z(i) < Z(n) / Z(b) && Z(j) < Z(b) && Z(k) < Z(m) / Z(c) && Z(l) < Z(c));
	auto s = scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m) ^ into_blocks<'x', 'i', 'j'>(b) ^ into_blocks<'y', 'k', 'l'>(c);
	ENS(zlen<'i'>(s) == Z(n) / Z(b));
	ENS(zlen<'j'>(s) == Z(b));
	ENS(zlen<'k'>(s) == Z(m) / Z(c));
	ENS(zlen<'l'>(s) == Z(c));
	ENS(zsz(s) == Z(n) * Z(m) * Z(4));
	Z px = Z(i) * Z(b) + Z(j), py = Z(k) * Z(c) + Z(l);
	ENS(px < Z(n) && py < Z(m));
	ENS(px * Z(4) < Z(n) * Z(4) && py * (Z(n) * Z(4)) <= (Z(m) - Z(1)) * (Z(n) * Z(4)));
	ENS(zof<'i', 'j', 'k', 'l'>(s, i, j, k, l) == (py * Z(n) + px) * Z(4));
}
CONTRACT(strip_mine_size, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE_B;
	A a{{n, m}};
	auto s = a ^ strip_mine<'x', 'a', 'b'>(b);
	ENS(zlen<'a'>(s) == Z(n) / Z(b));
	ENS(zlen<'b'>(s) == Z(b));
	ENS(zlen<'y'>(s) == Z(m));
	ENS(zof<'a', 'b', 'y'>(s, i, j, y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
}
// fixing one of the block indices at a time
CONTRACT(fix_steps, sz n, sz m, sz b, sz i, sz j, sz y) {
	PRE_B;
	A a{{n, m}};
	auto s = a ^ into_blocks<'x', 'a', 'b'>(b) ^ fix<'b'>(j);
	ENS(zlen<'a'>(s) == Z(n) / Z(b));
	ENS(zlen<'y'>(s) == Z(m));
	auto t = s ^ fix<'a'>(i);
	ENS(zlen<'y'>(t) == Z(m));
	ENS(zof<'y'>(t, y) == zoff<0, int>(n, m, Z(i) * Z(b) + Z(j), y));
	ENS(zsz(t) == zsize<0, int>(n, m));
}
// ---- over every structure of the library
#include "every.hpp"
namespace every {
template<auto... D>
struct blocked {
	template<auto Q, class S, class St>
	static void one(S s, St st, sz a, sz b) {
		const sz j = get_index<Q>(st);
		REQ(Z(b) > Z(0) && Z(a) < length<Q>(s) / Z(b) && Z(j) < Z(b));
		auto v = s ^ into_blocks<Q, 'M', 'N'>(b);
		auto vt = without<Q>(st).template with<index_in<'M'>, index_in<'N'>>(a, j);
		ENS(at(v, vt) == at(s, with<Q>(st, a * b + j)));
		ENS(length<'M'>(v) == length<Q>(s) / Z(b) && length<'N'>(v) == Z(b));
		others<Q, D...>::keep(s, st, v, vt);
	}
	template<class S, class St>
	static void go(S s, St st, sz q, sz a, sz b) {
		if constexpr ((... && plain<D, S>))
			pick<D...>(q, [&]<auto Q>() { one<Q>(s, st, a, b); });
		else // only some combinations of indices are valid
			ENS(at(s, st) + Z(sizeof(scalar_t<S, St>)) <= Z(val(s | get_size())));
	}
};
} // namespace every
#define WITHOUT_STEP // nested divisions; the contracts above have the cases
#define EVERY_CHECK blocked
#include "every.inc"
