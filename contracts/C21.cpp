// C21 mangled names
#include "abs.hpp"
#include <noarr/structures/extra/mangle.hpp>
#include <noarr/structures/structs/zcurve.hpp>
using namespace noarr;

// the string type a user supplies
struct str {
	char b[800];
	sz n = 0;
	void push_back(char c) { b[n++] = c; }
	void append(const char *p, sz k) {
		for (sz i = 0; i < k; ++i)
			b[n++] = p[i];
	}
};
// [from, to) of the string spells the decimal form of the number with the given sign and absolute value
inline void decimal(const str &s, sz from, sz to, bool neg, Z abs) {
	ENS(Z(from) < Z(to));
	if (neg) {
		ENS(as_b(s.b[from] == '-'));
		++from;
		ENS(Z(from) < Z(to));
	}
	Z v(0);
	for (sz i = from; i < to; ++i) {
		ENS(as_b(s.b[i] >= '0' && s.b[i] <= '9'));
		v = v * Z(10) + Z(sz(s.b[i] - '0'));
	}
	ENS(v == abs);
	if (to - from > 1)
		ENS(as_b(s.b[from] != '0'));
}
inline void text(const str &s, sz &pos, const char *t) {
	for (; *t; ++t, ++pos) {
		ENS(Z(pos) < Z(s.n));
		ENS(as_b(s.b[pos] == *t));
	}
}
// one integer: type name, value in braces
template<class T>
inline void integer(T x, const char *name) {
	str s = mangle_expr<str>(x);
	sz p = 0;
	text(s, p, name);
	text(s, p, "{");
	Z v = [&] {
		if constexpr (std::is_signed_v<T>)
			return Z(long(x));
		else
			return Z(sz(x));
	}();
	bool neg = x < 0;
	decimal(s, p, s.n - 1, neg, neg ? Z(0) - v : v);
	p = s.n - 1;
	text(s, p, "}");
	ENS(Z(p) == Z(s.n));
}
CONTRACT(u64_un, sz x) { integer(x, "uint64_t"); }
CONTRACT(u32_un, sz x) { integer((std::uint32_t)x, "uint32_t"); }
CONTRACT(u8_un, sz x) { integer((std::uint8_t)x, "uint8_t"); }
CONTRACT(i64_un, sz x) { integer((std::int64_t)x, "int64_t"); }
CONTRACT(i32_un, sz x) { integer((std::int32_t)x, "int32_t"); }
CONTRACT(i16_un, sz x) { integer((std::int16_t)x, "int16_t"); }
CONTRACT(i8_un, sz x) { integer((std::int8_t)x, "int8_t"); }
CONTRACT(ull_un, sz x) { integer((unsigned long long)x, "uint64_t"); }
CONTRACT(ll_un, sz x) { integer((long long)x, "int64_t"); }

// structures with run-time members: T{members in order}
inline void run_time(const str &s, sz &p, sz x) {
	text(s, p, "uint64_t{");
	sz e = p;
	while (s.b[e] != '}')
		++e;
	decimal(s, p, e, false, Z(x));
	p = e;
	text(s, p, "},");
}
#define ST(x) mangle_to_str<x>::c_str
CONTRACT(set_length_un, sz n) {
	auto t = scalar<int>() ^ vector<'x'>() ^ set_length<'x'>(n);
	str s = mangle_expr<str>(t);
	sz p = 0;
	text(s, p, "set_length_t<'x',vector_t<'x',scalar<int32_t>>,uint64_t>{vector_t<'x',scalar<int32_t>>{scalar<int32_t>{},},");
	run_time(s, p, n);
	text(s, p, "}");
	ENS(Z(p) == Z(s.n));
}
CONTRACT(shift_un, sz n) {
	auto t = scalar<float>() ^ vector<'y'>() ^ shift<'y'>(n);
	str s = mangle_expr<str>(t);
	sz p = 0;
	text(s, p, "shift_t<'y',vector_t<'y',scalar<float>>,uint64_t>{vector_t<'y',scalar<float>>{scalar<float>{},},");
	run_time(s, p, n);
	text(s, p, "}");
	ENS(Z(p) == Z(s.n));
}
// two run-time members in order (few digits each: the digits of any number are the subject of u64_un)
CONTRACT(span_un, sz b, sz e) {
	REQ(Z(b) < Z(100) && Z(e) < Z(100));
	auto t = scalar<float>() ^ vector<'y'>() ^ span<'y'>(b, e);
	str s = mangle_expr<str>(t);
	sz p = 0;
	text(s, p, "span_t<'y',vector_t<'y',scalar<float>>,uint64_t,uint64_t>{vector_t<'y',scalar<float>>{scalar<float>{},},");
	run_time(s, p, b);
	run_time(s, p, e);
	text(s, p, "}");
	ENS(Z(p) == Z(s.n));
}
CONTRACT(slice_un, sz b, sz e) {
	REQ(Z(b) < Z(100) && Z(e) < Z(100));
	auto t = scalar<float>() ^ vector<'y'>() ^ slice<'y'>(b, e);
	str s = mangle_expr<str>(t);
	sz p = 0;
	text(s, p, "slice_t<'y',vector_t<'y',scalar<float>>,uint64_t,uint64_t>{vector_t<'y',scalar<float>>{scalar<float>{},},");
	run_time(s, p, b);
	run_time(s, p, e);
	text(s, p, "}");
	ENS(Z(p) == Z(s.n));
}
CONTRACT(step_un, sz b, sz e) {
	REQ(Z(b) < Z(100) && Z(e) < Z(100));
	auto t = scalar<float>() ^ vector<'y'>() ^ step<'y'>(b, e);
	str s = mangle_expr<str>(t);
	sz p = 0;
	text(s, p, "step_t<'y',vector_t<'y',scalar<float>>,uint64_t,uint64_t>{vector_t<'y',scalar<float>>{scalar<float>{},},");
	run_time(s, p, b);
	run_time(s, p, e);
	text(s, p, "}");
	ENS(Z(p) == Z(s.n));
}
// members at several places of the structure
CONTRACT(tuple_members_un, sz b, sz e) {
	REQ(Z(b) < Z(100) && Z(e) < Z(100));
	auto t = pack(scalar<float>() ^ sized_vector<'y'>(b), scalar<std::uint16_t>() ^ array<'z', 7>() ^ fix<'z'>(e)) ^ tuple<'t'>();
	str s = mangle_expr<str>(t);
	sz p = 0;
	text(s, p, ST(decltype(t)));
	text(s, p, "{set_length_t<'y',vector_t<'y',scalar<float>>,uint64_t>{vector_t<'y',scalar<float>>{scalar<float>{},},");
	run_time(s, p, b);
	text(s, p, "},fix_t<'z',set_length_t<'z',vector_t<'z',scalar<uint16_t>>,std::integral_constant<uint64_t,7>>,uint64_t>{");
	text(s, p, "set_length_t<'z',vector_t<'z',scalar<uint16_t>>,std::integral_constant<uint64_t,7>>{vector_t<'z',scalar<uint16_t>>{scalar<uint16_t>{},},lit<7>,},");
	run_time(s, p, e);
	text(s, p, "},}");
	ENS(Z(p) == Z(s.n));
}
CONTRACT(signed_member_un, sz x) {
	using F = fix_t<'x', vector_t<'x', scalar<int>>, int>;
	F t(vector_t<'x', scalar<int>>(), (int)x);
	str s = mangle_expr<str>(t);
	sz p = 0;
	text(s, p, ST(F));
	text(s, p, "{vector_t<'x',scalar<int32_t>>{scalar<int32_t>{},},");
	text(s, p, "int32_t{");
	sz e = p;
	while (s.b[e] != '}')
		++e;
	Z v((long)(int)x);
	decimal(s, p, e, (int)x < 0, (int)x < 0 ? Z(0) - v : v);
	p = e;
	text(s, p, "},}");
	ENS(Z(p) == Z(s.n));
}
CONTRACT(literal_member) {
	auto t = scalar<int>() ^ vector<'x'>() ^ shift<'x'>(lit<0>) ^ fix<'x'>(lit<18446744073709551615u>);
	str s = mangle_expr<str>(t);
	sz p = 0;
	text(s, p, ST(decltype(t)));
	text(s, p, "{shift_t<'x',vector_t<'x',scalar<int32_t>>,std::integral_constant<uint64_t,0>>{vector_t<'x',scalar<int32_t>>{scalar<int32_t>{},},lit<0>,},");
	text(s, p, "lit<18446744073709551615>,}");
	ENS(Z(p) == Z(s.n));
}

// type names (decided when the contract program is compiled, for the listed types): kind, parameters in order
template<char... C>
struct chars {
	char c[sizeof...(C) + 1] = {C..., 0};
};
template<char... C>
constexpr chars<C...> spell(std::integer_sequence<char, C...>) {
	return {};
}
template<class T>
constexpr auto spelled = spell(mangle<T>());
template<class T>
constexpr bool named(const char *t) {
	sz i = 0;
	for (; spelled<T>.c[i]; ++i)
		if (spelled<T>.c[i] != t[i])
			return false;
	return t[i] == 0 && i == mangle_to_str<T>::length;
}
template<sz N>
constexpr bool number() {
	using T = decltype(scalar<char>() ^ array<'a', N>());
	constexpr char pre[] = "set_length_t<'a',vector_t<'a',scalar<int8_t>>,std::integral_constant<uint64_t,";
	const char *c = spelled<T>.c;
	sz i = 0;
	for (; pre[i]; ++i)
		if (c[i] != pre[i])
			return false;
	char d[24] = {};
	int k = 0;
	for (sz v = N; k == 0 || v; v /= 10)
		d[k++] = char('0' + v % 10);
	while (k)
		if (c[i++] != d[--k])
			return false;
	return c[i] == '>' && c[i + 1] == '>' && c[i + 2] == 0;
}
CONTRACT(numbers) {
	ENS_TYPE(number<0>() && number<1>() && number<9>() && number<10>() && number<11>() && number<19>() && number<90>() && number<99>());
	ENS_TYPE(number<100>() && number<101>() && number<109>() && number<110>() && number<999>() && number<1000>() && number<1001>());
	ENS_TYPE(number<12345>() && number<65535>() && number<65536>() && number<1000000>() && number<987654321>() && number<2147483647>());
	ENS_TYPE(number<2147483648>() && number<4294967295>() && number<4294967296>() && number<1000000000000>() && number<18446744073709551615u>());
}
template<sz N>
using C = std::integral_constant<sz, N>;
using V = vector_t<'x', scalar<int>>;
using VV = vector_t<'y', V>;
#define VS "vector_t<'x',scalar<int32_t>>"
#define VVS "vector_t<'y'," VS ">"
#define L(n) "std::integral_constant<uint64_t," #n ">"
CONTRACT(names) {
	ENS_TYPE(named<scalar<float>>("scalar<float>") && named<scalar<double>>("scalar<double>") && named<scalar<long double>>("scalar<long double>"));
	ENS_TYPE(named<scalar<std::int8_t>>("scalar<int8_t>") && named<scalar<std::uint8_t>>("scalar<uint8_t>"));
	ENS_TYPE(named<scalar<std::int16_t>>("scalar<int16_t>") && named<scalar<std::uint16_t>>("scalar<uint16_t>"));
	ENS_TYPE(named<scalar<std::int32_t>>("scalar<int32_t>") && named<scalar<std::uint32_t>>("scalar<uint32_t>"));
	ENS_TYPE(named<scalar<std::int64_t>>("scalar<int64_t>") && named<scalar<std::uint64_t>>("scalar<uint64_t>"));
	ENS_TYPE(named<V>(VS) && named<VV>(VVS));
	ENS_TYPE(named<scalar<lit_t<0>>>("scalar<lit_t<0>>") && named<scalar<lit_t<4294967297>>>("scalar<lit_t<4294967297>>"));
	ENS_TYPE(named<scalar<C<4294967297>>>("scalar<" L(4294967297) ">"));
	ENS_TYPE(named<tuple_t<'t', V, scalar<float>, VV>>("tuple_t<'t'," VS ",scalar<float>," VVS ">"));
	ENS_TYPE(named<bcast_t<'b', V>>("bcast_t<'b'," VS ">"));
	ENS_TYPE(named<fix_t<'x', V, sz>>("fix_t<'x'," VS ",uint64_t>") && named<fix_t<'x', V, C<3>>>("fix_t<'x'," VS "," L(3) ">"));
	ENS_TYPE(named<set_length_t<'x', V, sz>>("set_length_t<'x'," VS ",uint64_t>"));
	ENS_TYPE(named<shift_t<'x', V, C<2>>>("shift_t<'x'," VS "," L(2) ">"));
	ENS_TYPE(named<slice_t<'x', V, C<2>, sz>>("slice_t<'x'," VS "," L(2) ",uint64_t>"));
	ENS_TYPE(named<span_t<'x', V, sz, C<2>>>("span_t<'x'," VS ",uint64_t," L(2) ">"));
	ENS_TYPE(named<step_t<'x', V, C<2>, C<10>>>("step_t<'x'," VS "," L(2) "," L(10) ">"));
	ENS_TYPE(named<shift_t<'x', V, lit_t<20>>>("shift_t<'x'," VS ",lit_t<20>>"));
	ENS_TYPE(named<reverse_t<'x', V>>("reverse_t<'x'," VS ">"));
	ENS_TYPE(named<hoist_t<'x', VV>>("hoist_t<'x'," VVS ">"));
	ENS_TYPE(named<rename_t<VV, 'x', 'a', 'y', 'b'>>("rename_t<" VVS ",'x','a','y','b'>"));
	ENS_TYPE(named<join_t<VV, 'x', 'y', 'z'>>("join_t<" VVS ",'x','y','z'>"));
	ENS_TYPE(named<reorder_t<VV, 'x', 'y'>>("reorder_t<" VVS ",'x','y'>"));
	ENS_TYPE(named<into_blocks_t<'x', 'X', 'i', V>>("into_blocks_t<'x','X','i'," VS ">"));
	ENS_TYPE(named<into_blocks_dynamic_t<'x', 'X', 'i', 'p', V>>("into_blocks_dynamic_t<'x','X','i','p'," VS ">"));
	ENS_TYPE(named<into_blocks_static_t<'x', 'f', 'X', 'i', V, C<4>>>("into_blocks_static_t<'x','f','X','i'," VS "," L(4) ">"));
	ENS_TYPE(named<merge_blocks_t<'x', 'y', 'z', VV>>("merge_blocks_t<'x','y','z'," VVS ">"));
	ENS_TYPE(named<merge_zcurve_t<0, 4, 't', VV, 'x', 'y'>>("merge_zcurve_t<(uint64_t)0,(uint64_t)4,'t'," VVS ",'x','y'>"));
	ENS_TYPE(named<merge_zcurve_t<10, 32, 'y', VV, 'y', 'x'>>("merge_zcurve_t<(uint64_t)10,(uint64_t)32,'y'," VVS ",'y','x'>"));
	ENS_TYPE(named<scalar<bool>>("scalar<uint8_t>") && named<scalar<wchar_t>>("scalar<int32_t>") && named<scalar<char16_t>>("scalar<uint16_t>"));
}
template<class A, class B>
constexpr bool differ() {
	const char *a = spelled<A>.c, *b = spelled<B>.c;
	while (*a && *a == *b)
		++a, ++b;
	return *a != *b;
}
template<class A, class... T>
constexpr bool distinct() {
	if constexpr (sizeof...(T) == 0)
		return true;
	else
		return (... && differ<A, T>()) && distinct<T...>();
}
// different types, different names
CONTRACT(distinct_names) {
	ENS_TYPE(distinct<scalar<float>, scalar<double>, scalar<int>, scalar<unsigned>, scalar<short>, scalar<char>, scalar<long>, V, VV, vector_t<'y', scalar<int>>, vector_t<'x', scalar<float>>,
	                  vector_t<'x', vector_t<'y', scalar<int>>>>());
	ENS_TYPE(distinct<fix_t<'x', V, C<1>>, fix_t<'x', V, C<2>>, fix_t<'x', V, C<12>>, fix_t<'x', V, sz>, fix_t<'x', V, int>, set_length_t<'x', V, C<1>>, shift_t<'x', V, C<1>>, fix_t<'y', VV, C<1>>,
	                  fix_t<'x', VV, C<1>>>());
	ENS_TYPE(distinct<slice_t<'x', V, C<1>, C<2>>, slice_t<'x', V, C<2>, C<1>>, slice_t<'x', V, C<12>, C<1>>, slice_t<'x', V, C<1>, C<21>>, span_t<'x', V, C<1>, C<2>>, step_t<'x', V, C<1>, C<2>>>());
	ENS_TYPE(distinct<rename_t<VV, 'x', 'a', 'y', 'b'>, rename_t<VV, 'y', 'b', 'x', 'a'>, rename_t<VV, 'x', 'b', 'y', 'a'>, rename_t<VV, 'x', 'a'>, join_t<VV, 'x', 'y', 'a'>, reorder_t<VV, 'x', 'y'>, reorder_t<VV, 'y', 'x'>,
	                  hoist_t<'x', VV>, hoist_t<'y', VV>, merge_blocks_t<'x', 'y', 'a', VV>, merge_blocks_t<'y', 'x', 'a', VV>>());
	ENS_TYPE(distinct<into_blocks_t<'x', 'X', 'i', V>, into_blocks_t<'x', 'i', 'X', V>, into_blocks_dynamic_t<'x', 'X', 'i', 'p', V>, into_blocks_static_t<'x', 'p', 'X', 'i', V, C<4>>, into_blocks_static_t<'x', 'p', 'X', 'i', V, C<44>>>());
	ENS_TYPE(distinct<tuple_t<'t', V, VV>, tuple_t<'t', VV, V>, tuple_t<'t', V>, tuple_t<'u', V, VV>, tuple_t<'t', tuple_t<'u', V>, VV>, tuple_t<'t', tuple_t<'u', V, VV>>>());
}
