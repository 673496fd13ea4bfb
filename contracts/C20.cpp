// C20 serialization: values in traversal order, each once, from and to their own locations
#include "trav.hpp"
#include <bit>
#include <noarr/structures/interop/bag.hpp>
#include <noarr/structures/interop/serialize_data.hpp>
using namespace noarr;
using A3 = absn::abs_t<200, sz, 'x', 'y', 'z'>;
using A2 = absn::abs_t<201, sz, 'x', 'y'>;
using A1 = absn::abs_t<202, sz, 'x'>;

// The stream a user supplies, known by its contract only: it accepts values and separators.  `at` is the address that
// the element with the expected indices (ghosts 0..) must have; ghost 20 counts the stream operations, ghost 21 is
// set between a value and the separator that has to follow it.
template<class Lex, class At>
struct out_t {
	Lex L;
	At at;
	out_t &operator<<(sz v) {
		ENS(Z(vg_get(21)) == Z(0));
		ENS(Z(v) == Z(*(const sz *)at()));
		for (sz k = 0; k < Lex::K; ++k)
			ENS(Z(vg_get(int(k))) < Z(L.L[k]));
		L.template step_from<int(Lex::K) - 1>();
		vg_set(21, 1);
		return *this;
	}
	out_t &operator<<(char c) {
		ENS(as_b(c == '\n') || as_b(c == ' ') || as_b(c == '\t'));
		vg_set(21, 0);
		return *this;
	}
	out_t &operator<<(const char *s) {
		ENS_CHAR(s[0]);
		vg_set(21, 0);
		return *this;
	}
	static void ENS_CHAR(char c) { ENS(as_b(c == '\n') || as_b(c == ' ') || as_b(c == '\t')); }
	void start() {
		vg_set(21, 0);
		L.start();
	}
	void finish(out_t &ret) {
		L.finish();
		ENS(Z(vg_get(21)) == Z(0));
		ENS(as_b(&ret == this));
	}
};
template<class Lex, class At>
out_t(Lex, At) -> out_t<Lex, At>;

template<class Lex, class At>
struct in_t {
	Lex L;
	At at;
	in_t &operator>>(sz &r) {
		for (sz k = 0; k < Lex::K; ++k)
			ENS(Z(vg_get(int(k))) < Z(L.L[k]));
		const sz v = vu_fun(9, vg_get(0), vg_get(1), vg_get(2));
		EXPECT_STORE(at(), 8, v);
		r = v;
		L.template step_from<int(Lex::K) - 1>();
		return *this;
	}
	void start() {
		vc_track();
		L.start();
	}
	void finish(in_t &ret) {
		STORES_DONE();
		L.finish();
		ENS(as_b(&ret == this));
	}
};
template<class Lex, class At>
in_t(Lex, At) -> in_t<Lex, At>;

#define G(k) vg_get(k)
#define AT3(a, b, c) [=] { return base + abs_off(200, sizeof(sz), n, m, p, a, b, c); }
#define AT2(a, b) [=] { return base + abs_off(201, sizeof(sz), n, m, 1, a, b, 0); }
#define AT1(a) [=] { return base + abs_off(202, sizeof(sz), n, 1, 1, a, 0, 0); }
#define MEM3 const char *base = vc_memory(abs_size(200, sizeof(sz), n, m, p))
#define MEM2 const char *base = vc_memory(abs_size(201, sizeof(sz), n, m, 1))
#define MEM1 const char *base = vc_memory(abs_size(202, sizeof(sz), n, 1, 1))

// both directions with the same expectation
#define OUT(lexer, AT, s)                                                                                              \
	{                                                                                                                  \
		out_t o{lexer, AT};                                                                                            \
		o.start();                                                                                                     \
		auto &ret = serialize_data(o, s, (const void *)base);                                                          \
		o.finish(ret);                                                                                                 \
	}
#define IN(lexer, AT, s)                                                                                               \
	{                                                                                                                  \
		in_t o{lexer, AT};                                                                                             \
		o.start();                                                                                                     \
		auto &ret = deserialize_data(o, s, (void *)base);                                                              \
		o.finish(ret);                                                                                                 \
	}
#define BOTH(name, PARS, PRE, MEM, lexer, AT, s)                                                                       \
	CONTRACT(out_##name, PARS) {                                                                                       \
		PRE;                                                                                                           \
		MEM;                                                                                                           \
		OUT(lexer, AT, s)                                                                                              \
	}                                                                                                                  \
	CONTRACT(in_##name, PARS) {                                                                                        \
		PRE;                                                                                                           \
		MEM;                                                                                                           \
		IN(lexer, AT, s)                                                                                               \
	}
#define ARG(...) __VA_ARGS__

BOTH(one, sz n, , MEM1, (lex<0, 'x'>{{n}}), AT1(G(0)), (A1{{n}}))
BOTH(two, ARG(sz n, sz m), NZ2(n, m), MEM2, (lex<0, 'x', 'y'>{{n, m}}), AT2(G(0), G(1)), (A2{{n, m}}))
BOTH(three, ARG(sz n, sz m, sz p), NZ3(n, m, p), MEM3, (lex<0, 'x', 'y', 'z'>{{n, m, p}}), AT3(G(0), G(1), G(2)), (A3{{n, m, p}}))
// traversal order differs from the order of the layout
BOTH(reorder, ARG(sz n, sz m), NZ2(n, m), MEM2, (lex<0, 'y', 'x'>{{m, n}}), AT2(G(1), G(0)), (A2{{n, m}} ^ reorder<'y', 'x'>()))
BOTH(hoist, ARG(sz n, sz m, sz p), NZ3(n, m, p), MEM3, (lex<0, 'z', 'x', 'y'>{{p, n, m}}), AT3(G(1), G(2), G(0)), (A3{{n, m, p}} ^ hoist<'z'>()))
BOTH(rename, ARG(sz n, sz m), NZ2(n, m), MEM2, (lex<0, 'a', 'x'>{{n, m}}), AT2(G(0), G(1)), (A2{{n, m}} ^ rename<'x', 'a', 'y', 'x'>()))
// parts of a structure
BOTH(span, ARG(sz n, sz m, sz s, sz e), REQ(Z(s) <= Z(e) && Z(e) <= Z(n)); NZ2(e - s, m), MEM2, (lex<0, 'x', 'y'>{{e - s, m}}), AT2(G(0) + s, G(1)), (A2{{n, m}} ^ span<'x'>(s, e)))
BOTH(shift, ARG(sz n, sz m, sz s), REQ(Z(s) <= Z(m)); NZ2(n, m - s), MEM2, (lex<0, 'x', 'y'>{{n, m - s}}), AT2(G(0), G(1) + s), (A2{{n, m}} ^ shift<'y'>(s)))
BOTH(reverse, ARG(sz n, sz m), NZ2(n, m), MEM2, (lex<0, 'x', 'y'>{{n, m}}), AT2(n - 1 - G(0), G(1)), (A2{{n, m}} ^ reverse<'x'>()))
BOTH(fix, ARG(sz n, sz m, sz i), REQ(Z(i) < Z(n)), MEM2, (lex<0, 'y'>{{m}}), AT2(i, G(0)), (A2{{n, m}} ^ fix<'x'>(i)))
BOTH(set_length, ARG(sz n, sz m), REQ(Z(n) * Z(m) * Z(8) < TWO64); NZ2(n, m), const char *base = vc_memory(n * m * 8), (lex<0, 'y', 'x'>{{m, n}}), [=] { return base + (G(0) * n + G(1)) * 8; },
     (scalar<sz>() ^ vector<'x'>() ^ vector<'y'>() ^ set_length<'x', 'y'>(n, m)))
BOTH(scalar, sz n, , const char *base = vc_memory(8); (lex<0, 'x'>{{1}}), (lex<0, 'x'>{{1}}), [=] { return base; }, scalar<sz>())

// bags: the bag's own structure and data
#define BAG(name, PARS, PRE, MEM, lexer, AT, s)                                                                        \
	CONTRACT(bag_out_##name, PARS) {                                                                                   \
		PRE;                                                                                                           \
		MEM;                                                                                                           \
		auto b = make_bag(s, (char *)base);                                                                            \
		out_t o{lexer, AT};                                                                                            \
		o.start();                                                                                                     \
		auto &ret = serialize_data(o, b);                                                                              \
		o.finish(ret);                                                                                                 \
	}                                                                                                                  \
	CONTRACT(bag_const_##name, PARS) {                                                                                 \
		PRE;                                                                                                           \
		MEM;                                                                                                           \
		const auto b = make_bag(s, base);                                                                              \
		out_t o{lexer, AT};                                                                                            \
		o.start();                                                                                                     \
		auto &ret = serialize_data(o, b);                                                                              \
		o.finish(ret);                                                                                                 \
	}                                                                                                                  \
	CONTRACT(bag_in_##name, PARS) {                                                                                    \
		PRE;                                                                                                           \
		MEM;                                                                                                           \
		auto b = make_bag(s, (char *)base);                                                                            \
		in_t o{lexer, AT};                                                                                             \
		o.start();                                                                                                     \
		auto &ret = deserialize_data(o, b);                                                                            \
		o.finish(ret);                                                                                                 \
	}
BAG(two, ARG(sz n, sz m), NZ2(n, m), MEM2, (lex<0, 'x', 'y'>{{n, m}}), AT2(G(0), G(1)), (A2{{n, m}}))
BAG(reorder, ARG(sz n, sz m, sz p), NZ3(n, m, p), MEM3, (lex<0, 'z', 'x', 'y'>{{p, n, m}}), AT3(G(1), G(2), G(0)), (A3{{n, m, p}} ^ reorder<'z', 'x', 'y'>()))

// one layout out, another one in: the k-th value written comes from (out_two), and the k-th value read goes to (in_other),
// the element with the same indices
using W = absn::abs_t<203, sz, 'y', 'x'>;
BOTH(other, ARG(sz n, sz m), NZ2(n, m), const char *base = vc_memory(abs_size(203, sizeof(sz), m, n, 1)), (lex<0, 'x', 'y'>{{n, m}}), ([=] { return base + abs_off(203, sizeof(sz), m, n, 1, G(1), G(0), 0); }), (W{{m, n}} ^ hoist<'x'>()))
// tuples: members one after the other
CONTRACT(out_tuple, sz n, sz m) {
	REQ(Z(n) * Z(8) + Z(m) * Z(8) < TWO64);
	NZ2(n, m);
	const char *base = vc_memory((n + m) * 8);
	auto s = pack(scalar<sz>() ^ vector<'x'>(n), scalar<sz>() ^ vector<'x'>(m)) ^ tuple<'t'>();
	lex<0, 'x'> L{{n + m}};
	out_t o{L, [=] { return base + G(0) * 8; }};
	o.start();
	auto &ret = serialize_data(o, s, (const void *)base);
	o.finish(ret);
}

// Other value types: the stream gets (and fills) an object of the type of the elements, with the value that is stored.
template<class T>
struct bits_of {
	using type = std::conditional_t<sizeof(T) == 1, unsigned char, std::conditional_t<sizeof(T) == 2, unsigned short, std::conditional_t<sizeof(T) == 4, unsigned, sz>>>;
};
template<class T>
static sz bits(const T &v) {
	return sz(std::bit_cast<typename bits_of<T>::type>(v));
}
template<class T, class Lex, class At>
struct tout_t {
	Lex L;
	At at;
	template<class V>
	tout_t &operator<<(const V &v) {
		if constexpr (!std::is_same_v<T, V>)
			sep(v);
		else if (std::is_same_v<T, char> && vg_get(21) == 1)
			sep(v);
		else {
			ENS(Z(vg_get(21)) == Z(0));
			ENS(Z(bits<T>(v)) == Z(bits<T>(*(const T *)at())));
			for (sz k = 0; k < Lex::K; ++k)
				ENS(Z(vg_get(int(k))) < Z(L.L[k]));
			L.template step_from<int(Lex::K) - 1>();
			vg_set(21, 1);
		}
		return *this;
	}
	template<class V>
	void sep(const V &v) {
		if constexpr (std::is_same_v<V, char>)
			white(v);
		else if constexpr (std::is_array_v<V>)
			white(v[0]);
		else
			ENS_TYPE(std::is_same_v<V, T>);
		vg_set(21, 0);
	}
	static void white(char c) { ENS(as_b(c == '\n') || as_b(c == ' ') || as_b(c == '\t')); }
	void start() {
		vg_set(21, 0);
		L.start();
	}
	void finish(tout_t &ret) {
		L.finish();
		ENS(Z(vg_get(21)) == Z(0));
		ENS(as_b(&ret == this));
	}
};
template<class T, class Lex, class At>
struct tin_t {
	Lex L;
	At at;
	template<class V>
	tin_t &operator>>(V &r) {
		ENS_TYPE(std::is_same_v<V, T>);
		for (sz k = 0; k < Lex::K; ++k)
			ENS(Z(vg_get(int(k))) < Z(L.L[k]));
		const auto v = static_cast<typename bits_of<T>::type>(vu_fun(9, vg_get(0), vg_get(1), vg_get(2)));
		EXPECT_STORE(at(), sizeof(T), v);
		r = std::bit_cast<T>(v);
		L.template step_from<int(Lex::K) - 1>();
		return *this;
	}
	void start() {
		vc_track();
		L.start();
	}
	void finish(tin_t &ret) {
		STORES_DONE();
		L.finish();
		ENS(as_b(&ret == this));
	}
};
template<class T>
static void typed_out(sz n, sz m) {
	NZ2(n, m);
	const char *base = vc_memory(abs_size(204, sizeof(T), n, m, 1));
	auto at = [=] { return base + abs_off(204, sizeof(T), n, m, 1, vg_get(1), vg_get(0), 0); };
	tout_t<T, lex<0, 'y', 'x'>, decltype(at)> o{{m, n}, at};
	o.start();
	auto &ret = serialize_data(o, absn::abs_t<204, T, 'x', 'y'>{{n, m}} ^ reorder<'y', 'x'>(), (const void *)base);
	o.finish(ret);
}
template<class T>
static void typed_in(sz n, sz m) {
	NZ2(n, m);
	const char *base = vc_memory(abs_size(204, sizeof(T), n, m, 1));
	auto at = [=] { return base + abs_off(204, sizeof(T), n, m, 1, vg_get(1), vg_get(0), 0); };
	tin_t<T, lex<0, 'y', 'x'>, decltype(at)> o{{m, n}, at};
	o.start();
	auto &ret = deserialize_data(o, absn::abs_t<204, T, 'x', 'y'>{{n, m}} ^ reorder<'y', 'x'>(), (void *)base);
	o.finish(ret);
}
template<class T>
static void typed_bag_out(sz n) {
	const char *base = vc_memory(abs_size(205, sizeof(T), n, 1, 1));
	auto at = [=] { return base + abs_off(205, sizeof(T), n, 1, 1, vg_get(0), 0, 0); };
	auto b = make_bag(absn::abs_t<205, T, 'x'>{{n}}, (char *)base);
	tout_t<T, lex<0, 'x'>, decltype(at)> o{{n}, at};
	o.start();
	auto &ret = serialize_data(o, b);
	o.finish(ret);
}
template<class T>
static void typed_bag_in(sz n) {
	const char *base = vc_memory(abs_size(205, sizeof(T), n, 1, 1));
	auto at = [=] { return base + abs_off(205, sizeof(T), n, 1, 1, vg_get(0), 0, 0); };
	auto b = make_bag(absn::abs_t<205, T, 'x'>{{n}}, (char *)base);
	tin_t<T, lex<0, 'x'>, decltype(at)> i{{n}, at};
	i.start();
	auto &ret = deserialize_data(i, b);
	i.finish(ret);
}
#define TYPED(name, T)                                                                                                 \
	CONTRACT(typed_out_##name, sz n, sz m) { typed_out<T>(n, m); }                                                     \
	CONTRACT(typed_in_##name, sz n, sz m) { typed_in<T>(n, m); }                                                       \
	CONTRACT(typed_bag_out_##name, sz n) { typed_bag_out<T>(n); }                                                      \
	CONTRACT(typed_bag_in_##name, sz n) { typed_bag_in<T>(n); }
TYPED(char, char)
TYPED(schar, signed char)
TYPED(uchar, unsigned char)
TYPED(short, short)
TYPED(int, int)
TYPED(unsigned, unsigned)
TYPED(long, long)
TYPED(float, float)
TYPED(double, double)
