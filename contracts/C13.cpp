// C13 for_each visits every valid index exactly once, in signature order
#include "trav.hpp"
using namespace noarr;
using A1 = absn::abs_t<0, int, 'x'>;
using A = absn::abs_t<0, int, 'x', 'y'>;
using A3 = absn::abs_t<0, int, 'x', 'y', 'z'>;

CONTRACT(one, sz n) {
	CASE(0, Z(n) == Z(0));
	lex<0, 'x'> e{{n}};
	e.start();
	traverser(A1{{n}}).for_each([&](auto st) { e.visit_state(st); });
	e.finish();
}
CONTRACT(two, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'x', 'y'> e{{n, m}};
	e.start();
	traverser(A{{n, m}}).for_each([&](auto st) { e.visit_state(st); });
	e.finish();
}
CONTRACT(three, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'x', 'y', 'z'> e{{n, m, p}};
	e.start();
	traverser(A3{{n, m, p}}).for_each([&](auto st) { e.visit_state(st); });
	e.finish();
}
CONTRACT(vectors_2, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'y', 'x'> e{{m, n}};
	e.start();
	traverser(scalar<int>() ^ vectors<'x', 'y'>(n, m)).for_each([&](auto st) { e.visit_state(st); });
	e.finish();
}
CONTRACT(vectors_4, sz n, sz m, sz p, sz q) {
	NZ4(n, m, p, q);
	lex<0, 'd', 'c', 'b', 'a'> e{{q, p, m, n}};
	e.start();
	traverser(scalar<int>() ^ vectors<'a', 'b', 'c', 'd'>(n, m, p, q)).for_each([&](auto st) { e.visit_state(st); });
	e.finish();
}
CONTRACT(array_mixed, sz n) {
	CASE(0, Z(n) == Z(0));
	lex<0, 'y', 'x'> e{{n, 6}};
	e.start();
	traverser(scalar<int>() ^ array<'x', 6>() ^ vector<'y'>(n)).for_each([&](auto st) { e.visit_state(st); });
	e.finish();
}
CONTRACT(array_zero, sz n) {
	CASE(0, Z(n) == Z(0));
	traverser(scalar<int>() ^ array<'x', 0>() ^ vector<'y'>(n)).for_each([&](auto st) { ENS(B(vb_id(false))); });
	traverser(scalar<int>() ^ vector<'y'>(n) ^ array<'x', 0>()).for_each([&](auto st) { ENS(B(vb_id(false))); });
	ENS(B(vb_id(true)));
}
CONTRACT(scalar_once) {
	vg_set(0, 0);
	traverser(scalar<int>()).for_each([&](auto st) {
		ENS_TYPE(decltype(st)::is_empty);
		vg_set(0, vg_get(0) + 1);
	});
	ENS(Z(vg_get(0)) == Z(1));
}
// several structures: the dimensions of the union, each once, lengths of the first structure having it
CONTRACT(union_same, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'y', 'x'> e{{m, n}};
	e.start();
	traverser(scalar<int>() ^ vectors<'x', 'y'>(n, m), scalar<char>() ^ vectors<'y', 'x'>(m, n)).for_each([&](auto st) { e.visit_state(st); });
	e.finish();
}
template<class T, class F>
inline void any_order_3(T t, sz n, sz m, sz p, F) {}
CONTRACT(union_matmul, sz n, sz m, sz p) {
	NZ3(n, m, p);
	auto c = scalar<int>() ^ vector<'j'>(m) ^ vector<'i'>(n);
	auto a = scalar<int>() ^ vector<'k'>(p) ^ vector<'i'>(n);
	auto b = scalar<int>() ^ vector<'j'>(m) ^ vector<'k'>(p);
	// the signature of the union: k (from a) around i, j (from c)
	lex<0, 'k', 'i', 'j'> e{{p, n, m}};
	e.start();
	traverser(c, a, b).for_each([&](auto st) { e.visit_state(st); });
	e.finish();
}
CONTRACT(union_disjoint, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'y', 'x'> e{{m, n}};
	e.start();
	traverser(scalar<int>() ^ vector<'x'>(n), scalar<float>() ^ vector<'y'>(m)).for_each([&](auto st) { e.visit_state(st); });
	e.finish();
}
// a tuple dimension is enumerated statically
CONTRACT(tuple_outer, sz n, sz m) {
	NZ2(n, m);
	auto t = pack(scalar<int>() ^ vector<'x'>(n), scalar<double>() ^ vector<'x'>(m)) ^ tuple<'t'>();
	vg_set(0, 0);  // number of visits in member 0
	vg_set(1, 0);
	traverser(t).for_each([&](auto st) {
		constexpr sz mem = decltype(get_index<'t'>(st))::value;
		if constexpr (mem == 0) {
			ENS(Z(val(get_index<'x'>(st))) == Z(vg_get(0)));
			ENS(Z(val(get_index<'x'>(st))) < Z(n));
			ENS(Z(vg_get(1)) == Z(0));
		} else {
			ENS(Z(val(get_index<'x'>(st))) == Z(vg_get(1)));
			ENS(Z(val(get_index<'x'>(st))) < Z(m));
			ENS(Z(vg_get(0)) == Z(n));
		}
		vg_set(mem, vg_get(mem) + 1);
	});
	ENS(Z(vg_get(0)) == Z(n) && Z(vg_get(1)) == Z(m));
}
CONTRACT(tuple_inner, sz n) {
	CASE(0, Z(n) == Z(0));
	auto t = pack(scalar<int>(), scalar<double>(), scalar<char>()) ^ tuple<'t'>() ^ vector<'x'>(n);
	lex<0, 'x', 't'> e{{n, 3}};
	e.start();
	traverser(t).for_each([&](auto st) { e.visit_state(st); });
	e.finish();
}
// for_each over a subset of the dimensions
CONTRACT(subset_each, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'x', 'z'> e{{n, p}};
	e.start();
	traverser(A3{{n, m, p}}).for_each<'x', 'z'>([&](auto st) { e.visit_state(st); });
	e.finish();
	lex<8, 'y'> f{{m}};
	f.start();
	traverser(A3{{n, m, p}}).for_each<'y'>([&](auto st) { f.visit_state(st); });
	f.finish();
}
CONTRACT(subset_order_is_signature, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'x', 'z'> e{{n, p}};
	e.start();
	traverser(A3{{n, m, p}}).for_each<'z', 'x'>([&](auto st) { e.visit_state(st); });
	e.finish();
}
CONTRACT(pipe, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'x', 'y'> e{{n, m}};
	e.start();
	traverser(A{{n, m}}) | [&](auto st) { e.visit_state(st); };
	e.finish();
	lex<4, 'x', 'y'> f{{n, m}};
	f.start();
	traverser(A{{n, m}}) | for_each([&](auto st) { f.visit_state(st); });
	f.finish();
	lex<8, 'y'> g{{m}};
	g.start();
	traverser(A{{n, m}}) | for_each<'y'>([&](auto st) { g.visit_state(st); });
	g.finish();
}
// ---- orders: only the sequence changes, as if applied to the structure
CONTRACT(order_hoist, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'z', 'x', 'y'> e{{p, n, m}};
	e.start();
	traverser(A3{{n, m, p}}).order(hoist<'z'>()).for_each([&](auto st) { e.visit_state(st); });
	e.finish();
}
CONTRACT(order_reorder, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'y', 'z', 'x'> e{{m, p, n}};
	e.start();
	(traverser(A3{{n, m, p}}) ^ reorder<'y', 'z', 'x'>()) | [&](auto st) { e.visit_state(st); };
	e.finish();
}
CONTRACT(order_fix, sz n, sz m, sz p, sz i) {
	REQ(Z(i) < Z(m));
	NZ2(n, p);
	lex<0, 'x', 'z'> e{{n, p}};
	e.start();
	traverser(A3{{n, m, p}}).order(fix<'y'>(i)).for_each([&](auto st) {
		ENS(Z(val(get_index<'y'>(st))) == Z(i));
		e.visit(get_index<'x'>(st), get_index<'z'>(st));
	});
	e.finish();
}
CONTRACT(order_span, sz n, sz m, sz a, sz b) {
	REQ(Z(a) <= Z(b) && Z(b) <= Z(n));
	CASE(0, Z(a) == Z(b));
	CASE(1, Z(m) == Z(0));
	lex<0, 'x', 'y'> e{{b - a, m}};
	e.start();
	traverser(A{{n, m}}).order(span<'x'>(a, b)).for_each([&](auto st) {
		ENS(Z(val(get_index<'x'>(st))) < Z(n));
		ENS(Z(val(get_index<'x'>(st))) >= Z(a) && Z(val(get_index<'x'>(st))) < Z(b));
		e.visit(val(get_index<'x'>(st)) - a, get_index<'y'>(st));
	});
	e.finish();
}
CONTRACT(order_slice_shift, sz n, sz m, sz a, sz l, sz s) {
	REQ(Z(a) + Z(l) <= Z(n) && Z(s) <= Z(m));
	CASE(0, Z(l) == Z(0));
	CASE(1, Z(s) == Z(m));
	lex<0, 'x', 'y'> e{{l, m - s}};
	e.start();
	traverser(A{{n, m}}).order(slice<'x'>(a, l) ^ shift<'y'>(s)).for_each([&](auto st) {
		ENS(Z(val(get_index<'x'>(st))) >= Z(a) && Z(val(get_index<'y'>(st))) >= Z(s));
		e.visit(val(get_index<'x'>(st)) - a, val(get_index<'y'>(st)) - s);
	});
	e.finish();
}
CONTRACT(order_reverse, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'x', 'y'> e{{n, m}};
	e.start();
	traverser(A{{n, m}}).order(reverse<'x'>()).for_each([&](auto st) {
		ENS(Z(val(get_index<'x'>(st))) < Z(n));
		e.visit(n - 1 - val(get_index<'x'>(st)), get_index<'y'>(st));
	});
	e.finish();
}
CONTRACT(order_step, sz n, sz s, sz d) {
	REQ(Z(s) < Z(d) && Z(n) + Z(d) <= TWO64);
	Z cnt = zite(Z(s) < Z(n), (Z(n) - Z(s) - Z(1)) / Z(d) + Z(1), Z(0));
	CASE(0, Z(s) < Z(n));
	vg_set(0, 0);
	traverser(A1{{n}}).order(step<'x'>(s, d)).for_each([&](auto st) {
		ENS(Z(val(get_index<'x'>(st))) == Z(s) + Z(vg_get(0)) * Z(d));
		vg_set(0, vg_get(0) + 1);
	});
	ENS(Z(vg_get(0)) == cnt);
}
CONTRACT(order_blocks_pd, sz k, sz b) {
	REQ(Z(b) > Z(0) && Z(k) * Z(b) < TWO64);
	CASE(0, Z(k) == Z(0));
	sz n = k * b;
	vg_set(0, 0);
	traverser(A1{{n}}).order(into_blocks<'x', 'a', 'b'>(b)).for_each([&](auto st) {
		ENS_TYPE(decltype(st.template remove<index_in<'x'>>())::is_empty);
		ENS(Z(val(get_index<'x'>(st))) == Z(vg_get(0)));
		ENS(Z(val(get_index<'x'>(st))) < Z(n));
		vg_set(0, vg_get(0) + 1);
	});
	ENS(Z(vg_get(0)) == Z(n));
}
// tiling: blocks outside, elements inside; every (x, y) of each tile in order
CONTRACT(order_tiles, sz k, sz m) {
	REQ(Z(k) * Z(4) < TWO64);
	CASE(0, Z(k) == Z(0));
	CASE(1, Z(m) == Z(0));
	sz n = k * 4;
	lex<0, 'a', 'y', 'b'> e{{k, m, 4}};
	e.start();
	traverser(A{{n, m}}).order(strip_mine<'x', 'a', 'b'>(lit<4>) ^ hoist<'y'>() ^ hoist<'a'>()).for_each([&](auto st) {
		sz x = val(get_index<'x'>(st));
		ENS(Z(x) < Z(n));
		e.visit(x / 4, get_index<'y'>(st), x % 4);
	});
	e.finish();
}
CONTRACT(order_chain, sz n, sz m, sz p, sz i) {
	REQ(Z(i) < Z(p));
	NZ2(n, m);
	lex<0, 'y', 'x'> e{{m, n}};
	e.start();
	(traverser(A3{{n, m, p}}) ^ hoist<'y'>() ^ fix<'z'>(i) ^ reverse<'x'>()) | [&](auto st) {
		ENS(Z(val(get_index<'z'>(st))) == Z(i));
		ENS(Z(val(get_index<'x'>(st))) < Z(n));
		e.visit(get_index<'y'>(st), n - 1 - val(get_index<'x'>(st)));
	};
	e.finish();
}
CONTRACT(order_set_length, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'y', 'x'> e{{m, n}};
	e.start();
	traverser(scalar<int>() ^ vectors<'x', 'y'>()).order(set_length<'x', 'y'>(n, m)).for_each([&](auto st) {
		e.visit(get_index<'y'>(st), get_index<'x'>(st));
	});
	e.finish();
}
CONTRACT(order_bcast, sz n, sz l) {
	NZ2(n, l);
	lex<0, 'r', 'x'> e{{l, n}};
	e.start();
	// the repeated dimension is invisible to the structure: x runs l times
	vg_set(3, 0);
	traverser(A1{{n}} ^ bcast<'r'>(l)).for_each([&](auto st) { e.visit_state(st); });
	e.finish();
}
// dynamic blocks as an order: every element exactly once
CONTRACT(order_dynamic_pd, sz n, sz b) {
	REQ(Z(b) > Z(0) && Z(n) + Z(b) <= TWO64);
	CASE(0, Z(n) == Z(0));
	vg_set(0, 0);
	traverser(A1{{n}}).order(into_blocks_dynamic<'x', 'a', 'b', 'p'>(b)).for_each([&](auto st) {
		ENS(Z(val(get_index<'x'>(st))) == Z(vg_get(0)));
		ENS(Z(val(get_index<'x'>(st))) < Z(n));
		vg_set(0, vg_get(0) + 1);
	});
	ENS(Z(vg_get(0)) == Z(n));
}
// the state's indices address the elements of every structure
CONTRACT(state_addresses, sz n, sz m) {
	NZ2(n, m);
	A a{{n, m}};
	absn::abs_t<1, double, 'y', 'x'> b{{m, n}};
	traverser(a, b).for_each([&](auto st) {
		sz i = val(get_index<'x'>(st)), j = val(get_index<'y'>(st));
		ENS(Z(val(a | offset(st))) == zoff<0, int>(n, m, i, j));
		ENS(Z(val(b | offset(st))) == zoff<1, double>(m, n, j, i));
	});
	ENS(B(vb_id(true)));
}
// ---- over every structure of the library whose lengths depend on no index
#include "every.hpp"
namespace every {
template<class Sig>
struct dims_of {
	template<auto... Acc>
	using then = dim_sequence<Acc...>;
};
template<IsDim auto D, class L, class R>
struct dims_of<function_sig<D, L, R>> {
	template<auto... Acc>
	using then = typename dims_of<R>::template then<Acc..., D>;
};
template<class S, class Dims>
struct visits;
template<class S, auto... D>
struct visits<S, dim_sequence<D...>> {
	static void go(S s) {
		if constexpr ((... && plain<D, S>)) {
			const sz l[] = {sz(s | get_length<D>())...};
			for_cases(l, std::index_sequence_for<decltype((void)D, 0)...>());
			lex<0, D...> e{{sz(s | get_length<D>())...}};
			e.start();
			traverser(s).for_each([&](auto st) { e.visit_state(st); });
			e.finish();
		} else
			ENS(B(vb_id(true))); // order_dynamic_pd and C05 have this case
	}
	template<std::size_t... k>
	static void for_cases(const sz (&l)[sizeof...(D)], std::index_sequence<k...>) {
		(vc_case(k, (Z(l[k]) == Z(0)).b), ...);
	}
};
#define UNP(...) __VA_ARGS__
#define STRUCT(name, pars, pre, expr, ...)                                                                             \
	CONTRACT(every_##name, UNP pars) {                                                                                 \
		pre;                                                                                                           \
		auto str_ = UNP expr;                                                                                          \
		visits<decltype(str_), dims_of<decltype(str_)::signature>::then<>>::go(str_);                                  \
	}
#define WITHOUT_COSTLY_LOOPS
#include "structs.inc"
#undef STRUCT
} // namespace every
