// C25 Parallel executors run each element exactly once under every schedule
// The schedulers themselves (TBB, the OpenMP runtime, the parallel std::for_each) are external: their contracts are
// stated in stub/.  Proved here, about the library: the scheduler is asked for exactly the whole top dimension, and
// what it runs for one arbitrary part does exactly the elements of that part.
#include "trav.hpp"
#define _OPENMP 201811
#include <cstdlib>
#include <noarr/structures/interop/bag.hpp>
#include <noarr/structures/interop/serialize_data.hpp>
#include <memory>
// contract of the allocator: a non-null block of the requested size (ghost 40), whose address is arbitrary (ghost 42);
// ghost 41 counts the live blocks
namespace std {
inline void *vc_malloc(sz n) {
	vg_set(40, n);
	vg_set(41, vg_get(41) + 1);
	return (void *)vg_get(42);
}
inline void vc_free(void *p) {
	if (p != nullptr) {
		ENS(Z((sz)p) == Z(vg_get(42)));
		vg_set(41, vg_get(41) - 1);
	}
}
} // namespace std
#define malloc vc_malloc
#define free vc_free
#include <noarr/structures/interop/omp.hpp>
#include <noarr/structures/interop/std_para.hpp>
#include <noarr/structures/interop/tbb.hpp>
using namespace noarr;
using A1 = absn::abs_t<0, int, 'x'>;
using A = absn::abs_t<0, int, 'x', 'y'>;
using A3 = absn::abs_t<0, int, 'x', 'y', 'z'>;

template<class... S>
inline auto plan(S... s) {
	return planner(make_union(s...));
}
inline void leaf(sz n, sz b, sz e) {
	REQ(Z(b) <= Z(e) && Z(e) <= Z(n));
	CASE(0, Z(b) == Z(e));
	vg_set(60, b);
	vg_set(61, e);
	vg_set(64, 0);
	vg_set(65, 0);
}
inline void leaf_done(sz n) {
	ENS(Z(vg_get(64)) == Z(1));
	ENS(Z(vg_get(62)) == Z(0));
	ENS(Z(vg_get(63)) == Z(n));
}
#define M0(k, m) CASE(k, Z(m) == Z(0))

// ---- TBB
CONTRACT(tbb_for_each_2, sz n, sz m, sz b, sz e) {
	leaf(n, b, e);
	M0(1, m);
	lex<0, 'x', 'y'> g{{e - b, m}};
	g.start();
	tbb_for_each(traverser(A{{n, m}}), [=](auto st) {
		ENS_TYPE(decltype(st.template remove<index_in<'x'>, index_in<'y'>>())::is_empty);
		sz x = val(get_index<'x'>(st));
		ENS(Z(x) >= Z(b));
		g.visit(x - b, get_index<'y'>(st));
	});
	g.finish();
	leaf_done(n);
}
CONTRACT(tbb_for_each_ordered, sz n, sz m, sz b, sz e) {
	leaf(m, b, e);
	M0(1, n);
	lex<0, 'y', 'x'> g{{e - b, n}};
	g.start();
	tbb_for_each(traverser(A{{n, m}}).order(hoist<'y'>()), [=](auto st) {
		sz y = val(get_index<'y'>(st));
		ENS(Z(y) >= Z(b));
		g.visit(y - b, get_index<'x'>(st));
	});
	g.finish();
	leaf_done(m);
}
CONTRACT(tbb_for_each_sliced, sz n, sz m, sz s, sz k, sz b, sz e) {
	REQ(Z(s) + Z(k) <= Z(n));
	leaf(k, b, e);
	M0(1, m);
	lex<0, 'x', 'y'> g{{e - b, m}};
	g.start();
	tbb_for_each(traverser(A{{n, m}}).order(slice<'x'>(s, k)), [=](auto st) {
		sz x = val(get_index<'x'>(st));
		ENS(Z(x) >= Z(b) + Z(s));
		g.visit(x - s - b, get_index<'y'>(st));
	});
	g.finish();
	leaf_done(k);
}
CONTRACT(tbb_for_sections, sz n, sz m, sz b, sz e) {
	leaf(n, b, e);
	M0(1, m);
	lex<0, 'x'> o{{e - b}};
	lex<4, 'x', 'y'> g{{e - b, m}};
	o.start();
	g.start();
	noarr::tbb_for_sections(traverser(A{{n, m}}), [=](auto in) {
		ENS_TYPE(decltype(in.state().template remove<index_in<'x'>>())::is_empty);
		sz x = val(get_index<'x'>(in.state()));
		ENS(Z(x) >= Z(b));
		o.visit(x - b);
		in.for_each([=](auto st) {
			sz x = val(get_index<'x'>(st));
			ENS(Z(x) >= Z(b));
			g.visit(x - b, get_index<'y'>(st));
		});
	});
	o.finish();
	g.finish();
	leaf_done(n);
}
CONTRACT(tbb_planner, sz n, sz m, sz b, sz e) {
	leaf(n, b, e);
	M0(1, m);
	lex<0, 'x', 'y'> g{{e - b, m}};
	g.start();
	plan(A{{n, m}}).for_each([=](auto st) {
		sz x = val(get_index<'x'>(st));
		ENS(Z(x) >= Z(b));
		g.visit(x - b, get_index<'y'>(st));
	}) | planner_tbb_execute();
	g.finish();
	leaf_done(n);
}
CONTRACT(tbb_planner_sections, sz n, sz m, sz b, sz e) {
	leaf(m, b, e);
	M0(1, n);
	lex<0, 'y', 'x'> g{{e - b, n}};
	lex<4, 'y'> o{{e - b}};
	g.start();
	o.start();
	plan(A{{n, m}}) ^ for_each([=](auto st) {
		sz y = val(get_index<'y'>(st));
		ENS(Z(y) >= Z(b));
		g.visit(y - b, get_index<'x'>(st));
	}) ^ for_dims<'y'>([=](auto in) {
		sz y = val(get_index<'y'>(in));
		ENS(Z(y) >= Z(b));
		o.visit(y - b);
		in();
	}) | planner_tbb_execute();
	g.finish();
	o.finish();
	leaf_done(m);
}
// ---- reductions
// the output is indexed by the parallelized dimension: no privatization, every element accumulated once
CONTRACT(tbb_reduce_shared, sz n, sz m, sz b, sz e, char *out) {
	leaf(n, b, e);
	M0(1, m);
	lex<0, 'x', 'y'> g{{e - b, m}};
	g.start();
	tbb_reduce(
		traverser(A{{n, m}}), [=](auto, void *) { ENS(as_b(false)); },
		[=](auto st, void *p) {
			sz x = val(get_index<'x'>(st));
			ENS(Z(x) >= Z(b));
			ENS(Z((sz)p) == Z((sz)out));
			g.visit(x - b, get_index<'y'>(st));
		},
		[=](auto, void *, const void *) { ENS(as_b(false)); }, A1{{n}}, (void *)out);
	g.finish();
	leaf_done(n);
}
// otherwise each thread has a private copy: made neutral exactly once before use, joined into the output exactly once
CONTRACT(tbb_reduce_private, sz n, sz q, sz b, sz e, char *out, sz priv) {
	leaf(n, b, e);
	REQ(Z(priv) != Z(0));
	vg_set(42, priv);
	vg_set(41, 0);
	M0(1, q);
	lex<0, 'x'> acc{{e - b}};
	lex<4, 'o'> neut{{q}};
	lex<8, 'o'> join{{q}};
	acc.start();
	neut.start();
	join.start();
	vg_set(20, 0);
	using O = absn::abs_t<1, int, 'o'>;
	tbb_reduce(
		traverser(A1{{n}}),
		[=](auto st, void *p) {
			ENS(Z(vg_get(20)) == Z(0));
			vg_set(21, (sz)p);
			neut.visit_state(st);
		},
		[=](auto st, void *p) {
			vg_set(20, 1);
			ENS(Z(vg_get(4)) == Z(q));  // neutral before use
			ENS(Z(q) == Z(0) || Z((sz)p) == Z(vg_get(21)));
			sz x = val(get_index<'x'>(st));
			ENS(Z(x) >= Z(b));
			acc.visit(x - b);
		},
		[=](auto st, void *to, const void *from) {
			ENS(Z(vg_get(0)) == Z(e) - Z(b));  // joined when complete
			ENS(Z((sz)to) == Z((sz)out) && Z((sz)from) == Z(vg_get(21)));
			ENS(Z(vg_get(41)) == Z(1) && Z(vg_get(40)) == zsz(O{{q}}));
			join.visit_state(st);
		},
		O{{q}}, (void *)out);
	acc.finish();
	neut.finish();
	join.finish();
	leaf_done(n);
	ENS(Z(vg_get(41)) == Z(0));
}
// an output of which only one member is indexed by the parallelized dimension is private as well
CONTRACT(tbb_reduce_private_member, sz n, sz b, sz e, char *out, sz priv) {
	leaf(n, b, e);
	REQ(Z(priv) != Z(0));
	vg_set(42, priv);
	vg_set(41, 0);
	M0(1, n);
	auto o = pack(A1{{n}}, scalar<int>()) ^ tuple<'t'>();
	lex<0, 'x'> acc{{e - b}};
	lex<4, 'x'> neut{{n}};
	lex<8, 'x'> join{{n}};
	acc.start();
	neut.start();
	join.start();
	vg_set(22, 0);
	vg_set(23, 0);
	tbb_reduce(
		traverser(A1{{n}}),
		[=](auto st, void *p) {
			vg_set(21, (sz)p);
			if constexpr (state_get_t<decltype(st), index_in<'t'>>::value == 0)
				neut.visit(get_index<'x'>(st));
			else
				vg_set(22, vg_get(22) + 1);
		},
		[=](auto st, void *p) {
			ENS(Z(vg_get(4)) == Z(n) && Z(vg_get(22)) == Z(1));
			ENS(Z((sz)p) == Z(vg_get(21)));
			sz x = val(get_index<'x'>(st));
			ENS(Z(x) >= Z(b));
			acc.visit(x - b);
		},
		[=](auto st, void *to, const void *from) {
			ENS(Z(vg_get(0)) == Z(e) - Z(b));
			ENS(Z((sz)to) == Z((sz)out) && Z((sz)from) == Z(vg_get(21)));
			if constexpr (state_get_t<decltype(st), index_in<'t'>>::value == 0)
				join.visit(get_index<'x'>(st));
			else
				vg_set(23, vg_get(23) + 1);
		},
		o, (void *)out);
	acc.finish();
	neut.finish();
	join.finish();
	leaf_done(n);
	ENS(Z(vg_get(22)) == Z(1) && Z(vg_get(23)) == Z(1) && Z(vg_get(41)) == Z(0));
}
CONTRACT(tbb_reduce_private_two_leaves, sz n, sz q, sz b, sz e, sz e2, char *out, sz priv) {
	leaf(n, b, e);
	REQ(Z(priv) != Z(0));
	vg_set(42, priv);
	vg_set(41, 0);
	REQ(Z(q) > Z(0) && Z(e) <= Z(e2) && Z(e2) <= Z(n));
	CASE(1, Z(e) == Z(e2));
	vg_set(65, 1);
	vg_set(66, e);
	vg_set(67, e2);
	lex<0, 'x'> acc{{e - b}};
	lex<12, 'x'> acc2{{e2 - e}};
	lex<4, 'o'> neut{{q}};
	lex<8, 'o'> join{{q}};
	acc.start();
	acc2.start();
	neut.start();
	join.start();
	using O = absn::abs_t<1, int, 'o'>;
	tbb_reduce(
		traverser(A1{{n}}),
		[=](auto st, void *p) {
			vg_set(21, (sz)p);
			neut.visit_state(st);
		},
		[=](auto st, void *p) {
			ENS(Z(vg_get(4)) == Z(q));
			ENS(Z((sz)p) == Z(vg_get(21)));
			sz x = val(get_index<'x'>(st));
			ENS(Z(x) >= Z(b));
			if (x < e)
				acc.visit(x - b);
			else
				acc2.visit(x - e);
		},
		[=](auto st, void *to, const void *from) {
			ENS(Z(vg_get(0)) == Z(e) - Z(b) && Z(vg_get(12)) == Z(e2) - Z(e));
			ENS(Z((sz)to) == Z((sz)out) && Z((sz)from) == Z(vg_get(21)));
			ENS(Z(vg_get(41)) == Z(1) && Z(vg_get(40)) == zsz(O{{q}}));
			join.visit_state(st);
		},
		O{{q}}, (void *)out);
	acc.finish();
	acc2.finish();
	neut.finish();
	join.finish();
	ENS(Z(vg_get(41)) == Z(0));
}
// the bag overload hands over bags of the output structure on the right memory
CONTRACT(tbb_reduce_bag, sz n, sz q, sz b, sz e, char *out, sz priv) {
	leaf(n, b, e);
	REQ(Z(priv) != Z(0));
	vg_set(42, priv);
	vg_set(41, 0);
	M0(1, q);
	lex<0, 'x'> acc{{e - b}};
	lex<4, 'o'> neut{{q}};
	lex<8, 'o'> join{{q}};
	acc.start();
	neut.start();
	join.start();
	using O = absn::abs_t<1, int, 'o'>;
	tbb_reduce(
		traverser(A1{{n}}),
		[=](auto st, auto p) {
			vg_set(21, (sz)p.data());
			ENS(zlen<'o'>(p.structure()) == Z(q));
			neut.visit_state(st);
		},
		[=](auto st, auto p) {
			ENS(Z(q) == Z(0) || Z((sz)p.data()) == Z(vg_get(21)));
			ENS(zlen<'o'>(p.structure()) == Z(q));
			sz x = val(get_index<'x'>(st));
			ENS(Z(x) >= Z(b));
			acc.visit(x - b);
		},
		[=](auto st, auto to, auto from) {
			ENS(Z((sz)to.data()) == Z((sz)out) && Z((sz)from.data()) == Z(vg_get(21)));
			ENS(Z(vg_get(41)) == Z(1) && Z(vg_get(40)) == zsz(O{{q}}));
			join.visit_state(st);
		},
		make_bag(O{{q}}, out));
	acc.finish();
	neut.finish();
	join.finish();
	ENS(Z(vg_get(41)) == Z(0));
}
// ---- parallel std::for_each: an arbitrary position k
inline void pos(sz n, sz k) {
	REQ(Z(k) < Z(n) && Z(n) < Z(sz(1) << 62));
	vg_set(60, k);
	vg_set(64, 0);
}
inline void pos_done(sz n) {
	ENS(Z(vg_get(64)) == Z(1));
	ENS(Z(vg_get(63)) == Z(n));
}
CONTRACT(std_for_each_2, sz n, sz m, sz k) {
	pos(n, k);
	M0(0, m);
	lex<0, 'y'> g{{m}};
	g.start();
	std_for_each(traverser(A{{n, m}}), [=](auto st) {
		ENS_TYPE(decltype(st.template remove<index_in<'x'>, index_in<'y'>>())::is_empty);
		ENS(Z(val(get_index<'x'>(st))) == Z(k));
		g.visit(get_index<'y'>(st));
	});
	g.finish();
	pos_done(n);
}
CONTRACT(std_for_sections_3, sz n, sz m, sz p, sz k) {
	pos(m, k);
	M0(0, n);
	M0(1, p);
	lex<0, 'x', 'z'> g{{n, p}};
	g.start();
	vg_set(20, 0);
	std_for_sections(traverser(A3{{n, m, p}}).order(hoist<'y'>()), [=](auto in) {
		vg_set(20, vg_get(20) + 1);
		ENS(Z(val(get_index<'y'>(in.state()))) == Z(k));
		in.for_each([=](auto st) {
			ENS(Z(val(get_index<'y'>(st))) == Z(k));
			g.visit(get_index<'x'>(st), get_index<'z'>(st));
		});
	});
	g.finish();
	ENS(Z(vg_get(20)) == Z(1));
	pos_done(m);
}
CONTRACT(std_planner, sz n, sz m, sz k) {
	pos(n, k);
	M0(0, m);
	lex<0, 'y'> g{{m}};
	g.start();
	plan(A{{n, m}}).for_each([=](auto st) {
		ENS(Z(val(get_index<'x'>(st))) == Z(k));
		g.visit(get_index<'y'>(st));
	}) | planner_std_execute();
	g.finish();
	pos_done(n);
}
// ---- OpenMP: the iterations of the canonical loop cover the traversal exactly once
CONTRACT(omp_for_each_2, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'x', 'y'> g{{n, m}};
	g.start();
	omp_for_each(traverser(A{{n, m}}), [=](auto st) { g.visit_state(st); });
	g.finish();
}
CONTRACT(omp_for_sections_2, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'x'> o{{n}};
	lex<4, 'x', 'y'> g{{n, m}};
	o.start();
	g.start();
	omp_for_sections(traverser(A{{n, m}}), [=](auto in) {
		o.visit_state(in.state());
		in.for_each([=](auto st) { g.visit_state(st); });
	});
	o.finish();
	g.finish();
}
CONTRACT(omp_planner, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'y', 'x'> g{{m, n}};
	g.start();
	plan(A{{n, m}}) ^ for_each([=](auto st) { g.visit_state(st); }) ^ hoist<'y'>() | planner_omp_execute();
	g.finish();
}
