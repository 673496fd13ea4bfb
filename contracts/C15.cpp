// C15 A planner executes each section exactly once per valid index, in order
#include "trav.hpp"
#include <noarr/structures/extra/planner.hpp>
#include <noarr/structures/interop/bag.hpp>
using namespace noarr;
using A1 = absn::abs_t<0, int, 'x'>;
using A = absn::abs_t<0, int, 'x', 'y'>;
using A3 = absn::abs_t<0, int, 'x', 'y', 'z'>;

template<class... S>
inline auto plan(S... s) {
	return planner(make_union(s...));
}

CONTRACT(one, sz n) {
	CASE(0, Z(n) == Z(0));
	lex<0, 'x'> e{{n}};
	e.start();
	plan(A1{{n}}).for_each([&](auto st) { e.visit_state(st); }).execute();
	e.finish();
}
CONTRACT(two, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'x', 'y'> e{{n, m}};
	e.start();
	plan(A{{n, m}}).for_each([&](auto st) { e.visit_state(st); })();
	e.finish();
}
CONTRACT(three, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'x', 'y', 'z'> e{{n, m, p}};
	e.start();
	plan(A3{{n, m, p}}) ^ for_each([&](auto st) { e.visit_state(st); }) | planner_execute();
	e.finish();
}
CONTRACT(scalar_once) {
	vg_set(0, 0);
	plan(scalar<int>()).for_each([](auto st) {
		ENS_TYPE(decltype(st)::is_empty);
		vg_set(0, vg_get(0) + 1);
	}).execute();
	ENS(Z(vg_get(0)) == Z(1));
}
CONTRACT(array_mixed, sz n) {
	CASE(0, Z(n) == Z(0));
	lex<0, 'y', 'x'> e{{n, 6}};
	e.start();
	plan(scalar<int>() ^ array<'x', 6>() ^ vector<'y'>(n)).for_each([&](auto st) { e.visit_state(st); }).execute();
	e.finish();
}
CONTRACT(matmul_order, sz n, sz m, sz p) {
	NZ3(n, m, p);
	auto c = scalar<int>() ^ vector<'j'>(m) ^ vector<'i'>(n);
	auto a = scalar<int>() ^ vector<'k'>(p) ^ vector<'i'>(n);
	auto b = scalar<int>() ^ vector<'j'>(m) ^ vector<'k'>(p);
	lex<0, 'i', 'j', 'k'> e{{n, m, p}};
	e.start();
	plan(c, a, b).for_each([&](auto st) { e.visit_state(st); }).order(reorder<'i', 'j', 'k'>()).execute();
	e.finish();
}
// the position of the order in the chain does not matter
CONTRACT(order_before, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'z', 'x', 'y'> e{{p, n, m}};
	e.start();
	plan(A3{{n, m, p}}).order(hoist<'z'>()).for_each([&](auto st) { e.visit_state(st); }).execute();
	e.finish();
}
CONTRACT(order_after, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'z', 'x', 'y'> e{{p, n, m}};
	e.start();
	plan(A3{{n, m, p}}) ^ for_each([&](auto st) { e.visit_state(st); }) ^ hoist<'z'>() | planner_execute();
	e.finish();
}
CONTRACT(two_orders, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'y', 'z', 'x'> e{{m, p, n}};
	e.start();
	plan(A3{{n, m, p}}) ^ hoist<'z'>() ^ for_each([&](auto st) { e.visit_state(st); }) ^ hoist<'y'>() | planner_execute();
	e.finish();
}
// orders that restrict or remap indices
CONTRACT(order_fix, sz n, sz m, sz i) {
	NZ2(n, m);
	REQ(Z(i) < Z(n));
	lex<0, 'y'> e{{m}};
	e.start();
	(plan(A{{n, m}}) ^ for_each([&](auto st) {
		 ENS(Z(val(get_index<'x'>(st))) == Z(i));
		 e.visit(get_index<'y'>(st));
	 }) ^ fix<'x'>(i))();
	e.finish();
}
CONTRACT(order_slice, sz n, sz m, sz b, sz k) {
	NZ2(k, m);
	REQ(Z(b) + Z(k) <= Z(n));
	lex<0, 'x', 'y'> e{{k, m}};
	e.start();
	(plan(A{{n, m}}) ^ slice<'x'>(b, k) ^ for_each([&](auto st) {
		 sz x = val(get_index<'x'>(st));
		 ENS(Z(x) >= Z(b));
		 e.visit(x - b, get_index<'y'>(st));
	 }))();
	e.finish();
}
CONTRACT(order_reverse, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'x', 'y'> e{{n, m}};
	e.start();
	(plan(A{{n, m}}) ^ reverse<'x'>() ^ for_each([&](auto st) {
		 sz x = val(get_index<'x'>(st));
		 ENS(Z(x) < Z(n));
		 e.visit(n - 1 - x, get_index<'y'>(st));
	 }))();
	e.finish();
}
CONTRACT(order_blocks, sz q, sz m) {
	NZ2(q, m);
	REQ(Z(q) * Z(4) < TWO64);
	lex<0, 'X', 'y', 'x'> e{{q, m, 4}};
	e.start();
	(plan(A{{q * 4, m}}) ^ into_blocks<'x', 'X', 'a'>(4) ^ reorder<'X', 'y', 'a'>() ^ for_each([&](auto st) {
		 // mapped back to the structure's own dimensions
		 ENS_TYPE(decltype(st.template remove<index_in<'x'>, index_in<'y'>>())::is_empty);
		 ENS(Z(val(get_index<'x'>(st))) == Z(vg_get(0)) * Z(4) + Z(vg_get(2)));
		 e.visit(vg_get(0), get_index<'y'>(st), vg_get(2));
	 }))();
	e.finish();
}
// sections
CONTRACT(section_outer, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'x', 'y'> e{{n, m}};
	lex<8, 'x'> o{{n}};
	e.start();
	o.start();
	vg_set(20, 0);
	plan(A{{n, m}})
		.for_each([&](auto st) {
			ENS(Z(vg_get(20)) == Z(1));  // inside a section
			ENS(Z(val(get_index<'x'>(st))) + Z(1) == Z(vg_get(8)));
			e.visit_state(st);
		})
		.template for_sections<'x'>([&](auto in) {
			o.visit_state(in.state());
			vg_set(20, 1);
			in();
			vg_set(20, 0);
			ENS(Z(m) == Z(0) || Z(vg_get(0)) == Z(vg_get(8)));  // all of this section's elements have been run
		})
		.execute();
	e.finish();
	o.finish();
}
CONTRACT(section_nested_3, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'x', 'y', 'z'> e{{n, m, p}};
	lex<8, 'x'> o{{n}};
	lex<12, 'x', 'y'> q{{n, m}};
	e.start();
	o.start();
	q.start();
	(plan(A3{{n, m, p}}) ^ for_each([&](auto st) { e.visit_state(st); }) ^ for_sections<'x', 'y'>([&](auto in) {
		 q.visit_state(in.state());
		 in();
	 }) ^ for_sections<'x'>([&](auto in) {
		 o.visit_state(in.state());
		 in();
	 }))();
	// m == 0 or p == 0: the outer sections still run once each, the inner content does not
	e.finish();
	q.finish();
	o.finish();
}
CONTRACT(section_skipped_content, sz n, sz m) {
	// a section body that does not call its argument skips its content only
	NZ2(n, m);
	lex<8, 'x'> o{{n}};
	o.start();
	plan(A{{n, m}})
		.for_each([](auto st) {
			ENS(Z(vu_fun(0, val(get_index<'x'>(st)), 0, 0)) != Z(0));
			vg_set(0, vg_get(0) + 1);
		})
		.template for_sections<'x'>([&](auto in) {
			o.visit_state(in.state());
			vg_set(0, 0);
			if (vu_fun(0, val(get_index<'x'>(in)), 0, 0) != 0)
				in();
			ENS(zite(Z(vu_fun(0, val(get_index<'x'>(in)), 0, 0)) == Z(0), Z(0), Z(m)) == Z(vg_get(0)));
		})
		.execute();
	o.finish();
}
CONTRACT(section_added_first, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'x', 'y'> e{{n, m}};
	lex<8, 'x'> o{{n}};
	e.start();
	o.start();
	plan(A{{n, m}})
		.template for_sections<'x'>([&](auto in) {
			o.visit_state(in.state());
			in.for_each([&](auto st) { e.visit_state(st); }).execute();
		})
		.execute();
	e.finish();
	o.finish();
}
CONTRACT(section_with_hoist, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'y', 'x'> e{{m, n}};
	lex<8, 'y'> o{{m}};
	e.start();
	o.start();
	(plan(A{{n, m}}) ^ for_each([&](auto st) { e.visit_state(st); }) ^ for_sections<'y'>([&](auto in) {
		 o.visit_state(in.state());
		 in();
	 }) ^ hoist<'y'>())();
	e.finish();
	o.finish();
}
CONTRACT(for_dims_hoists, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'z', 'x', 'y'> e{{p, n, m}};
	lex<8, 'z'> o{{p}};
	e.start();
	o.start();
	(plan(A3{{n, m, p}}) ^ for_each([&](auto st) { e.visit_state(st); }) ^ for_dims<'z'>([&](auto in) {
		 o.visit_state(in.state());
		 in();
	 }))();
	e.finish();
	o.finish();
}
CONTRACT(for_dims_two, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'z', 'x', 'y'> e{{p, n, m}};
	lex<8, 'z', 'x'> o{{p, n}};
	e.start();
	o.start();
	(plan(A3{{n, m, p}}) ^ for_each([&](auto st) { e.visit_state(st); }) ^ for_dims<'z', 'x'>([&](auto in) {
		 o.visit_state(in.state());
		 in();
	 }))();
	e.finish();
	o.finish();
}
CONTRACT(for_dims_none, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'x', 'y'> e{{n, m}};
	e.start();
	vg_set(8, 0);
	(plan(A{{n, m}}) ^ for_dims<>([&](auto in) {
		 vg_set(8, vg_get(8) + 1);
		 in.for_each([&](auto st) { e.visit_state(st); }).execute();
	 }))();
	e.finish();
	ENS(Z(vg_get(8)) == Z(1));
}
// elements: every bag is accessed at the offset of its own structure
CONTRACT(elem_union, sz n, sz m, sz p, char *pc, char *pa, char *pb) {
	NZ3(n, m, p);
	using Sc = absn::abs_t<200, int, 'i', 'j'>;
	using Sa = absn::abs_t<201, char, 'i', 'k'>;
	using Sb = absn::abs_t<202, double, 'k', 'j'>;
	lex<0, 'i', 'j', 'k'> e{{n, m, p}};
	e.start();
	(planner(make_bag(Sc{{n, m}}, pc), make_bag(Sa{{n, p}}, pa), make_bag(Sb{{p, m}}, pb)) ^ for_each_elem([&](auto st, int &c, char &a, double &b) {
		 sz i = val(get_index<'i'>(st)), j = val(get_index<'j'>(st)), k = val(get_index<'k'>(st));
		 ENS(Z((sz)&c) == Z((sz)pc + val(Sc{{n, m}} | offset<'i', 'j'>(i, j))));
		 ENS(Z((sz)&a) == Z((sz)pa + val(Sa{{n, p}} | offset<'i', 'k'>(i, k))));
		 ENS(Z((sz)&b) == Z((sz)pb + val(Sb{{p, m}} | offset<'k', 'j'>(k, j))));
		 e.visit_state(st);
	 }) ^ reorder<'i', 'j', 'k'>())();
	e.finish();
}
CONTRACT(elem_no_state, sz n, sz m, char *pa, char *pb) {
	NZ2(n, m);
	using Sa = absn::abs_t<200, int, 'x', 'y'>;
	using Sb = absn::abs_t<201, char, 'y', 'x'>;
	lex<0, 'x', 'y'> e{{n, m}};
	e.start();
	planner(make_bag(Sa{{n, m}}, pa), make_bag(Sb{{m, n}}, pb))
		.for_each_elem([&](int &a, char &b) {
			sz x = vg_get(0), y = vg_get(1);
			ENS(Z((sz)&a) == Z((sz)pa + val(Sa{{n, m}} | offset<'x', 'y'>(x, y))));
			ENS(Z((sz)&b) == Z((sz)pb + val(Sb{{m, n}} | offset<'y', 'x'>(y, x))));
			e.visit(x, y);
		})
		.order(hoist<'x'>())
		.execute();
	e.finish();
}
CONTRACT(elem_ordered, sz q, sz m, char *pa) {
	NZ2(q, m);
	REQ(Z(q) * Z(3) < TWO64);
	lex<0, 'X', 'y', 'x'> e{{q, m, 3}};
	e.start();
	using Sa = absn::abs_t<200, int, 'x', 'y'>;
	(planner(make_bag(Sa{{q * 3, m}}, pa)) ^ for_each_elem([&](int &a) {
		 sz x = vg_get(0) * 3 + vg_get(2), y = vg_get(1);
		 ENS(Z((sz)&a) == Z((sz)pa + val(Sa{{q * 3, m}} | offset<'x', 'y'>(x, y))));
		 e.visit(vg_get(0), y, vg_get(2));
	 }) ^ into_blocks<'x', 'X', 'x'>(3) ^ reorder<'X', 'y', 'x'>())();
	e.finish();
}
CONTRACT(to_state, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'x', 'y'> e{{n, m}};
	e.start();
	(plan(A{{n, m}}) ^ for_sections<'x', 'y'>([&](auto in) {
		 e.visit_state(state_at<A>(A{{n, m}}, in.state()));
	 }))();
	e.finish();
}
// tuple dimensions are enumerated statically
CONTRACT(tuple_inner, sz n) {
	CASE(0, Z(n) == Z(0));
	auto t = pack(scalar<int>(), scalar<double>(), scalar<char>()) ^ tuple<'t'>() ^ vector<'x'>(n);
	lex<0, 'x', 't'> e{{n, 3}};
	e.start();
	plan(t).for_each([&](auto st) { e.visit_state(st); }).execute();
	e.finish();
}
CONTRACT(tuple_outer, sz n, sz m) {
	NZ2(n, m);
	auto t = pack(scalar<int>() ^ vector<'x'>(n), scalar<double>() ^ vector<'x'>(m)) ^ tuple<'t'>();
	vg_set(0, 0);
	vg_set(1, 0);
	plan(t).for_each([n, m](auto st) {
		constexpr sz mem = decltype(get_index<'t'>(st))::value;
		ENS(Z(val(get_index<'x'>(st))) == Z(vg_get(mem)));
		ENS(Z(val(get_index<'x'>(st))) < Z(mem == 0 ? n : m));
		ENS(Z(vg_get(1 - mem)) == Z(mem == 0 ? 0 : n));
		vg_set(mem, vg_get(mem) + 1);
	}).execute();
	ENS(Z(vg_get(0)) == Z(n) && Z(vg_get(1)) == Z(m));
}
CONTRACT(tuple_section, sz n) {
	CASE(0, Z(n) == Z(0));
	auto t = pack(scalar<int>(), scalar<double>()) ^ tuple<'t'>() ^ vector<'x'>(n);
	lex<0, 'x', 't'> e{{n, 2}};
	lex<8, 'x'> o{{n}};
	e.start();
	o.start();
	(plan(t) ^ for_each([&](auto st) { e.visit_state(st); }) ^ for_sections<'x'>([&](auto in) {
		 o.visit_state(in.state());
		 in();
	 }))();
	e.finish();
	o.finish();
}
