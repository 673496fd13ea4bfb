// C16 Ranges and iterators over traversers obey random-access laws and split exactly
#include "trav.hpp"
#include <noarr/structures/extra/planner.hpp>
#include <noarr/structures/interop/bag.hpp>
#include <noarr/structures/interop/planner_iter.hpp>
#include <noarr/structures/interop/tbb.hpp>
#include <noarr/structures/interop/traverser_iter.hpp>
#include <iterator>
using namespace noarr;
using A1 = absn::abs_t<0, int, 'x'>;
using A = absn::abs_t<0, int, 'x', 'y'>;
using A3 = absn::abs_t<0, int, 'x', 'y', 'z'>;

template<class... S>
inline auto plan(S... s) {
	return planner(make_union(s...));
}
template<class It>
inline Z at(It it) {
	return Z(it.idx);
}
#define SMALL (Z(sz(1) << 62))

// ---- traversers
CONTRACT(size_top, sz n, sz m) {
	auto t = traverser(A{{n, m}});
	auto r = t.range();
	ENS(Z(r.size()) == Z(n));
	ENS(Z(sz(r.end() - r.begin())) == Z(n));
	ENS(Z(sz(t.end() - t.begin())) == Z(n));
	ENS(as_b(r.empty()).implies(Z(n) == Z(0)) && (Z(n) == Z(0)).implies(as_b(r.empty())));
	ENS(as_b(r.is_divisible()).implies(Z(n) > Z(1)) && (Z(n) > Z(1)).implies(as_b(r.is_divisible())));
	ENS(as_b(t.begin() == r.begin()) && as_b(t.end() == r.end()));
	ENS(as_b(r.cbegin() == r.begin()) && as_b(r.cend() == r.end()));
	ENS_TYPE(std::random_access_iterator<decltype(t.begin())>);
}
CONTRACT(size_dim, sz n, sz m, sz p) {
	auto t = traverser(A3{{n, m, p}});
	ENS(Z(t.template range<'x'>().size()) == Z(n));
	ENS(Z(t.template range<'y'>().size()) == Z(m));
	ENS(Z(t.template range<'z'>().size()) == Z(p));
	ENS(Z(t.order(hoist<'z'>()).range().size()) == Z(p));
	ENS(Z(t.order(hoist<'y'>()).range().size()) == Z(m));
}
CONTRACT(size_ordered, sz n, sz m, sz b, sz k) {
	REQ(Z(b) + Z(k) <= Z(n));
	auto t = traverser(A{{n, m}});
	ENS(Z(t.order(slice<'x'>(b, k)).range().size()) == Z(k));
	ENS(Z(t.order(shift<'x'>(b)).range().size()) == Z(n) - Z(b));
	ENS(Z(t.order(fix<'x'>(b)).range().size()) == Z(m));
}
CONTRACT(laws, sz n, sz m, sz i, sz j, sz k) {
	REQ(Z(n) < SMALL && Z(i) <= Z(n) && Z(j) <= Z(n) && Z(i) + Z(k) <= Z(n));
	auto t = traverser(A{{n, m}});
	auto b = t.begin();
	auto x = b + long(i), y = b + long(j);
	ENS(at(x) == Z(i) && at(y) == Z(j));
	long d = y - x;
	ENS(Z(d) == Z(j) - Z(i));
	ENS(as_b(x == y).implies(Z(i) == Z(j)) && (Z(i) == Z(j)).implies(as_b(x == y)));
	ENS(as_b(x != y).implies(Z(i) != Z(j)) && (Z(i) != Z(j)).implies(as_b(x != y)));
	ENS(as_b(x < y).implies(Z(i) < Z(j)) && (Z(i) < Z(j)).implies(as_b(x < y)));
	ENS(as_b(x <= y).implies(Z(i) <= Z(j)) && (Z(i) <= Z(j)).implies(as_b(x <= y)));
	ENS(as_b(x > y).implies(Z(i) > Z(j)) && (Z(i) > Z(j)).implies(as_b(x > y)));
	ENS(as_b(x >= y).implies(Z(i) >= Z(j)) && (Z(i) >= Z(j)).implies(as_b(x >= y)));
	ENS(at(x + long(k)) == Z(i) + Z(k));
	ENS(at(long(k) + x) == Z(i) + Z(k));
	ENS(at((x + long(k)) - long(k)) == Z(i));
	auto c = x;
	c += long(k);
	ENS(at(c) == Z(i) + Z(k));
	c -= long(k);
	ENS(at(c) == Z(i));
	ENS(at(x + d) == Z(j));
	ENS(at(y - d) == Z(i));
	auto &r1 = (c += long(k));
	ENS(as_b(&r1 == &c));
	auto &r2 = (c -= long(k));
	ENS(as_b(&r2 == &c));
}
CONTRACT(laws_step, sz n, sz m, sz i) {
	REQ(Z(i) < Z(n));
	auto t = traverser(A{{n, m}});
	auto x = t.range().begin();
	x.idx = i;
	auto p = x++;
	ENS(at(p) == Z(i) && at(x) == Z(i) + Z(1));
	auto q = x--;
	ENS(at(q) == Z(i) + Z(1) && at(x) == Z(i));
	auto &r = ++x;
	ENS(at(r) == Z(i) + Z(1) && at(x) == Z(i) + Z(1) && as_b(&r == &x));
	auto &s = --x;
	ENS(at(s) == Z(i) && at(x) == Z(i) && as_b(&s == &x));
}
// *(begin()+k), begin()[k], range()[k]: the traverser restricted to top index k
template<class T>
inline void restricted(T t, sz k, sz m) {
	lex<0, 'y'> e{{m}};
	e.start();
	ENS(Z(val(get_index<'x'>(t.state()))) == Z(k));
	t.for_each([&](auto st) {
		ENS_TYPE(decltype(st.template remove<index_in<'x'>, index_in<'y'>>())::is_empty);
		ENS(Z(val(get_index<'x'>(st))) == Z(k));
		e.visit(get_index<'y'>(st));
	});
	e.finish();
}
CONTRACT(deref, sz n, sz m, sz k) {
	CASE(0, Z(m) == Z(0));
	REQ(Z(k) < Z(n) && Z(n) < SMALL);
	restricted(*(traverser(A{{n, m}}).begin() + long(k)), k, m);
}
CONTRACT(deref_index, sz n, sz m, sz i, sz k) {
	CASE(0, Z(m) == Z(0));
	REQ(Z(i) + Z(k) < Z(n) && Z(n) < SMALL);
	restricted((traverser(A{{n, m}}).begin() + long(i))[long(k)], i + k, m);
}
CONTRACT(deref_index_back, sz n, sz m, sz k) {
	CASE(0, Z(m) == Z(0));
	REQ(Z(k) < Z(n) && Z(n) < SMALL);
	restricted(traverser(A{{n, m}}).end()[-1 - long(k)], n - 1 - k, m);
}
CONTRACT(deref_range, sz n, sz m, sz b, sz e, sz k) {
	CASE(0, Z(m) == Z(0));
	REQ(Z(b) <= Z(e) && Z(e) <= Z(n) && Z(b) + Z(k) < Z(e));
	auto r = traverser(A{{n, m}}).range();
	r.begin_idx = b;
	r.end_idx = e;
	restricted(r[k], b + k, m);
	ENS(at(r.begin()) == Z(b) && at(r.end()) == Z(e) && Z(r.size()) == Z(e) - Z(b));
}
CONTRACT(deref_dim, sz n, sz m, sz p, sz k) {
	NZ2(n, p);
	REQ(Z(k) < Z(m));
	lex<0, 'x', 'z'> e{{n, p}};
	e.start();
	traverser(A3{{n, m, p}}).template range<'y'>()[k].for_each([&](auto st) {
		ENS(Z(val(get_index<'y'>(st))) == Z(k));
		e.visit(get_index<'x'>(st), get_index<'z'>(st));
	});
	e.finish();
}
// iterating visits everything once, in order
CONTRACT(iterate, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'x', 'y'> e{{n, m}};
	lex<8, 'x'> o{{n}};
	e.start();
	o.start();
	for (auto in : traverser(A{{n, m}})) {
		o.visit_state(in.state());
		in.for_each([&](auto st) { e.visit_state(st); });
	}
	e.finish();
	o.finish();
}
CONTRACT(iterate_range_dim, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'y', 'x'> e{{m, n}};
	lex<8, 'y'> o{{m}};
	e.start();
	o.start();
	for (auto in : traverser(A{{n, m}}).template range<'y'>()) {
		o.visit_state(in.state());
		in.for_each([&](auto st) { e.visit_state(st); });
	}
	e.finish();
	o.finish();
}
CONTRACT(iterate_nested, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'x', 'y', 'z'> e{{n, m, p}};
	e.start();
	for (auto in : traverser(A3{{n, m, p}}))
		for (auto in2 : in)
			in2.for_each([&](auto st) { e.visit_state(st); });
	e.finish();
}
CONTRACT(iterate_ordered, sz n, sz m, sz b, sz k) {
	NZ2(k, m);
	REQ(Z(b) + Z(k) <= Z(n));
	lex<0, 'y', 'x'> e{{m, k}};
	e.start();
	for (auto in : traverser(A{{n, m}}).order(slice<'x'>(b, k) ^ hoist<'y'>()))
		in.for_each([&](auto st) {
			sz x = val(get_index<'x'>(st));
			ENS(Z(x) >= Z(b));
			e.visit(get_index<'y'>(st), x - b);
		});
	e.finish();
}
// a sub-range [b, e): for_each, as_traverser and order visit exactly the indices in it
CONTRACT(sub_for_each, sz n, sz m, sz b, sz e) {
	REQ(Z(b) <= Z(e) && Z(e) <= Z(n));
	CASE(0, Z(b) == Z(e));
	CASE(1, Z(m) == Z(0));
	auto r = traverser(A{{n, m}}).range();
	r.begin_idx = b;
	r.end_idx = e;
	lex<0, 'x', 'y'> g{{e - b, m}};
	g.start();
	r.for_each([&](auto st) {
		ENS_TYPE(decltype(st.template remove<index_in<'x'>, index_in<'y'>>())::is_empty);
		sz x = val(get_index<'x'>(st));
		ENS(Z(x) >= Z(b));
		g.visit(x - b, get_index<'y'>(st));
	});
	g.finish();
}
CONTRACT(sub_as_traverser, sz n, sz m, sz b, sz e) {
	REQ(Z(b) <= Z(e) && Z(e) <= Z(n));
	CASE(0, Z(b) == Z(e));
	CASE(1, Z(m) == Z(0));
	auto r = traverser(A{{n, m}}).range();
	r.begin_idx = b;
	r.end_idx = e;
	lex<0, 'x', 'y'> g{{e - b, m}};
	g.start();
	r.as_traverser().for_each([&](auto st) {
		sz x = val(get_index<'x'>(st));
		ENS(Z(x) >= Z(b));
		g.visit(x - b, get_index<'y'>(st));
	});
	g.finish();
}
CONTRACT(sub_order, sz n, sz m, sz b, sz e) {
	REQ(Z(b) <= Z(e) && Z(e) <= Z(n));
	CASE(0, Z(b) == Z(e));
	CASE(1, Z(m) == Z(0));
	auto r = traverser(A{{n, m}}).range();
	r.begin_idx = b;
	r.end_idx = e;
	lex<0, 'y', 'x'> g{{m, e - b}};
	g.start();
	r.order(hoist<'y'>()).for_each([&](auto st) {
		sz x = val(get_index<'x'>(st));
		ENS(Z(x) >= Z(b));
		g.visit(get_index<'y'>(st), x - b);
	});
	g.finish();
}
CONTRACT(sub_iterate, sz n, sz m, sz b, sz e) {
	REQ(Z(b) <= Z(e) && Z(e) <= Z(n));
	CASE(0, Z(b) == Z(e));
	auto r = traverser(A{{n, m}}).range();
	r.begin_idx = b;
	r.end_idx = e;
	lex<0, 'x'> g{{e - b}};
	g.start();
	for (auto in : r) {
		sz x = val(get_index<'x'>(in.state()));
		ENS(Z(x) >= Z(b));
		g.visit(x - b);
	}
	g.finish();
}
CONTRACT(sub_dim, sz n, sz m, sz b, sz e) {
	REQ(Z(b) <= Z(e) && Z(e) <= Z(m));
	CASE(0, Z(b) == Z(e));
	CASE(1, Z(n) == Z(0));
	auto r = traverser(A{{n, m}}).template range<'y'>();
	r.begin_idx = b;
	r.end_idx = e;
	lex<0, 'x', 'y'> g{{n, e - b}};
	g.start();
	r.for_each([&](auto st) {
		sz y = val(get_index<'y'>(st));
		ENS(Z(y) >= Z(b));
		g.visit(get_index<'x'>(st), y - b);
	});
	g.finish();
}
// splitting: [b, e) -> [b, mid) and [mid, e)
template<class R>
inline void split_ok(R r, sz b, sz e) {
	r.begin_idx = b;
	r.end_idx = e;
	ENS(as_b(r.empty()).implies(Z(b) == Z(e)) && (Z(b) == Z(e)).implies(as_b(r.empty())));
	ENS(as_b(r.is_divisible()).implies(Z(e) - Z(b) > Z(1)) && (Z(e) - Z(b) > Z(1)).implies(as_b(r.is_divisible())));
	R right(r, tbb::split{});
	ENS(Z(r.begin_idx) == Z(b) && Z(right.end_idx) == Z(e));
	ENS(Z(r.end_idx) == Z(right.begin_idx));
	ENS(Z(b) <= Z(r.end_idx) && Z(r.end_idx) <= Z(e));
	// progress: a divisible range gives two non-empty halves
	ENS((Z(e) - Z(b) > Z(1)).implies(Z(b) < Z(r.end_idx) && Z(r.end_idx) < Z(e)));
	ENS(Z(r.size()) + Z(right.size()) == Z(e) - Z(b));
}
CONTRACT(split, sz n, sz m, sz b, sz e) {
	REQ(Z(b) <= Z(e) && Z(e) <= Z(n));
	split_ok(traverser(A{{n, m}}).range(), b, e);
}
CONTRACT(split_planner, sz n, sz m, sz b, sz e) {
	REQ(Z(b) <= Z(e) && Z(e) <= Z(n));
	split_ok(range(plan(A{{n, m}})), b, e);
}
CONTRACT(split_content, sz n, sz m, sz b, sz e) {
	REQ(Z(b) < Z(e) && Z(e) <= Z(n));
	CASE(0, Z(m) == Z(0));
	CASE(1, Z(e) - Z(b) == Z(1));
	auto r = traverser(A{{n, m}}).range();
	r.begin_idx = b;
	r.end_idx = e;
	decltype(r) right(r, tbb::split{});
	sz mid = r.end_idx;
	lex<0, 'x', 'y'> g{{mid - b, m}};
	lex<4, 'x', 'y'> h{{e - mid, m}};
	g.start();
	r.for_each([&](auto st) {
		sz x = val(get_index<'x'>(st));
		ENS(Z(x) >= Z(b));
		g.visit(x - b, get_index<'y'>(st));
	});
	g.finish();
	h.start();
	right.for_each([&](auto st) {
		sz x = val(get_index<'x'>(st));
		ENS(Z(x) >= Z(mid));
		h.visit(x - mid, get_index<'y'>(st));
	});
	h.finish();
}
// ---- planners
CONTRACT(p_size, sz n, sz m) {
	auto p = plan(A{{n, m}});
	auto r = range(p);
	ENS(Z(r.size()) == Z(n));
	ENS(Z(sz(r.end() - r.begin())) == Z(n));
	ENS(Z(sz(end(p) - begin(p))) == Z(n));
	ENS(as_b(r.empty()).implies(Z(n) == Z(0)) && (Z(n) == Z(0)).implies(as_b(r.empty())));
	ENS(as_b(r.is_divisible()).implies(Z(n) > Z(1)) && (Z(n) > Z(1)).implies(as_b(r.is_divisible())));
	ENS(as_b(begin(p) == r.begin()) && as_b(end(p) == r.end()));
	ENS(as_b(r.cbegin() == r.begin()) && as_b(r.cend() == r.end()));
	ENS(Z(range<'y'>(p).size()) == Z(m));
	ENS(Z(range(p.order(hoist<'y'>())).size()) == Z(m));
	ENS_TYPE(std::random_access_iterator<decltype(begin(p))>);
}
CONTRACT(p_laws, sz n, sz m, sz i, sz j, sz k) {
	REQ(Z(n) < SMALL && Z(i) <= Z(n) && Z(j) <= Z(n) && Z(i) + Z(k) <= Z(n));
	auto p = plan(A{{n, m}});
	auto b = begin(p);
	auto x = b + long(i), y = b + long(j);
	ENS(at(x) == Z(i) && at(y) == Z(j));
	long d = y - x;
	ENS(Z(d) == Z(j) - Z(i));
	ENS(as_b(x == y).implies(Z(i) == Z(j)) && (Z(i) == Z(j)).implies(as_b(x == y)));
	ENS(as_b(x < y).implies(Z(i) < Z(j)) && (Z(i) < Z(j)).implies(as_b(x < y)));
	ENS(as_b(x <= y).implies(Z(i) <= Z(j)) && (Z(i) <= Z(j)).implies(as_b(x <= y)));
	ENS(as_b(x > y).implies(Z(i) > Z(j)) && (Z(i) > Z(j)).implies(as_b(x > y)));
	ENS(as_b(x >= y).implies(Z(i) >= Z(j)) && (Z(i) >= Z(j)).implies(as_b(x >= y)));
	ENS(at(x + long(k)) == Z(i) + Z(k));
	ENS(at(long(k) + x) == Z(i) + Z(k));
	ENS(at((x + long(k)) - long(k)) == Z(i));
	auto c = x;
	c += long(k);
	ENS(at(c) == Z(i) + Z(k));
	c -= long(k);
	ENS(at(c) == Z(i));
	ENS(at(x + d) == Z(j));
	ENS(at(y - d) == Z(i));
}
CONTRACT(p_laws_step, sz n, sz m, sz i) {
	REQ(Z(i) < Z(n));
	auto p0 = plan(A{{n, m}});
	auto x = begin(p0);
	x.idx = i;
	auto p = x++;
	ENS(at(p) == Z(i) && at(x) == Z(i) + Z(1));
	auto q = x--;
	ENS(at(q) == Z(i) + Z(1) && at(x) == Z(i));
	auto &r = ++x;
	ENS(at(r) == Z(i) + Z(1) && at(x) == Z(i) + Z(1) && as_b(&r == &x));
	auto &s = --x;
	ENS(at(s) == Z(i) && at(x) == Z(i) && as_b(&s == &x));
}
template<class P>
inline void restricted_p(P p, sz k, sz m) {
	lex<0, 'y'> e{{m}};
	e.start();
	ENS(Z(val(get_index<'x'>(p.state()))) == Z(k));
	p.for_each([&](auto st) {
		ENS(Z(val(get_index<'x'>(st))) == Z(k));
		e.visit(get_index<'y'>(st));
	}).execute();
	e.finish();
}
CONTRACT(p_deref, sz n, sz m, sz k) {
	CASE(0, Z(m) == Z(0));
	REQ(Z(k) < Z(n) && Z(n) < SMALL);
	auto p = plan(A{{n, m}});
	restricted_p(*(begin(p) + long(k)), k, m);
}
CONTRACT(p_deref_index, sz n, sz m, sz i, sz k) {
	CASE(0, Z(m) == Z(0));
	REQ(Z(i) + Z(k) < Z(n) && Z(n) < SMALL);
	auto p = plan(A{{n, m}});
	restricted_p((begin(p) + long(i))[long(k)], i + k, m);
}
CONTRACT(p_deref_range, sz n, sz m, sz b, sz e, sz k) {
	CASE(0, Z(m) == Z(0));
	REQ(Z(b) <= Z(e) && Z(e) <= Z(n) && Z(b) + Z(k) < Z(e));
	auto r = range(plan(A{{n, m}}));
	r.begin_idx = b;
	r.end_idx = e;
	restricted_p(r[k], b + k, m);
	ENS(at(r.begin()) == Z(b) && at(r.end()) == Z(e) && Z(r.size()) == Z(e) - Z(b));
}
CONTRACT(p_iterate, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'x', 'y'> e{{n, m}};
	lex<8, 'x'> o{{n}};
	e.start();
	o.start();
	for (auto in : plan(A{{n, m}}).for_each([&](auto st) { e.visit_state(st); })) {
		o.visit_state(in.state());
		in.execute();
	}
	e.finish();
	o.finish();
}
CONTRACT(p_sub_as_planner, sz n, sz m, sz b, sz e) {
	REQ(Z(b) <= Z(e) && Z(e) <= Z(n));
	CASE(0, Z(b) == Z(e));
	CASE(1, Z(m) == Z(0));
	lex<0, 'x', 'y'> g{{e - b, m}};
	auto r = range(plan(A{{n, m}}).for_each([&](auto st) {
		sz x = val(get_index<'x'>(st));
		ENS(Z(x) >= Z(b));
		g.visit(x - b, get_index<'y'>(st));
	}));
	r.begin_idx = b;
	r.end_idx = e;
	g.start();
	r.as_planner().execute();
	g.finish();
}
CONTRACT(p_sub_for_each, sz n, sz m, sz b, sz e) {
	REQ(Z(b) <= Z(e) && Z(e) <= Z(n));
	CASE(0, Z(b) == Z(e));
	CASE(1, Z(m) == Z(0));
	lex<0, 'x', 'y'> g{{e - b, m}};
	auto r = range(plan(A{{n, m}}));
	r.begin_idx = b;
	r.end_idx = e;
	g.start();
	r.for_each([&](auto st) {
		 sz x = val(get_index<'x'>(st));
		 ENS(Z(x) >= Z(b));
		 g.visit(x - b, get_index<'y'>(st));
	 }).execute();
	g.finish();
}
CONTRACT(p_sub_order, sz n, sz m, sz b, sz e) {
	REQ(Z(b) <= Z(e) && Z(e) <= Z(n));
	CASE(0, Z(b) == Z(e));
	CASE(1, Z(m) == Z(0));
	lex<0, 'y', 'x'> g{{m, e - b}};
	auto r = range(plan(A{{n, m}}));
	r.begin_idx = b;
	r.end_idx = e;
	g.start();
	r.order(hoist<'y'>()).for_each([&](auto st) {
		 sz x = val(get_index<'x'>(st));
		 ENS(Z(x) >= Z(b));
		 g.visit(get_index<'y'>(st), x - b);
	 }).execute();
	g.finish();
}
