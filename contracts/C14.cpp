// C14 for_sections, for_dims and inner traversals split the iteration space exactly
#include "trav.hpp"
using namespace noarr;
using A = absn::abs_t<0, int, 'x', 'y'>;
using A3 = absn::abs_t<0, int, 'x', 'y', 'z'>;

// outer calls are counted by `o`, elements by `e`
CONTRACT(dims_one, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'y', 'x', 'z'> e{{m, n, p}};
	lex<8, 'y'> o{{m}};
	e.start();
	o.start();
	traverser(A3{{n, m, p}}).for_dims<'y'>([&](auto in) {
		o.visit_state(in.state());
		in.for_each([&](auto st) { e.visit_state(st); });
	});
	e.finish();
	o.finish();
}
CONTRACT(dims_two, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'x', 'z', 'y'> e{{n, p, m}};
	lex<8, 'x', 'z'> o{{n, p}};
	e.start();
	o.start();
	traverser(A3{{n, m, p}}).for_dims<'x', 'z'>([&](auto in) {
		o.visit_state(in.state());
		in.for_each([&](auto st) { e.visit_state(st); });
	});
	e.finish();
	o.finish();
}
CONTRACT(dims_requested_order, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'z', 'x', 'y'> e{{p, n, m}};
	lex<8, 'z', 'x'> o{{p, n}};
	e.start();
	o.start();
	traverser(A3{{n, m, p}}).for_dims<'z', 'x'>([&](auto in) {
		o.visit_state(in.state());
		in.for_each([&](auto st) { e.visit_state(st); });
	});
	e.finish();
	o.finish();
}
CONTRACT(dims_all, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'y', 'z', 'x'> e{{m, p, n}};
	e.start();
	traverser(A3{{n, m, p}}).for_dims<'y', 'z', 'x'>([&](auto in) {
		vg_set(20, 0);
		in.for_each([&](auto st) {
			e.visit_state(st);
			vg_set(20, vg_get(20) + 1);
		});
		ENS(Z(vg_get(20)) == Z(1));
	});
	e.finish();
}
CONTRACT(dims_none, sz n, sz m) {
	NZ2(n, m);
	lex<0, 'x', 'y'> e{{n, m}};
	e.start();
	vg_set(8, 0);
	traverser(A{{n, m}}).for_dims<>([&](auto in) {
		vg_set(8, vg_get(8) + 1);
		ENS_TYPE(decltype(in.state())::is_empty);
		in.for_each([&](auto st) { e.visit_state(st); });
	});
	e.finish();
	ENS(Z(vg_get(8)) == Z(1));
}
CONTRACT(sections_signature_order, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'x', 'z', 'y'> e{{n, p, m}};
	lex<8, 'x', 'z'> o{{n, p}};
	e.start();
	o.start();
	traverser(A3{{n, m, p}}).for_sections<'z', 'x'>([&](auto in) {
		o.visit_state(in.state());
		in.for_each([&](auto st) { e.visit_state(st); });
	});
	e.finish();
	o.finish();
}
CONTRACT(sections_all, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'x', 'y', 'z'> e{{n, m, p}};
	e.start();
	traverser(A3{{n, m, p}}).for_sections([&](auto in) {
		e.visit_state(in.state());
	});
	e.finish();
}
CONTRACT(sections_pipe, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'y', 'x', 'z'> e{{m, n, p}};
	e.start();
	traverser(A3{{n, m, p}}) | for_dims<'y'>([&](auto in) { in | for_each([&](auto st) { e.visit_state(st); }); });
	e.finish();
	lex<8, 'x'> o{{n}};
	o.start();
	traverser(A3{{n, m, p}}) | for_sections<'x'>([&](auto in) { o.visit_state(in.state()); });
	o.finish();
}
CONTRACT(nested, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'z', 'x', 'y'> e{{p, n, m}};
	e.start();
	traverser(A3{{n, m, p}}).for_dims<'z'>([&](auto in) {
		in.template for_dims<'x'>([&](auto in2) {
			in2.template for_dims<'y'>([&](auto in3) { e.visit_state(in3.state()); });
		});
	});
	e.finish();
}
// vectors, several structures
CONTRACT(matmul, sz n, sz m, sz p) {
	NZ3(n, m, p);
	auto c = scalar<int>() ^ vector<'j'>(m) ^ vector<'i'>(n);
	auto a = scalar<int>() ^ vector<'k'>(p) ^ vector<'i'>(n);
	auto b = scalar<int>() ^ vector<'j'>(m) ^ vector<'k'>(p);
	lex<0, 'i', 'j', 'k'> e{{n, m, p}};
	lex<8, 'i', 'j'> o{{n, m}};
	e.start();
	o.start();
	traverser(c, a, b).for_dims<'i', 'j'>([&](auto in) {
		o.visit_state(in.state());
		in.for_each([&](auto st) { e.visit_state(st); });
	});
	e.finish();
	o.finish();
}
// restricting the traverser before and the inner traverser after splitting
CONTRACT(dims_of_span, sz n, sz m, sz a, sz b) {
	REQ(Z(a) <= Z(b) && Z(b) <= Z(n));
	CASE(0, Z(a) == Z(b));
	CASE(1, Z(m) == Z(0));
	lex<0, 'x', 'y'> e{{b - a, m}};
	e.start();
	traverser(A{{n, m}}).order(span<'x'>(a, b)).for_dims<'x'>([&](auto in) {
		in.for_each([&](auto st) {
			ENS(Z(val(get_index<'x'>(st))) >= Z(a) && Z(val(get_index<'x'>(st))) < Z(b));
			e.visit(val(get_index<'x'>(st)) - a, get_index<'y'>(st));
		});
	});
	e.finish();
}
CONTRACT(inner_slice, sz n, sz m, sz s, sz l) {
	REQ(Z(s) + Z(l) <= Z(m));
	CASE(0, Z(n) == Z(0));
	CASE(1, Z(l) == Z(0));
	lex<0, 'x', 'y'> e{{n, l}};
	e.start();
	traverser(A{{n, m}}).for_dims<'x'>([&](auto in) {
		in.order(slice<'y'>(s, l)).for_each([&](auto st) {
			ENS(Z(val(get_index<'y'>(st))) >= Z(s));
			e.visit(get_index<'x'>(st), val(get_index<'y'>(st)) - s);
		});
	});
	e.finish();
}
// triangular inner traversal: the inner range depends on the outer index
CONTRACT(inner_triangle, sz n) {
	CASE(0, Z(n) == Z(0));
	A a{{n, n}};
	vg_set(0, 0);
	traverser(a).for_dims<'x'>([&](auto in) {
		sz x = val(get_index<'x'>(in));
		ENS(Z(x) == Z(vg_get(0)));
		vg_set(1, 0);
		(in ^ span<'y'>(sz(0), x)) | [&](auto st) {
			ENS(Z(val(get_index<'x'>(st))) == Z(x));
			ENS(Z(val(get_index<'y'>(st))) == Z(vg_get(1)));
			ENS(Z(vg_get(1)) < Z(x));
			vg_set(1, vg_get(1) + 1);
		};
		ENS(Z(vg_get(1)) == Z(x));
		vg_set(0, vg_get(0) + 1);
	});
	ENS(Z(vg_get(0)) == Z(n));
}
CONTRACT(dims_of_hoist, sz n, sz m, sz p) {
	NZ3(n, m, p);
	lex<0, 'y', 'z', 'x'> e{{m, p, n}};
	e.start();
	(traverser(A3{{n, m, p}}) ^ hoist<'z'>()).template for_dims<'y'>([&](auto in) { in.for_each([&](auto st) { e.visit_state(st); }); });
	e.finish();
	lex<8, 'z', 'y', 'x'> f{{p, m, n}};
	f.start();
	(traverser(A3{{n, m, p}}) ^ hoist<'z'>()).template for_sections<'x', 'z'>([&](auto in) {
		sz x = val(get_index<'x'>(in)), z = val(get_index<'z'>(in));
		ENS(Z(x) < Z(n) && Z(z) < Z(p));
	});
}
CONTRACT(fix_before, sz n, sz m, sz p, sz f) {
	REQ(Z(f) < Z(n));
	NZ2(m, p);
	lex<0, 'z', 'y'> e{{p, m}};
	e.start();
	(traverser(A3{{n, m, p}}) ^ fix<'x'>(f)).template for_dims<'z'>([&](auto in) {
		in.for_each([&](auto st) {
			ENS(Z(val(get_index<'x'>(st))) == Z(f));
			e.visit(get_index<'z'>(st), get_index<'y'>(st));
		});
	});
	e.finish();
}
// blocks: for_dims over the block dimension, then the elements of each block
CONTRACT(blocks_pd, sz k, sz b) {
	REQ(Z(b) > Z(0) && Z(k) * Z(b) < TWO64);
	CASE(0, Z(k) == Z(0));
	sz n = k * b;
	vg_set(0, 0);
	vg_set(1, 0);
	auto t = traverser(absn::abs_t<0, int, 'x'>{{n}}).order(into_blocks<'x', 'a', 'b'>(b));
	t.template for_dims<'a'>([&](auto in) {
		ENS(Z(vg_get(0)) == Z(vg_get(1)) * Z(b));
		in.for_each([&](auto st) {
			ENS(Z(val(get_index<'x'>(st))) == Z(vg_get(0)));
			ENS(Z(val(get_index<'x'>(st))) < Z(n));
			vg_set(0, vg_get(0) + 1);
		});
		vg_set(1, vg_get(1) + 1);
	});
	ENS(Z(vg_get(0)) == Z(n));
	ENS(Z(vg_get(1)) == Z(k));
}
// a tuple dimension: for_dims over it is static, inner traversers see the member's lengths
CONTRACT(tuple_dim, sz n, sz m) {
	NZ2(n, m);
	auto t = pack(scalar<int>() ^ vector<'x'>(n), scalar<double>() ^ vector<'x'>(m)) ^ tuple<'t'>();
	vg_set(0, 0);
	vg_set(1, 0);
	vg_set(2, 0);
	traverser(t).for_dims<'t'>([&](auto in) {
		constexpr sz mem = decltype(get_index<'t'>(in))::value;
		ENS(Z(vg_get(2)) == Z(mem));
		vg_set(2, vg_get(2) + 1);
		in.for_each([&](auto st) {
			ENS(Z(val(get_index<'x'>(st))) == Z(vg_get(mem)));
			vg_set(mem, vg_get(mem) + 1);
		});
	});
	ENS(Z(vg_get(0)) == Z(n) && Z(vg_get(1)) == Z(m) && Z(vg_get(2)) == Z(2));
}
