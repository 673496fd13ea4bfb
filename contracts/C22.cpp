// C22 CUDA: striped structures, steps over threads, and the mapping of kernel threads to indices
#include "trav.hpp"
// kernel built-ins: arbitrary values (ghosts 50..59)
typedef unsigned uint;
struct dim3 {
	uint x = 1, y = 1, z = 1;
};
#define __device__
#define __host__
#define threadIdx (dim3{(uint)vg_get(50), (uint)vg_get(51), (uint)vg_get(52)})
#define blockIdx (dim3{(uint)vg_get(53), (uint)vg_get(54), (uint)vg_get(55)})
#define blockDim (dim3{(uint)vg_get(60), 1, 1})
#include <noarr/structures/interop/cuda_step.cuh>
#include <noarr/structures/interop/cuda_striped.cuh>
#include <noarr/structures/interop/cuda_traverser.cuh>
using namespace noarr;

// ---------------------------------------------------------------- striped
#define S(v) cuda_stripe_idx(v)
// s striped, q elements of type E in the underlying structure (its offsets are multiples of sizeof(E))
template<class T>
inline Z byte(T s, sz stripe, sz i, sz j) {
	return Z(val(s | offset(idx<'x', 'y'>(i, j) & S(stripe))));
}
#define STRIPED(name, N, T, BC, BW, CONFLICT)                                                                                          \
	CONTRACT(striped_##name, sz n, sz m, sz a, sz i, sz j, sz b, sz k, sz l, sz t) {                                   \
		REQ(Z(n) * Z(m) * Z(sizeof(T)) < TWO64);                                                                       \
		REQ(Z(i) < Z(n) && Z(j) < Z(m) && Z(k) < Z(n) && Z(l) < Z(m) && Z(a) < Z(N) && Z(b) < Z(N));                     \
		auto in = scalar<T>() ^ vector<'y'>(m) ^ vector<'x'>(n);                                                       \
		auto s = in ^ cuda_striped<N, scalar<T>, BC, BW>();                                                            \
		REQ(fits<N, T, BC, BW>(n, m));                                                                                 \
		ENS(zlen<'x'>(s) == Z(n) && zlen<'y'>(s) == Z(m));                                                             \
		check<N, T, BC, BW, CONFLICT>(s, n, m, a, i, j, b, k, l, t);                                                   \
	}
// the copies fit into the address space
template<sz N, class T, sz BC, sz BW>
inline B fits(sz n, sz m) {
	return Z(n) * Z(m) * Z(N * sizeof(T) + BC * BW + 64) * Z(8) < TWO64;
}
template<sz N, class T, sz BC, sz BW, bool conflict, class St>
inline void check(St s, sz n, sz m, sz a, sz i, sz j, sz b, sz k, sz l, sz t) {
	Z e(sizeof(T));
	Z o = byte(s, a, i, j), p = byte(s, b, k, l), size = Z(val(s | get_size()));
	ENS(o + e <= size);
	// the stripe is a property of the thread
	vg_set(50, t);
	Z d = Z(val(s | offset<'x', 'y'>(i, j)));
	ENS(d == byte(s, (uint)t % N, i, j));
	// banks
	if constexpr (!conflict) {
		Z bank = (o / Z(BW)) % Z(BC), last = ((o + e - Z(1)) / Z(BW)) % Z(BC);
		ENS(Z(a) * Z(BC / N) <= bank && bank < (Z(a) + Z(1)) * Z(BC / N));
		ENS(Z(a) * Z(BC / N) <= last && last < (Z(a) + Z(1)) * Z(BC / N));
	}
	// copies are separate
	REQ(!(Z(a) == Z(b) && Z(i) == Z(k) && Z(j) == Z(l)));
	ENS(o + e <= p || p + e <= o);
}
STRIPED(int_4, 4, int, 32, 4, false)
STRIPED(int_32, 32, int, 32, 4, false)
STRIPED(int_1, 1, int, 32, 4, false)
STRIPED(int_2, 2, int, 32, 4, false)
STRIPED(int_3, 3, int, 32, 4, false)
STRIPED(int_5, 5, int, 32, 4, false)
STRIPED(int_8, 8, int, 32, 4, false)
STRIPED(int_16, 16, int, 32, 4, false)
STRIPED(double_4, 4, double, 32, 4, false)
STRIPED(double_16, 16, double, 32, 4, false)
STRIPED(double_32, 32, double, 32, 4, true)
STRIPED(char_32, 32, char, 32, 4, false)
STRIPED(char_4, 4, char, 32, 4, false)
STRIPED(short_8, 8, short, 32, 4, false)
struct s12 {
	int a, b, c;
};
STRIPED(s12_8, 8, s12, 32, 4, false)
STRIPED(s12_4, 4, s12, 32, 4, false)
STRIPED(s12_32, 32, s12, 32, 4, true)
STRIPED(banks64, 4, int, 16, 8, false)
STRIPED(banks24, 5, double, 24, 8, false)

// the element type need not be a scalar: here a stripe holds whole rows of three
CONTRACT(striped_rows, sz n, sz a, sz i, sz j, sz b, sz k, sz l) {
	REQ(Z(i) < Z(n) && Z(j) < Z(3) && Z(k) < Z(n) && Z(l) < Z(3) && Z(a) < Z(4) && Z(b) < Z(4));
	REQ(Z(n) * Z(1024) < TWO64);
	using row = decltype(scalar<int>() ^ array<'y', 3>());
	auto s = row() ^ vector<'x'>(n) ^ cuda_striped<4, row>();
	Z o = byte(s, a, i, j), p = byte(s, b, k, l);
	ENS(o + Z(4) <= Z(val(s | get_size())));
	ENS(zlen<'x'>(s) == Z(n) && zlen<'y'>(s) == Z(3));
	ENS(byte(s, a, i, j) == byte(s, a, i, 0) + Z(j) * Z(4));
	REQ(!(Z(a) == Z(b) && Z(i) == Z(k) && Z(j) == Z(l)));
	ENS(o + Z(4) <= p || p + Z(4) <= o);
}
// element type implied, length set afterwards, views on top
CONTRACT(striped_views, sz n, sz st, sz a, sz i, sz b, sz k) {
	REQ(Z(st) + Z(i) < Z(n) && Z(st) + Z(k) < Z(n) && Z(a) < Z(8) && Z(b) < Z(8));
	REQ(Z(n) * Z(1024) < TWO64);
	auto s = scalar<float>() ^ vector<'x'>() ^ cuda_striped<8>() ^ set_length<'x'>(n);
	auto v = s ^ shift<'x'>(st);
	ENS(zlen<'x'>(s) == Z(n) && zlen<'x'>(v) == Z(n) - Z(st));
	Z o = Z(val(v | offset(idx<'x'>(i) & S(a)))), p = Z(val(v | offset(idx<'x'>(k) & S(b))));
	ENS(o == Z(val(s | offset(idx<'x'>(st + i) & S(a)))));
	ENS(o + Z(4) <= Z(val(s | get_size())) && Z(val(v | get_size())) == Z(val(s | get_size())));
	REQ(!(Z(a) == Z(b) && Z(i) == Z(k)));
	ENS(o + Z(4) <= p || p + Z(4) <= o);
}
// literal stripe indices
CONTRACT(striped_lit, sz n, sz i) {
	REQ(Z(i) < Z(n) && Z(n) * Z(1024) < TWO64);
	auto s = scalar<int>() ^ vector<'x'>(n) ^ cuda_striped<4>();
	ENS(Z(val(s | offset(idx<'x'>(i) & S(lit<3>)))) == Z(val(s | offset(idx<'x'>(i) & S(sz(3))))));
	ENS(Z(val(s | offset(idx<'x'>(lit<0>) & S(lit<1>)))) + Z(4) <= Z(val(s | get_size())));
}
// lengths known at compile time
CONTRACT(striped_static, sz a, sz i, sz b, sz k) {
	REQ(Z(i) < Z(13) && Z(k) < Z(13) && Z(a) < Z(5) && Z(b) < Z(5));
	auto s = scalar<short>() ^ array<'x', 13>() ^ cuda_striped<5>();
	auto r = scalar<short>() ^ vector<'x'>(sz(13)) ^ cuda_striped<5>();
	ENS(zsz(s) == zsz(r) && zlen<'x'>(s) == Z(13));
	Z o = Z(val(s | offset(idx<'x'>(i) & S(a)))), p = Z(val(s | offset(idx<'x'>(k) & S(b))));
	ENS(o == Z(val(r | offset(idx<'x'>(i) & S(a)))));
	ENS(Z(val(s | offset(idx<'x'>(lit<9>) & S(a)))) == Z(val(s | offset(idx<'x'>(9) & S(a)))));
	ENS(o + Z(2) <= zsz(s));
	REQ(!(Z(a) == Z(b) && Z(i) == Z(k)));
	ENS(o + Z(2) <= p || p + Z(2) <= o);
}
// several striped structures side by side
CONTRACT(striped_tuple, sz n, sz m, sz a, sz i, sz b, sz k) {
	REQ(Z(i) < Z(n) && Z(k) < Z(m) && Z(a) < Z(8) && Z(b) < Z(4) && Z(n) * Z(1024) < TWO64 && Z(m) * Z(1024) < TWO64 && (Z(n) + Z(m)) * Z(1024) < TWO64);
	auto x = scalar<char>() ^ vector<'x'>(n) ^ cuda_striped<8>();
	auto y = scalar<double>() ^ vector<'y'>(m) ^ cuda_striped<4>();
	auto t = pack(x, y) ^ tuple<'t'>();
	ENS(zsz(t) == zsz(x) + zsz(y));
	Z o = Z(val(t | offset(idx<'t', 'x'>(lit<0>, i) & S(a)))), p = Z(val(t | offset(idx<'t', 'y'>(lit<1>, k) & S(b))));
	ENS(o + Z(1) <= zsz(x) && zsz(x) <= p && p + Z(8) <= zsz(t));
}
// threads of a stripe: ranks 0..count-1, each taken by exactly one thread of the block
template<sz N>
inline void group(sz dim, sz t, sz r) {
	vg_set(50, t);
	vg_set(60, dim);
	using ST = cuda_striped_t<N, scalar<int>, 32, 4, vector_t<'x', scalar<int>>>;
	auto g = ST::current_stripe_cg();
	ENS(Z(ST::current_stripe_index()) == Z(t) % Z(N) && Z(ST::num_stripes()) == Z(N));
	Z rank(val(g.thread_rank())), count(val(g.num_threads()));
	ENS(rank < count && rank == Z(t) / Z(N));
	// thread r*N + stripe is the one of rank r
	Z u = Z(r) * Z(N) + Z(t) % Z(N);
	ENS((Z(r) < count).implies(u < Z(dim)) && (u < Z(dim)).implies(Z(r) < count));
}
CONTRACT(group_4, sz dim, sz t, sz r) {
	REQ(Z(t) < Z(dim) && Z(dim) <= Z(1 << 20));
	group<4>(dim, t, r);
}
CONTRACT(group_7, sz dim, sz t, sz r) {
	REQ(Z(t) < Z(dim) && Z(dim) <= Z(1 << 20));
	group<7>(dim, t, r);
}
CONTRACT(group_32, sz dim, sz t, sz r) {
	REQ(Z(t) < Z(dim) && Z(dim) <= Z(1 << 20));
	group<32>(dim, t, r);
}

// ---------------------------------------------------------------- steps
using A2 = absn::abs_t<1, int, 'x', 'y'>;
using A200 = absn::abs_t<200, int, 'x', 'y'>;
// thread t of T: element k of its part is the original element t + k*T, and the part is as long as possible
template<class Str>
inline void stepped(Str s, sz n, sz m, sz t, sz T, sz k, sz j) {
	ENS(zlen<'y'>(s) == Z(m));
	Z len = zlen<'x'>(s);
	ENS((Z(k) < len).implies(Z(t) + Z(k) * Z(T) < Z(n)) && (Z(t) + Z(k) * Z(T) < Z(n)).implies(Z(k) < len));
	REQ(Z(k) < len && Z(j) < Z(m));
	ENS(zof<'x', 'y'>(s, k, j) == Z(abs_off(200, sizeof(int), n, m, 1, t + k * T, j, 0)));
}
struct group_t {
	sz t, T;
	sz thread_rank() const { return t; }
	sz num_threads() const { return T; }
};
#define STEPARGS sz n, sz m, sz t, sz T, sz k, sz j
#define STEPPRE REQ(Z(t) < Z(T) && Z(n) + Z(T) < TWO64)
CONTRACT(step_group, STEPARGS) {
	STEPPRE;
	stepped(A200{{n, m}} ^ cuda_step<'x'>(group_t{t, T}), n, m, t, T, k, j);
}
CONTRACT(step_group_auto, STEPARGS) {
	STEPPRE;
	stepped(A200{{n, m}} ^ cuda_step(group_t{t, T}), n, m, t, T, k, j);
}
CONTRACT(step_block, STEPARGS) {
	STEPPRE;
	REQ(Z(T) < Z(1L << 32));
	vg_set(56, t);
	vg_set(57, T);
	stepped(A200{{n, m}} ^ cuda_step_block<'x'>(), n, m, t, T, k, j);
}
CONTRACT(step_block_auto, STEPARGS) {
	STEPPRE;
	REQ(Z(T) < Z(1L << 32));
	vg_set(56, t);
	vg_set(57, T);
	stepped(A200{{n, m}} ^ cuda_step_block(), n, m, t, T, k, j);
}
CONTRACT(step_grid, STEPARGS) {
	STEPPRE;
	vg_set(58, t);
	vg_set(59, T);
	stepped(A200{{n, m}} ^ cuda_step_grid<'x'>(), n, m, t, T, k, j);
}
CONTRACT(step_grid_auto, STEPARGS) {
	STEPPRE;
	vg_set(58, t);
	vg_set(59, T);
	stepped(A200{{n, m}} ^ cuda_step_grid(), n, m, t, T, k, j);
}
CONTRACT(step_stripe_group, sz n, sz t, sz T, sz k) {
	REQ(Z(t) < Z(T) && Z(n) + Z(T) < TWO64);
	auto s = A200{{n, 1}} ^ cuda_step<'x'>(helpers::simple_cg_t{t, T});
	stepped(s, n, 1, t, T, k, 0);
}
// every element belongs to exactly one thread
CONTRACT(step_partition, sz n, sz T, sz o, sz t, sz k) {
	REQ(Z(o) < Z(n) && Z(T) > Z(0) && Z(n) + Z(T) < TWO64 && Z(t) < Z(T));
	auto mine = A200{{n, 1}} ^ cuda_step<'x'>(group_t{o % T, T});
	REQ(Z(o) == Z(o / T) * Z(T) + Z(o % T));
	ENS(Z(o / T) < zlen<'x'>(mine));
	ENS(zof<'x', 'y'>(mine, o / T, 0) == Z(abs_off(200, sizeof(int), n, 1, 1, o, 0, 0)));
}
// ---------------------------------------------------------------- kernel threads
using A4 = absn::abs_t<202, int, 'x', 'y', 'z'>;
#define UINT(v) REQ(Z(v) < Z(1L << 32))
// one dimension over blocks and one over threads: the rest is traversed by each thread
CONTRACT(threads_1, sz n, sz m, sz p, sz b, sz t) {
	REQ(Z(b) < Z(n) && Z(t) < Z(m));
	UINT(n);
	UINT(m);
	auto ct = cuda_threads<'x', 'y'>(traverser(A4{{n, m, p}}));
	ENS(Z(ct.grid_dim().x) == Z(n) && Z(ct.block_dim().x) == Z(m) && Z(ct.grid_dim().y) == Z(1) && Z(ct.block_dim().y) == Z(1));
	ENS(as_b((bool)ct));
	vg_set(53, b);
	vg_set(50, t);
	lex<0, 'z'> L{{p}};
	L.start();
	ct.inner().for_each([=](auto st) {
		ENS(Z(get_index<'x'>(st)) == Z(b) && Z(get_index<'y'>(st)) == Z(t));
		L.visit(val(get_index<'z'>(st)));
		ENS(Z(val(A4{{n, m, p}} | offset(st))) == Z(abs_off(202, sizeof(int), n, m, p, b, t, get_index<'z'>(st))));
	});
	L.finish();
}
// the fixed indices as seen by queries of a structure
CONTRACT(fixed_view, sz n, sz m, sz p, sz b, sz t, sz k) {
	REQ(Z(b) < Z(n) && Z(t) < Z(m) && Z(k) < Z(p));
	UINT(n);
	UINT(m);
	UINT(p);
	auto s = A4{{n, m, p}} ^ helpers::cuda_fix_pair_proto<'x', 'y', helpers::cuda_block_x, helpers::cuda_thread_x>();
	auto u = A4{{n, m, p}} ^ helpers::cuda_fix_pair_proto<'z', 'x', helpers::cuda_block_z, helpers::cuda_thread_y>();
	vg_set(53, b);
	vg_set(50, t);
	vg_set(55, k);
	vg_set(51, b);
	ENS(zlen<'z'>(s) == Z(p) && zlen<'y'>(u) == Z(m) && zsz(s) == zsz(A4{{n, m, p}}));
	ENS(zof<'z'>(s, k) == Z(abs_off(202, sizeof(int), n, m, p, b, t, k)));
	ENS(zof<'y'>(u, t) == Z(abs_off(202, sizeof(int), n, m, p, b, t, k)));
	auto st = state_at<A4>(s, idx<'z'>(k));
	ENS(Z(get_index<'x'>(st)) == Z(b) && Z(get_index<'y'>(st)) == Z(t) && Z(get_index<'z'>(st)) == Z(k));
}
CONTRACT(threads_none, sz n, sz m, sz p) {
	UINT(n);
	UINT(m);
	auto ct = cuda_threads<'x', 'y'>(traverser(A4{{n, m, p}}));
	bool any = (bool)ct;
	ENS((as_b(any)).implies(Z(n) > Z(0) && Z(m) > Z(0)) && (Z(n) > Z(0) && Z(m) > Z(0)).implies(as_b(any)));
}
CONTRACT(threads_none_2, sz n, sz m, sz p, sz q) {
	UINT(n);
	UINT(m);
	UINT(p);
	UINT(q);
	CASE(0, Z(n) == Z(0));
	CASE(1, Z(m) == Z(0));
	CASE(2, Z(p) == Z(0));
	CASE(3, Z(q) == Z(0));
	auto ct = cuda_threads<'x', 'p', 'y', 'q'>(traverser(absn::abs_t<206, int, 'x', 'y'>{{n, m}}, absn::abs_t<207, int, 'p', 'q'>{{p, q}}));
	const B all = Z(n) > Z(0) && Z(m) > Z(0) && Z(p) > Z(0) && Z(q) > Z(0);
	const bool any = (bool)ct;
	ENS(as_b(any).implies(all) && all.implies(as_b(any)));
}
// tiles: blocks of blockDim threads
CONTRACT(threads_tiled, sz n, sz q, sz b, sz t) {
	REQ(Z(b) < Z(q) && Z(t) < Z(n) && Z(q) * Z(n) < TWO64);
	UINT(n);
	UINT(q);
	sz L = q * n;
	auto ct = cuda_threads<'b', 't'>(traverser(absn::abs_t<203, int, 'x'>{{L}}) ^ into_blocks<'x', 'b', 't'>(n));
	ENS(Z(ct.grid_dim().x) == Z(q) && Z(ct.block_dim().x) == Z(n));
	vg_set(53, b);
	vg_set(50, t);
	vg_set(0, 0);
	ct.inner().for_each([=](auto st) {
		ENS(Z(get_index<'x'>(st)) == Z(b) * Z(n) + Z(t));
		vg_set(0, vg_get(0) + 1);
	});
	ENS(Z(vg_get(0)) == Z(1));
}
CONTRACT(threads_2, sz n, sz m, sz q, sz r, sz bx, sz tx, sz by, sz ty) {
	REQ(Z(bx) < Z(q) && Z(tx) < Z(n) && Z(by) < Z(r) && Z(ty) < Z(m) && Z(q) * Z(n) < TWO64 && Z(r) * Z(m) < TWO64);
	UINT(n);
	UINT(q);
	UINT(m);
	UINT(r);
	auto ct = cuda_threads<'b', 't', 'c', 'u'>(traverser(absn::abs_t<204, int, 'x', 'y'>{{q * n, r * m}}) ^ into_blocks<'x', 'b', 't'>(n) ^ into_blocks<'y', 'c', 'u'>(m));
	ENS(Z(ct.grid_dim().x) == Z(q) && Z(ct.block_dim().x) == Z(n) && Z(ct.grid_dim().y) == Z(r) && Z(ct.block_dim().y) == Z(m) && Z(ct.grid_dim().z) == Z(1));
	vg_set(53, bx);
	vg_set(50, tx);
	vg_set(54, by);
	vg_set(51, ty);
	vg_set(0, 0);
	ct.inner().for_each([=](auto st) {
		ENS(Z(get_index<'x'>(st)) == Z(bx) * Z(n) + Z(tx) && Z(get_index<'y'>(st)) == Z(by) * Z(m) + Z(ty));
		vg_set(0, vg_get(0) + 1);
	});
	ENS(Z(vg_get(0)) == Z(1));
}
CONTRACT(threads_3, sz n, sz m, sz p, sz a, sz b, sz c, sz d, sz e, sz f, sz u) {
	REQ(Z(a) < Z(n) && Z(b) < Z(m) && Z(c) < Z(p) && Z(d) < Z(n) && Z(e) < Z(m) && Z(f) < Z(p));
	UINT(n);
	UINT(m);
	UINT(p);
	auto ct = cuda_threads<'x', 'p', 'y', 'q', 'z', 'r'>(traverser(A4{{n, m, p}}, absn::abs_t<205, int, 'p', 'q', 'r'>{{n, m, p}}));
	ENS(Z(ct.grid_dim().x) == Z(n) && Z(ct.grid_dim().y) == Z(m) && Z(ct.grid_dim().z) == Z(p));
	ENS(Z(ct.block_dim().x) == Z(n) && Z(ct.block_dim().y) == Z(m) && Z(ct.block_dim().z) == Z(p));
	vg_set(53, a);
	vg_set(54, b);
	vg_set(55, c);
	vg_set(50, d);
	vg_set(51, e);
	vg_set(52, f);
	vg_set(0, 0);
	ct.inner().for_each([=](auto st) {
		ENS(Z(get_index<'x'>(st)) == Z(a) && Z(get_index<'y'>(st)) == Z(b) && Z(get_index<'z'>(st)) == Z(c));
		ENS(Z(get_index<'p'>(st)) == Z(d) && Z(get_index<'q'>(st)) == Z(e) && Z(get_index<'r'>(st)) == Z(f));
		vg_set(0, vg_get(0) + 1);
	});
	ENS(Z(vg_get(0)) == Z(1));
}
