// C18 bags and get_at: the addressed element is at data + offset, for every policy
#include <cstddef>
#include <memory>
#include <vector>
using sz = std::size_t;
extern "C" {
__attribute__((nomerge)) sz vg_get(int slot) noexcept;
__attribute__((nomerge)) void vg_set(int slot, sz v) noexcept;
}
// contract of the allocating function: a block of the requested size (ghost 40) at an arbitrary address (ghost 42);
// ghost 41 counts the allocations
inline void *vc_allocate(sz n) {
	vg_set(40, n);
	vg_set(41, vg_get(41) + 1);
	return (void *)vg_get(42);
}
namespace std {
template<class T>
inline unique_ptr<T> vc_make_unique(sz n) {
	return unique_ptr<T>((remove_extent_t<T> *)vc_allocate(n));
}
} // namespace std
void *operator new[](sz n) { return vc_allocate(n); }
#define make_unique vc_make_unique
#define make_unique_for_overwrite vc_make_unique
#include <noarr/structures/interop/bag.hpp>
#undef make_unique
#undef make_unique_for_overwrite
#include "abs.hpp"
using namespace noarr;
using A = absn::abs_t<200, int, 'x', 'y', 'z'>;
using A1 = absn::abs_t<201, double, 'x'>;

// contract of the deallocating functions: the block at ghost 42 is released; ghost 43 counts that
inline void vc_release(void *p) {
	ENS(Z((sz)p) == Z(vg_get(42)));
	vg_set(43, vg_get(43) + 1);
}
void operator delete[](void *p) noexcept { vc_release(p); }
void operator delete[](void *p, sz) noexcept { vc_release(p); }

// a container for the general policy, known by its contract only: it is constructed with a size (ghost 40, counted by
// ghost 41) and its data are at ghost 42
template<class T>
struct rec {
	sz n_;
	explicit rec(sz n) : n_(n) {
		vg_set(40, n);
		vg_set(41, vg_get(41) + 1);
	}
	const T *data() const { return (const T *)vg_get(42); }
	T *data() { return (T *)vg_get(42); }
};

#define PARS sz n, sz m, sz p, sz i, sz j, sz k
#define PRE REQ(Z(i) < Z(n) && Z(j) < Z(m) && Z(k) < Z(p))
#define PTR const char *base
template<class T>
inline Z ad(T &r) {
	return Z((sz)&r);
}
#define AT(base) Z((sz)base + abs_off(200, sizeof(int), n, m, p, i, j, k))
#define SIZE Z(abs_size(200, sizeof(int), n, m, p))

CONTRACT(raw, PARS, char *base) {
	PRE;
	A a{{n, m, p}};
	auto b = make_bag(a, base);
	ENS(ad(b[idx<'x', 'y', 'z'>(i, j, k)]) == AT(base));
	ENS(ad(b[idx<'z', 'x', 'y'>(k, i, j)]) == AT(base));
	ENS(ad(b.at<'x', 'y', 'z'>(i, j, k)) == AT(base));
	ENS(ad(b.at<'y', 'z', 'x'>(j, k, i)) == AT(base));
	ENS(ad(b | get_at<'y', 'z', 'x'>(b.data(), j, k, i)) == AT(base));
	ENS_TYPE(std::is_same_v<decltype(b[idx<'x', 'y', 'z'>(i, j, k)]), int &>);
	ENS_TYPE(std::is_same_v<decltype(b.at<'x', 'y', 'z'>(i, j, k)), int &>);
	ENS(Z((sz)b.data()) == Z((sz)base));
	ENS(Z(b.offset<'x', 'y', 'z'>(i, j, k)) == Z(abs_off(200, sizeof(int), n, m, p, i, j, k)));
	ENS(Z(b.length<'x'>()) == Z(n) && Z(b.length<'y'>()) == Z(m) && Z(b.length<'z'>()) == Z(p));
	ENS(Z(b.length<'y'>(idx<'x'>(i))) == Z(m));
	ENS(Z(b.size()) == SIZE && Z(b | get_size()) == SIZE);
	ENS(Z(b | get_length<'x'>()) == Z(n) && Z(b | get_length<'z'>(idx<'y'>(j))) == Z(p));
	ENS(Z(b | offset<'y', 'x', 'z'>(j, i, k)) == Z(abs_off(200, sizeof(int), n, m, p, i, j, k)));
	ENS(Z(b.structure().len_[0]) == Z(n) && Z(b.structure().len_[2]) == Z(p));
	ENS_TYPE(b.has_size() && b.has_length<'x'>() && !b.has_length<'w'>() && !b.has_length<'x', decltype(idx<'x'>(0))>());
	// traversers address the same elements
	traverser(b).order(fix<'x', 'y', 'z'>(i, j, k)).for_each([&](auto st) { ENS(ad(b[st]) == AT(base)); });
	ENS(ad(b[traverser(b) ^ fix<'x', 'y', 'z'>(i, j, k)]) == AT(base));
}
CONTRACT(raw_copy, PARS, char *base, char *other) {
	PRE;
	A a{{n, m, p}};
	auto b = make_bag(a, base);
	auto c = b;
	ENS(ad(c.at<'x', 'y', 'z'>(i, j, k)) == AT(base) && Z(c.size()) == SIZE);
	auto d = std::move(c);
	ENS(ad(d.at<'x', 'y', 'z'>(i, j, k)) == AT(base) && Z(d.length<'x'>()) == Z(n));
	ENS(ad(c.at<'x', 'y', 'z'>(i, j, k)) == AT(base));
	auto e = make_bag(A{{p, n, m}}, other);
	b = d;
	ENS(ad(b.at<'x', 'y', 'z'>(i, j, k)) == AT(base));
	e = b;
	ENS(ad(e.at<'x', 'y', 'z'>(i, j, k)) == AT(base) && Z(e.length<'z'>()) == Z(p));
	auto f = make_bag(a, other);
	f = std::move(e);
	ENS(ad(f.at<'x', 'y', 'z'>(i, j, k)) == AT(base) && Z(f.length<'y'>()) == Z(m));
	auto r = f.get_ref();
	ENS(ad(r.at<'x', 'y', 'z'>(i, j, k)) == AT(base) && Z((sz)r.data()) == Z((sz)base) && Z(r.size()) == SIZE);
	ENS_TYPE(std::is_same_v<decltype(r), raw_bag<A>>);
	auto g = bag(a, (void *)base);
	ENS(ad(g.at<'x', 'y', 'z'>(i, j, k)) == AT(base));
}
CONTRACT(raw_const, PARS, const char *base) {
	PRE;
	A a{{n, m, p}};
	auto b = make_bag(a, base);
	ENS(ad(b[idx<'x', 'y', 'z'>(i, j, k)]) == AT(base));
	ENS(ad(b.at<'z', 'y', 'x'>(k, j, i)) == AT(base));
	ENS_TYPE(std::is_same_v<decltype(b[idx<'x', 'y', 'z'>(i, j, k)]), const int &>);
	ENS_TYPE(std::is_same_v<decltype(b.at<'x', 'y', 'z'>(i, j, k)), const int &>);
	ENS(Z((sz)b.data()) == Z((sz)base) && Z(b.size()) == SIZE && Z(b.length<'y'>()) == Z(m));
	auto r = b.get_ref();
	ENS(ad(r.at<'x', 'y', 'z'>(i, j, k)) == AT(base));
	ENS_TYPE(std::is_same_v<decltype(r), const_raw_bag<A>>);
	auto c = bag(a, (const void *)base);
	ENS(ad(c.at<'x', 'y', 'z'>(i, j, k)) == AT(base));
	const auto d = make_bag(a, const_cast<char *>(base));
	ENS(ad(d.at<'x', 'y', 'z'>(i, j, k)) == AT(base));
	auto q = b ^ fix<'x'>(i);
	ENS(ad(q.at<'y', 'z'>(j, k)) == AT(base));
	ENS_TYPE(std::is_same_v<decltype(q.at<'y', 'z'>(j, k)), const int &>);
}
CONTRACT(getat, PARS, char *base) {
	PRE;
	A a{{n, m, p}};
	auto st = idx<'x', 'y', 'z'>(i, j, k);
	const char *cb = base;
	volatile char *vb = base;
	const volatile char *cvb = base;
	void *pv = base;
	const void *cpv = base;
	ENS(ad(a | get_at(base, st)) == AT(base) && ad(a | get_at<'x', 'y', 'z'>(base, i, j, k)) == AT(base));
	ENS(ad(a | get_at(cb, st)) == AT(base) && ad(a | get_at<'z', 'y', 'x'>(cb, k, j, i)) == AT(base));
	ENS(Z((sz)&(a | get_at(vb, st))) == AT(base) && Z((sz)&(a | get_at(cvb, st))) == AT(base));
	ENS(ad(a | get_at(pv, st)) == AT(base) && ad(a | get_at(cpv, st)) == AT(base));
	ENS_TYPE(std::is_same_v<decltype(a | get_at(base, st)), int &>);
	ENS_TYPE(std::is_same_v<decltype(a | get_at(cb, st)), const int &>);
	ENS_TYPE(std::is_same_v<decltype(a | get_at(vb, st)), volatile int &>);
	ENS_TYPE(std::is_same_v<decltype(a | get_at(cvb, st)), const volatile int &>);
	ENS_TYPE(std::is_same_v<decltype(a | get_at(cpv, st)), const int &>);
}
CONTRACT(unique, PARS, char *base) {
	PRE;
	vg_set(41, 0);
	vg_set(42, (sz)base);
	vg_set(43, 0);
	REQ(base != nullptr);
	A a{{n, m, p}};
	{
		auto b = make_bag(a);
		ENS(Z(vg_get(40)) == SIZE && Z(vg_get(41)) == Z(1));  // exactly the structure's size is allocated
		ENS(ad(b[idx<'x', 'y', 'z'>(i, j, k)]) == AT(base));
		ENS(ad(b.at<'z', 'x', 'y'>(k, i, j)) == AT(base));
		ENS_TYPE(std::is_same_v<decltype(b.at<'x', 'y', 'z'>(i, j, k)), int &>);
		ENS(Z((sz)b.data()) == Z((sz)base) && Z(b.size()) == SIZE && Z(b.length<'z'>()) == Z(p));
		auto r = b.get_ref();
		ENS(ad(r.at<'x', 'y', 'z'>(i, j, k)) == AT(base));
		ENS_TYPE(std::is_same_v<decltype(r), raw_bag<A>>);
		ENS(ad(b.at<'x', 'y', 'z'>(i, j, k)) == AT(base));  // the owner stays valid
		ENS_TYPE(!std::is_copy_constructible_v<decltype(b)> && !std::is_copy_assignable_v<decltype(b)>);
		ENS(Z(vg_get(43)) == Z(0));
	}
	ENS(Z(vg_get(43)) == Z(1) && Z(vg_get(41)) == Z(1));  // released exactly once
}
CONTRACT(unique_move, PARS, char *base) {
	PRE;
	vg_set(41, 0);
	vg_set(42, (sz)base);
	vg_set(43, 0);
	REQ(base != nullptr);
	A a{{n, m, p}};
	{
		auto b = make_unique_bag(a);
		auto c = std::move(b);
		ENS(ad(c.at<'x', 'y', 'z'>(i, j, k)) == AT(base) && Z(c.size()) == SIZE);
		ENS(Z((sz)b.data()) == Z(0));  // moving clears the original
		auto d = std::move(c) ^ fix<'y'>(j);
		ENS(ad(d.at<'x', 'z'>(i, k)) == AT(base) && Z(d.length<'z'>()) == Z(p));
		ENS(Z((sz)c.data()) == Z(0));
		auto e = std::move(d) ^ rename<'x', 'u'>() ^ fix<'z'>(k);
		ENS(ad(e.at<'u'>(i)) == AT(base) && Z((sz)d.data()) == Z(0));
		ENS(Z(vg_get(43)) == Z(0) && Z(vg_get(41)) == Z(1));
	}
	ENS(Z(vg_get(43)) == Z(1) && Z(vg_get(41)) == Z(1));
}
CONTRACT(unique_given, PARS, char *base) {
	PRE;
	vg_set(41, 0);
	vg_set(42, (sz)base);
	vg_set(43, 0);
	REQ(base != nullptr);
	A a{{n, m, p}};
	{
		std::unique_ptr<char[]> u(base);
		auto b = bag(a, std::move(u));
		ENS(ad(b.at<'x', 'y', 'z'>(i, j, k)) == AT(base) && Z(vg_get(41)) == Z(0));
		ENS(Z((sz)u.get()) == Z(0));
	}
	ENS(Z(vg_get(43)) == Z(1));
	{
		auto b = bag(a);
		ENS(Z(vg_get(40)) == SIZE && Z(vg_get(41)) == Z(1) && ad(b.at<'x', 'y', 'z'>(i, j, k)) == AT(base));
	}
	ENS(Z(vg_get(43)) == Z(2));
}
CONTRACT(container, PARS, char *base) {
	PRE;
	vg_set(41, 0);
	vg_set(42, (sz)base);
	A a{{n, m, p}};
	bag_t<A, helpers::bag_policy<rec>> b(a);
	ENS(Z(vg_get(40)) == SIZE && Z(vg_get(41)) == Z(1));
	ENS(ad(b[idx<'x', 'y', 'z'>(i, j, k)]) == AT(base));
	ENS(ad(b.at<'z', 'x', 'y'>(k, i, j)) == AT(base));
	ENS(Z((sz)b.data()) == Z((sz)base) && Z(b.size()) == SIZE && Z(b.length<'x'>()) == Z(n));
	ENS(ad(b.get_ref().at<'x', 'y', 'z'>(i, j, k)) == AT(base));
	bag_t<A, helpers::bag_policy<rec>> c(a, helpers::bag_policy<rec>{});
	ENS(Z(vg_get(40)) == SIZE && Z(vg_get(41)) == Z(2) && ad(c.at<'z', 'x', 'y'>(k, i, j)) == AT(base));
	bag_t<A, helpers::bag_policy<rec>> d(a, rec<char>(7));
	ENS(Z(vg_get(41)) == Z(3) && ad(d.at<'z', 'x', 'y'>(k, i, j)) == AT(base));
}
// a transformed bag keeps the data
CONTRACT(transformed, PARS, char *base) {
	PRE;
	A a{{n, m, p}};
	auto b = make_bag(a, base);
	auto f = b ^ fix<'y'>(j);
	ENS(ad(f.at<'x', 'z'>(i, k)) == AT(base) && Z((sz)f.data()) == Z((sz)base) && Z(f.length<'x'>()) == Z(n));
	auto g = std::move(f) ^ rename<'x', 'u'>();
	ENS(ad(g.at<'u', 'z'>(i, k)) == AT(base) && Z((sz)g.data()) == Z((sz)base) && Z(g.length<'u'>()) == Z(n));
	auto h = b ^ hoist<'z'>();
	ENS(ad(h.at<'x', 'y', 'z'>(i, j, k)) == AT(base) && Z(h.size()) == SIZE);
	// the original is unaffected
	ENS(ad(b.at<'x', 'y', 'z'>(i, j, k)) == AT(base));
}
CONTRACT(transformed_span, PARS, sz s, sz e, char *base) {
	PRE;
	REQ(Z(s) <= Z(i) && Z(i) < Z(e) && Z(e) <= Z(n));
	A a{{n, m, p}};
	auto b = make_bag(a, base) ^ span<'x'>(s, e);
	ENS(Z(b.length<'x'>()) == Z(e) - Z(s) && ad(b.at<'x', 'y', 'z'>(i - s, j, k)) == AT(base));
	auto c = make_bag(a, (const void *)base) ^ shift<'x'>(s) ^ fix<'z'>(k);
	ENS(Z(c.length<'x'>()) == Z(n) - Z(s) && ad(c.at<'x', 'y'>(i - s, j)) == AT(base));
}
CONTRACT(transformed_blocks, sz q, sz m, sz p, sz i, sz r, sz j, sz k, char *base) {
	REQ(Z(i) < Z(q) && Z(r) < Z(8) && Z(j) < Z(m) && Z(k) < Z(p) && Z(q) * Z(8) < TWO64);
	A a{{q * 8, m, p}};
	auto b = make_bag(a, base) ^ into_blocks<'x', 'X'>(8);
	ENS(Z(b.length<'x'>()) == Z(8) && Z(b.length<'X'>()) == Z(q));
	ENS(ad(b.at<'X', 'x', 'y', 'z'>(i, r, j, k)) == Z((sz)base + abs_off(200, 4, q * 8, m, p, i * 8 + r, j, k)));
}
CONTRACT(literals, sz n, sz m, sz p, sz i, char *base) {
	REQ(Z(i) < Z(n) && Z(3) < Z(m) && Z(5) < Z(p));
	sz j = 3, k = 5;
	A a{{n, m, p}};
	auto b = make_bag(a, base);
	ENS(ad(b[idx<'x', 'y', 'z'>(i, lit<3>, lit<5>)]) == AT(base));
	ENS(ad(b.at<'z', 'y', 'x'>(lit<5>, lit<3>, i)) == AT(base));
	ENS(ad((b ^ fix<'z'>(lit<5>)).at<'y', 'x'>(lit<3>, i)) == AT(base));
}
// real layouts: element types follow the structure
CONTRACT(tuples, sz n, sz i, char *base) {
	REQ(Z(i) < Z(n) && Z(n) < Z(1000));
	auto t = pack(scalar<int>() ^ vector<'x'>(n), scalar<double>() ^ vector<'x'>(n)) ^ tuple<'t'>();
	auto b = make_bag(t, base);
	ENS_TYPE(std::is_same_v<decltype(b[idx<'t', 'x'>(lit<0>, i)]), int &>);
	ENS_TYPE(std::is_same_v<decltype(b[idx<'t', 'x'>(lit<1>, i)]), double &>);
	ENS(ad(b[idx<'t', 'x'>(lit<0>, i)]) == Z((sz)base + val(t | offset<'t', 'x'>(lit<0>, i))));
	ENS(ad(b.at<'x', 't'>(i, lit<1>)) == Z((sz)base + val(t | offset<'t', 'x'>(lit<1>, i))));
	auto s = scalar<float>();
	auto c = make_bag(s, base);
	ENS(ad(c.at()) == Z((sz)base) && ad(c[empty_state]) == Z((sz)base) && Z(c.size()) == Z(4));
}
// a length that is only given in the state
CONTRACT(unsized, PARS, char *base) {
	PRE;
	absn::absu_t<202, int, 'x'> u{0};
	auto b = make_bag(u, base);
	auto st = idx<'x'>(i).with<length_in<'x'>>(n);
	ENS(ad(b[st]) == Z((sz)base + abs_off(202, 4, n, 1, 1, i, 0, 0)));
	ENS(Z(b.length<'x'>(empty_state.with<length_in<'x'>>(n))) == Z(n));
	ENS(Z(b.size(empty_state.with<length_in<'x'>>(n))) == Z(abs_size(202, 4, n, 1, 1)));
	ENS_TYPE(!b.has_size() && !b.has_length<'x'>());
}
CONTRACT(nullbag, PARS) {
	PRE;
	A a{{n, m, p}};
	auto b = make_bag(a, nullptr);
	ENS(Z(b.size()) == SIZE && Z(b.length<'y'>()) == Z(m) && as_b(b.data() == nullptr));
	ENS(Z(b.offset<'x', 'y', 'z'>(i, j, k)) == Z(abs_off(200, 4, n, m, p, i, j, k)));
	auto c = bag(a, nullptr);
	ENS(Z(c.size()) == SIZE && as_b(c.data() == nullptr));
}
// ---- over every structure of the library
#include "every.hpp"
namespace every {
template<auto... D>
struct bagged {
	template<class S, class St>
	static void go(S s, St st, sz q, sz a, sz b) {
		char *base = (char *)a;
		auto g = make_bag(s, base);
		ENS(ad(g[st]) == Z((sz)(base + (s | offset(st)))));
		ENS(ad(g.template at<D...>(sz(get_index<D>(st))...)) == Z((sz)(base + (s | offset(st)))));
		ENS(ad(s | get_at(base, st)) == Z((sz)(base + (s | offset(st)))));
		ENS_TYPE(std::is_same_v<decltype(g[st]), scalar_t<S, St> &>);
		ENS(Z(g.size()) == Z(val(s | get_size())));
		ENS(ad(g[traverser(g) ^ fix(st)]) == Z((sz)(base + (s | offset(st)))));
	}
};
} // namespace every
#define EVERY_CHECK bagged
#include "every.inc"
