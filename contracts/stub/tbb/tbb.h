// Assumed contract of oneTBB, used instead of its implementation when the TBB executors are verified.
#pragma once
#include <type_traits>
namespace tbb {
struct split {};

// parallel_for(range, body) applies body to every leaf of a binary tree of ranges that it builds with the splitting
// constructor from divisible ranges, exactly once per leaf.  The splitting constructor is under contract itself
// (C16: the two halves are non-empty, disjoint and cover the original), so the leaves partition the range, and it is
// enough to consider one arbitrary leaf: its bounds are taken from the ghosts 60 (begin) and 61 (end), which the
// contract leaves arbitrary.
template<class Range, class Body>
void parallel_for(const Range &range, const Body &body) {
	static_assert(std::is_constructible_v<Range, Range &, split>);
	static_assert(std::is_copy_constructible_v<Range>);
	vg_set(62, range.begin_idx);  // for the contract: the whole range
	vg_set(63, range.end_idx);
	vg_set(64, vg_get(64) + 1);  // number of parallel_for calls
	bool emp = range.empty();
	ENS(B(vb_id(emp)) .implies(Z(range.begin_idx) == Z(range.end_idx)) && (Z(range.begin_idx) == Z(range.end_idx)).implies(B(vb_id(emp))));
	Range leaf(range);
	leaf.begin_idx = vg_get(60);
	leaf.end_idx = vg_get(61);
	body(static_cast<const Range &>(leaf));
	if (vg_get(65) != 0) {  // and another leaf that the same thread happens to run
		Range leaf2(range);
		leaf2.begin_idx = vg_get(66);
		leaf2.end_idx = vg_get(67);
		body(static_cast<const Range &>(leaf2));
	}
}

// thread-private storage: local() gives this thread's object, created on its first use; combine_each visits every
// object created.  One arbitrary thread is considered.
template<class T>
class combinable {
	T obj;
	bool used = false;

public:
	T &local() {
		used = true;
		return obj;
	}
	template<class F>
	void combine_each(F f) {
		if (used)
			f(obj);
	}
};
} // namespace tbb
