// Ghost bookkeeping for traversals: the next expected index tuple in lexicographic order.
#pragma once
#include "abs.hpp"
#include <array>

// Expected sequence: all tuples below the given lengths, in lexicographic order (first dimension slowest).
// Ghosts [G, G+K) hold the next expected tuple; ghost G reaches lengths[0] when everything has been visited.
template<int G, auto... D>
struct lex {
	static constexpr sz K = sizeof...(D);
	sz L[K];
	void start() const {
		bool empty = false;
		for (sz k = 1; k < K; ++k)
			empty = empty || L[k] == 0;
		vg_set(G, empty ? L[0] : 0);
		for (sz k = 1; k < K; ++k)
			vg_set(G + int(k), 0);
	}
	template<int k>
	void step_from() const {
		if constexpr (k == 0)
			vg_set(G, vg_get(G) + 1);
		else {
			sz v = vg_get(G + k) + 1;
			if (v < L[k])
				vg_set(G + k, v);
			else {
				vg_set(G + k, 0);
				step_from<k - 1>();
			}
		}
	}
	template<class... I>
	void visit(I... i) const {
		static_assert(sizeof...(I) == K);
		int k = 0;
		(expect(k++, val(i)), ...);
		step_from<int(K) - 1>();
	}
	void expect(int k, sz i) const {
		ENS(Z(i) == Z(vg_get(G + k)));
		ENS(Z(i) < Z(L[k]));
	}
	// the state contains exactly the indices of these dimensions, and they are the next expected ones
	template<class St>
	void visit_state(St st) const {
		ENS_TYPE((... && noarr::state_contains<St, noarr::index_in<D>>));
		ENS_TYPE(decltype(st.template remove<noarr::index_in<D>...>())::is_empty);
		visit(noarr::get_index<D>(st)...);
	}
	void finish() const { ENS(Z(vg_get(G)) == Z(L[0])); }
};
#define NZ2(a, b) CASE(0, Z(a) == Z(0)); CASE(1, Z(b) == Z(0))
#define NZ3(a, b, c) NZ2(a, b); CASE(2, Z(c) == Z(0))
#define NZ4(a, b, c, d) NZ3(a, b, c); CASE(3, Z(d) == Z(0))
