// One obligation set per structure of structs.inc: EVERY_CHECK<dimensions...>::go(structure, state with a valid index
// for every dimension, q, a, b) with q, a, b arbitrary; q selects the dimension a check is about.
namespace every {
template<template<auto...> class Check, auto... D>
struct run_ {
	template<class S, class... I>
	static void go(S s, sz q, sz a, sz b, I... i) {
		auto st = idx<D...>(i...);
		(vc_requires((Z(i) < Z(val(s | get_length<D>(st.template remove<index_in<D>>())))).b), ...);
		Check<D...>::go(s, st, q, a, b);
	}
	template<class S>
	static void run(S s, sz q, sz a, sz b, sz i0, sz i1, sz i2, sz i3) {
		if constexpr (sizeof...(D) == 1)
			go(s, q, a, b, i0);
		else if constexpr (sizeof...(D) == 2)
			go(s, q, a, b, i0, i1);
		else if constexpr (sizeof...(D) == 3)
			go(s, q, a, b, i0, i1, i2);
		else
			go(s, q, a, b, i0, i1, i2, i3);
	}
};
#ifndef UNP
#define UNP(...) __VA_ARGS__
#endif
#define STRUCT(name, pars, pre, expr, ...)                                                                             \
	CONTRACT(every_##name, UNP pars, sz i0, sz i1, sz i2, sz i3, sz q_, sz a_, sz b_) {                                       \
		pre;                                                                                                           \
		auto str_ = UNP expr;                                                                                          \
		run_<EVERY_CHECK, __VA_ARGS__>::run(str_, q_, a_, b_, i0, i1, i2, i3);                                             \
	}
#include "structs.inc"
#undef STRUCT
} // namespace every
