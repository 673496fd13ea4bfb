// helpers for the obligation sets over every structure (every.inc)
#pragma once
namespace every {
template<auto Q, class S>
inline constexpr bool plain = S::template has_length<Q, state<>>();  // a length that depends on no index
template<auto Q, class S>
inline Z length(S s) { return Z(val(s | get_length<Q>())); }
template<class S, class St>
inline Z at(S s, St st) { return Z(val(s | offset(st))); }
template<auto Q, class St>
inline auto without(St st) { return st.template remove<index_in<Q>>(); }
template<auto Q, class St>
inline auto with(St st, sz v) { return st.template remove<index_in<Q>>().template with<index_in<Q>>(v); }
// the length of Q in s (with st) is that of Q2 in t (with tt), and it is available in both or in neither
template<auto Q, auto Q2, class S, class St, class T, class Tt>
inline void same_len(S s, St st, T t, Tt tt) {
	auto a = without<Q>(st);
	auto b = without<Q2>(tt);
	ENS_TYPE(S::template has_length<Q, decltype(a)>() == T::template has_length<Q2, decltype(b)>());
	if constexpr (S::template has_length<Q, decltype(a)>())
		ENS(Z(val(s | get_length<Q>(a))) == Z(val(t | get_length<Q2>(b))));
}
// all dimensions but Q keep their lengths
template<auto Q, auto D, class S, class St, class T, class Tt>
inline void keep_one(S s, St st, T t, Tt tt) {
	if constexpr (Q != D)
		same_len<D, D>(s, st, t, tt);
}
template<auto Q, auto... D>
struct others {
	template<class S, class St, class T, class Tt>
	static void keep(S s, St st, T t, Tt tt) {
		(keep_one<Q, D>(s, st, t, tt), ...);
		ENS(Z(val(s | get_size())) == Z(val(t | get_size())));
		ENS_TYPE(std::is_same_v<scalar_t<S, St>, scalar_t<T, Tt>>);
	}
};
template<class Sig>
inline constexpr auto head = nullptr;
template<IsDim auto D, class L, class R>
inline constexpr auto head<function_sig<D, L, R>> = D;
template<IsDim auto D, class... R>
inline constexpr auto head<dep_function_sig<D, R...>> = D;
// f for the dimension selected by q
template<auto Q, auto... R, class F>
inline void pick(sz q, F f) {
	if constexpr (sizeof...(R) == 0)
		f.template operator()<Q>();
	else {
		if (q == sizeof...(R))
			f.template operator()<Q>();
		else
			pick<R...>(q, f);
	}
}
} // namespace every
