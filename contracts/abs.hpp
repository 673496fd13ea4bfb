// A user-defined noarr structure (docs/DefiningStructures.md "Defining structures manually") whose
// layout is abstract: it is known to the verifier only through its contract (see vc.hpp).
#pragma once
#include "vc.hpp"
#include <noarr/structures_extended.hpp>

namespace absn {

template<class T, auto... Dims>
struct sig_of {
	using type = noarr::scalar_sig<T>;
};
template<class T, auto D, auto... Dims>
struct sig_of<T, D, Dims...> {
	using type = noarr::function_sig<D, noarr::dynamic_arg_length, typename sig_of<T, Dims...>::type>;
};

template<auto Q, auto... Dims>
constexpr int pos() {
	int r = -1, k = 0;
	((noarr::dim_sequence<Dims>::template contains<Q> ? (r = k, ++k) : ++k), ...);
	return r;
}

// Sized: lengths are a part of the structure.
template<int Id, class T, auto... Dims>
struct abs_t {
	static constexpr sz K = sizeof...(Dims);
	static_assert(K >= 1 && K <= 3);
	sz len_[K];

	using signature = typename sig_of<T, Dims...>::type;

	template<sz I>
	constexpr sz L() const noexcept {
		if constexpr (I < K)
			return len_[I];
		else
			return 1;
	}

	template<noarr::IsState State>
	static constexpr auto sub_state(State state) noexcept {
		return state.template remove<noarr::index_in<Dims>...>();
	}
	template<noarr::IsState State>
	static constexpr auto clean_state(State state) noexcept {
		return state.template remove<noarr::index_in<Dims>..., noarr::length_in<Dims>...>();
	}
	template<noarr::IsState State>
	constexpr auto sub_structure(State) const noexcept {
		return noarr::scalar<T>();
	}
	constexpr auto sub_structure() const noexcept { return noarr::scalar<T>(); }

	template<noarr::IsState State>
	static consteval bool has_size() noexcept {
		return true;
	}
	template<noarr::IsState State>
	constexpr auto size(State) const noexcept {
		return abs_size(Id, sizeof(T), L<0>(), L<1>(), L<2>());
	}
	template<noarr::IsState State>
	constexpr auto align(State) const noexcept {
		return noarr::constexpr_arithmetic::make_const<alignof(T)>();
	}

	template<auto Q, noarr::IsState State>
	requires noarr::IsDim<decltype(Q)>
	static consteval bool has_length() noexcept {
		return pos<Q, Dims...>() >= 0 && !noarr::state_contains<State, noarr::index_in<Q>>;
	}
	template<auto Q, noarr::IsState State>
	requires (has_length<Q, State>())
	constexpr auto length(State) const noexcept {
		return len_[pos<Q, Dims...>()];
	}

	template<class Sub, noarr::IsState State>
	static consteval bool has_strict_offset_of() noexcept {
		return std::is_same_v<Sub, noarr::scalar<T>> && (... && noarr::state_contains<State, noarr::index_in<Dims>>);
	}

	template<sz I, class State>
	static constexpr sz idx(State state) noexcept {
		if constexpr (I < K) {
			constexpr auto seq = std::make_tuple(Dims...);
			return val(noarr::get_index<std::get<I>(seq)>(state));
		} else
			return 0;
	}

	template<class Sub, noarr::IsState State, class Start = noarr::constexpr_arithmetic::make_const<0>>
	requires (has_strict_offset_of<Sub, State>())
	constexpr auto strict_offset_of(State state, Start start = Start{}) const noexcept {
		using namespace noarr::constexpr_arithmetic;
		return abs_off(Id, sizeof(T), L<0>(), L<1>(), L<2>(), idx<0>(state), idx<1>(state), idx<2>(state)) + start;
	}

	template<class Sub, noarr::IsState State>
	static consteval bool has_strict_state_at() noexcept {
		return false;
	}
};

// Unsized: lengths come from the state (like noarr::vector)
template<int Id, class T, auto... Dims>
struct absu_t {
	static constexpr sz K = sizeof...(Dims);
	sz dummy_;  // non-empty on purpose

	using signature = typename sig_of<T, Dims...>::type;

	template<sz I, class State>
	static constexpr sz L(State state) noexcept {
		if constexpr (I < K) {
			constexpr auto seq = std::make_tuple(Dims...);
			return val(state.template get<noarr::length_in<std::get<I>(seq)>>());
		} else
			return 1;
	}
	template<sz I, class State>
	static constexpr sz idx(State state) noexcept {
		if constexpr (I < K) {
			constexpr auto seq = std::make_tuple(Dims...);
			return val(noarr::get_index<std::get<I>(seq)>(state));
		} else
			return 0;
	}

	template<noarr::IsState State>
	static constexpr auto sub_state(State state) noexcept {
		return state.template remove<noarr::index_in<Dims>..., noarr::length_in<Dims>...>();
	}
	template<noarr::IsState State>
	static constexpr auto clean_state(State state) noexcept {
		return state.template remove<noarr::index_in<Dims>..., noarr::length_in<Dims>...>();
	}
	template<noarr::IsState State>
	constexpr auto sub_structure(State) const noexcept {
		return noarr::scalar<T>();
	}

	template<noarr::IsState State>
	static consteval bool has_size() noexcept {
		return (... && noarr::state_contains<State, noarr::length_in<Dims>>);
	}
	template<noarr::IsState State>
	requires (has_size<State>())
	constexpr auto size(State s) const noexcept {
		return abs_size(Id, sizeof(T), L<0>(s), L<1>(s), L<2>(s));
	}
	template<noarr::IsState State>
	constexpr auto align(State) const noexcept {
		return noarr::constexpr_arithmetic::make_const<alignof(T)>();
	}

	template<auto Q, noarr::IsState State>
	requires noarr::IsDim<decltype(Q)>
	static consteval bool has_length() noexcept {
		return pos<Q, Dims...>() >= 0 && !noarr::state_contains<State, noarr::index_in<Q>> &&
		       noarr::state_contains<State, noarr::length_in<Q>>;
	}
	template<auto Q, noarr::IsState State>
	requires (has_length<Q, State>())
	constexpr auto length(State s) const noexcept {
		return s.template get<noarr::length_in<Q>>();
	}

	template<class Sub, noarr::IsState State>
	static consteval bool has_strict_offset_of() noexcept {
		return std::is_same_v<Sub, noarr::scalar<T>> &&
		       (... && noarr::state_contains<State, noarr::index_in<Dims>, noarr::length_in<Dims>>);
	}
	template<class Sub, noarr::IsState State, class Start = noarr::constexpr_arithmetic::make_const<0>>
	requires (has_strict_offset_of<Sub, State>())
	constexpr auto strict_offset_of(State s, Start start = Start{}) const noexcept {
		using namespace noarr::constexpr_arithmetic;
		return abs_off(Id, sizeof(T), L<0>(s), L<1>(s), L<2>(s), idx<0>(s), idx<1>(s), idx<2>(s)) + start;
	}
	template<class Sub, noarr::IsState State>
	static consteval bool has_strict_state_at() noexcept {
		return false;
	}
};

} // namespace absn

template<int Id, class T>
inline Z zoff(Z l0, Z l1, Z l2, Z i0, Z i1, Z i2) {
	return Z(Z::raw{}, vz_abs_off(Id, Z(sizeof(T)).v, l0.v, l1.v, l2.v, i0.v, i1.v, i2.v));
}
template<int Id, class T>
inline Z zoff(Z l0, Z l1, Z i0, Z i1) {
	return zoff<Id, T>(l0, l1, Z(1), i0, i1, Z(0));
}
template<int Id, class T>
inline Z zsize(Z l0, Z l1, Z l2 = Z(1)) {
	return Z(Z::raw{}, vz_abs_size(Id, Z(sizeof(T)).v, l0.v, l1.v, l2.v));
}
