// Harness interface.  The same source is compiled twice: by clang to LLVM IR for the
// symbolic executor (engine/symex.py), where the vf_* calls are interpreted, and by g++
// together with native.cpp, where they read concrete inputs and check the assertions.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cmath>
#include <array>
#include <tuple>
#include <limits>
#include <type_traits>
#include <utility>
#include <algorithm>
#include <bit>
#include <numeric>
#include <numbers>
#include <concepts>
#include <cassert>
#include <stdexcept>
#include <compare>
#ifdef VF_CONSTEVAL
// make every std::is_constant_evaluated() in the library take the constant-evaluated branch
namespace std { constexpr bool vf_ce() noexcept { return true; } }
#define is_constant_evaluated() vf_ce()
#endif
#include "dsga.hxx"
#ifdef VF_CONSTEVAL
#undef is_constant_evaluated
#endif

extern "C" {
bool vf_bool(const char *) noexcept;
uint8_t vf_u8(const char *) noexcept;
uint16_t vf_u16(const char *) noexcept;
uint32_t vf_u32(const char *) noexcept;
uint64_t vf_u64(const char *) noexcept;
float vf_f32(const char *) noexcept;
double vf_f64(const char *) noexcept;
long double vf_f80(const char *) noexcept;
void vf_assert(bool, const char *) noexcept;      // obligation
void vf_assume(bool) noexcept;                    // restrict the inputs considered
bool vf_same_u64(uint64_t, uint64_t) noexcept;
bool vf_same_f32(float, float) noexcept;          // equal values, signed zeros distinguished, NaN == NaN
bool vf_same_f64(double, double) noexcept;
bool vf_same_f80(long double, long double) noexcept;
void vf_near_f32(float, float, const char *) noexcept;   // equal up to rounding
void vf_near_f64(double, double, const char *) noexcept;
void vf_expect_abort(bool) noexcept;              // an assertion failure is expected iff the argument holds
void vf_expect_end(const char *) noexcept;
void vf_cover(const char *) noexcept;             // has to be reachable
void vf_obs_u64(uint64_t) noexcept;               // logged when the encoding is validated
}

namespace vf
{
	template <class T> struct tag {};

	template <class T> T in(const char *n) noexcept
	{
		if constexpr (std::is_same_v<T, bool>) return vf_bool(n);
		else if constexpr (std::is_same_v<T, float>) return vf_f32(n);
		else if constexpr (std::is_same_v<T, double>) return vf_f64(n);
		else if constexpr (std::is_same_v<T, long double>) return vf_f80(n);
		else if constexpr (sizeof(T) == 1) return static_cast<T>(vf_u8(n));
		else if constexpr (sizeof(T) == 2) return static_cast<T>(vf_u16(n));
		else if constexpr (sizeof(T) == 4) return static_cast<T>(vf_u32(n));
		else return static_cast<T>(vf_u64(n));
	}

	template <class T> bool same(T a, T b) noexcept
	{
		if constexpr (std::is_same_v<T, float>) return vf_same_f32(a, b);
		else if constexpr (std::is_same_v<T, double>) return vf_same_f64(a, b);
		else if constexpr (std::is_same_v<T, long double>) return vf_same_f80(a, b);
		else return vf_same_u64(static_cast<uint64_t>(a), static_cast<uint64_t>(b));
	}

	template <class T> void check_same(T a, T b, const char *msg) noexcept { vf_assert(same<T>(a, b), msg); }

	template <class T> void near(T a, T b, const char *msg) noexcept
	{
		if constexpr (std::is_same_v<T, float>) vf_near_f32(a, b, msg);
		else vf_near_f64(a, b, msg);
	}

	// an arbitrary vector / plain array of N arbitrary values
	template <class T, std::size_t N> std::array<T, N> arr(const char *n) noexcept
	{
		std::array<T, N> r{};
		for (std::size_t i = 0; i < N; ++i) r[i] = in<T>(n);
		return r;
	}

	template <class T, std::size_t N> dsga::basic_vector<T, N> vec(const std::array<T, N> &a) noexcept
	{
		dsga::basic_vector<T, N> r;
		for (std::size_t i = 0; i < N; ++i) r.data()[i] = a[i];
		return r;
	}

	template <class A, class T, std::size_t N> void check_vec(const A &v, const std::array<T, N> &e, const char *msg) noexcept
	{
		using VT = std::remove_cvref_t<decltype(v[0])>;
		static_assert(std::is_same_v<VT, T>);
		for (std::size_t i = 0; i < N; ++i) vf_assert(same<T>(static_cast<T>(v[i]), e[i]), msg);
	}

	template <class M, class T, std::size_t C, std::size_t R> void set_mat(M &m, const std::array<std::array<T, R>, C> &a) noexcept
	{
		for (std::size_t c = 0; c < C; ++c) for (std::size_t r = 0; r < R; ++r) m[c][r] = a[c][r];
	}

	template <class... Ts, class F> void for_types(F f) { (f(tag<Ts>{}), ...); }
	template <std::size_t... Ns, class F> void for_sizes(std::index_sequence<Ns...>, F f) { (f(std::integral_constant<std::size_t, Ns>{}), ...); }
}

#define H(name) extern "C" void h_##name()
