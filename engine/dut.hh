/*
What a user of the library includes before its headers: the standard headers it relies on, and
the functions it expects to find in its own namespace.
*/

#pragma once

#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <limits>
#include <math.h>
#include <stdlib.h>

namespace DSP { using std::abs; using std::min; using std::max; using std::cos; using std::sin; using std::sqrt; using std::exp; using std::pow; using std::nearbyint; }

#include "pbt.hh"

#include <type_traits>
#include <utility>
#include <vector>

// the product the other way round, which the library leaves out and std::complex has: code that
// relies on it works for the latter only, which is not what any of the properties is about
namespace DSP {
template <typename T> class Complex;
template <typename T, typename S, typename = std::enable_if_t<std::is_same<T, S>::value>>
constexpr Complex<T> operator * (Complex<T> a, S b) { return b * a; }
}

// calls f(std::integral_constant<int, N>()) for the i-th of the numbers N...
template <int... N>
struct Sizes
{
	static constexpr int count = sizeof...(N);
	template <typename F>
	static void with(int i, F f)
	{
		int k = 0;
		(void)((k++ == i ? (f(std::integral_constant<int, N>()), true) : false) || ...);
	}
	template <typename F>
	static void any(Src &s, F f) { with(s.range(0, count - 1), f); }
};

// calls f(T()) for the i-th of the types T...
template <typename... T>
struct Types
{
	static constexpr int count = sizeof...(T);
	template <typename F>
	static void with(int i, F f)
	{
		int k = 0;
		(void)((k++ == i ? (f(T()), true) : false) || ...);
	}
	template <typename F>
	static void any(Src &s, F f) { with(s.range(0, count - 1), f); }
};

template <typename T> struct TypeName { static constexpr const char *get() { return "int"; } };
template <> struct TypeName<float> { static constexpr const char *get() { return "float"; } };
template <> struct TypeName<double> { static constexpr const char *get() { return "double"; } };
template <> struct TypeName<int8_t> { static constexpr const char *get() { return "int8"; } };
template <> struct TypeName<int16_t> { static constexpr const char *get() { return "int16"; } };
template <> struct TypeName<int64_t> { static constexpr const char *get() { return "int64"; } };

template <typename T> constexpr long double eps = std::numeric_limits<T>::epsilon();
