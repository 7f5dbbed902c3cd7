#pragma once
#include "stdlib_imports.hpp"
namespace matrix
{
template<typename Type> bool is_finite(Type x) { return std::isfinite(x); }

// equality with tolerance, NaN/Inf aware
template<typename Type>
bool isEqualF(const Type x, const Type y, const Type eps = Type(1e-4f))
{
	return (matrix::fabs(x - y) <= eps) || (isnan(x) && isnan(y)) || (std::isinf(x) && std::isinf(y) && isnan(x - y));
}

namespace detail
{
template<typename Floating>
Floating wrap_floating(Floating x, Floating low, Floating high)
{
	// already in range
	if (low <= x && x < high) { return x; }

	const auto range = high - low;
	const auto inv_range = Floating(1) / range; // should evaluate at compile time, multiplies below at runtime
	const auto num_wraps = floor((x - low) * inv_range);
	return x - range * num_wraps;
}
} // namespace detail

inline float wrap(float x, float low, float high) { return detail::wrap_floating(x, low, high); }
inline double wrap(double x, double low, double high) { return detail::wrap_floating(x, low, high); }

template<typename Integer>
Integer wrap(Integer x, Integer low, Integer high)
{
	const auto range = high - low;
	if (x < low) { x += range * ((low - x) / range + 1); }
	return low + (x - low) % range;
}

template<typename Type> Type wrap_pi(Type x) { return wrap(x, Type(-M_PI), Type(M_PI)); }
template<typename Type> Type wrap_2pi(Type x) { return wrap(x, Type(0), Type(M_TWOPI)); }

template<typename Type> Type unwrap(const Type last_x, const Type new_x, const Type low, const Type high)
{ return last_x + wrap(new_x - last_x, low, high); }
template<typename Type> Type unwrap_pi(const Type last_angle, const Type new_angle)
{ return unwrap(last_angle, new_angle, Type(-M_PI), Type(M_PI)); }

template<typename T> int sign(T val) { return (T(FLT_EPSILON) < val) - (val < T(FLT_EPSILON)); }
}
