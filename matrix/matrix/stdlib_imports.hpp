#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cfloat>
#include <cinttypes>
#include <limits>
#include <algorithm>
#include <type_traits>
#include <initializer_list>
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
#ifndef M_TWOPI
#define M_TWOPI (M_PI * 2.0)
#endif
namespace matrix
{
using std::abs; using std::sin; using std::cos; using std::tan; using std::asin; using std::acos; using std::atan;
using std::atan2; using std::sinh; using std::cosh; using std::tanh; using std::exp; using std::log; using std::log10;
using std::pow; using std::sqrt; using std::ceil; using std::floor; using std::fabs; using std::fmod; using std::min; using std::max;
using std::isfinite; using std::isnan;
}
