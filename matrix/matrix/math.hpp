// Stand-in for PX4/Matrix (the git dependency PX4/ecl fetches at configure time and which is not
// available offline). Same public interface and conventions, written for this harness.
#pragma once
#include "stdlib_imports.hpp"
#include "helper_functions.hpp"
#include "Slice.hpp"
#include "Matrix.hpp"
#include "Vector.hpp"
#include "Vector2.hpp"
#include "Vector3.hpp"
#include "SquareMatrix.hpp"
#include "Dcm.hpp"
#include "Euler.hpp"
#include "AxisAngle.hpp"
#include "Quaternion.hpp"
#include "Scalar.hpp"
#include "SparseVector.hpp"
namespace matrix
{
using Matrix2f = SquareMatrix<float, 2>;
using Matrix4f = SquareMatrix<float, 4>;
}
