#pragma once
#include "Vector3.hpp"
namespace matrix
{
template<typename Type> class Dcm;
template<typename Type> class Euler;
template<typename Type> class Quaternion;
template<typename Type>
class AxisAngle : public Vector<Type, 3>
{
public:
	using Matrix31 = Matrix<Type, 3, 1>;
	explicit AxisAngle(const Type data_[3]) : Vector<Type, 3>(data_) {}
	AxisAngle() = default;
	AxisAngle(const Matrix31 &other) : Vector<Type, 3>(other) {}
	AxisAngle(const Quaternion<Type> &q)
	{
		AxisAngle &v = *this;
		Type mag = q.imag().norm();
		if (matrix::fabs(mag) >= Type(1e-10)) { v = q.imag() * Type(Type(2) * atan2(mag, q(0)) / mag); }
		else { v = q.imag() * Type(Type(2) * Type(sign(q(0)))); }
	}
	AxisAngle(const Dcm<Type> &dcm) { AxisAngle &v = *this; v = AxisAngle<Type>(Quaternion<Type>(dcm)); }
	AxisAngle(const Euler<Type> &euler) { AxisAngle &v = *this; v = AxisAngle<Type>(Quaternion<Type>(euler)); }
	AxisAngle(Type x, Type y, Type z) { AxisAngle &v = *this; v(0) = x; v(1) = y; v(2) = z; }
	AxisAngle(const Matrix31 &axis_, Type angle_) { AxisAngle &v = *this; Vector<Type, 3> a = axis_; a = a.unit(); v = a * angle_; }
	Vector<Type, 3> axis() { if (Vector<Type, 3>::norm() > 0) { return Vector<Type, 3>::unit(); } else { return Vector3<Type>(1, 0, 0); } }
	Type angle() { return Vector<Type, 3>::norm(); }
};
using AxisAnglef = AxisAngle<float>;
using AxisAngled = AxisAngle<double>;
}
