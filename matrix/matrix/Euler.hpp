#pragma once
#include "Vector3.hpp"
namespace matrix
{
template<typename Type> class Dcm;
template<typename Type> class Quaternion;
// Tait-Bryan 3-2-1 intrinsic: phi (roll), theta (pitch), psi (yaw)
template<typename Type>
class Euler : public Vector<Type, 3>
{
public:
	Euler() = default;
	Euler(const Vector<Type, 3> &other) : Vector<Type, 3>(other) {}
	Euler(const Matrix<Type, 3, 1> &other) : Vector<Type, 3>(other) {}
	Euler(Type phi_, Type theta_, Type psi_) : Vector<Type, 3>() { phi() = phi_; theta() = theta_; psi() = psi_; }
	Euler(const Dcm<Type> &dcm)
	{
		theta() = asin(-dcm(2, 0));
		if ((matrix::fabs(theta() - Type(M_PI / 2))) < Type(1.0e-3)) {
			phi() = 0;
			psi() = atan2(dcm(1, 2), dcm(0, 2));
		} else if ((matrix::fabs(theta() + Type(M_PI / 2))) < Type(1.0e-3)) {
			phi() = 0;
			psi() = atan2(-dcm(1, 2), -dcm(0, 2));
		} else {
			phi() = atan2(dcm(2, 1), dcm(2, 2));
			psi() = atan2(dcm(1, 0), dcm(0, 0));
		}
	}
	Euler(const Quaternion<Type> &q) { *this = Euler(Dcm<Type>(q)); }

	inline Type phi() const { return (*this)(0); }
	inline Type theta() const { return (*this)(1); }
	inline Type psi() const { return (*this)(2); }
	inline Type &phi() { return (*this)(0); }
	inline Type &theta() { return (*this)(1); }
	inline Type &psi() { return (*this)(2); }
};
using Eulerf = Euler<float>;
using Eulerd = Euler<double>;
}
