#pragma once
#include "SquareMatrix.hpp"
#include "Vector3.hpp"
namespace matrix
{
template<typename Type> class Quaternion;
template<typename Type> class Euler;
template<typename Type> class AxisAngle;

// Direction cosine matrix; transforms from frame 2 to frame 1 (body -> earth when built from an attitude)
template<typename Type>
class Dcm : public SquareMatrix<Type, 3>
{
public:
	Dcm() : SquareMatrix<Type, 3>(eye<Type, 3>()) {}
	explicit Dcm(const Type data_[3][3]) : SquareMatrix<Type, 3>(data_) {}
	explicit Dcm(const Type data_[9]) : SquareMatrix<Type, 3>(data_) {}
	Dcm(const Matrix<Type, 3, 3> &other) : SquareMatrix<Type, 3>(other) {}
	Dcm(const Quaternion<Type> &q)
	{
		Dcm &dcm = *this;
		const Type a = q(0), b = q(1), c = q(2), d = q(3);
		const Type aa = a * a, ab = a * b, ac = a * c, ad = a * d;
		const Type bb = b * b, bc = b * c, bd = b * d;
		const Type cc = c * c, cd = c * d, dd = d * d;
		dcm(0, 0) = aa + bb - cc - dd;
		dcm(0, 1) = Type(2) * (bc - ad);
		dcm(0, 2) = Type(2) * (ac + bd);
		dcm(1, 0) = Type(2) * (bc + ad);
		dcm(1, 1) = aa - bb + cc - dd;
		dcm(1, 2) = Type(2) * (cd - ab);
		dcm(2, 0) = Type(2) * (bd - ac);
		dcm(2, 1) = Type(2) * (ab + cd);
		dcm(2, 2) = aa - bb - cc + dd;
	}
	Dcm(const Euler<Type> &euler)
	{
		Dcm &dcm = *this;
		Type cosPhi = Type(cos(euler.phi())); Type sinPhi = Type(sin(euler.phi()));
		Type cosThe = Type(cos(euler.theta())); Type sinThe = Type(sin(euler.theta()));
		Type cosPsi = Type(cos(euler.psi())); Type sinPsi = Type(sin(euler.psi()));
		dcm(0, 0) = cosThe * cosPsi;
		dcm(0, 1) = -cosPhi * sinPsi + sinPhi * sinThe * cosPsi;
		dcm(0, 2) = sinPhi * sinPsi + cosPhi * sinThe * cosPsi;
		dcm(1, 0) = cosThe * sinPsi;
		dcm(1, 1) = cosPhi * cosPsi + sinPhi * sinThe * sinPsi;
		dcm(1, 2) = -sinPhi * cosPsi + cosPhi * sinThe * sinPsi;
		dcm(2, 0) = -sinThe;
		dcm(2, 1) = sinPhi * cosThe;
		dcm(2, 2) = cosPhi * cosThe;
	}
	Dcm(const AxisAngle<Type> &aa) { Dcm &dcm = *this; dcm = Dcm(Quaternion<Type>(aa)); }

	Vector<Type, 3> vee() const
	{ const Dcm &A(*this); Vector<Type, 3> v; v(0) = -A(1, 2); v(1) = A(0, 2); v(2) = -A(0, 1); return v; }

	void renormalize()
	{
		/* renormalize rows */
		for (size_t r = 0; r < 3; r++) { Vector3<Type> rvec(Matrix<Type, 1, 3>(this->row(r)).transpose()); this->setRow(r, rvec.normalized()); }
	}
};
using Dcmf = Dcm<float>;
using Dcmd = Dcm<double>;
}
