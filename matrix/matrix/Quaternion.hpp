#pragma once
#include "Vector.hpp"
#include "Dcm.hpp"
#include "Euler.hpp"
#include "AxisAngle.hpp"
namespace matrix
{
// Hamilton quaternion (w, x, y, z); rotates from frame 2 (body) to frame 1 (earth)
template<typename Type>
class Quaternion : public Vector<Type, 4>
{
public:
	using Matrix41 = Matrix<Type, 4, 1>;
	using Matrix31 = Matrix<Type, 3, 1>;
	explicit Quaternion(const Type data_[4]) : Vector<Type, 4>(data_) {}
	Quaternion() { Quaternion &q = *this; q(0) = 1; q(1) = 0; q(2) = 0; q(3) = 0; }
	Quaternion(const Matrix41 &other) : Vector<Type, 4>(other) {}
	Quaternion(const Dcm<Type> &R)
	{
		Quaternion &q = *this;
		Type t = R.trace();
		if (t > Type(0)) {
			t = sqrt(Type(1) + t);
			q(0) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(1) = (R(2, 1) - R(1, 2)) * t;
			q(2) = (R(0, 2) - R(2, 0)) * t;
			q(3) = (R(1, 0) - R(0, 1)) * t;
		} else if (R(0, 0) > R(1, 1) && R(0, 0) > R(2, 2)) {
			t = sqrt(Type(1) + R(0, 0) - R(1, 1) - R(2, 2));
			q(1) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(2, 1) - R(1, 2)) * t;
			q(2) = (R(1, 0) + R(0, 1)) * t;
			q(3) = (R(0, 2) + R(2, 0)) * t;
		} else if (R(1, 1) > R(2, 2)) {
			t = sqrt(Type(1) - R(0, 0) + R(1, 1) - R(2, 2));
			q(2) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(0, 2) - R(2, 0)) * t;
			q(1) = (R(1, 0) + R(0, 1)) * t;
			q(3) = (R(2, 1) + R(1, 2)) * t;
		} else {
			t = sqrt(Type(1) - R(0, 0) - R(1, 1) + R(2, 2));
			q(3) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(1, 0) - R(0, 1)) * t;
			q(1) = (R(0, 2) + R(2, 0)) * t;
			q(2) = (R(2, 1) + R(1, 2)) * t;
		}
	}
	Quaternion(const Euler<Type> &euler)
	{
		Quaternion &q = *this;
		Type cosPhi_2 = Type(cos(euler.phi() / Type(2))); Type cosTheta_2 = Type(cos(euler.theta() / Type(2)));
		Type cosPsi_2 = Type(cos(euler.psi() / Type(2))); Type sinPhi_2 = Type(sin(euler.phi() / Type(2)));
		Type sinTheta_2 = Type(sin(euler.theta() / Type(2))); Type sinPsi_2 = Type(sin(euler.psi() / Type(2)));
		q(0) = cosPhi_2 * cosTheta_2 * cosPsi_2 + sinPhi_2 * sinTheta_2 * sinPsi_2;
		q(1) = sinPhi_2 * cosTheta_2 * cosPsi_2 - cosPhi_2 * sinTheta_2 * sinPsi_2;
		q(2) = cosPhi_2 * sinTheta_2 * cosPsi_2 + sinPhi_2 * cosTheta_2 * sinPsi_2;
		q(3) = cosPhi_2 * cosTheta_2 * sinPsi_2 - sinPhi_2 * sinTheta_2 * cosPsi_2;
	}
	Quaternion(const AxisAngle<Type> &aa)
	{
		Quaternion &q = *this;
		Type angle = aa.norm();
		if (angle < Type(1e-10)) { q(0) = Type(1); q(1) = q(2) = q(3) = 0; }
		else {
			Vector<Type, 3> axis = aa / angle;
			q(0) = Type(cos(angle / Type(2)));
			const Type s = Type(sin(angle / Type(2)));
			q(1) = axis(0) * s; q(2) = axis(1) * s; q(3) = axis(2) * s;
		}
	}
	// shortest rotation from src to dst
	Quaternion(const Vector3<Type> &src, const Vector3<Type> &dst, const Type eps = Type(1e-5))
	{
		Quaternion &q = *this;
		Vector3<Type> cr = src.cross(dst);
		const float dt = src.dot(dst);
		if (cr.norm() < eps && dt < 0) {
			cr = src.abs();
			if (cr(0) < cr(1)) { if (cr(0) < cr(2)) { cr = Vector3<Type>(1, 0, 0); } else { cr = Vector3<Type>(0, 0, 1); } }
			else { if (cr(1) < cr(2)) { cr = Vector3<Type>(0, 1, 0); } else { cr = Vector3<Type>(0, 0, 1); } }
			q(0) = Type(0);
			cr = src.cross(cr);
		} else { q(0) = dt + sqrt(src.norm_squared() * dst.norm_squared()); }
		q(1) = cr(0); q(2) = cr(1); q(3) = cr(2);
		q.normalize();
	}
	Quaternion(Type a, Type b, Type c, Type d) { Quaternion &q = *this; q(0) = a; q(1) = b; q(2) = c; q(3) = d; }

	Quaternion operator*(const Quaternion &p) const
	{
		const Quaternion &q = *this;
		return {
			q(0) *p(0) - q(1) *p(1) - q(2) *p(2) - q(3) *p(3),
			q(1) *p(0) + q(0) *p(1) - q(3) *p(2) + q(2) *p(3),
			q(2) *p(0) + q(3) *p(1) + q(0) *p(2) - q(1) *p(3),
			q(3) *p(0) - q(2) *p(1) + q(1) *p(2) + q(0) *p(3)};
	}
	void operator*=(const Quaternion &other) { Quaternion &self = *this; self = self * other; }
	Quaternion operator*(Type scalar) const { const Quaternion &q = *this; return scalar * q; }
	void operator*=(Type scalar) { Quaternion &q = *this; q = q * scalar; }

	Matrix41 derivative1(const Matrix31 &w) const { const Quaternion &q = *this; Quaternion<Type> v(Type(0), w(0, 0), w(1, 0), w(2, 0)); return q * v * Type(0.5); }
	Matrix41 derivative2(const Matrix31 &w) const { const Quaternion &q = *this; Quaternion<Type> v(Type(0), w(0, 0), w(1, 0), w(2, 0)); return v * q * Type(0.5); }
	static Quaternion expq(const Vector3<Type> &u)
	{
		const Type tol = Type(0.2); const Type c2 = Type(1.0 / 2.0), c3 = Type(1.0 / 6.0);
		Type u_norm = u.norm(); Type sinc_u, cos_u;
		if (u_norm < tol) { Type u2 = u_norm * u_norm; Type u4 = u2 * u2;
			sinc_u = Type(1.0) - u2 * c3 + u4 * Type(1.0 / 120.0); cos_u = Type(1.0) - u2 * c2 + u4 * Type(1.0 / 24.0); }
		else { sinc_u = Type(sin(u_norm) / u_norm); cos_u = Type(cos(u_norm)); }
		Vector<Type, 3> v = sinc_u * u;
		return Quaternion<Type> (cos_u, v(0), v(1), v(2));
	}
	void invert() { *this = this->inversed(); }
	Quaternion inversed() const
	{
		const Quaternion &q = *this;
		Type normSq = q.dot(q);
		return Quaternion(q(0) / normSq, -q(1) / normSq, -q(2) / normSq, -q(3) / normSq);
	}
	void canonicalize() { *this = this->canonical(); }
	Quaternion canonical() const
	{
		const Quaternion &q = *this;
		for (size_t i = 0; i < 4; i++) { if (matrix::fabs(q(i)) > Type(FLT_EPSILON)) { return q * Type(matrix::sign(q(i))); } }
		return q;
	}
	void rotate(const AxisAngle<Type> &vec) { Quaternion res(vec); (*this) = res * (*this); }
	Vector3<Type> conjugate(const Vector3<Type> &vec) const
	{ const Quaternion &q = *this; Quaternion v(Type(0), vec(0), vec(1), vec(2)); Quaternion res = q * v * q.inversed(); return Vector3<Type>(res(1), res(2), res(3)); }
	Vector3<Type> conjugate_inversed(const Vector3<Type> &vec) const
	{ const Quaternion &q = *this; Quaternion v(Type(0), vec(0), vec(1), vec(2)); Quaternion res = q.inversed() * v * q; return Vector3<Type>(res(1), res(2), res(3)); }
	Vector3<Type> rotateVector(const Vector3<Type> &vec) const { return conjugate(vec); }
	Vector3<Type> rotateVectorInverse(const Vector3<Type> &vec) const { return conjugate_inversed(vec); }
	Vector3<Type> imag() const { const Quaternion &q = *this; return Vector3<Type>(q(1), q(2), q(3)); }
	Vector3<Type> dcm_z() const
	{
		const Quaternion &q = *this; Vector3<Type> R_z; const Type a = q(0), b = q(1), c = q(2), d = q(3);
		R_z(0) = Type(2) * (a * c + b * d); R_z(1) = Type(2) * (c * d - a * b); R_z(2) = a * a - b * b - c * c + d * d; return R_z;
	}
	// Corresponding body axes to an attitude quaternion
	Vector3<Type> dcm_x() const { const Quaternion &q = *this; return Vector3<Type>(q(0)*q(0)+q(1)*q(1)-q(2)*q(2)-q(3)*q(3), Type(2)*(q(1)*q(2)+q(0)*q(3)), Type(2)*(q(1)*q(3)-q(0)*q(2))); }
	void copyTo(Type(&dst)[4]) const { for (size_t i = 0; i < 4; i++) { dst[i] = (*this)(i); } }
	using Vector<Type, 4>::copyTo;
	Quaternion unit() const { return Quaternion(Vector<Type, 4>::unit()); }
	Quaternion normalized() const { return unit(); }
	static Quaternion identityQ() { return Quaternion(); }
	void setIdentity() { *this = Quaternion(); }
	void identity() { setIdentity(); }
};
template<typename Type> Quaternion<Type> operator*(Type scalar, const Quaternion<Type> &q)
{ return Quaternion<Type>(scalar * q(0), scalar * q(1), scalar * q(2), scalar * q(3)); }
using Quatf = Quaternion<float>;
using Quaternionf = Quaternion<float>;
using Quatd = Quaternion<double>;
using Quaterniond = Quaternion<double>;
}
