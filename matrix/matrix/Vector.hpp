#pragma once
#include "Matrix.hpp"
namespace matrix
{
template<typename Type, size_t M>
class Vector : public Matrix<Type, M, 1>
{
public:
	using MatrixM1 = Matrix<Type, M, 1>;
	Vector() = default;
	Vector(const MatrixM1 &other) : MatrixM1(other) {}
	explicit Vector(const Type data_[M]) : MatrixM1(data_) {}
	template<size_t P, size_t Q>
	Vector(const Slice<Type, M, 1, P, Q> &slice_in) : Matrix<Type, M, 1>(slice_in) {}
	template<size_t P, size_t Q, size_t DUMMY = 1>
	Vector(const Slice<Type, 1, M, P, Q> &slice_in)
	{ Vector &self(*this); for (size_t i = 0; i < M; i++) { self(i) = slice_in(0, i); } }

	inline const Type &operator()(size_t i) const
	{
#ifdef MATRIX_BOUNDS_CHECK
		if (i >= M) { __builtin_trap(); }
#endif
		const MatrixM1 &v = *this; return v(i, 0);
	}
	inline Type &operator()(size_t i)
	{
#ifdef MATRIX_BOUNDS_CHECK
		if (i >= M) { __builtin_trap(); }
#endif
		MatrixM1 &v = *this; return v(i, 0);
	}

	Type dot(const MatrixM1 &b) const
	{ const Vector &a(*this); Type r(0); for (size_t i = 0; i < M; i++) { r += a(i) * b(i, 0); } return r; }
	inline Type operator*(const MatrixM1 &b) const { return this->dot(b); }
	inline Vector operator*(Type b) const { return Vector(MatrixM1::operator*(b)); }

	Type norm() const { return Type(matrix::sqrt(this->dot(*this))); }
	Type norm_squared() const { return this->dot(*this); }
	inline Type length() const { return norm(); }
	inline void normalize() { (*this) /= norm(); }
	Vector unit() const { return (*this) / norm(); }
	Vector unit_or_zero(const Type eps = Type(1e-5f)) const { const Type n = norm(); if (n > eps) { return (*this) / n; } return Vector(); }
	inline Vector normalized() const { return unit(); }
	bool longerThan(Type testVal) const { return norm_squared() > testVal * testVal; }
	Vector sqrt() const { const Vector &a(*this); Vector r; for (size_t i = 0; i < M; i++) { r(i) = Type(matrix::sqrt(a(i))); } return r; }
	void print() const { (*this).transpose().print(); }
};
template<typename OStream, typename Type, size_t M>
OStream &operator<<(OStream &os, const matrix::Vector<Type, M> &vector)
{ os << "\n"; for (size_t i = 0; i < M; ++i) { os << " " << vector(i); } os << "\n"; return os; }
}
