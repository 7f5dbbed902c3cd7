#pragma once
#include "stdlib_imports.hpp"
namespace matrix
{
template<typename Type, size_t M, size_t N> class Matrix;
template<typename Type, size_t M> class Vector;

template <typename Type, size_t P, size_t Q, size_t M, size_t N>
class Slice
{
public:
	Slice(size_t x0, size_t y0, const Matrix<Type, M, N> *data) : _x0(x0), _y0(y0), _data(const_cast<Matrix<Type, M, N>*>(data))
	{
		static_assert(P <= M, "Slice rows bigger than backing matrix");
		static_assert(Q <= N, "Slice cols bigger than backing matrix");
	}
	Slice(const Slice<Type, P, Q, M, N> &other) = default;

	const Type &operator()(size_t i, size_t j) const { return (*_data)(_x0 + i, _y0 + j); }
	Type &operator()(size_t i, size_t j) { return (*_data)(_x0 + i, _y0 + j); }

	// vector style access for row / column slices
	const Type &operator()(size_t i) const { return (Q == 1) ? (*_data)(_x0 + i, _y0) : (*_data)(_x0, _y0 + i); }
	Type &operator()(size_t i) { return (Q == 1) ? (*_data)(_x0 + i, _y0) : (*_data)(_x0, _y0 + i); }

	template<size_t MM, size_t NN>
	Slice<Type, P, Q, M, N> &operator=(const Slice<Type, P, Q, MM, NN> &other)
	{ for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) = other(i, j); } return *this; }
	Slice<Type, P, Q, M, N> &operator=(const Slice<Type, P, Q, M, N> &other)
	{ for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) = other(i, j); } return *this; }
	Slice<Type, P, Q, M, N> &operator=(const Matrix<Type, P, Q> &other)
	{ for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) = other(i, j); } return *this; }
	Slice<Type, P, Q, M, N> &operator=(const Type &other)
	{ for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) = other; } return *this; }

	// allow assigning vectors to a slice that is in a row
	template <size_t DUMMY = 1>
	Slice<Type, 1, Q, M, N> &operator=(const Vector<Type, Q> &other)
	{ for (size_t j = 0; j < Q; j++) { (*this)(0, j) = other(j); } return *this; }

	template<size_t MM, size_t NN>
	Slice<Type, P, Q, M, N> &operator+=(const Slice<Type, P, Q, MM, NN> &other)
	{ for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) += other(i, j); } return *this; }
	Slice<Type, P, Q, M, N> &operator+=(const Matrix<Type, P, Q> &other)
	{ for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) += other(i, j); } return *this; }
	Slice<Type, P, Q, M, N> &operator+=(const Type &other)
	{ for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) += other; } return *this; }

	template<size_t MM, size_t NN>
	Slice<Type, P, Q, M, N> &operator-=(const Slice<Type, P, Q, MM, NN> &other)
	{ for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) -= other(i, j); } return *this; }
	Slice<Type, P, Q, M, N> &operator-=(const Matrix<Type, P, Q> &other)
	{ for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) -= other(i, j); } return *this; }
	Slice<Type, P, Q, M, N> &operator-=(const Type &other)
	{ for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) -= other; } return *this; }

	Slice<Type, P, Q, M, N> &operator*=(const Type &other)
	{ for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) *= other; } return *this; }
	Slice<Type, P, Q, M, N> &operator/=(const Type &other) { return operator*=(Type(1) / other); }
	Matrix<Type, P, Q> operator*(const Type &other) const
	{ Matrix<Type, P, Q> res; for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { res(i, j) = (*this)(i, j) * other; } return res; }
	Matrix<Type, P, Q> operator/(const Type &other) const { return (*this) * (Type(1) / other); }

	template<size_t R, size_t S>
	const Slice<Type, R, S, M, N> slice(size_t x0, size_t y0) const { return Slice<Type, R, S, M, N>(x0 + _x0, y0 + _y0, _data); }
	template<size_t R, size_t S>
	Slice<Type, R, S, M, N> slice(size_t x0, size_t y0) { return Slice<Type, R, S, M, N>(x0 + _x0, y0 + _y0, _data); }

	void copyTo(Type dst[P * Q]) const
	{ for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { dst[i * Q + j] = (*this)(i, j); } }
	void copyToColumnMajor(Type dst[P * Q]) const
	{ for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { dst[i + j * P] = (*this)(i, j); } }

	Vector < Type, P < Q ? P : Q > diag() const
	{ Vector < Type, P < Q ? P : Q > res; for (size_t j = 0; j < (P < Q ? P : Q); j++) { res(j) = (*this)(j, j); } return res; }

	Type norm_squared() const
	{ Type accum(0); for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { accum += (*this)(i, j) * (*this)(i, j); } return accum; }
	Type norm() const { return matrix::sqrt(norm_squared()); }
	bool longerThan(Type testVal) const { return norm_squared() > testVal * testVal; }

	Type max() const
	{ Type r = (*this)(0, 0); for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { if ((*this)(i, j) > r) { r = (*this)(i, j); } } return r; }
	Type min() const
	{ Type r = (*this)(0, 0); for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { if ((*this)(i, j) < r) { r = (*this)(i, j); } } return r; }

private:
	size_t _x0, _y0;
	Matrix<Type, M, N> *_data;
};
}
