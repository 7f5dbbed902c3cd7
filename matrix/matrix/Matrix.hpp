#pragma once
#include "helper_functions.hpp"
#include "Slice.hpp"
namespace matrix
{
template<typename Type, size_t M> class Vector;

template<typename Type, size_t M, size_t N>
class Matrix
{
protected:
	Type _data[M][N] {};
public:
	Matrix() = default;
	explicit Matrix(const Type data_[M * N])
	{ for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] = data_[N * i + j]; } }
	explicit Matrix(const Type data_[M][N])
	{ for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] = data_[i][j]; } }
	Matrix(const Matrix &other) = default;
	template<size_t P, size_t Q>
	Matrix(const Slice<Type, M, N, P, Q> &in_slice)
	{ for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] = in_slice(i, j); } }

	inline const Type &operator()(size_t i, size_t j) const
	{
#ifdef MATRIX_BOUNDS_CHECK
		if (i >= M || j >= N) { __builtin_trap(); }
#endif
		return _data[i][j];
	}
	inline Type &operator()(size_t i, size_t j)
	{
#ifdef MATRIX_BOUNDS_CHECK
		if (i >= M || j >= N) { __builtin_trap(); }
#endif
		return _data[i][j];
	}

	Matrix<Type, M, N> &operator=(const Matrix<Type, M, N> &other) = default;

	void copyTo(Type dst[M * N]) const
	{ for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { dst[N * i + j] = _data[i][j]; } }
	void copyToColumnMajor(Type dst[M * N]) const
	{ for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { dst[i + j * M] = _data[i][j]; } }

	template<size_t P>
	Matrix<Type, M, P> operator*(const Matrix<Type, N, P> &other) const
	{
		const Matrix<Type, M, N> &self = *this;
		Matrix<Type, M, P> res{};
		for (size_t i = 0; i < M; i++) {
			for (size_t k = 0; k < P; k++) {
				for (size_t j = 0; j < N; j++) { res(i, k) += self(i, j) * other(j, k); }
			}
		}
		return res;
	}

	Matrix<Type, M, N> emult(const Matrix<Type, M, N> &other) const
	{ Matrix<Type, M, N> res; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { res(i, j) = (*this)(i, j) * other(i, j); } return res; }
	Matrix<Type, M, N> edivide(const Matrix<Type, M, N> &other) const
	{ Matrix<Type, M, N> res; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { res(i, j) = (*this)(i, j) / other(i, j); } return res; }
	Matrix<Type, M, N> operator+(const Matrix<Type, M, N> &other) const
	{ Matrix<Type, M, N> res; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { res(i, j) = (*this)(i, j) + other(i, j); } return res; }
	Matrix<Type, M, N> operator-(const Matrix<Type, M, N> &other) const
	{ Matrix<Type, M, N> res; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { res(i, j) = (*this)(i, j) - other(i, j); } return res; }
	Matrix<Type, M, N> operator-() const
	{ Matrix<Type, M, N> res; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { res(i, j) = -(*this)(i, j); } return res; }

	void operator+=(const Matrix<Type, M, N> &other) { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] += other(i, j); } }
	void operator-=(const Matrix<Type, M, N> &other) { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] -= other(i, j); } }
	template<size_t P>
	void operator*=(const Matrix<Type, N, P> &other) { (*this) = (*this) * other; }

	// scalar ops
	Matrix<Type, M, N> operator*(Type scalar) const
	{ Matrix<Type, M, N> res; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { res(i, j) = (*this)(i, j) * scalar; } return res; }
	inline Matrix<Type, M, N> operator/(Type scalar) const { return (*this) * (Type(1) / scalar); }
	Matrix<Type, M, N> operator+(Type scalar) const
	{ Matrix<Type, M, N> res; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { res(i, j) = (*this)(i, j) + scalar; } return res; }
	inline Matrix<Type, M, N> operator-(Type scalar) const { return (*this) + (-1 * scalar); }
	void operator*=(Type scalar) { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] *= scalar; } }
	void operator/=(Type scalar) { (*this) *= (Type(1.0f) / scalar); }
	inline void operator+=(Type scalar) { *this = (*this) + scalar; }
	inline void operator-=(Type scalar) { *this = (*this) - scalar; }

	bool operator==(const Matrix<Type, M, N> &other) const { return isEqual(*this, other); }
	bool operator!=(const Matrix<Type, M, N> &other) const { return !(*this == other); }

	void write_string(char *buf, size_t n) const
	{
		buf[0] = '\0';
		for (size_t i = 0; i < M; i++) {
			for (size_t j = 0; j < N; j++) { snprintf(buf + strlen(buf), n - strlen(buf), "\t%8.8g", double((*this)(i, j))); }
			snprintf(buf + strlen(buf), n - strlen(buf), "\n");
		}
	}
	void print(float = 1e-8f) const { char b[M * N * 20 + M + 2]; write_string(b, sizeof b); printf("%s\n", b); }

	Matrix<Type, N, M> transpose() const
	{ Matrix<Type, N, M> res; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { res(j, i) = (*this)(i, j); } return res; }
	inline Matrix<Type, N, M> T() const { return transpose(); }

	template<size_t P, size_t Q>
	const Slice<Type, P, Q, M, N> slice(size_t x0, size_t y0) const { return {x0, y0, this}; }
	template<size_t P, size_t Q>
	Slice<Type, P, Q, M, N> slice(size_t x0, size_t y0) { return {x0, y0, this}; }

	const Slice<Type, 1, N, M, N> row(size_t i) const { return slice<1, N>(i, 0); }
	Slice<Type, 1, N, M, N> row(size_t i) { return slice<1, N>(i, 0); }
	const Slice<Type, M, 1, M, N> col(size_t j) const { return slice<M, 1>(0, j); }
	Slice<Type, M, 1, M, N> col(size_t j) { return slice<M, 1>(0, j); }

	void setRow(size_t i, const Matrix<Type, N, 1> &row_in) { for (size_t j = 0; j < N; j++) { _data[i][j] = row_in(j, 0); } }
	void setRow(size_t i, Type val) { slice<1, N>(i, 0) = val; }
	void setCol(size_t j, const Matrix<Type, M, 1> &column) { for (size_t i = 0; i < M; i++) { _data[i][j] = column(i, 0); } }
	void setCol(size_t j, Type val) { slice<M, 1>(0, j) = val; }

	void setZero() { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] = Type(0); } }
	inline void zero() { setZero(); }
	void setAll(Type val) { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] = val; } }
	inline void setOne() { setAll(1); }
	inline void setNaN() { setAll(Type(NAN)); }
	void setIdentity() { setZero(); const size_t mn = M > N ? N : M; for (size_t i = 0; i < mn; i++) { _data[i][i] = Type(1); } }
	inline void identity() { setIdentity(); }
	inline void swapRows(size_t a, size_t b)
	{ if (a == b) { return; } for (size_t j = 0; j < N; j++) { Type tmp = _data[a][j]; _data[a][j] = _data[b][j]; _data[b][j] = tmp; } }
	inline void swapCols(size_t a, size_t b)
	{ if (a == b) { return; } for (size_t i = 0; i < M; i++) { Type tmp = _data[i][a]; _data[i][a] = _data[i][b]; _data[i][b] = tmp; } }

	Matrix<Type, M, N> abs() const
	{ Matrix<Type, M, N> r; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { r(i, j) = Type(matrix::fabs((*this)(i, j))); } return r; }
	Type max() const
	{ Type r = _data[0][0]; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { if (_data[i][j] > r) { r = _data[i][j]; } } return r; }
	Type min() const
	{ Type r = _data[0][0]; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { if (_data[i][j] < r) { r = _data[i][j]; } } return r; }
	bool isAllNan() const
	{ for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { if (std::isfinite(_data[i][j]) || !isnan(_data[i][j])) { return false; } } return true; }
	bool isAllFinite() const
	{ for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { if (!std::isfinite(_data[i][j])) { return false; } } return true; }
};

template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> zeros() { Matrix<Type, M, N> m; m.setZero(); return m; }
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> ones() { Matrix<Type, M, N> m; m.setOne(); return m; }
template<size_t M, size_t N> Matrix<float, M, N> nans() { Matrix<float, M, N> m; m.setNaN(); return m; }

template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> operator*(Type scalar, const Matrix<Type, M, N> &other) { return other * scalar; }

template<typename Type, size_t M, size_t N>
bool isEqual(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &y, const Type eps = Type(1e-4f))
{ for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { if (!isEqualF(x(i, j), y(i, j), eps)) { return false; } } return true; }

namespace typeFunction
{
template<typename Type> Type min(const Type x, const Type y)
{ bool x_is_nan = isnan(x); bool y_is_nan = isnan(y); if (x_is_nan || y_is_nan) { if (x_is_nan && !y_is_nan) { return y; } if (!x_is_nan && y_is_nan) { return x; } return x; } return (x < y) ? x : y; }
template<typename Type> Type max(const Type x, const Type y)
{ bool x_is_nan = isnan(x); bool y_is_nan = isnan(y); if (x_is_nan || y_is_nan) { if (x_is_nan && !y_is_nan) { return y; } if (!x_is_nan && y_is_nan) { return x; } return x; } return (x > y) ? x : y; }
template<typename Type> Type constrain(const Type x, const Type lower_bound, const Type upper_bound)
{ if (lower_bound > upper_bound) { return NAN; } else if (isnan(x)) { return NAN; } else { return typeFunction::max(lower_bound, typeFunction::min(upper_bound, x)); } }
}

template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> min(const Matrix<Type, M, N> &x, const Type scalar_upper_bound)
{ Matrix<Type, M, N> m; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::min(x(i, j), scalar_upper_bound); } return m; }
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> min(const Type s, const Matrix<Type, M, N> &x) { return min(x, s); }
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> min(const Matrix<Type, M, N> &x1, const Matrix<Type, M, N> &x2)
{ Matrix<Type, M, N> m; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::min(x1(i, j), x2(i, j)); } return m; }
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> max(const Matrix<Type, M, N> &x, const Type s)
{ Matrix<Type, M, N> m; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::max(x(i, j), s); } return m; }
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> max(const Type s, const Matrix<Type, M, N> &x) { return max(x, s); }
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> max(const Matrix<Type, M, N> &x1, const Matrix<Type, M, N> &x2)
{ Matrix<Type, M, N> m; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::max(x1(i, j), x2(i, j)); } return m; }
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const Type lo, const Type hi)
{ Matrix<Type, M, N> m; if (lo > hi) { m.setNaN(); } else { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::constrain(x(i, j), lo, hi); } } return m; }
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &lo, const Matrix<Type, M, N> &hi)
{ Matrix<Type, M, N> m; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::constrain(x(i, j), lo(i, j), hi(i, j)); } return m; }
}
