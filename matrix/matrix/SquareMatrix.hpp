#pragma once
#include "Matrix.hpp"
namespace matrix
{
template<typename Type, size_t M> class Vector;
template<typename Type, size_t M> class SquareMatrix;
template<typename Type, size_t M> bool inv(const SquareMatrix<Type, M> &A, SquareMatrix<Type, M> &inv, size_t rank = M);

template<typename Type, size_t M>
class SquareMatrix : public Matrix<Type, M, M>
{
public:
	SquareMatrix() = default;
	explicit SquareMatrix(const Type data_[M][M]) : Matrix<Type, M, M>(data_) {}
	explicit SquareMatrix(const Type data_[M * M]) : Matrix<Type, M, M>(data_) {}
	SquareMatrix(const Matrix<Type, M, M> &other) : Matrix<Type, M, M>(other) {}
	template<size_t P, size_t Q>
	SquareMatrix(const Slice<Type, M, M, P, Q> &in_slice) : Matrix<Type, M, M>(in_slice) {}

	SquareMatrix<Type, M> &operator=(const Matrix<Type, M, M> &other) { Matrix<Type, M, M>::operator=(other); return *this; }
	template <size_t P, size_t Q>
	SquareMatrix<Type, M> &operator=(const Slice<Type, M, M, P, Q> &in_slice) { Matrix<Type, M, M>::operator=(Matrix<Type, M, M>(in_slice)); return *this; }

	inline SquareMatrix<Type, M> I() const { SquareMatrix<Type, M> i; if (inv(*this, i)) { return i; } i.setZero(); return i; }
	inline bool I(SquareMatrix<Type, M> &i) const { return inv(*this, i); }

	Vector<Type, M> diag() const
	{ Vector<Type, M> res; for (size_t i = 0; i < M; i++) { res(i) = (*this)(i, i); } return res; }
	Vector < Type, M *(M + 1) / 2 > upper_right_triangle() const
	{ Vector < Type, M *(M + 1) / 2 > res; unsigned idx = 0; for (size_t x = 0; x < M; x++) for (size_t y = x; y < M; y++) { res(idx++) = (*this)(x, y); } return res; }
	Type trace() const { Type res = 0; for (size_t i = 0; i < M; i++) { res += (*this)(i, i); } return res; }

	// zero all offdiagonal elements and keep corresponding diagonal elements
	template <size_t Width>
	void uncorrelateCovariance(size_t first)
	{
		SquareMatrix<Type, M> &self = *this;
		Vector<Type, Width> diag_elements = self.template slice<Width, Width>(first, first).diag();
		self.uncorrelateCovarianceSetVariance<Width>(first, diag_elements);
	}
	template <size_t Width>
	void uncorrelateCovarianceSetVariance(size_t first, const Vector<Type, Width> &vec)
	{
		SquareMatrix<Type, M> &self = *this;
		// zero rows and columns
		self.template slice<Width, M>(first, 0) = Type(0);
		self.template slice<M, Width>(0, first) = Type(0);
		// set diagonals
		unsigned vec_idx = 0;
		for (size_t idx = first; idx < first + Width; idx++) { self(idx, idx) = vec(vec_idx); vec_idx++; }
	}
	template <size_t Width>
	void uncorrelateCovarianceSetVariance(size_t first, Type val)
	{
		SquareMatrix<Type, M> &self = *this;
		self.template slice<Width, M>(first, 0) = Type(0);
		self.template slice<M, Width>(0, first) = Type(0);
		for (size_t idx = first; idx < first + Width; idx++) { self(idx, idx) = val; }
	}
	// make block diagonal symmetric by taking the average of the two corresponding off diagonal values
	template <size_t Width>
	void makeBlockSymmetric(size_t first)
	{
		SquareMatrix<Type, M> &self = *this;
		if (Width > 1) {
			for (size_t row_idx = first + 1; row_idx < first + Width; row_idx++) {
				for (size_t col_idx = first; col_idx < row_idx; col_idx++) {
					Type tmp = (self(row_idx, col_idx) + self(col_idx, row_idx)) / Type(2);
					self(row_idx, col_idx) = tmp;
					self(col_idx, row_idx) = tmp;
				}
			}
		}
	}
	// make rows and columns symmetric by taking the average of the two corresponding off diagonal values
	template <size_t Width>
	void makeRowColSymmetric(size_t first)
	{
		SquareMatrix<Type, M> &self = *this;
		self.makeBlockSymmetric<Width>(first);
		for (size_t row_idx = first; row_idx < first + Width; row_idx++) {
			for (size_t col_idx = 0; col_idx < first; col_idx++) {
				Type tmp = (self(row_idx, col_idx) + self(col_idx, row_idx)) / Type(2);
				self(row_idx, col_idx) = tmp; self(col_idx, row_idx) = tmp;
			}
			for (size_t col_idx = first + Width; col_idx < M; col_idx++) {
				Type tmp = (self(row_idx, col_idx) + self(col_idx, row_idx)) / Type(2);
				self(row_idx, col_idx) = tmp; self(col_idx, row_idx) = tmp;
			}
		}
	}
	template <size_t Width>
	bool isBlockSymmetric(size_t first, const Type eps = Type(1e-8f))
	{
		SquareMatrix<Type, M> &self = *this;
		for (size_t r = first + 1; r < first + Width; r++) for (size_t c = first; c < r; c++) { if (!isEqualF(self(r, c), self(c, r), eps)) { return false; } }
		return true;
	}
	template <size_t Width>
	bool isRowColSymmetric(size_t first, const Type eps = Type(1e-8f))
	{
		SquareMatrix<Type, M> &self = *this;
		for (size_t r = first; r < first + Width; r++) {
			for (size_t c = 0; c < first; c++) { if (!isEqualF(self(r, c), self(c, r), eps)) { return false; } }
			for (size_t c = first + Width; c < M; c++) { if (!isEqualF(self(r, c), self(c, r), eps)) { return false; } }
		}
		return self.isBlockSymmetric<Width>(first, eps);
	}
};

using SquareMatrix3f = SquareMatrix<float, 3>;
using SquareMatrix3d = SquareMatrix<double, 3>;

template<typename Type, size_t M> SquareMatrix<Type, M> eye() { SquareMatrix<Type, M> m; m.setIdentity(); return m; }
template<typename Type, size_t M> SquareMatrix<Type, M> diag(Vector<Type, M> d)
{ SquareMatrix<Type, M> m; for (size_t i = 0; i < M; i++) { m(i, i) = d(i); } return m; }
template<typename Type, size_t M> SquareMatrix<Type, M> expm(const Matrix<Type, M, M> &A, size_t order = 5)
{
	SquareMatrix<Type, M> res; SquareMatrix<Type, M> A_pow = A; res.setIdentity(); size_t i_factorial = 1;
	for (size_t i = 1; i <= order; i++) { i_factorial *= i; res += A_pow / Type(i_factorial); A_pow *= A; }
	return res;
}

// inverse based on LU factorization with partial pivotting
template<typename Type, size_t M>
bool inv(const SquareMatrix<Type, M> &A, SquareMatrix<Type, M> &inv, size_t rank)
{
	SquareMatrix<Type, M> L; L.setIdentity();
	SquareMatrix<Type, M> U = A;
	SquareMatrix<Type, M> P; P.setIdentity();
	// for all diagonal elements
	for (size_t n = 0; n < rank; n++) {
		// if diagonal is zero, swap with row below
		if (matrix::fabs(U(n, n)) < Type(FLT_EPSILON)) {
			for (size_t i = n + 1; i < rank; i++) {
				if (matrix::fabs(U(i, n)) > Type(FLT_EPSILON)) {
					U.swapRows(i, n); P.swapRows(i, n); L.swapRows(i, n); L.swapCols(i, n);
					break;
				}
			}
		}
		// failsafe, return zero matrix
		if (matrix::fabs(static_cast<float>(U(n, n))) < FLT_EPSILON) { return false; }
		// for all rows below diagonal
		for (size_t i = (n + 1); i < rank; i++) {
			L(i, n) = U(i, n) / U(n, n);
			// add i-th row and n-th row, multiplied by: -a(i,n)/a(n,n)
			for (size_t k = n; k < rank; k++) { U(i, k) -= L(i, n) * U(n, k); }
		}
	}
	// solve LY=P*I for Y by forward subst
	// for all columns of Y
	for (size_t c = 0; c < rank; c++) {
		for (size_t i = 0; i < rank; i++) {
			for (size_t j = 0; j < i; j++) { P(i, c) -= L(i, j) * P(j, c); }
		}
	}
	// solve Ux=y for x by back subst
	for (size_t c = 0; c < rank; c++) {
		for (size_t k = 0; k < rank; k++) {
			size_t i = rank - 1 - k;
			for (size_t j = i + 1; j < rank; j++) { P(i, c) -= U(i, j) * P(j, c); }
			P(i, c) /= U(i, i);
		}
	}
	// check sanity of results
	for (size_t i = 0; i < rank; i++) for (size_t j = 0; j < rank; j++) { if (!std::isfinite(P(i, j))) { return false; } }
	inv = P;
	return true;
}

template<typename Type>
bool inv(const SquareMatrix<Type, 2> &A, SquareMatrix<Type, 2> &inv)
{
	Type det = A(0, 0) * A(1, 1) - A(1, 0) * A(0, 1);
	if (matrix::fabs(static_cast<float>(det)) < FLT_EPSILON || !std::isfinite(det)) { return false; }
	inv(0, 0) = A(1, 1); inv(1, 0) = -A(1, 0); inv(0, 1) = -A(0, 1); inv(1, 1) = A(0, 0);
	inv /= det;
	return true;
}
template<typename Type>
bool inv(const SquareMatrix<Type, 3> &A, SquareMatrix<Type, 3> &inv)
{
	Type det = A(0, 0) * (A(1, 1) * A(2, 2) - A(2, 1) * A(1, 2)) -
		   A(0, 1) * (A(1, 0) * A(2, 2) - A(1, 2) * A(2, 0)) +
		   A(0, 2) * (A(1, 0) * A(2, 1) - A(1, 1) * A(2, 0));
	if (matrix::fabs(static_cast<float>(det)) < FLT_EPSILON || !std::isfinite(det)) { return false; }
	inv(0, 0) = A(1, 1) * A(2, 2) - A(2, 1) * A(1, 2);
	inv(0, 1) = A(0, 2) * A(2, 1) - A(0, 1) * A(2, 2);
	inv(0, 2) = A(0, 1) * A(1, 2) - A(0, 2) * A(1, 1);
	inv(1, 0) = A(1, 2) * A(2, 0) - A(1, 0) * A(2, 2);
	inv(1, 1) = A(0, 0) * A(2, 2) - A(0, 2) * A(2, 0);
	inv(1, 2) = A(1, 0) * A(0, 2) - A(0, 0) * A(1, 2);
	inv(2, 0) = A(1, 0) * A(2, 1) - A(2, 0) * A(1, 1);
	inv(2, 1) = A(2, 0) * A(0, 1) - A(0, 0) * A(2, 1);
	inv(2, 2) = A(0, 0) * A(1, 1) - A(1, 0) * A(0, 1);
	inv /= det;
	return true;
}
template<typename Type, size_t M> SquareMatrix<Type, M> inv(const SquareMatrix<Type, M> &A)
{ SquareMatrix<Type, M> i; if (inv(A, i)) { return i; } i.setZero(); return i; }
template<typename Type, size_t M> SquareMatrix<Type, M> geninv_square(const SquareMatrix<Type, M> &A) { return inv(A); }

template <typename Type, size_t M>
SquareMatrix<Type, M> cholesky(const SquareMatrix<Type, M> &A)
{
	SquareMatrix<Type, M> L;
	for (size_t j = 0; j < M; j++) {
		for (size_t i = j; i < M; i++) {
			if (i == j) {
				Type sum = 0;
				for (size_t k = 0; k < j; k++) { sum += L(j, k) * L(j, k); }
				Type res = A(j, j) - sum;
				if (res <= 0) { L(j, j) = 0; } else { L(j, j) = matrix::sqrt(res); }
			} else {
				Type sum = 0;
				for (size_t k = 0; k < j; k++) { sum += L(i, k) * L(j, k); }
				if (L(j, j) <= 0) { L(i, j) = 0; } else { L(i, j) = (A(i, j) - sum) / L(j, j); }
			}
		}
	}
	return L;
}
template <typename Type, size_t M>
SquareMatrix<Type, M> choleskyInv(const SquareMatrix<Type, M> &A) { SquareMatrix<Type, M> L_inv = inv(cholesky(A)); return L_inv.T() * L_inv; }

using Matrix3f = SquareMatrix<float, 3>;
using Matrix3d = SquareMatrix<double, 3>;
}
