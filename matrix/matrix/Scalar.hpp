#pragma once
#include "Matrix.hpp"
namespace matrix
{
template<typename Type>
class Scalar
{
public:
	Scalar() = delete;
	Scalar(const Matrix<Type, 1, 1> &other) : _value{other(0, 0)} {}
	Scalar(Type other) : _value(other) {}
	operator const Type &() { return _value; }
	operator Matrix<Type, 1, 1>() const { Matrix<Type, 1, 1> m; m(0, 0) = _value; return m; }
private:
	Type _value;
};
using Scalarf = Scalar<float>;
}
