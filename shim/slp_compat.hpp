// Pre-included (-include) before /repo's headers: what /repo uses of newer
// Eigen/gch that this sandbox lacks.  Never part of the verified text.
#pragma once
#include <concepts>
#include <type_traits>
#include <Eigen/Core>
#include <Eigen/SparseCore>
namespace Eigen {
template <typename A, typename B>
DiagonalMatrix<typename A::Scalar, Dynamic> operator*(const DiagonalBase<A>& a, const DiagonalBase<B>& b) {
  return DiagonalMatrix<typename A::Scalar, Dynamic>(a.derived().diagonal().cwiseProduct(b.derived().diagonal()).eval());
}
}  // namespace Eigen
namespace slp {
template <typename Scalar> class Variable;
template <typename L, typename R>
  requires(std::same_as<std::remove_cvref_t<L>, Variable<double>> &&
           std::same_as<std::remove_cvref_t<R>, Variable<double>>)
bool operator!=(L&& a, R&& b) {
  return !static_cast<bool>(a == b);
}
}  // namespace slp
