// Eigen 3.4 lacks the two-argument operator[] that /repo uses (newer Eigen).
using Base::operator[];
EIGEN_STRONG_INLINE CoeffReturnType operator[](Index row, Index col) const { return Eigen::internal::evaluator<Derived>(derived()).coeff(row, col); }
EIGEN_STRONG_INLINE typename Eigen::internal::conditional<bool(Eigen::internal::is_lvalue<Derived>::value), typename Eigen::internal::traits<Derived>::Scalar&, CoeffReturnType>::type operator[](Index row, Index col) { return derived().coeffRef(row, col); }
template <typename OtherDerived>
EIGEN_STRONG_INLINE auto cwiseGreater(const Eigen::MatrixBase<OtherDerived>& other) const {
  return CwiseBinaryOp<Eigen::internal::scalar_cmp_op<Scalar, Scalar, Eigen::internal::cmp_GT>, const Derived, const OtherDerived>(derived(), other.derived());
}
EIGEN_STRONG_INLINE auto cwiseGreater(const Scalar& s) const {
  return cwiseGreater(Derived::Constant(rows(), cols(), s));
}
EIGEN_STRONG_INLINE auto cwiseSquare() const {
  return CwiseUnaryOp<Eigen::internal::scalar_square_op<Scalar>, const Derived>(derived());
}
