// Force-included before every translation unit: adapts Eigen 3.4.0 to the
// newer Eigen API that Sleipnir uses. Contains no Sleipnir code.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <type_traits>
#ifndef SLP_SHIM_UNSORTED
#define SLP_SHIM_UNSORTED()                                           \
  do {                                                                \
    std::fprintf(stderr, "setFromSortedTriplets precondition\n");     \
    std::abort();                                                     \
  } while (0)
#endif
inline void slp_shim_unsorted_triplets() { SLP_SHIM_UNSORTED(); }
#define EIGEN_MATRIXBASE_PLUGIN "eigen_dense_plugin.inc"
#define EIGEN_SPARSEMATRIX_PLUGIN "eigen_sparse_plugin.inc"
#include <Eigen/Core>
#include <Eigen/SparseCore>
namespace Eigen {
template <typename A, typename B>
auto operator*(const DiagonalBase<A>& a, const DiagonalBase<B>& b) {
  using S = typename A::Scalar;
  Matrix<S, Dynamic, 1> d = a.diagonal().cwiseProduct(b.diagonal());
  return DiagonalMatrix<S, Dynamic>(d);
}
}  // namespace Eigen
namespace slp {
template <typename Scalar>
class Variable;
namespace shim {
template <typename T>
struct is_var : std::false_type {};
template <typename S>
struct is_var<Variable<S>> : std::true_type {};
}  // namespace shim
// Exact comparison, as newer Eigen's numext::is_exactly_zero() does.
template <typename L, typename R>
  requires(shim::is_var<std::decay_t<L>>::value &&
           shim::is_var<std::decay_t<R>>::value)
bool operator!=(L&& l, R&& r) {
  auto a = l;
  auto b = r;
  return a.value() != b.value();
}
}  // namespace slp
