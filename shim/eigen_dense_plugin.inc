// Eigen 3.4.0 lacks the multi-argument subscript operator of the Eigen version
// Sleipnir targets; this adds it, forwarding to operator()(row, col).
using Base::operator[];
EIGEN_DEVICE_FUNC EIGEN_STRONG_INLINE CoeffReturnType operator[](Index row, Index col) const { return this->derived().operator()(row, col); }
template <typename SlpShimD = Derived>
EIGEN_DEVICE_FUNC EIGEN_STRONG_INLINE decltype(auto) operator[](Index row, Index col) { return this->derived().operator()(row, col); }
auto cwiseGreater(const Scalar& s) const { return (this->derived().array() > s).matrix(); }
auto cwiseGreaterOrEqual(const Scalar& s) const { return (this->derived().array() >= s).matrix(); }
auto cwiseLess(const Scalar& s) const { return (this->derived().array() < s).matrix(); }
auto cwiseLessOrEqual(const Scalar& s) const { return (this->derived().array() <= s).matrix(); }
auto cwiseSquare() const { return this->derived().cwiseProduct(this->derived()); }
