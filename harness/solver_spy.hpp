// Replaces the three solvers, for the harness scalar only, by recorders: the
// problem front end runs unmodified and hands its callbacks to the harness.
#pragma once
#include "jet.hpp"

#include <sleipnir/optimization/problem.hpp>

namespace std::chrono {
template <>
struct treat_as_floating_point<symx::S> : true_type {};
}  // namespace std::chrono

using DV = Eigen::Vector<S, Eigen::Dynamic>;
using SM = Eigen::SparseMatrix<S>;
using SV = Eigen::SparseVector<S>;
using IPC = slp::InteriorPointMatrixCallbacks<S>;
using SQC = slp::SQPMatrixCallbacks<S>;
using NWC = slp::NewtonMatrixCallbacks<S>;
using Info = slp::IterationInfo<S>;
using CBs = std::span<std::function<bool(const Info&)>>;

struct SolverSpy {
  int calls = 0, kind = 0;  // 1 Newton, 2 SQP, 3 interior point
  std::function<slp::ExitStatus(const NWC&, CBs, const slp::Options&, DV&)> newton;
  std::function<slp::ExitStatus(const SQC&, CBs, const slp::Options&, DV&)> sqp;
  std::function<slp::ExitStatus(const IPC&, CBs, const slp::Options&, DV&)> ip;
  void reset() { *this = SolverSpy{}; }
};
inline SolverSpy spy;

namespace slp {
template <>
inline ExitStatus newton<S>(const NWC& m, CBs cb, const Options& o, DV& x) {
  ++spy.calls;
  spy.kind = 1;
  return spy.newton ? spy.newton(m, cb, o, x) : ExitStatus::SUCCESS;
}
template <>
inline ExitStatus sqp<S>(const SQC& m, CBs cb, const Options& o, DV& x) {
  ++spy.calls;
  spy.kind = 2;
  return spy.sqp ? spy.sqp(m, cb, o, x) : ExitStatus::SUCCESS;
}
template <>
inline ExitStatus interior_point<S>(const IPC& m, CBs cb, const Options& o, DV& x) {
  ++spy.calls;
  spy.kind = 3;
  return spy.ip ? spy.ip(m, cb, o, x) : ExitStatus::SUCCESS;
}
}  // namespace slp
