// Dense solvers played by the harness
#pragma once
#include <Eigen/Dense>
#include <Eigen/SVD>
extern "C" { int hook_eigen(int n, const double* m, double* values, double* vectors); void hook_least_squares(int rows, int cols, const double* a, const double* b, double* x); }
namespace Eigen {
template<> class SelfAdjointEigenSolver<MatrixXd> {
  VectorXd _values; MatrixXd _vectors; bool _ok;
public:
  typedef MatrixXd MatrixType; typedef VectorXd RealVectorType; typedef MatrixXd EigenvectorsType;
  SelfAdjointEigenSolver() : _ok(false) {}
  explicit SelfAdjointEigenSolver(Index n) : _ok(false) {}
  template<class D> explicit SelfAdjointEigenSolver(const EigenBase<D>& m, int = ComputeEigenvectors) { compute(m); }
  template<class D> SelfAdjointEigenSolver& compute(const EigenBase<D>& m, int = ComputeEigenvectors) { MatrixXd a = m.derived(); int n = a.rows(); _values.resize(n); _vectors.resize(n, n); _ok = hook_eigen(n, a.data(), _values.data(), _vectors.data()); return *this; }
  const VectorXd& eigenvalues() const { return _values; }
  const MatrixXd& eigenvectors() const { return _vectors; }
  ComputationInfo info() const { return _ok ? Success : NoConvergence; }
};
template<> class ColPivHouseholderQR<MatrixXd> {
  MatrixXd _a;
public:
  typedef MatrixXd MatrixType; typedef MatrixXd PlainObject;
  ColPivHouseholderQR() {}
  template<class D> explicit ColPivHouseholderQR(const EigenBase<D>& m) : _a(m.derived()) {}
  template<class D> ColPivHouseholderQR& compute(const EigenBase<D>& m) { _a = m.derived(); return *this; }
  template<class D> VectorXd solve(const MatrixBase<D>& b) const { VectorXd v = b, x(_a.cols()); hook_least_squares(_a.rows(), _a.cols(), _a.data(), v.data(), x.data()); return x; }
};
}
