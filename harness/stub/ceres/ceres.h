// Stand-in for the Ceres solver.
#pragma once
#include <vector>
#include <string>
#include <cstdint>
#include "../../fit_stub.h"
namespace ceres {
typedef int int32;
enum LinearSolverType { DENSE_NORMAL_CHOLESKY, DENSE_QR, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, SPARSE_SCHUR, ITERATIVE_SCHUR, CGNR };
enum TerminationType { CONVERGENCE, NO_CONVERGENCE, FAILURE, USER_SUCCESS, USER_FAILURE };
enum MinimizerType { LINE_SEARCH, TRUST_REGION };
class CostFunction { std::vector<int32_t> sizes; int res; public:
  CostFunction() : res(0) {} virtual ~CostFunction() {}
  virtual bool Evaluate(double const* const* parameters, double* residuals, double** jacobians) const = 0;
  const std::vector<int32_t>& parameter_block_sizes() const { return sizes; }
  int num_residuals() const { return res; }
protected:
  std::vector<int32_t>* mutable_parameter_block_sizes() { return &sizes; }
  void set_num_residuals(int n) { res = n; }
};
class LossFunction {};
struct Problem { std::vector<CostFunction*> costs; double* x; bool ok;
  Problem() : x(0), ok(true) {} ~Problem() { for(size_t i = 0; i < costs.size(); ++i) delete costs[i]; }
  void* AddResidualBlock(CostFunction* c, LossFunction* l, double* p) { if(l || (x && x != p) || c->parameter_block_sizes().size() != 1) ok = false; x = p; costs.push_back(c); return c; }
  int NumResidualBlocks() const { return (int)costs.size(); }
};
struct Solver {
  struct Options { int max_num_iterations; LinearSolverType linear_solver_type; MinimizerType minimizer_type; bool minimizer_progress_to_stdout; double function_tolerance, gradient_tolerance, parameter_tolerance; int num_threads;
    Options() : max_num_iterations(50), linear_solver_type(DENSE_QR), minimizer_type(TRUST_REGION), minimizer_progress_to_stdout(false), function_tolerance(1e-6), gradient_tolerance(1e-10), parameter_tolerance(1e-8), num_threads(1) {} };
  struct Summary { TerminationType termination_type; std::string message; Summary() : termination_type(FAILURE) {}
    bool IsSolutionUsable() const { return termination_type == CONVERGENCE || termination_type == NO_CONVERGENCE || termination_type == USER_SUCCESS; }
    std::string BriefReport() const { return ""; } std::string FullReport() const { return ""; } };
};
struct CeresObjective : Objective { Problem* p;
  bool eval(const double* q, double* y, double* jac) {
    int r = 0; for(size_t k = 0; k < p->costs.size(); ++k) { const double* blocks[1] = { q }; double* J[1] = { jac ? jac + r * n : 0 };
      if(!p->costs[k]->Evaluate(blocks, y + r, jac ? J : 0)) return false;
      r += p->costs[k]->num_residuals(); }
    return true;
  } };
Solver::Options& last_options();
inline void Solve(const Solver::Options& o, Problem* p, Solver::Summary* s) {
  CeresObjective b; b.p = p; b.x = p->x; b.n = p->costs.empty() ? 0 : p->costs[0]->parameter_block_sizes()[0]; for(size_t k = 0; k < p->costs.size(); ++k) b.m += p->costs[k]->num_residuals();
  last_options() = o; s->termination_type = (TerminationType)solver_run(b);
}
}
