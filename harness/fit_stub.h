// What a nonlinear solver sees of a fitting problem. The stand-ins of the solver libraries build one of these and
// hand it to the harness, which plays the part of the solver.
#pragma once
#include <cstddef>
struct Objective {
  int n, m; bool scalar; double* x;            // parameters, residuals (or a single sum of squares), parameters in and out
  const double *lo, *hi;                       // bounds handed to the solver, if any
  Objective() : n(0), m(0), scalar(false), x(NULL), lo(NULL), hi(NULL) {}
  virtual ~Objective() {}
  // y: m residuals, jac: m rows of n derivatives or null; false when the point is rejected
  virtual bool eval(const double* p, double* y, double* jac) = 0;
};
int solver_run(Objective& o); // status for the library
