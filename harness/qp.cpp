// The quadratic programming solver: minimises x.x/2 + g.x under CI^T x + ci >= 0.
#include "sym.h"
#include <QuadProg++.hh>
#include <cmath>
#include <limits>
#include <algorithm>
#include <string>
#include <vector>
using namespace Eigen;
typedef QuadProgPP::Scheduling Sched;
static std::string nm(const char* p, int a) { std::string s(p); s += (char)('0' + a); return s; }
static const double TOL = 1e-9;
// directions whose orthogonal frames are rational
static const double DIR[10][2] = { {1, 0}, {0, 1}, {-1, 0}, {0, -1}, {3, 4}, {-3, -4}, {-4, 3}, {4, -3}, {1, 0}, {2, 0} };
static const double DIR3[8][3] = { {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-12, -3, -4}, {0, 3, 4}, {-1, 0, 0}, {0, -4, -3}, {-3, 0, -4} };
static struct { int n, m; MatrixXd CI; VectorXd ci, g, x; MatrixXd L; } Q;
static double slack(const VectorXd& y, int j) { double s = Q.ci[j]; for(int i = 0; i < Q.n; ++i) s += Q.CI(i, j) * y[i]; return s; }
// half of |L^T y|^2 plus g.y
static double energy(const VectorXd& y) { double e = 0; for(int i = 0; i < Q.n; ++i) { double t = 0; for(int k = i; k < Q.n; ++k) t += Q.L(k, i) * y[k]; e += 0.5 * t * t + Q.g[i] * y[i]; } return e; }
static void problem(int n, int m) {
  Q.n = n; Q.m = m; Q.CI = MatrixXd(n, m); Q.ci = VectorXd(m); Q.g = VectorXd(n); Q.x = VectorXd(n);
  for(int j = 0; j < m; ++j) {
    if(n == 1) {
#ifdef QP_SCALED
      double a = sym_range(nm("a", j).c_str(), 0.5, 2.0);
#else
      double a = j % 2 ? 2.0 : 1.0;
#endif
      Q.CI(0, j) = sym_choice(nm("sign", j).c_str(), 2) ? -a : a; }
    else if(n == 3) { int d = (int)sym_choice(nm("axis", j).c_str(), 8); for(int i = 0; i < n; ++i) Q.CI(i, j) = DIR3[d][i]; }
    else { int d = (int)sym_choice(nm("dir", j).c_str(), 10); for(int i = 0; i < n; ++i) Q.CI(i, j) = DIR[d][i]; }
    Q.ci[j] = sym_range(nm("c", j).c_str(), -10.0, 10.0);
  }
  Q.L = MatrixXd::Identity(n, n);
  if(n == 2) if(sym_choice("metric", 2)) { Q.L(0, 0) = 2; Q.L(1, 0) = 1; Q.L(1, 1) = 2; }
  for(int i = 0; i < n; ++i) Q.g[i] = sym_range(nm("g", i).c_str(), -10.0, 10.0);
}
static Sched schedule() {
  Sched s; int k = (int)sym_choice("schedule", 6);
  if(k == 1) s.initSlidingWindows(Q.n, Q.m);
  if(k == 2) { s.initSlidingWindows(Q.n, Q.m); s.grow_factor = 2; }
  if(k == 3) { s.initSlidingWindows(Q.n, Q.m); s.grow_factor = 1.5; }
  if(k == 4) s.initWorstSetFirst(Q.n, Q.m);
  if(k == 5) { s.initWorstSetFirst(Q.n, Q.m); s.initial_chunk_size = 1; }
  return s;
}
// the conditions of Karush, Kuhn and Tucker: the gradient is a positive combination of independent directions of active constraints
static bool optimal() {
  const int n = Q.n; VectorXd d(n); for(int i = 0; i < n; ++i) { d[i] = Q.g[i]; for(int j = 0; j < n; ++j) { double a = 0; for(int k = 0; k < n; ++k) a += Q.L(i, k) * Q.L(j, k); d[i] += a * Q.x[j]; } }
  bool some = false;
  for(int set = 0; set < (1 << Q.m); ++set) {
    int id[4], c = 0; for(int j = 0; j < Q.m; ++j) if(set >> j & 1) { if(c == n) { c = n + 1; break; } id[c++] = j; }
    if(c > n) continue;
    // elimination on the directions, which are constants
    double A[3][3], b[3], l[3] = { 0, 0, 0 }; for(int i = 0; i < n; ++i) { b[i] = d[i]; for(int k = 0; k < c; ++k) A[i][k] = Q.CI(i, id[k]); }
    bool independent = true;
    for(int k = 0; k < c && independent; ++k) {
      int r = -1; for(int i = k; i < n; ++i) if(r < 0 && std::fabs(A[i][k]) > 1e-12) r = i;
      if(r < 0) { independent = false; break; }
      for(int j = 0; j < c; ++j) std::swap(A[r][j], A[k][j]); std::swap(b[r], b[k]);
      for(int i = k + 1; i < n; ++i) { double f = A[i][k] / A[k][k]; for(int j = k; j < c; ++j) A[i][j] -= f * A[k][j]; b[i] = b[i] - f * b[k]; }
    }
    if(!independent) continue;
    bool ok = true; for(int i = c; i < n; ++i) ok = ok & (std::fabs(b[i]) <= 1e-7);
    for(int k = c - 1; k >= 0; --k) { double v = b[k]; for(int j = k + 1; j < c; ++j) v = v - A[k][j] * l[j]; l[k] = v / A[k][k]; ok = ok & (l[k] >= -1e-7) & (std::fabs(slack(Q.x, id[k])) <= 1e-7); }
    some = some | ok;
  }
  return some;
}
static void verify(double cost) {
  double inf = std::numeric_limits<double>::infinity();
  sym_check(cost != std::numeric_limits<double>::max(), "the solver does not give up");
  // any point satisfying the constraints
  VectorXd y(Q.n); for(int i = 0; i < Q.n; ++i) y[i] = sym_range(nm("y", i).c_str(), -100.0, 100.0);
  bool feasible = true; for(int j = 0; j < Q.m; ++j) feasible = feasible & (slack(y, j) >= 0.0);
  if(cost == inf) { sym_check(!feasible, "programs that have a solution are not refused"); sym_reach("infeasible"); return; }
  for(int j = 0; j < Q.m; ++j) sym_check(slack(Q.x, j) >= -TOL, "the solution satisfies every constraint");
  sym_check_eq(cost, energy(Q.x), "the cost is the one of the solution");
  if(Q.n >= 2) sym_check(optimal(), "no other point costs less"); else if(feasible) sym_check(energy(Q.x) <= energy(y), "no other point costs less");
  sym_reach("solved");
}
HARNESS(h_solve) {
  int n = 1 + (int)sym_choice("n", 3), m = 1 + (int)sym_choice("m", 4); problem(n, m);
  if(n == 3) {   // the first three constraints are violated at the start, by different amounts; others are not
    static const int ORDER[6][3] = { {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0} }; const int* o = ORDER[sym_choice("order", 6)];
    VectorXd x0 = -Q.g; bool ok = slack(x0, o[0]) < slack(x0, o[1]) - 0.1; if(m > 2) ok = ok & (slack(x0, o[1]) < slack(x0, o[2]) - 0.1) & (slack(x0, o[2]) < -0.1);
    for(int j = 3; j < m; ++j) ok = ok & (slack(x0, j) > 0.1); sym_assume(ok);
  }
  MatrixXd CE = MatrixXd::Zero(n, 0); VectorXd ce = VectorXd::Zero(0);
  double cost;
  if(sym_choice("direct", 2)) { MatrixXd G(n, n); for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) { G(i, j) = 0; for(int k = 0; k < n; ++k) G(i, j) += Q.L(i, k) * Q.L(j, k); } cost = QuadProgPP::solve_quadprog(G, Q.g, CE, ce, Q.CI, Q.ci, Q.x); }
  else {
    // the guess is the minimum without constraints
    double t[3]; for(int i = 0; i < n; ++i) { t[i] = -Q.g[i]; for(int k = 0; k < i; ++k) t[i] -= Q.L(i, k) * t[k]; t[i] /= Q.L(i, i); }
    for(int i = n - 1; i >= 0; --i) { for(int k = i + 1; k < n; ++k) t[i] -= Q.L(k, i) * t[k]; t[i] /= Q.L(i, i); Q.x[i] = t[i]; }
    cost = QuadProgPP::solve_quadprog_with_guess(Q.L, Q.g, CE, ce, Q.CI, Q.ci, Q.x, schedule()); }
  verify(cost);
}
