// Rational fitters: the programs handed to the solvers and what is made of their answers.
#include "sym.h"
#include <core/common.h>
#include <core/params.h>
#include <core/args.h>
#include <core/data.h>
#include <core/function.h>
#include <core/rational_function.h>
#include <core/fitter.h>
#include <core/vertical_segment.h>
#include <sstream>
#include <cmath>
#include <string>
#include <vector>
#include <limits>
using namespace alta;
extern "C" fitter* provide_fitter();
static std::string nm(const char* p, int a, int b = -1) { std::string s(p); s += (char)('0' + a); if(b >= 0) { s += (char)('0' + b / 10); s += (char)('0' + b % 10); } return s; }
static void release(double* p) { delete[] p; }
// samples with their intervals; abscissas increase
static struct { int dx, dy, m; std::vector<double> x, y, lo, hi; ptr<data> d; } D;
static double t_of(int s) { return 2.0 * (D.x[s] - D.x[0]) / (D.x[D.m - 1] - D.x[0]) - 1.0; }
static double least = -3.0;
static void samples(int m, int dy, vertical_segment::ci_kind kind = vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL, bool vs = true) {
  D.dx = 1; D.dy = dy; D.m = m; D.x.resize(m); D.y = D.lo = D.hi = std::vector<double>(m * dy);
  double x0 = sym_range("x0", -1.0, 1.0), w = sym_range("width", 0.5, 2.0);
  for(int s = 0; s < m; ++s) D.x[s] = s == 0 ? x0 : s == m - 1 ? x0 + w : x0 + w * sym_range(nm("r", s).c_str(), 0.1 + 0.2 * s, 0.2 + 0.2 * s);
  int cols = 1 + dy + (kind == vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL ? 2 * dy : kind == vertical_segment::NO_CONFIDENCE_INTERVAL ? 0 : dy);
  double* c = new double[m * cols];
  for(int s = 0; s < m; ++s) { c[s * cols] = D.x[s];
    for(int y = 0; y < dy; ++y) {
      double v = sym_range(nm("y", s, y).c_str(), least, 3.0), l = v - sym_range(nm("below", s, y).c_str(), 0.01, 0.4), u = v + sym_range(nm("above", s, y).c_str(), 0.01, 0.4);
      D.y[s * dy + y] = v; D.lo[s * dy + y] = l; D.hi[s * dy + y] = u;
      c[s * cols + 1 + y] = v;
      if(kind == vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL) { c[s * cols + 1 + dy + y] = l; c[s * cols + 1 + 2 * dy + y] = u; }
    } }
  D.d = ptr<data>(new vertical_segment(alta::parameters(1, dy, params::COS_TH, params::INV_STERADIAN), m, std::shared_ptr<double>(c, release), kind));
}
static double power(double t, int k) { double r = 1; while(k-- > 0) r = r * t; return r; }
static ptr<rational_function> R() { return ptr<rational_function>(new rational_function(alta::parameters(1, D.dy, params::COS_TH, params::INV_STERADIAN))); }
static std::string num(int v) { return std::string(1, (char)('0' + v)); }

#if defined(FIT_quadprog) || defined(FIT_parallel)
#include <QuadProg++.hh>
// The solver is played by the harness: 0 infeasible, 1 solved, 2 gives up without a solution
struct Call { int n, m, status; std::vector<double> x; };
static std::vector<Call> calls; static int wish = -1; static bool probe_rows = true, plain_norm = true; static std::vector<int> plan;
static double answer(Eigen::Ref<const Eigen::VectorXd> g, int ne, Eigen::Ref<const Eigen::MatrixXd> CI, Eigen::Ref<const Eigen::VectorXd> ci, Eigen::Ref<Eigen::VectorXd> x) {
  int n = CI.rows(), m = CI.cols(), k = (int)calls.size(); Call c; c.n = n; c.m = m; c.x.resize(n);
  sym_check(ne == 0 && g.size() == n && ci.size() == m && x.size() == n, "sizes of the quadratic program");
  for(int i = 0; i < n; ++i) sym_check_eq(g[i], 0.0, "the program has no linear term");
  c.status = k < (int)plan.size() ? plan[k] : (int)sym_choice("answer", 3);
  for(int i = 0; i < n; ++i) { double v = sym_range(nm("s", k, i).c_str(), -50.0, 50.0); if(c.status != 0) x[i] = v; c.x[i] = v; }
  if(c.status == 1) {
    // a solution has CI x + ci >= 0; with ci < 0 this implies CI x > 0, which is all that is assumed of it:
    // conversely such an x gives a solution when it is scaled, and scaling does not change the function
    double scale = 1.0;
    for(int j = 0; j < m; ++j) {
      double s = 0; for(int i = 0; i < n; ++i) s += CI(i, j) * x[i];
      sym_check(ci[j] < 0.0, "the constraints keep a distance to the bounds");
      sym_assume(s > 0.0); if(!sym_is_symbolic()) scale = std::max(scale, -1.001 * ci[j] / s); }
    if(!sym_is_symbolic()) for(int i = 0; i < n; ++i) { x[i] *= scale; c.x[i] = x[i]; }
  }
  calls.push_back(c);
  return c.status == 0 ? std::numeric_limits<double>::infinity() : c.status == 1 ? 1.0 : std::numeric_limits<double>::max();
}
static void norm_matrix(Eigen::Ref<Eigen::MatrixXd> G) { if(plain_norm) for(int i = 0; i < G.rows(); ++i) for(int j = 0; j < G.cols(); ++j) sym_check_eq(G(i, j), i == j ? 1.0 : 0.0, "the program minimises the norm of the coefficients"); else for(int i = 0; i < G.rows(); ++i) for(int j = 0; j < i; ++j) sym_check_eq(G(i, j), G(j, i), "symmetric program"); }
namespace QuadProgPP {
void init_qp(Ref<MatrixXd> G) { norm_matrix(G); }
double solve_quadprog(Ref<MatrixXd> G, Ref<const VectorXd> g, Ref<const MatrixXd> CE, Ref<const VectorXd>, Ref<const MatrixXd> CI, Ref<const VectorXd> ci, Ref<VectorXd> x) { norm_matrix(G); return answer(g, CE.cols(), CI, ci, x); }
double solve_quadprog_with_guess(Ref<const MatrixXd>, Ref<const VectorXd> g, Ref<const MatrixXd> CE, Ref<const VectorXd>, Ref<const MatrixXd> CI, Ref<const VectorXd> ci, Ref<VectorXd> x, Scheduling s, VectorXi* active) {
  sym_check(s.mode == Scheduling::WorstFirst || ((s.initial_chunk_size >= 1) & (s.initial_chunk_size <= CI.cols())), "size of the first set of constraints");
  for(int i = 0; i < x.size(); ++i) sym_check_eq(x[i], 0.0, "the solver starts from the minimum without constraints");
  if(active) *active = VectorXi::Zero(0); return answer(g, CE.cols(), CI, ci, x); }
}
static void inside(const rational_function& r) {
  for(int s = 0; s < D.m; ++s) { vec x(1); x[0] = D.x[s]; vec v = r.value(x);
    for(int y = 0; y < D.dy; ++y) { sym_check(v[y] >= D.lo[s * D.dy + y], "the function is above the lower bound of every sample"); sym_check(v[y] <= D.hi[s * D.dy + y], "the function is below the upper bound of every sample"); } }
}
#endif
#ifdef FIT_quadprog
HARNESS(h_intervals) {
  int np = 1 + (int)sym_choice("np", 2), nq = 1 + (int)sym_choice("nq", 2), dy = 1 + (int)sym_choice("dy", 2), m = 2 + (int)sym_choice("m", 2);
  samples(m, dy); ptr<rational_function> r = R(); ptr<function> f = r;
  arguments a; a.update("np", num(np)); a.update("nq", num(nq));
  int mode = (int)sym_choice("mode", 4); if(mode == 1) a.update("scheduling-mode", "WorstSetFirst"); if(mode == 3) a.update("scheduling-chunk-size", "9"); if(mode == 2) { a.update("add-ls-energy", ""); plain_norm = false; }
  ptr<fitter> t(provide_fitter()); t->set_parameters(a);
  bool ok = t->fit_data(D.d, f, a), all = true;
  for(size_t k = 0; k < calls.size(); ++k) { sym_check(calls[k].n == np + nq && calls[k].m == 2 * m, "one pair of constraints per sample"); if(calls[k].status != 1) all = false; }
  sym_check((int)calls.size() == dy || !all, "one program per channel");
  sym_check(ok == all, "a fit succeeds when the program of every channel is solved");
  if(ok) { inside(*r); for(int y = 0; y < dy; ++y) sym_check(r->get(y)->getP().size() == np && r->get(y)->getQ().size() == nq, "number of coefficients"); }
  sym_reach("intervals");
}
// the sizes tried, up to the first that has a solution
HARNESS(h_sizes) {
  int a0 = 1 + (int)sym_choice("min_np", 2), b0 = 1 + (int)sym_choice("min_nq", 2), a1 = a0 + (int)sym_choice("more_np", 3), b1 = b0 + (int)sym_choice("more_nq", 3);
  samples(2, 1); ptr<rational_function> r = R(); ptr<function> f = r;
  arguments a; a.update("np", num(a1)); a.update("nq", num(b1)); a.update("min-np", num(a0)); a.update("min-nq", num(b0));
  int tries = std::max(a1 - a0, b1 - b0) + 1, win = (int)sym_choice("solved", 4); sym_assume(win <= tries);
  for(int k = 0; k < tries; ++k) plan.push_back(k == win ? 1 : 0);
  ptr<fitter> t(provide_fitter()); t->set_parameters(a);
  bool ok = t->fit_data(D.d, f, a);
  sym_check(ok == (win < tries), "the fit succeeds with the first size that has a solution");
  sym_check((int)calls.size() == (ok ? win + 1 : tries), "all the sizes are tried");
  for(int k = 0; k < (int)calls.size(); ++k) sym_check(calls[k].n == std::min(a0 + k, a1) + std::min(b0 + k, b1), "sizes grow by one coefficient");
  if(ok) { sym_check(r->get(0)->getP().size() == std::min(a0 + win, a1) && r->get(0)->getQ().size() == std::min(b0 + win, b1), "size of the solution"); inside(*r); }
  sym_reach("sizes");
}
#endif
#ifdef FIT_parallel
static arguments options(int lo, int hi) { arguments a; a.update("min-np", num(lo)); a.update("np", num(hi)); a.update("nb-cores", "1"); return a; }
// what the fitter should keep: the best of the solutions of the first total size that has one
HARNESS(h_best) {
  int lo = 2 + (int)sym_choice("min", 2), hi = lo + (int)sym_choice("more", 2), dy = 1 + (int)sym_choice("dy", 2);
  least = 0.5; samples(2, dy); ptr<rational_function> r = R(); ptr<function> f = r; arguments a = options(lo, hi);
  ptr<fitter> t(provide_fitter()); t->set_parameters(a); bool ok = t->fit_data(D.d, f, a);
  // candidates
  size_t c = 0; bool found = false; double best = 0; std::vector<ptr<rational_function> > cand;
  for(int n = lo; n <= hi && !found; ++n) for(int q = 1; q < n; ++q) {
    ptr<rational_function> k = R(); k->setMin(D.d->min()); k->setMax(D.d->max()); k->setSize(n - q, q); bool solved = true;
    for(int y = 0; y < dy && solved; ++y) {
      sym_check(c < calls.size(), "every size is tried"); if(c >= calls.size()) return;
      const Call& z = calls[c++]; sym_check(z.n == n && z.m == 2 * D.m, "size of the program");
      if(z.status != 1) { solved = false; break; }
      vec p(n - q), d(q); for(int i = 0; i < n - q; ++i) p[i] = z.x[i]; for(int i = 0; i < q; ++i) d[i] = z.x[n - q + i];
      k->get(y)->resize(n - q, q); k->get(y)->update(p, d);
    }
    if(solved) { cand.push_back(k); found = true; }
  }
  sym_check(c == calls.size(), "the search stops at the first total size that has a solution");
  sym_check(ok == found, "the fit succeeds when a program is solved");
  if(!ok || !found) { sym_reach("best"); return; }
  inside(*r);
  double l = r->L2_distance(D.d); bool one = false;
  for(size_t k = 0; k < cand.size(); ++k) {
    sym_check(l <= cand[k]->L2_distance(D.d), "the solution closest to the data is kept");
    bool same = true; for(int y = 0; y < dy; ++y) { vec p = cand[k]->get(y)->getP(), q = cand[k]->get(y)->getQ(), u = r->get(y)->getP(), v = r->get(y)->getQ();
      if(p.size() != u.size() || q.size() != v.size()) { same = false; break; }
      for(int i = 0; i < p.size(); ++i) same = same & (p[i] == u[i]); for(int i = 0; i < q.size(); ++i) same = same & (q[i] == v[i]); }
    one = one | same;
  }
  sym_check(one, "the function is one of the solutions");
  sym_reach("best");
}
// the search starts from some of the samples and adds the ones that are missed
HARNESS(h_adaptive) {
  int m = 2 + (int)sym_choice("m", 3), start = 1 + (int)sym_choice("start", 3); samples(m, 1); ptr<rational_function> r = R(); ptr<function> f = r; arguments a = options(2, 2); a.update("nb-starting-points", num(start));
  ptr<fitter> t(provide_fitter()); t->set_parameters(a); bool ok = t->fit_data(D.d, f, a);
  bool solved = !calls.empty(); for(size_t k = 0; k < calls.size(); ++k) { if(calls[k].status != 1) { solved = false; sym_check(k + 1 == calls.size(), "the search stops when a program has no solution"); } if(k) sym_check(calls[k].m == calls[k - 1].m + 2, "each step adds a sample"); }
  if(m > start + 1 && start > 1) sym_check(calls[0].m < 2 * m, "the search starts from the requested number of samples");
  sym_check(ok == solved, "the search succeeds when its last program is solved");
  if(ok) inside(*r);
  sym_reach("adaptive");
}
// data without intervals get relative ones
HARNESS(h_convert) {
  int dy = 1 + (int)sym_choice("dy", 2); bool sized = sym_choice("dt", 2); double dt = 0.1;
  samples(2, dy, vertical_segment::NO_CONFIDENCE_INTERVAL); ptr<rational_function> r = R(); ptr<function> f = r; arguments a = options(2, 2);
  if(sized) { dt = 0.25; a.update("dt", "0.25"); }
  for(int i = 0; i < 2 * dy; ++i) { double w = (D.y[i] < 0.0 ? -D.y[i] : D.y[i]) * dt + 1e-6; D.lo[i] = D.y[i] - w; D.hi[i] = D.y[i] + w; }
  for(int i = 0; i < dy; ++i) plan.push_back(1);
  ptr<fitter> t(provide_fitter()); t->set_parameters(a); sym_check(t->fit_data(D.d, f, a), "fit");
  inside(*r);
  sym_reach("convert");
}
#endif
HARNESS(h_refused) {
  int k = (int)sym_choice("kind", 3);
  samples(2, 1, k == 1 ? vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL : k == 2 ? vertical_segment::NO_CONFIDENCE_INTERVAL : vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL);
  arguments a; a.update("np", "2"); a.update("nq", "2"); ptr<fitter> t(provide_fitter()); t->set_parameters(a);
  ptr<function> f = R();
  if(k == 0) f = ptr<function>(new rational_function_1d(alta::parameters(1, 1, params::COS_TH, params::INV_STERADIAN), 2, 2));
  sym_check(!t->fit_data(D.d, f, a), "other functions and other data are refused");
  sym_reach("refused");
}
