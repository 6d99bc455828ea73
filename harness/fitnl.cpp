// Nonlinear fitters: the problem handed to the solver library and what is made of its answer.
// The harness plays the solver (fit_stub.h).
#include "sym.h"
#include "fit_stub.h"
#include <core/common.h>
#include <core/params.h>
#include <core/args.h>
#include <core/data.h>
#include <core/function.h>
#include <core/rational_function.h>
#include <core/fitter.h>
#include <core/vertical_segment.h>
#include <sstream>
#include <cmath>
#include <string>
#include <vector>
using namespace alta;
extern "C" fitter* provide_fitter();
#ifdef FIT_ceres
#include <ceres/ceres.h>
namespace ceres { Solver::Options& last_options() { static Solver::Options o; return o; } }
#endif
#ifdef FIT_nlopt
#include <nlopt.h>
static nlopt_opt_s seen_opt; void last_options(nlopt_opt o) { seen_opt.alg = o->alg; seen_opt.maxeval = o->maxeval; seen_opt.xtol_rel = o->xtol_rel; seen_opt.ftol_rel = o->ftol_rel; seen_opt.ftol_abs = o->ftol_abs; }
#endif
static std::string nm(const char* p, int a, int b = -1) { std::string s(p); s += (char)('0' + a); if(b >= 0) { s += (char)('0' + b / 10); s += (char)('0' + b % 10); } return s; }
// value: a polynomial of the parameters with arbitrary coefficients
struct Lobe : public nonlinear_function {
  int n, dy; std::vector<double> a, b, c; vec p, lo, hi; int calls;
  Lobe(int np, const class parameters& pr) : nonlinear_function(pr), n(np), dy(pr.dimY()), a(np * pr.dimY()), b(np * pr.dimY()), c(pr.dimY()), p(np), lo(np), hi(np), calls(0) {
    for(int k = 0; k < n; ++k) { p[k] = sym_range(nm("p", k).c_str(), -1.0, 1.0); lo[k] = sym_range(nm("lo", k).c_str(), -4.0, -1.0); hi[k] = sym_range(nm("hi", k).c_str(), 1.0, 4.0); }
    for(int k = 0; k < n * dy; ++k) { a[k] = sym_range(nm("a", k / n, k % n).c_str(), -2.0, 2.0); b[k] = sym_range(nm("b", k / n, k % n).c_str(), -2.0, 2.0); }
    for(int k = 0; k < dy; ++k) c[k] = sym_range(nm("c", k).c_str(), -2.0, 2.0);
  }
  double val(const double* q, double x, int y) const { double s = c[y] * q[0] * q[0]; for(int k = 0; k < n; ++k) s += q[k] * (a[y * n + k] + b[y * n + k] * x); return s; }
  vec operator()(const vec& x) const { return value(x); }
  vec value(const vec& x) const { vec r(dy); for(int y = 0; y < dy; ++y) r[y] = n ? val(&p[0], x[0], y) : 0.0; return r; }
  vec parametersJacobian(const vec& x) const { vec j(n * dy); for(int y = 0; y < dy; ++y) for(int k = 0; k < n; ++k) j[y * n + k] = a[y * n + k] + b[y * n + k] * x[0] + (k == 0 ? 2 * c[y] * p[0] : 0.0); return j; }
  int nbParameters() const { return n; }
  vec parameters() const { return p; }
  vec getParametersMin() const { return lo; }
  vec getParametersMax() const { return hi; }
  void setParameters(const vec& q) { sym_check(q.size() == n, "size of the parameters handed to the function"); ++calls; p = q; }
  bool load(std::istream&) { return false; }
  void save_call(std::ostream&, const arguments&) const {}
};
// the problem
static struct { Lobe* f; int n, dy, samples; std::vector<double> x, cosine, d; vec start, last; int runs, status; bool log, weighted; } P;
static double model(const double* q, int s, int y) {
  double v = P.f->val(q, P.x[s], y), d = P.d[s * P.dy + y];
  if(P.weighted) return d - P.cosine[s] * v;
  if(P.log) return log(1.0 + d) - log(1.0 + v);
  return d - v;
}
static bool inside(const double* q) { bool in = true; for(int k = 0; k < P.n; ++k) in = in & (q[k] >= P.f->lo[k]) & (q[k] <= P.f->hi[k]); return in; }
static void probe(Objective& o, const double* q) {
  std::vector<double> y(o.m), J(o.m * o.n);
  if(P.log) for(int s = 0; s < P.samples; ++s) for(int c = 0; c < P.dy; ++c) sym_assume(P.f->val(q, P.x[s], c) > -0.9);
  bool ok = o.eval(q, &y[0], &J[0]);
  sym_check(ok, "parameters within the bounds are accepted");
  if(!ok) return;
  double got = 0, want = 0;
  for(int s = 0; s < P.samples; ++s) for(int c = 0; c < P.dy; ++c) { double e = model(q, s, c); want += e * e; }
  for(int r = 0; r < o.m; ++r) got += o.scalar ? y[r] : y[r] * y[r];
  sym_check_eq(got, want, "the solver minimises the sum of the squared differences between data and function");
#ifdef FIT_nlopt
  if(!((nlopt_opt_s&)o).gradient()) return;
#endif
  if(sym_is_symbolic()) { for(int r = 0; r < o.m; ++r) for(int k = 0; k < o.n; ++k) sym_check_eq(J[r * o.n + k], sym_diff(y[r], q[k]), "derivatives handed to the solver"); }
  else for(int k = 0; k < o.n; ++k) {
    double h = 1e-5; std::vector<double> a(q, q + o.n), b(q, q + o.n), ya(o.m), yb(o.m); bool half = false;
    a[k] -= h; b[k] += h; if(!o.eval(&a[0], &ya[0], NULL)) { ya = y; half = true; } if(!o.eval(&b[0], &yb[0], NULL)) { yb = y; half = true; }
    for(int r = 0; r < o.m; ++r) sym_check(std::fabs((yb[r] - ya[r]) / (half ? h : 2 * h) - J[r * o.n + k]) <= 1e-2 * std::fmax(1.0, std::fabs(J[r * o.n + k])), "derivatives handed to the solver");
  }
}
int solver_run(Objective& o) {
  ++P.runs;
  sym_check(o.n == P.n, "number of parameters of the problem");
  sym_check(o.scalar || o.m == P.samples * P.dy, "one residual per sample and channel");
  for(int k = 0; k < P.n; ++k) sym_check_eq(o.x[k], P.start[k], "the search starts from the initial parameters of the function");
  if(o.lo) for(int k = 0; k < P.n; ++k) { sym_check_eq(o.lo[k], P.f->lo[k], "lower bounds handed to the solver"); sym_check_eq(o.hi[k], P.f->hi[k], "upper bounds handed to the solver"); }
  std::vector<double> q(P.n), r(P.n), z(P.n), y(o.m);
  for(int k = 0; k < P.n; ++k) { q[k] = sym_range(nm("q", k).c_str(), -4.0, 4.0); r[k] = sym_range(nm("r", k).c_str(), -4.0, 4.0); z[k] = sym_range(nm("z", k).c_str(), -8.0, 8.0); }
  for(int k = 0; k < P.n; ++k) { sym_assume((q[k] >= P.f->lo[k]) & (q[k] <= P.f->hi[k])); sym_assume((r[k] >= P.f->lo[k]) & (r[k] <= P.f->hi[k])); }
  int what = (int)sym_choice("probe", 3);
  if(what == 0) probe(o, &q[0]);
  else if(what == 1) { o.eval(&q[0], &y[0], NULL); probe(o, &r[0]); }   // nothing is left of an earlier evaluation
  else if(!o.lo) { sym_assume(!inside(&z[0])); sym_check(!o.eval(&z[0], &y[0], NULL), "parameters out of the bounds are rejected"); }
  for(int k = 0; k < P.n; ++k) o.x[k] = q[k];
  P.last = vec(P.n); for(int k = 0; k < P.n; ++k) P.last[k] = q[k];
  return P.status;
}
static const params::input pair_in[3][2] = { { params::COS_TH, params::COS_TH }, { params::CARTESIAN, params::COS_TH }, { params::CARTESIAN, params::CARTESIAN } };
static ptr<data> make(int n, int dy, int samples, int conv) {
  params::input din = pair_in[conv][0], fin = pair_in[conv][1]; int dx = params::dimension(din), fx = params::dimension(fin);
  P.f = new Lobe(n, alta::parameters(fx, dy, fin, params::INV_STERADIAN)); P.n = n; P.dy = dy; P.samples = samples; P.runs = 0; P.log = P.weighted = false; P.start = P.f->p;
  P.x = std::vector<double>(samples); P.cosine = P.x; P.d = std::vector<double>(samples * dy);
  ptr<data> d(new vertical_segment(alta::parameters(dx, dy, din, params::INV_STERADIAN), samples));
  for(int s = 0; s < samples; ++s) {
    vec x(dx + dy);
    if(dx == 6) {
      double t = sym_range(nm("t", s).c_str(), 0.01, 1.5), a = sym_range(nm("u", s).c_str(), -3.0, 3.0), l = sym_range(nm("l", s).c_str(), 0.01, 1.5);
      x[0] = sin(t) * cos(a); x[1] = sin(t) * sin(a); x[2] = cos(t); x[3] = sin(l); x[4] = 0; x[5] = cos(l); P.cosine[s] = cos(l);
      vec z(fx); params::convert(&x[0], din, fin, &z[0]); P.x[s] = z[0];
    } else { x[0] = sym_range(nm("t", s).c_str(), 0.0, 1.0); P.x[s] = x[0]; }
    for(int y = 0; y < dy; ++y) { double v = sym_range(nm("d", s, y).c_str(), 0.0, 10.0); x[dx + y] = v; P.d[s * dy + y] = v; }
    d->set(s, x);
  }
  return d;
}
static bool run(const ptr<data>& d, ptr<function> f, const arguments& a) { ptr<fitter> t(provide_fitter()); t->set_parameters(a); return t->fit_data(d, f, a); }
static int good() {
#ifdef FIT_eigen
  static const int s[3] = { 1, 5, 8 };
#elif defined FIT_ceres
  static const int s[3] = { 0, 1, 3 };
#else
  static const int s[3] = { 1, 3, 5 };
#endif
  return s[sym_choice("good", 3)];
}
static int bad() {
#ifdef FIT_eigen
  static const int s[2] = { 0, 9 };
#elif defined FIT_ceres
  static const int s[2] = { 2, 4 };
#else
  static const int s[2] = { -1, -2 };
#endif
  return s[sym_choice("bad", 2)];
}
HARNESS(h_fit) {
  int n = 1 + (int)sym_choice("n", 2), dy = 1 + (int)sym_choice("dy", 2), conv = (int)sym_choice("conv", 3), samples = 1 + (int)sym_choice("samples", 2), opt = (int)sym_choice("opt", 3);
  ptr<data> d = make(n, dy, samples, conv); arguments a; ptr<nonlinear_function> f(P.f);
#ifdef FIT_eigen
  if(opt == 1 && conv != 0) { a.update("fit-with-cosine", ""); P.weighted = true; }
#elif defined FIT_ceres
  if(opt == 1) { a.update("log-fit", ""); P.log = true; }
#else
  static const char* const opts[] = { "local-sqp", "local-mma", "local-COBYLA" };
  a.update("nlopt-optimizer", opts[opt]); 
#endif
  if(opt == 2) { std::ostringstream o; o.precision(10); o << "["; for(int k = 0; k < n; ++k) { P.start[k] = sym_round(sym_range(nm("s", k).c_str(), -1.0, 1.0), 10); if(k) o << ", "; o << P.start[k]; } o << "]"; a.update("bootstrap", o.str()); }
  P.status = good();
  bool ok = run(d, f, a);
  sym_check(ok, "a solution of the solver is a success");
  sym_check(P.runs == 1, "one search");
  vec p = f->parameters();
  for(int k = 0; k < n; ++k) sym_check_eq(p[k], P.last[k], "the function receives the parameters that were found");
  sym_reach("fit");
}
HARNESS(h_failure) {
  int n = 1 + (int)sym_choice("n", 2); ptr<data> d = make(n, 1, 1, 0); P.status = bad();
  sym_check(!run(d, ptr<function>(P.f), arguments()), "a failure of the solver is reported");
  sym_reach("failure");
}
HARNESS(h_nothing) {
  int k = (int)sym_choice("kind", 2); ptr<data> d = make(0, 1, 1, 0); P.status = good();
  if(k == 0) sym_check(run(d, ptr<function>(P.f), arguments()), "a function without parameters needs no search");
  else sym_check(!run(d, ptr<function>(new rational_function(alta::parameters(1, 1, params::COS_TH, params::INV_STERADIAN), 2, 2)), arguments()), "a function that is not parametric is refused");
  sym_check(P.runs == 0, "no search");
  sym_reach("nothing");
}
HARNESS(h_options) {
  ptr<data> d = make(1, 1, 1, 0); P.status = good(); arguments a;
  double v[3]; bool on[3]; const char *names[3];
#ifdef FIT_ceres
  names[0] = "ceres-function-tolerance"; names[1] = "ceres-gradient-tolerance"; names[2] = "ceres-parameter-tolerance"; const char* iter = "ceres-max-num-iterations";
#else
  names[0] = "nlop-relative-function-tolerance"; names[1] = "nlop-abs-function-tolerance"; names[2] = NULL; const char* iter = "nlop-max-num-iterations";
#endif
  for(int k = 0; k < 3; ++k) { on[k] = sym_choice(nm("on", k).c_str(), 2); v[k] = sym_round(sym_range(nm("tol", k).c_str(), 0.0, 1.0), 10); if(on[k] && names[k]) { std::ostringstream o; o.precision(10); o << v[k]; a.update(names[k], o.str()); } }
  bool lim = sym_choice("limit", 2); int it = 0; if(lim) { it = (int)sym_int("iterations", 1, 9); a.update(iter, std::string(1, (char)('0' + it))); }
  sym_check(run(d, ptr<function>(P.f), a), "fit");
#ifdef FIT_ceres
  const ceres::Solver::Options& o = ceres::last_options();
  sym_check_eq(o.function_tolerance, on[0] ? v[0] : 1e-6, "tolerance of the objective"); sym_check_eq(o.gradient_tolerance, on[1] ? v[1] : 1e-10, "tolerance of the gradient"); sym_check_eq(o.parameter_tolerance, on[2] ? v[2] : 1e-8, "tolerance of the parameters");
  if(lim) sym_check(o.max_num_iterations == it, "maximal number of iterations");
#elif defined FIT_nlopt
  if(on[0]) sym_check_eq(seen_opt.ftol_rel, v[0], "relative tolerance of the objective");
  if(on[1]) sym_check_eq(seen_opt.ftol_abs, v[1], "absolute tolerance of the objective");
  if(lim) sym_check(seen_opt.maxeval == it, "maximal number of evaluations");
#endif
  sym_reach("options");
}
