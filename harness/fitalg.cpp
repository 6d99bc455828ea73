// Rational fitters by linear algebra: the problems handed to the dense solvers and what is made of their answers.
#include "sym.h"
#include <core/common.h>
#include <core/params.h>
#include <core/args.h>
#include <core/data.h>
#include <core/function.h>
#include <core/rational_function.h>
#include <core/fitter.h>
#include <core/vertical_segment.h>
#include <sstream>
#include <cmath>
#include <string>
#include <vector>
using namespace alta;
extern "C" fitter* provide_fitter();
static std::string nm(const char* p, int a, int b = -1) { std::string s(p); s += (char)('0' + a); if(b >= 0) { s += (char)('0' + b / 10); s += (char)('0' + b % 10); } return s; }
static void release(double* p) { delete[] p; }
static struct { int dy, m; std::vector<double> x, y; ptr<data> d; } D;
static void samples(int m, int dy, vertical_segment::ci_kind kind = vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL) {
  D.dy = dy; D.m = m; D.x.resize(m); D.y.resize(m * dy);
  int cols = 1 + dy * (kind == vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL ? 3 : kind == vertical_segment::NO_CONFIDENCE_INTERVAL ? 1 : 2); double* c = new double[m * cols];
  for(int s = 0; s < m; ++s) { c[s * cols] = D.x[s] = sym_range(nm("x", s).c_str(), -1.0 + s, -0.5 + s);
    for(int k = 0; k < dy; ++k) { double v = D.y[s * dy + k] = sym_range(nm("y", s, k).c_str(), -3.0, 3.0); c[s * cols + 1 + k] = v; for(int z = 1; 1 + z * dy + k < cols; ++z) c[s * cols + 1 + z * dy + k] = z == 1 ? v - 0.1 : v + 0.1; } }
  D.d = ptr<data>(new vertical_segment(alta::parameters(1, dy, params::COS_TH, params::INV_STERADIAN), m, std::shared_ptr<double>(c, release), kind));
}
static double power(double t, int k) { double r = 1; while(k-- > 0) r = r * t; return r; }
// the monomials are those of the function fitted
static double basis(const rational_function& r, int y, int s, int j, bool num) { vec x(1); x[0] = D.x[s]; rational_function_1d* f = const_cast<rational_function&>(r).get(y); return num ? f->p(x, j) : f->q(x, j); }
static std::string num(int v) { return std::string(1, (char)('0' + v)); }
struct Eig { int n, ok; std::vector<double> m, values, vectors; };
struct Ls { int rows, cols; std::vector<double> a, b, x; };
static int first_q = 0; static std::vector<Eig> eigs; static std::vector<Ls> lss;
extern "C" int hook_eigen(int n, const double* m, double* values, double* vectors) {
  Eig e; e.n = n; e.m.assign(m, m + n * n); e.ok = (int)sym_choice("converged", 2); int k = (int)eigs.size();
  double v = sym_range(nm("l", k).c_str(), -1e-9, 1e-9);          // rounding may give the smallest one either sign
  for(int i = 0; i < n; ++i) { values[i] = v; e.values.push_back(v); v = v + sym_range(nm("g", k, i).c_str(), 0.1, 1.0); }
  for(int i = 0; i < n * n; ++i) { vectors[i] = sym_range(nm("v", k, i).c_str(), i == first_q ? 0.5 : -1.0, 1.0); e.vectors.push_back(vectors[i]); }
  eigs.push_back(e); return e.ok;
}
extern "C" void hook_least_squares(int rows, int cols, const double* a, const double* b, double* x) {
  Ls l; l.rows = rows; l.cols = cols; l.a.assign(a, a + rows * cols); l.b.assign(b, b + rows); int k = (int)lss.size();
  for(int i = 0; i < cols; ++i) { x[i] = k % 2 || i ? sym_range(nm("s", k, i).c_str(), 0.0, 2.0) : sym_range(nm("s", k, i).c_str(), 4.0, 5.0); l.x.push_back(x[i]); }
  lss.push_back(l);
}
static ptr<rational_function> R() { return ptr<rational_function>(new rational_function(alta::parameters(1, D.dy, params::COS_TH, params::INV_STERADIAN))); }
HARNESS(h_eigen) {
  int np = 1 + (int)sym_choice("np", 2), nq = 1 + (int)sym_choice("nq", 2), dy = 1 + (int)sym_choice("dy", 2), m = 2 + (int)sym_choice("m", 2), n = np + nq; first_q = np;
  samples(m, dy); ptr<rational_function> r = R(); ptr<function> f = r; arguments a; a.update("np", num(np)); a.update("nq", num(nq));
  ptr<fitter> t(provide_fitter()); t->set_parameters(a); bool ok = t->fit_data(D.d, f, a), all = true;
  for(size_t k = 0; k < eigs.size(); ++k) all = all && eigs[k].ok;
  sym_check(ok == all && (int)eigs.size() <= dy && ((int)eigs.size() == dy || !all), "the fit succeeds when every channel is solved");
  if(!ok || (int)eigs.size() != dy) { sym_reach("failed"); return; }
  for(int y = 0; y < dy; ++y) {
    sym_check(r->get(y)->getP().size() == np && r->get(y)->getQ().size() == nq && eigs[y].n == n, "number of coefficients"); if(eigs[y].n != n) return;
    std::vector<double> row(n); std::vector<double> g(n * n, 0.0);
    for(int s = 0; s < m; ++s) { for(int j = 0; j < n; ++j) row[j] = j < np ? basis(*r, y, s, j, true) : -D.y[s * dy + y] * basis(*r, y, s, j - np, false); for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) g[i * n + j] += row[i] * row[j]; }
    for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j) sym_check_eq(eigs[y].m[j * n + i], g[j * n + i], "the quadratic form is the sum of the squares of p(x) - y q(x)");
    vec p = r->get(y)->getP(), q = r->get(y)->getQ(); sym_check(q[0] != 0.0, "the denominator is not null");
    for(int i = 0; i < n; ++i) sym_check_eq((i < np ? p[i] : q[i - np]) * eigs[y].vectors[np], eigs[y].vectors[i] * q[0], "the coefficients are the direction of least error");
  }
  sym_reach("eigen");
}
HARNESS(h_least_squares) {
  int np = 1 + (int)sym_choice("np", 2), nq = 1 + (int)sym_choice("nq", 2), dy = 1 + (int)sym_choice("dy", 2), m = 2 + (int)sym_choice("m", 2), iter = 1 + (int)sym_choice("iterations", 2);
  samples(m, dy); ptr<rational_function> r = R(); ptr<function> f = r; arguments a; a.update("np", num(np)); a.update("nq", num(nq)); if(iter > 1) a.update("max-iter", num(iter));
  ptr<fitter> t(provide_fitter()); t->set_parameters(a); sym_check(t->fit_data(D.d, f, a), "fit");
  sym_check((int)lss.size() == 2 * iter * dy, "the coefficients of the numerator and of the denominator are solved in turn"); if((int)lss.size() != 2 * iter * dy) return;
  for(int y = 0; y < dy; ++y) {
    vec p = r->get(y)->getP(), q = r->get(y)->getQ(); sym_check(p.size() == np && q.size() == nq, "number of coefficients");
    std::vector<double> pc(np, 0.0), qc(nq); pc[0] = 1;
    for(int it = 0; it < 2 * iter; ++it) {
      const Ls& l = lss[y * 2 * iter + it]; int n = it % 2 ? np : nq; sym_check(l.rows == m && l.cols == n, "size of the least-squares problem"); if(l.rows != m || l.cols != n) return;
      std::vector<double> A(m * n), b(m);
      for(int s = 0; s < m; ++s) { double Y = D.y[s * dy + y], P = 0, Q = 0; for(int j = 0; j < np; ++j) P += basis(*r, y, s, j, true) * pc[j]; if(it % 2) for(int j = 0; j < nq; ++j) Q += basis(*r, y, s, j, false) * qc[j];
        for(int j = 0; j < n; ++j) A[j * m + s] = it % 2 ? basis(*r, y, s, j, true) / Q : Y * Y * basis(*r, y, s, j, false);
        b[s] = it % 2 ? Y : Y * P; }
      for(int i = 0; i < n; ++i) { double u = 0, v = 0; for(int s = 0; s < m; ++s) { u += l.a[i * m + s] * l.b[s]; v += A[i * m + s] * b[s]; }
        sym_check_eq(u, v, it % 2 ? "the numerator minimises the squared distance to the samples" : "the denominator minimises the weighted linear error");
        for(int j = 0; j <= i; ++j) { double g = 0, h = 0; for(int s = 0; s < m; ++s) { g += l.a[i * m + s] * l.a[j * m + s]; h += A[i * m + s] * A[j * m + s]; } sym_check_eq(g, h, it % 2 ? "the numerator minimises the squared distance to the samples" : "the denominator minimises the weighted linear error"); } }
      (it % 2 ? pc : qc) = l.x;
    }
    sym_check(q[0] != 0.0, "the denominator is not null");
    for(int j = 0; j < np; ++j) sym_check_eq(p[j] * qc[0], pc[j] * q[0], "coefficients of the numerator");
    for(int j = 0; j < nq; ++j) sym_check_eq(q[j] * qc[0], qc[j] * q[0], "coefficients of the denominator");
  }
  sym_reach("least squares");
}
HARNESS(h_refused) {
  int k = (int)sym_choice("kind", 3);
  samples(2, 1, k == 1 ? vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL : k == 2 ? vertical_segment::NO_CONFIDENCE_INTERVAL : vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL);
  arguments a; a.update("np", "2"); a.update("nq", "2"); ptr<fitter> t(provide_fitter()); t->set_parameters(a);
  ptr<function> f = R(); if(k == 0) f = ptr<function>(new rational_function_1d(alta::parameters(1, 1, params::COS_TH, params::INV_STERADIAN), 2, 2));
  sym_check(!t->fit_data(D.d, f, a), "other functions and other data are refused");
  sym_reach("refused");
}
