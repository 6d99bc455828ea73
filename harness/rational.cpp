// Rational functions: basis, values, order of the coefficients, save and load.
#include "sym.h"
#include <core/common.h>
#include <core/params.h>
#include <core/args.h>
#include <core/function.h>
#include <core/rational_function.h>
#include <fstream>
#include <sstream>
#include <cmath>
#include <string>
#include <vector>
using namespace alta;
static std::string nm(const char* p, int a, int b = -1) { std::string s(p); s += (char)('0' + a / 10); s += (char)('0' + a % 10); if(b >= 0) { s += (char)('0' + b / 10); s += (char)('0' + b % 10); } return s; }
#if defined(RF_legendre) || defined(RF_chebychev) || defined(RF_cosine)
#define RF_PLUGIN
extern "C" function* provide_function(const parameters& p);
static rational_function* fresh(const parameters& p) { function* f = provide_function(p); rational_function* r = dynamic_cast<rational_function*>(f); sym_check(r != NULL, "is a rational function"); return r; }
#else
static rational_function* fresh(const parameters& p) { return new rational_function(p); }
#endif
// the one dimensional polynomials of the family
static double basis(double x, int k) {
  double a = 1.0, b = x;
#if defined(RF_legendre) || defined(RF_cosine)
  for(int i = 1; i < k; ++i) { double c = ((2.0 * i + 1.0) * x * b - i * a) / (i + 1.0); a = b; b = c; }
#elif defined(RF_chebychev)
  for(int i = 1; i < k; ++i) { double c = 2.0 * x * b - a; a = b; b = c; }
#else
  for(int i = 1; i < k; ++i) b = b * x;
#endif
  return k == 0 ? 1.0 : b;
}
// exponents of the i-th term: by total degree, then by exponent of the last variable, then of the one before, ...
static bool next(std::vector<int>& d) {
  int n = d.size();
  if(n == 1) { ++d[0]; return true; }
  for(int j = 1; j < n; ++j) if(d[0] > 0 || j > 1) {
    int below = 0; for(int k = 0; k < j; ++k) below += d[k];
    if(below > 0) { ++d[j]; for(int k = 0; k < j; ++k) d[k] = 0; d[0] = below - 1; return true; }
  }
  int t = 0; for(int k = 0; k < n; ++k) { t += d[k]; d[k] = 0; } d[0] = t + 1;
  return true;
}
static std::vector<int> exponents(int i, int dx) { std::vector<int> d(dx, 0); while(i-- > 0) next(d); return d; }
static long choose(long n, long k) { if(k < 0 || n < k) return 0; long r = 1; for(long i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
// position of exponents in that order
static long rank(const std::vector<int>& d) {
  long r = 0; int n = d.size(), k = 0; for(int i = 0; i < n; ++i) k += d[i];
  r = choose(k - 1 + n, n);
  for(int j = n - 1; j >= 1; --j) { for(int t = 0; t < d[j]; ++t) r += choose(k - t + j - 1, j - 1); k -= d[j]; }
  return r;
}
struct Dom { vec lo, hi; Dom(int dx, bool point) : lo(dx), hi(dx) { for(int k = 0; k < dx; ++k) { lo[k] = sym_round(sym_range(nm("min", k).c_str(), -2.0, 2.0), 10); double w = point && k == 0 ? 0.0 : sym_range(nm("wid", k).c_str(), 0.1, 4.0); hi[k] = sym_round(lo[k] + w, 10); } } };
static const double inflate =
#ifdef RF_PLUGIN
  1.0;
#else
  0.1;
#endif
#ifdef RF_cosine
static const params::input in_of[4] = { params::COS_TH, params::RUSIN_TH_TD, params::ISOTROPIC_TV_TL_DPHI, params::CARTESIAN };
#endif
static params::input input_of(int dx) {
#ifdef RF_cosine
  if(sym_choice("known", 2)) return dx == 1 ? params::COS_TH : dx == 2 ? params::RUSIN_TH_TD : params::ISOTROPIC_TV_TL_DPHI;
#endif
  return params::UNKNOWN_INPUT;
}
static const int nps[4] = { 1, 3, 6, 10 }, nqs[4] = { 1, 2, 4, 3 };
struct Rf { int dx, s, dy, np, nq; parameters prm; Dom dom; rational_function* f; std::vector<vec> a, b; vec x; std::vector<double> xp; double cosines;
  Rf(bool point, int fix_dy = 0, bool pre = true) : dx(1 + (int)sym_choice("dx", 4)), s((int)sym_choice("size", 4)), dy(fix_dy ? fix_dy : s == 1 ? 1 + (int)sym_choice("dy", 2) : 1), prm(dx, dy, input_of(dx), params::UNKNOWN_OUTPUT), dom(dx, point), x(dx), xp(dx), cosines(1.0) {
    np = nps[s]; nq = nqs[s];
    f = fresh(prm); f->setMin(dom.lo); f->setMax(dom.hi); if(pre) f->setSize(np, nq);
    for(int y = 0; y < dy; ++y) {
      vec p(np), q(nq);
      for(int i = 0; i < np; ++i) p[i] = sym_range(nm("a", y, i).c_str(), -10.0, 10.0);
      for(int i = 0; i < nq; ++i) q[i] = sym_range(nm("b", y, i).c_str(), i == 0 ? 0.01 : -10.0, 10.0);
      rational_function_1d* r = f->get(y); sym_check(r != NULL, "a function per channel"); r->update(p, q);
      a.push_back(p); b.push_back(q);
    }
    for(int k = 0; k < dx; ++k) {
      x[k] = sym_range(nm("x", k).c_str(), -5.0, 5.0); double l = dom.lo[k], h = dom.hi[k]; if(point && k == 0) { l -= inflate; h += inflate; }
      xp[k] = 2.0 * (x[k] - l) / (h - l) - 1.0;
#ifdef RF_cosine
      if(prm.input_parametrization() != params::UNKNOWN_INPUT) sym_assume(x[k] >= 0.0 && x[k] <= 1.0);
#endif
    }
#ifdef RF_cosine
    if(prm.input_parametrization() != params::UNKNOWN_INPUT) { double c[6]; params::convert(&x[0], prm.input_parametrization(), params::CARTESIAN, c); cosines = c[2] * c[5]; }
#endif
  }
  double term(int i) const { std::vector<int> d = exponents(i, dx); double r = 1.0; for(int k = 0; k < dx; ++k) r *= basis(xp[k], d[k]); return r; }
};
// value = ratio of the two expansions over the normalised domain
HARNESS(h_value) {
  Rf r((bool)sym_choice("point", 2)); vec v, w;
  for(int y = 0; y < r.dy; ++y) {
    rational_function_1d* s = r.f->get(y); double p = 0.0, q = 0.0;
    for(int i = 0; i < r.np; ++i) { double t = r.term(i) * r.cosines; p += r.a[y][i] * t; if(y == 0) sym_check_eq(s->p(r.x, i), t, "basis of the numerator"); }
    for(int i = 0; i < r.nq; ++i) { double t = r.term(i); q += r.b[y][i] * t; if(y == 0) sym_check_eq(s->q(r.x, i), t, "basis of the denominator"); }
    sym_assume(q * q > 1e-6);
    double b0 = r.b[y][0];
    vec pp = s->p(r.x), qq = s->q(r.x); sym_check(pp.size() == 1 && qq.size() == 1, "scalar expansions");
    sym_check_eq(pp[0] * b0, p, "numerator"); sym_check_eq(qq[0] * b0, q, "denominator");
    if(y == 0) { v = r.f->value(r.x); w = (*r.f)(r.x); sym_check(v.size() == r.dy && w.size() == r.dy, "dimension of the value"); }
    sym_check_eq(v[y] * q, p, "value of the ratio"); sym_check_eq(w[y] * q, p, "call operator");
    vec u = s->value(r.x); sym_check_eq(u[0] * q, p, "value of the channel");
  }
  delete r.f;
  sym_reach("value");
}
// the coefficients are kept, up to the common factor that makes the first of the denominator one
HARNESS(h_coefficients) {
  Rf r(false, 2, sym_choice("presized", 2) == 0); double b0 = r.b[1][0];
  rational_function_1d* s = r.f->get(1); vec p = s->getP(), q = s->getQ();
  sym_check(p.size() == r.np && q.size() == r.nq, "number of coefficients");
  for(int i = 0; i < r.np && i < p.size(); ++i) { sym_check_eq(p[i] * b0, r.a[1][i], "numerator coefficient"); sym_check_eq(s->getP(i), p[i], "single numerator coefficient"); }
  for(int i = 0; i < r.nq && i < q.size(); ++i) { sym_check_eq(q[i] * b0, r.b[1][i], "denominator coefficient"); sym_check_eq(s->getQ(i), q[i], "single denominator coefficient"); }
  // assigned to another function of the same class
  rational_function* g = fresh(r.prm); g->setMin(r.dom.lo); g->setMax(r.dom.hi);
  g->setSize(1, 1); g->get(0); g->get(1);
  g->update(0, r.f->get(0)); g->update(1, s);
  vec v = r.f->value(r.x), w = g->value(r.x);
  for(int y = 0; y < 2; ++y) { double d = 0.0; for(int i = 0; i < r.nq; ++i) d += r.b[y][i] * r.term(i); sym_assume(d * d > 1e-6); sym_check_eq(v[y], w[y], "value after assignment"); }
  delete r.f; delete g;
  sym_reach("coefficients");
}
HARNESS(h_order) {
  int dx = 1 + (int)sym_choice("dx", 6); long i = sym_int("i", 0, dx <= 3 ? 99 : 130);
  rational_function_1d r(parameters(dx, 1, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT));
  std::vector<int> d = r.index2degree((int)i);
  sym_check((int)d.size() == dx, "one exponent per variable");
  bool pos = true; for(int k = 0; k < (int)d.size(); ++k) pos = pos && d[k] >= 0;
  sym_check(pos, "exponents are not negative");
  if((int)d.size() == dx && pos) sym_check(rank(d) == i, "position of the exponents");
  sym_reach("order");
}
// save then load in a second object
HARNESS(h_store) {
  Rf r((bool)sym_choice("point", 2)); int before = (int)sym_choice("used", 2);
  for(int y = 0; y < r.dy; ++y) { // make the stored coefficients exactly printable
    for(int i = 0; i < r.np; ++i) r.a[y][i] = sym_round(r.a[y][i], 10);
    for(int i = 0; i < r.nq; ++i) r.b[y][i] = i == 0 ? 1.0 : sym_round(r.b[y][i], 10);
    r.f->get(y)->update(r.a[y], r.b[y]);
  }
  arguments args; r.f->save("f.brdf", args);
  { // the file lists the terms with their exponents
    std::ifstream in("f.brdf"); std::string t; double v;
    do { in >> t; } while(in.good() && t != "#FUNC");
    in >> t; sym_check(t == "rational_function", "name of the format");
    in >> t; sym_check(t == "#MIN", "domain written"); for(int k = 0; k < r.dx; ++k) { in >> v; sym_check_eq(v, r.dom.lo[k], "lower corner of the domain"); }
    in >> t; sym_check(t == "#MAX", "domain written"); for(int k = 0; k < r.dx; ++k) { in >> v; sym_check_eq(v, r.dom.hi[k], "upper corner of the domain"); }
    for(int y = 0; y < r.dy; ++y) {
      int n = -1; in >> t >> n; sym_check(t == "#NP" && n == r.np, "size of the numerator"); in >> t >> n; sym_check(t == "#NQ" && n == r.nq, "size of the denominator");
      for(int s = 0; s < 2; ++s) for(int i = 0; i < (s ? r.nq : r.np); ++i) {
        std::vector<int> d = exponents(i, r.dx);
        for(int k = 0; k < r.dx; ++k) { int e = -1; in >> e; sym_check(e == d[k], "exponents written"); }
        in >> v; sym_check_eq(v, s ? r.b[y][i] : r.a[y][i], "coefficient written");
      }
    }
    sym_check(in.good(), "file complete");
  }
  rational_function* g = fresh(r.prm);
  if(before) { vec l(r.dx), h(r.dx); for(int k = 0; k < r.dx; ++k) { l[k] = -1.0; h[k] = 3.0; } g->setMin(l); g->setMax(h); g->setSize(2, 2); for(int y = 0; y < r.dy; ++y) g->get(y); }
  std::ifstream in("f.brdf"); arguments h = arguments::parse_header(in);
  sym_check(h.get_pair<int>("DIM").first == r.dx && h.get_pair<int>("DIM").second == r.dy, "dimensions in the header");
  sym_check(params::parse_input(h["PARAM_IN"]) == r.prm.input_parametrization(), "parametrization in the header");
  sym_check(g->load(in), "the saved function loads");
  vec lo = g->min(), hi = g->max();
  for(int k = 0; k < r.dx; ++k) { sym_check_eq(lo[k], r.dom.lo[k], "lower bound preserved"); sym_check_eq(hi[k], r.dom.hi[k], "upper bound preserved"); }
  for(int y = 0; y < r.dy; ++y) { double d = 0.0; for(int i = 0; i < r.nq; ++i) d += r.b[y][i] * r.term(i); sym_assume(d * d > 1e-6); }
  vec v = r.f->value(r.x), w = g->value(r.x);
  for(int y = 0; y < r.dy; ++y) sym_check_eq(v[y], w[y], "value preserved");
  delete r.f; delete g;
  sym_reach("store");
}
