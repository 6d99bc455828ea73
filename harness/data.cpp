// Data containers, comparison of data, distance metrics, composition helpers.
#include "sym.h"
#include <core/common.h>
#include <core/params.h>
#include <core/data.h>
#include <core/vertical_segment.h>
#include <core/metrics.h>
#include <cmath>
#include <string>
using namespace alta;
static void del(double* p) { delete[] p; }
static std::string nm(const char* p, int i) { std::string s(p); s += (char)('0' + i / 10); s += (char)('0' + i % 10); return s; }
static double val(const char* p, int i, double b = 1e6) { return sym_range(nm(p, i).c_str(), -b, b); }
static vertical_segment::ci_kind kindof(int k) { return k == 0 ? vertical_segment::NO_CONFIDENCE_INTERVAL : k == 1 ? vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL : vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL; }
HARNESS(h_container) {
  int dx = 1 + (int)sym_choice("dx", 3), dy = 1 + (int)sym_choice("dy", 3), n = 1 + (int)sym_choice("n", 4), k = (int)sym_choice("kind", 3);
  int cols = dx + dy + k * dy;
  double* p = new double[n * cols]; double* q = new double[n * cols];
  for(int i = 0; i < n * cols; ++i) p[i] = q[i] = val("d", i);
  {
  std::shared_ptr<double> sp(p, del);
  vertical_segment d(parameters(dx, dy, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), n, sp, kindof(k));
  sym_check(d.size() == n && d.parametrization().dimX() == dx && d.parametrization().dimY() == dy, "size and dimensions");
  sym_check((int)d.column_number() == cols && (int)d.confidence_interval_columns() == k * dy && d.confidence_interval_kind() == kindof(k), "number of columns");
  // bounds of the abscissas
  sym_check(d.min().size() == dx && d.max().size() == dx, "dimension of the bounds");
  for(int j = 0; j < dx; ++j) {
    double lo = d.min()[j], hi = d.max()[j], plo = 1.0, phi = 1.0;
    for(int i = 0; i < n; ++i) {
      double x = q[i * cols + j];
      sym_check(lo <= x, "minimum is a lower bound"); sym_check(hi >= x, "maximum is an upper bound");
      plo = plo * (lo - x); phi = phi * (hi - x);
    }
    sym_check(plo == 0.0, "minimum is attained"); sym_check(phi == 0.0, "maximum is attained");
  }
  int r = (int)sym_choice("row", n);
  // modify one row: partial or complete
  int full = (int)sym_choice("full", 3);
  if(full) {
    int len = full == 1 ? dx + dy : cols;
    vec v(len); for(int j = 0; j < len; ++j) { v[j] = val("v", j); q[r * cols + j] = v[j]; }
    d.set(r, v);
  }
  for(int i = 0; i < n; ++i) {
    vec g = d.get(i), x, yl, yu, zl, zu;
    sym_check(g.size() == dx + dy, "size of a sample");
    for(int j = 0; j < dx + dy; ++j) sym_check_eq(g[j], q[i * cols + j], "sample");
    d.get(i, x, yl, yu); d.get(i, zl, zu);
    sym_check(x.size() == dx && yl.size() == dy && yu.size() == dy && zl.size() == dy && zu.size() == dy, "sizes of a segment");
    for(int j = 0; j < dx; ++j) sym_check_eq(x[j], q[i * cols + j], "abscissa");
    for(int j = 0; j < dy; ++j) {
      double y = q[i * cols + dx + j];
      double lo = k == 2 ? q[i * cols + dx + dy + j] : k == 1 ? y - q[i * cols + dx + dy + j] : y - 0.1;
      double hi = k == 2 ? q[i * cols + dx + 2 * dy + j] : k == 1 ? y + q[i * cols + dx + dy + j] : y + 0.1;
      sym_check_eq(yl[j], lo, "lower bound"); sym_check_eq(yu[j], hi, "upper bound");
      sym_check_eq(zl[j], yl[j], "both accessors agree"); sym_check_eq(zu[j], yu[j], "both accessors agree");
    }
  }
  Eigen::Map<RowMatrixXd> m = d.matrix_view();
  sym_check(m.rows() == n && m.cols() == cols, "matrix view");
  for(int i = 0; i < n; ++i) for(int j = 0; j < cols; ++j) sym_check_eq(m(i, j), q[i * cols + j], "matrix view");
  }
  delete[] q;
  sym_reach("container");
}
// an in-memory data object whose interpolated value at the i-th abscissa is known
struct Table : public data {
  std::vector<vec> rows; std::vector<vec> vals; mutable int hits;
  Table(const parameters& p, int n) : data(p, n), hits(0) {}
  virtual vec get(int i) const { return rows[i]; }
  virtual void set(int i, const vec& x) { rows[i] = x; }
  virtual vec value(const vec& x) const {
    for(size_t i = 0; i < rows.size(); ++i) {
      bool same = true;
      for(int j = 0; j < _parameters.dimX(); ++j) if(!(std::fabs(x[j] - rows[i][j]) <= 1e-9)) same = false;
      if(same) { ++hits; return vals[i]; }
    }
    sym_check(false, "evaluated at the abscissa of an entry"); return vals[0];
  }
};
HARNESS(h_equals) {
  int dx = 1 + (int)sym_choice("dx", 2), dy = 1 + (int)sym_choice("dy", 2), n = 1 + (int)sym_choice("n", 3), def = (int)sym_choice("default", 2), bad = (int)sym_choice("mismatch", 6);
  int dx2 = bad == 1 ? dx + 1 : dx, dy2 = bad == 2 ? dy + 1 : dy, n2 = bad == 3 ? n + 1 : n;
  Table a(parameters(dx, dy, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), n), b(parameters(dx2, dy2, bad == 4 ? params::COS_TH : params::UNKNOWN_INPUT, bad == 5 ? params::ENERGY : params::UNKNOWN_OUTPUT), n2);
  double eps = def ? 1e-14 : sym_range("eps", 0.0, 100.0);
  bool eq = bad == 0, near = true;
  for(int i = 0; i < n; ++i) { vec v(dx + dy); for(int j = 0; j < dx + dy; ++j) v[j] = val("a", i * 4 + j, 1000.0); a.rows.push_back(v); }
  for(int i = 0; i < n2; ++i) { vec v(dx2 + dy2); for(int j = 0; j < dx2 + dy2; ++j) v[j] = val("b", i * 6 + j, 1000.0); b.rows.push_back(v); }
  bool r = def ? a.equals(b) : a.equals(b, eps);
  if(!eq) { sym_check(!r, "different shape or parametrization"); sym_reach("equals"); return; }
  if(r) { for(int i = 0; i < n; ++i) for(int j = 0; j < dx + dy; ++j) sym_check(std::fabs(a.rows[i][j] - b.rows[i][j]) <= eps * (def ? 1.001 : 1.0), "equal data are within the tolerance"); }
  else { for(int i = 0; i < n; ++i) for(int j = 0; j < dx + dy; ++j) if(!(std::fabs(a.rows[i][j] - b.rows[i][j]) <= eps * (def ? 0.999 : 1.0))) near = false; sym_check(!near, "data within the tolerance are equal"); }
  sym_check(a.equals(a, eps), "data equal themselves");
  sym_reach("equals");
}
// bit-precise: undefined values
HARNESS(h_equals_nan) {
  Table a(parameters(1, 1, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), 1), b(parameters(1, 1, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), 1);
  vec u(2), v(2); u[0] = sym_double("a0"); u[1] = sym_double("a1"); v[0] = sym_double("b0"); v[1] = sym_double("b1");
  a.rows.push_back(u); b.rows.push_back(v);
  double eps = sym_double("eps"); sym_assume(eps >= 0.0); sym_assume(eps < 1e300);
  bool r = a.equals(b, eps);
  for(int j = 0; j < 2; ++j) if(u[j] != u[j] && v[j] == v[j]) sym_check(!r, "an undefined value equals no defined value");
  for(int j = 0; j < 2; ++j) if(u[j] == u[j] && v[j] != v[j]) sym_check(!r, "an undefined value equals no defined value");
  if(u[0] == v[0] && u[1] == v[1]) sym_check(r, "identical data are equal");
  sym_reach("nan");
}
HARNESS(h_metrics) {
  int n = 1 + (int)sym_choice("n", 4), dy = 1 + (int)sym_choice("dy", 3), mask = (int)sym_choice("mask", 1 << n), par = (int)sym_choice("par", 2);
  parameters pr(par ? 3 : 6, dy, par ? params::RUSIN_VH : params::CARTESIAN, params::UNKNOWN_OUTPUT);
  Table ref(pr, n), in(parameters(6, dy, params::CARTESIAN, params::UNKNOWN_OUTPUT), n), m(parameters(6, 1, params::CARTESIAN, params::UNKNOWN_OUTPUT), n);
  // concrete and distinct abscissas, exactly representable unit vectors (light = view when the reference stores the half vector)
  static const double u[4][3] = { { 0.0, 0.0, 1.0 }, { 0.6, 0.0, 0.8 }, { 0.0, 0.8, 0.6 }, { 0.28, 0.0, 0.96 } };
  for(int i = 0; i < n; ++i) {
    vec c(6 + dy), r(pr.dimX() + dy), y(dy), w(7);
    for(int j = 0; j < 3; ++j) { c[j] = u[i][j]; c[3 + j] = par ? u[i][j] : u[(i + 1) % 4][j]; }
    for(int j = 0; j < pr.dimX(); ++j) r[j] = c[j];
    for(int j = 0; j < dy; ++j) { r[pr.dimX() + j] = val("r", i * 3 + j, 100.0); y[j] = val("v", i * 3 + j, 100.0); c[6 + j] = 0.0; }
    ref.rows.push_back(r); in.rows.push_back(c); in.vals.push_back(y);
    w.head(6) = c.head(6); w[6] = (mask >> i & 1) ? val("m", i, 10.0) : 0.0;
    if(mask >> i & 1) sym_assume(w[6] != 0.0);
    m.rows.push_back(w);
  }
  bool all = mask == 0;
  errors::metrics res; res["stale"] = vec(1);
  errors::compute(&in, &ref, all ? nullptr : &m, res);
  sym_check(res.size() == 6 && res.count("L1") && res.count("L2") && res.count("L3") && res.count("LInf") && res.count("MSE") && res.count("RMSE"), "six metrics");
  for(int j = 0; j < dy; ++j) {
    double s1 = 0.0, s2 = 0.0, s3 = 0.0, prod = 1.0; int cnt = 0; double li = res["LInf"][j];
    for(int i = 0; i < n; ++i) if(all || (mask >> i & 1)) {
      double d = std::fabs(in.vals[i][j] - ref.rows[i][pr.dimX() + j]);
      s1 = s1 + d; s2 = s2 + d * d; s3 = s3 + d * d * d; ++cnt;
      sym_check(li >= d, "maximum distance"); prod = prod * (li - d);
    }
    sym_check(prod == 0.0 || !sym_is_symbolic(), "maximum distance is attained");
    sym_check_eq(res["L1"][j], s1, "L1 norm");
    sym_check_eq(res["L2"][j], std::sqrt(s2), "L2 norm");
    double l3 = res["L3"][j]; if(sym_is_symbolic()) sym_check_eq(l3 * l3 * l3, s3, "L3 norm"); else sym_check_eq(l3, std::pow(s3, 1.0 / 3.0), "L3 norm");
    sym_check_eq(res["MSE"][j], s2 / (double)cnt, "mean squared error");
    sym_check_eq(res["RMSE"][j], std::sqrt(s2 / (double)cnt), "root mean squared error");
  }
  sym_reach("metrics");
}
