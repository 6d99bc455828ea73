// Text and binary storage of data.
#include "sym.h"
#include <core/common.h>
#include <core/params.h>
#include <core/data.h>
#include <core/args.h>
#include <core/data_storage.h>
#include <core/vertical_segment.h>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <cmath>
#include <string>
using namespace alta;
static void del(double* p) { delete[] p; }
static std::string nm(const char* p, int i) { std::string s(p); s += (char)('0' + i / 10); s += (char)('0' + i % 10); return s; }
static vertical_segment::ci_kind kindof(int k) { return k == 0 ? vertical_segment::NO_CONFIDENCE_INTERVAL : k == 1 ? vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL : vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL; }
static params::input inp(int dx) { return dx == 1 ? params::COS_TH : dx == 2 ? params::RUSIN_TH_TD : dx == 3 ? params::ISOTROPIC_TV_TL_DPHI : params::UNKNOWN_INPUT; }
static params::output outp(int dy) { return dy == 1 ? params::INV_STERADIAN : dy == 3 ? params::RGB_COLOR : params::UNKNOWN_OUTPUT; }
static std::string num(double v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }
// text: save, load, save, load
HARNESS(h_text) {
  int dx = 1 + (int)sym_choice("dx", 4), dy = 1 + (int)sym_choice("dy", 3), n = (int)sym_choice("n", 4), kind = (int)sym_choice("kind", 3);
  int cols = dx + dy * (1 + kind);
  double* p = new double[n * cols + 1]; double* q = new double[n * cols + 1];
  for(int i = 0; i < n * cols; ++i) p[i] = q[i] = sym_range(nm("v", i).c_str(), -1e9, 1e9);
  parameters pr(dx, dy, inp(dx), outp(dy));
  vertical_segment d(pr, n, std::shared_ptr<double>(p, del), kindof(kind));
  std::stringstream s;
  save_data_as_text(s, d);
  std::string text = s.str();
  std::istringstream is(text);
  arguments h = arguments::parse_header(is);
  data* r = load_data_from_text(is, h);
  sym_check(r->size() == n, "number of samples");
  sym_check(r->parametrization().dimX() == dx && r->parametrization().dimY() == dy, "dimensions");
  sym_check(r->parametrization().input_parametrization() == inp(dx) && r->parametrization().output_parametrization() == outp(dy), "parametrizations");
  bool ok = r->size() == n;
  for(int i = 0; ok && i < n; ++i) {
    vec x = r->get(i);
    sym_check(x.size() == dx + dy, "size of a sample");
    for(int j = 0; j < dx + dy; ++j) { double v = q[i * cols + j]; sym_check(std::fabs(x[j] - v) <= 6e-15 * std::fabs(v), "value preserved to fifteen digits"); }
  }
  if(ok) for(int j = 0; j < dx; ++j) for(int i = 0; i < n; ++i) { sym_check(r->min()[j] <= r->get(i)[j], "lower bound of the domain"); sym_check(r->max()[j] >= r->get(i)[j], "upper bound of the domain"); }
  // a file on disk holds the same text
  if(n == 1) {
    d.save("text.dat");
    std::ifstream f("text.dat"); arguments h2 = arguments::parse_header(f);
    data* t = load_data_from_text(f, h2);
    sym_check(t->size() == 1 && t->equals(*r, 1e-3), "saving to a file writes the same text");
    delete t;
  }
  delete r; delete[] q;
  sym_reach("text");
}
// binary: bit for bit
HARNESS(h_binary) {
  int dx = 1 + (int)sym_choice("dx", 4), dy = 1 + (int)sym_choice("dy", 3), n = 1 + (int)sym_choice("n", 3), kind = (int)sym_choice("kind", 3);
  int cols = dx + dy * (1 + kind);
  double* p = new double[n * cols]; double* q = new double[n * cols];
  for(int i = 0; i < n * cols; ++i) p[i] = q[i] = sym_double(nm("v", i).c_str());
  parameters pr(dx, dy, inp(dx), outp(dy));
  vertical_segment d(pr, n, std::shared_ptr<double>(p, del), kindof(kind));
  std::stringstream s;
  save_data_as_binary(s, d);
  arguments h = arguments::parse_header(s);
  sym_check(h["FORMAT"] == "binary" && h.get_int("SAMPLE_COUNT") == n && h["PRECISION"] == "ieee754-double", "header");
  data* r = load_data_from_binary(s, h);
  vertical_segment* v = dynamic_cast<vertical_segment*>(r);
  sym_check(v != NULL && r->size() == n && r->parametrization().dimX() == dx && r->parametrization().dimY() == dy, "dimensions");
  sym_check(r->parametrization().input_parametrization() == inp(dx) && r->parametrization().output_parametrization() == outp(dy), "parametrizations");
  sym_check(v->confidence_interval_kind() == kindof(kind) && (int)v->column_number() == cols, "kind of confidence interval");
  if(r->size() == n && (int)v->column_number() == cols) {
    Eigen::Map<RowMatrixXd> m = v->matrix_view();
    for(int i = 0; i < n; ++i) for(int j = 0; j < cols; ++j) sym_check_same(m(i, j), q[i * cols + j], "value preserved bit for bit");
    for(int i = 0; i < n; ++i) { vec x = r->get(i); for(int j = 0; j < dx + dy; ++j) sym_check_same(x[j], q[i * cols + j], "sample preserved bit for bit"); }
  }
  std::string tail; std::getline(s, tail); sym_check(tail.empty(), "end of the payload"); std::getline(s, tail); sym_check(tail == "#END_STREAM", "end marker");
  delete r; delete[] q;
  sym_reach("binary");
}
// other data objects are stored without confidence intervals
struct Plain : public data {
  std::vector<vec> rows;
  Plain(const parameters& p, int n) : data(p, n) {}
  virtual vec get(int i) const { return rows[i]; }
  virtual void set(int i, const vec& x) { rows[i] = x; }
  virtual vec value(const vec& x) const { return x; }
};
HARNESS(h_binary_plain) {
  int dx = 1 + (int)sym_choice("dx", 3), dy = 1 + (int)sym_choice("dy", 3), n = 1 + (int)sym_choice("n", 3);
  Plain d(parameters(dx, dy, inp(dx), outp(dy)), n);
  for(int i = 0; i < n; ++i) { vec x(dx + dy); for(int j = 0; j < dx + dy; ++j) x[j] = sym_double(nm("v", i * 6 + j).c_str()); d.rows.push_back(x); }
  std::stringstream s; save_data_as_binary(s, d);
  arguments h = arguments::parse_header(s);
  data* r = load_data_from_binary(s, h);
  sym_check(r->size() == n && r->parametrization().dimX() == dx && r->parametrization().dimY() == dy, "dimensions");
  sym_check(dynamic_cast<vertical_segment*>(r)->confidence_interval_kind() == vertical_segment::NO_CONFIDENCE_INTERVAL, "kind of confidence interval");
  for(int i = 0; i < n && r->size() == n; ++i) { vec x = r->get(i); for(int j = 0; j < dx + dy; ++j) sym_check_same(x[j], d.rows[i][j], "sample preserved bit for bit"); }
  delete r;
  sym_reach("plain");
}
// a truncated payload is never loaded
HARNESS(h_truncated) {
  int kind = (int)sym_choice("kind", 3), n = 2, dx = 2, dy = 1, cols = dx + dy * (1 + kind);
  double* p = new double[n * cols];
  for(int i = 0; i < n * cols; ++i) p[i] = sym_double(nm("v", i).c_str());
  vertical_segment d(parameters(dx, dy, inp(dx), outp(dy)), n, std::shared_ptr<double>(p, del), kindof(kind));
  std::stringstream s; save_data_as_binary(s, d);
  std::string t = s.str();
  int head = (int)t.find("#BEGIN_STREAM") + 14, cut = (int)sym_choice("cut", 8 * 10);
  if(cut >= 8 * n * cols) { sym_reach("complete"); return; }
  std::istringstream in(t.substr(0, head + cut));
  arguments h = arguments::parse_header(in);
  bool thrown = false;
  try { data* r = load_data_from_binary(in, h); (void)r; } catch(std::ios_base::failure&) { thrown = true; }
  sym_check(thrown, "truncated data are refused");
  sym_reach("truncated");
}
// values divided by the product of the cosines, samples below the surface dropped
HARNESS(h_cosine) {
  static const params::input P[3] = { params::ISOTROPIC_TV_TL_DPHI, params::SPHERICAL_TL_PL_TV_PV, params::CARTESIAN };
  static const int D[3] = { 3, 4, 6 };
  int p = (int)sym_choice("param", 3), dx = D[p], dy = sym_choice("dy", 2) ? 3 : 1, n = 1 + (int)sym_choice("n", 2), mode = (int)sym_choice("mode", 3);
  std::stringstream s;
  s << "#DIM " << dx << " " << dy << "\n#PARAM_IN " << params::get_name(P[p]) << "\n#PARAM_OUT " << params::get_name(outp(dy)) << "\n#VS 0\n";
  double v[2][9], cv[2], cl[2];
  arguments args; args.update("data-correct-cosine", "");
  double dt = sym_range("dt", 0.001, 0.9), ym = -1e30, yM = 1e30;
  args.update("dt", num(dt));
  if(mode == 1) args.update("dt-relative", "");
  if(mode == 2) { ym = sym_range("ym", -50.0, 0.0); yM = sym_range("yM", 0.0, 50.0); args.update("ymin", num(ym)); args.update("ymax", num(yM)); }
  for(int i = 0; i < n; ++i) {
    for(int j = 0; j < dx; ++j) v[i][j] = p == 2 ? sym_range(nm("x", i * 9 + j).c_str(), -1.0, 1.0) : sym_range(nm("x", i * 9 + j).c_str(), -3.0, 3.0);
    if(p == 0) { cv[i] = cos(v[i][0]); cl[i] = cos(v[i][1]); }
    if(p == 1) { cv[i] = cos(v[i][2]); cl[i] = cos(v[i][0]); }
    if(p == 2) { cv[i] = v[i][2]; cl[i] = v[i][5]; }
    for(int j = 0; j < dy; ++j) v[i][dx + j] = sym_range(nm("y", i * 3 + j).c_str(), -100.0, 100.0);
    for(int j = 0; j < dx + dy; ++j) s << (j ? " " : "") << std::setprecision(17) << v[i][j];
    s << "\n";
  }
  arguments h = arguments::parse_header(s);
  data* r = load_data_from_text(s, h, args);
  vertical_segment* d = dynamic_cast<vertical_segment*>(r);
  int k = 0;
  for(int i = 0; i < n; ++i) {
    bool keep = cv[i] > 0.0 && cl[i] > 0.0;
    for(int j = 0; j < dy; ++j) { if(!(v[i][dx + j] >= ym)) keep = false; if(!(v[i][dx + j] <= yM)) keep = false; }
    if(!keep) continue;
    sym_check(k < r->size(), "sample above the surface is kept");
    if(!(k < r->size())) break;
    vec x, yl, yu, g = r->get(k); d->get(k, x, yl, yu);
    for(int j = 0; j < dx; ++j) sym_check_eq(g[j], v[i][j], "abscissa");
    double c = cv[i] * cl[i];
    for(int j = 0; j < dy; ++j) {
      double y = v[i][dx + j], w = mode == 1 ? (y >= 0.0 ? y : -y) * dt : dt, l = y - w, u = y + w;
      sym_check_eq(g[dx + j], y / c, "value divided by the product of the cosines");
      sym_check_eq(yl[j], l / c, "lower bound divided too"); sym_check_eq(yu[j], u / c, "upper bound divided too");
    }
    ++k;
  }
  sym_check(k == r->size(), "no other sample is loaded");
  delete r;
  sym_reach("corrected");
}
// text with confidence intervals and filters
HARNESS(h_load) {
  int dx = 1 + (int)sym_choice("dx", 2), dy = 1 + (int)sym_choice("dy", 3), n = 1 + (int)sym_choice("n", 3), vs = (int)sym_choice("vs", 3), mode = (int)sym_choice("mode", 8), filter = (int)sym_choice("filter", 4);
  if(vs && dy > 1) { sym_reach("one interval column"); return; }
  std::stringstream s;
  s << "#DIM " << dx << " " << dy << "\n#PARAM_IN " << params::get_name(inp(dx)) << "\n#PARAM_OUT " << params::get_name(outp(dy)) << "\n#VS " << vs << "\n";
  if(mode & 1) s << "# a comment\n";
  double v[3][5], lo[3], hi[3];
  arguments args;
  double dt = 0.1;
  if(mode & 4) { dt = sym_range("dt", 0.001, 0.9); args.update("dt", num(dt)); }
  int rel = mode & 3;     // 0 absolute, 1 relative, 2 maximum of both, 3 absolute and positive
  if(rel == 1) args.update("dt-relative", ""); else if(rel == 2) args.update("dt-max", ""); else if(rel == 3) args.update("data-positive", "");
  for(int i = 0; i < n; ++i) {
    for(int j = 0; j < dx + dy; ++j) { s << (j ? " " : ""); if(mode == 2 && i == 1 && j == 0) { v[i][j] = -0.25; s << "-.25e+0"; continue; } v[i][j] = sym_range(nm("v", i * 5 + j).c_str(), -100.0, 100.0); s << std::setprecision(17) << v[i][j]; }
    lo[i] = hi[i] = dt;
    if(vs == 1) { lo[i] = hi[i] = sym_range(nm("r", i).c_str(), 0.0, 10.0); s << " " << lo[i]; }
    if(vs == 2) { lo[i] = sym_range(nm("a", i).c_str(), 0.0, 10.0); hi[i] = sym_range(nm("b", i).c_str(), 0.0, 10.0); s << " " << lo[i] << " " << hi[i]; }
    s << "\n";
    if(i == 0 && (mode & 2)) s << "# another comment\n\n";
  }
  double m[2] = { -1e30, -1e30 }, M[2] = { 1e30, 1e30 }, ym[3] = { -1e30, -1e30, -1e30 }, yM[3] = { 1e30, 1e30, 1e30 };
  if(filter == 1) { m[0] = sym_range("m0", -50.0, 50.0); M[dx - 1] = sym_range("M1", -50.0, 50.0);
    if(dx == 1) { args.update("min", num(m[0])); args.update("max", "[" + num(M[0]) + "]"); } else { m[1] = -7.5; M[0] = 40.0; args.update("min", "[" + num(m[0]) + ", -7.5]"); args.update("max", "[40, " + num(M[1]) + "]"); } }
  if(filter == 2) { double a = sym_range("ym", -50.0, 50.0); for(int j = 0; j < dy; ++j) ym[j] = a; args.update("ymin", num(a)); yM[0] = sym_range("yM", -50.0, 50.0); if(dy > 1) yM[1] = 25.0; args.update("ymax", "[" + num(yM[0]) + (dy > 1 ? ", 25]" : "]")); }
  if(filter == 3) { m[0] = -10.0; M[0] = 10.0; if(dx > 1) { m[1] = -10.0; M[1] = 10.0; } args.update("min", "-10"); args.update("max", "10"); for(int j = 0; j < dy; ++j) { ym[j] = -20.0; yM[j] = 20.0; } args.update("ymin", "-20"); args.update("ymax", "20"); }
  arguments h = arguments::parse_header(s);
  data* r = load_data_from_text(s, h, args);
  vertical_segment* d = dynamic_cast<vertical_segment*>(r);
  int k = 0;
  for(int i = 0; i < n; ++i) {
    bool keep = true;
    for(int j = 0; j < dx; ++j) { double x = v[i][j]; if(!(x >= m[j])) keep = false; if(!(x <= M[j])) keep = false; }
    for(int j = 0; j < dy; ++j) { double y = v[i][dx + j]; if(rel == 3 && !(y >= 0.0)) y = 0.0; if(!(y >= ym[j])) keep = false; if(!(y <= yM[j])) keep = false; }
    if(!keep) continue;
    sym_check(k < r->size(), "sample inside the box is kept");
    if(!(k < r->size())) break;
    vec x, yl, yu, g = r->get(k); d->get(k, x, yl, yu);
    for(int j = 0; j < dx; ++j) sym_check_eq(g[j], v[i][j], "abscissa");
    for(int j = 0; j < dy; ++j) {
      double y = v[i][dx + j], a = lo[i], b = hi[i], l, u;
      double z = y >= 0.0 ? y : -y;
      if(rel == 1) { l = y - z * a; u = y + z * b; }
      else if(rel == 2) { l = y - (z * a >= a ? z * a : a); u = y + (z * b >= b ? z * b : b); }
      else { l = y - a; u = y + b; }
      if(rel == 3) { if(!(y >= 0.0)) y = 0.0; if(!(l >= 0.0)) l = 0.0; if(!(u >= 0.0)) u = 0.0; }
      sym_check_eq(g[dx + j], y, "ordinate"); sym_check_eq(yl[j], l, "lower bound of the interval"); sym_check_eq(yu[j], u, "upper bound of the interval");
    }
    ++k;
  }
  sym_check(k == r->size(), "no other sample is loaded");
  delete r;
  sym_reach("load");
}
