// Data on a regular grid with multilinear interpolation.
#include "sym.h"
#include <core/common.h>
#include <core/params.h>
#include <core/data.h>
#include <core/args.h>
#include <core/data_storage.h>
#include <fstream>
#include <cmath>
#include <stdexcept>
#include <string>
using namespace alta;
extern "C" data* provide_data(size_t, const parameters&, const arguments&);
extern "C" data* load_data(std::istream&, const arguments&);
static std::string nm(const char* p, int i) { std::string s(p); s += (char)('0' + i / 10); s += (char)('0' + i % 10); return s; }
struct Dom { params::input in; int n; double lo[3], hi[3]; };
static const int ND = 9;
static Dom domain(int k) {
  static const Dom d[ND] = {
    { params::STARK_2D, 2, { 0, 0 }, { 1, 1 } }, { params::RUSIN_TH_TD, 2, { 0, 0 }, { M_PI / 2, M_PI / 2 } }, { params::COS_TH, 1, { 0 }, { 1 } },
    { params::COS_TK, 1, { 0 }, { 1 } }, { params::ISOTROPIC_TV_PROJ_DPHI, 2, { -M_PI / 2, -M_PI / 2 }, { M_PI / 2, M_PI / 2 } }, { params::COS_TH_TD, 2, { 0, 0 }, { 1, 1 } },
    { params::COS_TLV, 1, { -1 }, { 1 } }, { params::COS_TLR, 1, { -1 }, { 1 } }, { params::RUSIN_TH_TD_PD, 3, { 0, 0, 0 }, { M_PI / 2, M_PI / 2, 2 * M_PI } } };
  return d[k];
}
static const char* GS[3][3] = { { "[2]", "[3]", "[2]" }, { "[2, 3]", "[3, 2]", "[3, 3]" }, { "[2, 2, 2]", "[2, 3, 2]", "[3, 2, 2]" } };
static const int GI[3][3][3] = { { { 2 }, { 3 }, { 2 } }, { { 2, 3 }, { 3, 2 }, { 3, 3 } }, { { 2, 2, 2 }, { 2, 3, 2 }, { 3, 2, 2 } } };
static Dom D; static int S[3], N, DY;
static data* make() {
  D = domain((int)sym_choice("domain", ND)); int g = (int)sym_choice("size", 2); DY = 1 + 2 * (int)sym_choice("rgb", 2);
  arguments a; N = 1; for(int i = 0; i < D.n; ++i) { S[i] = GI[D.n - 1][g][i]; N *= S[i]; }
  a.update("grid-size", GS[D.n - 1][g]);
  int how = (int)sym_choice("how", 3); params::output o = DY == 3 ? params::RGB_COLOR : params::INV_STERADIAN;
  parameters p;
  if(how == 0) p = parameters(D.n, DY, D.in, o);
  else if(how == 1) { a.update("param", params::get_name(D.in)); p = parameters(6, DY, params::CARTESIAN, o); }
  else { a.update("PARAM_IN", params::get_name(D.in)); a.update("PARAM_OUT", params::get_name(o)); }
  return provide_data((size_t)sym_choice("hint", 2), p, a);
}
static double node(int dim, int k) { return D.lo[dim] + (D.hi[dim] - D.lo[dim]) * k / (S[dim] - 1); }
static void coords(int i, int* k) { for(int j = D.n - 1; j >= 0; --j) { k[j] = i % S[j]; i /= S[j]; } }
static int index(const int* k) { int i = 0; for(int j = 0; j < D.n; ++j) i = i * S[j] + k[j]; return i; }
static void fill(data* d, double* v) {
  for(int i = 0; i < N; ++i) { vec s = d->get(i); for(int y = 0; y < DY; ++y) { v[i * DY + y] = sym_range(nm("v", i * DY + y).c_str(), -1e3, 1e3); s[D.n + y] = v[i * DY + y]; } d->set(i, s); }
}
HARNESS(h_nodes) {
  data* d = make();
  sym_check(d->size() == N, "number of samples");
  sym_check(d->parametrization().dimX() == D.n && d->parametrization().dimY() == DY && d->parametrization().input_parametrization() == D.in, "parametrization");
  for(int i = 0; i < N; ++i) {
    vec s = d->get(i); int k[3]; coords(i, k);
    sym_check(s.size() == D.n + DY, "size of a sample");
    for(int j = 0; j < D.n; ++j) sym_check_eq(s[j], node(j, k[j]), "abscissa of a node");
    for(int y = 0; y < DY; ++y) sym_check_eq(s[D.n + y], 0.0, "a new grid is black");
  }
  for(int j = 0; j < D.n; ++j) { sym_check_eq(d->min()[j], D.lo[j], "lower bound"); sym_check_eq(d->max()[j], D.hi[j], "upper bound"); }
  sym_reach("nodes");
}
HARNESS(h_value) {
  data* d = make(); static double v[64]; fill(d, v);
  // every point of the domain: the cell and the position inside it
  int c[3]; double r[3]; vec x(D.n);
  for(int j = 0; j < D.n; ++j) { c[j] = (int)sym_choice(nm("c", j).c_str(), S[j] - 1); r[j] = sym_range(nm("r", j).c_str(), 0.0, 1.0); x[j] = D.lo[j] + (D.hi[j] - D.lo[j]) * (c[j] + r[j]) / (S[j] - 1); }
  vec y = d->value(x);
  sym_check(y.size() == DY, "size of the value");
  for(int q = 0; q < DY; ++q) {
    double e = 0;
    for(int b = 0; b < (1 << D.n); ++b) { int k[3]; double w = 1; for(int j = 0; j < D.n; ++j) { int s = (b >> j) & 1; k[j] = c[j] + s; w *= s ? r[j] : 1 - r[j]; } e += w * v[index(k) * DY + q]; }
    sym_check_eq(y[q], e, "multilinear interpolation of the nodes around the point");
  }
  sym_reach("value");
}
HARNESS(h_node_value) {
  data* d = make(); static double v[64]; fill(d, v);
  int i = (int)sym_choice("node", N); vec s = d->get(i), y = d->value(s.head(D.n));
  for(int q = 0; q < DY; ++q) { sym_check_eq(y[q], v[i * DY + q], "value at a node"); sym_check_eq(s[D.n + q], v[i * DY + q], "stored sample"); }
  sym_reach("node");
}
HARNESS(h_outside) {
  data* d = make(); static double v[64]; fill(d, v);
  vec x(D.n), z(D.n);
  for(int j = 0; j < D.n; ++j) {
    x[j] = z[j] = sym_range(nm("x", j).c_str(), -20.0, 20.0);
    long side = sym_choice(nm("side", j).c_str(), 3);
    if(side == 0) { sym_assume(x[j] <= D.lo[j]); z[j] = D.lo[j]; } else if(side == 1) { sym_assume(x[j] >= D.hi[j]); z[j] = D.hi[j]; }
    else { x[j] = z[j] = D.lo[j] + (D.hi[j] - D.lo[j]) * sym_range(nm("r", j).c_str(), 0.0, 1.0); }
  }
  vec y = d->value(x), w = d->value(z);
  for(int q = 0; q < DY; ++q) sym_check_eq(y[q], w[q], "outside of the domain, value of the closest point of the domain");
  sym_reach("outside");
}
HARNESS(h_store) {
  data* d = make(); static double v[64];
  for(int i = 0; i < N; ++i) { vec s = d->get(i); for(int y = 0; y < DY; ++y) { v[i * DY + y] = sym_round(sym_range(nm("v", i * DY + y).c_str(), -1e3, 1e3), 15); s[D.n + y] = v[i * DY + y]; } d->set(i, s); }
  d->save("g.alta");
  std::ifstream in("g.alta"); data* e = load_data(in, arguments());
  sym_check(e->size() == N && e->parametrization().dimX() == D.n && e->parametrization().dimY() == DY && e->parametrization().input_parametrization() == D.in && e->parametrization().output_parametrization() == d->parametrization().output_parametrization(), "size and parametrization preserved");
  if(e->size() == N) for(int i = 0; i < N; ++i) { vec a = d->get(i), b = e->get(i); for(int j = 0; j < DY; ++j) sym_check_eq(b[D.n + j], v[i * DY + j], "sample preserved"); }
  // the abscissas of the file are decimal numbers, so that multiples of pi are not kept exactly
  for(int j = 0; j < D.n; ++j) if(D.lo[j] != (double)(int)D.lo[j] || D.hi[j] != (double)(int)D.hi[j]) { sym_reach("store"); return; }
  int i = (int)sym_choice("node", N); vec s = d->get(i), y = e->value(s.head(D.n));
  for(int q = 0; q < DY; ++q) sym_check_eq(y[q], v[i * DY + q], "value of the loaded grid at a node");
  sym_reach("store");
}
HARNESS(h_default) {
  data* d = provide_data(0, parameters(), arguments());
  sym_check(d->size() == 100 && d->parametrization().input_parametrization() == params::STARK_2D && d->parametrization().dimX() == 2, "ten nodes along each of the two dimensions of STARK_2D by default");
  for(int i = 0; i < 100; ++i) { vec s = d->get(i); sym_check_eq(s[0], (i / 10) / 9.0, "first coordinate"); sym_check_eq(s[1], (i % 10) / 9.0, "second coordinate"); }
  bool refused = false; arguments a; a.update("grid-size", "[2, 2, 2, 2, 2, 2]"); try { provide_data(0, parameters(6, 1, params::CARTESIAN, params::INV_STERADIAN), a); } catch(std::exception&) { refused = true; }
  sym_check(refused, "a parametrization without bounds is refused");
  sym_reach("default");
}
