// MERL measurements: storage, look-up, files.
#include "sym.h"
#include <core/common.h>
#include <core/params.h>
#include <core/data.h>
#include <core/args.h>
#include <fstream>
#include <cmath>
#include <cstring>
#include <stdexcept>
using namespace alta;
extern "C" data* provide_data(size_t, const parameters&, const arguments&);
extern "C" data* load_data(std::istream&, const arguments&);
static const int NH = 90, ND = 90, NP = 180, N = NH * ND * NP;
static const double S[3] = { 1.0 / 1500.0, 1.15 / 1500.0, 1.66 / 1500.0 };
static void dims(char* p, int a, int b, int c) { int d[3] = { a, b, c }; std::memcpy(p, d, 12); }
// a file with arbitrary values; the doubles as stored
static const double* file(const char* name) {
  char* p = sym_lazy_array("m", 12, 12 + 24L * N); dims(p, NH, ND, NP);
  sym_file_put(name, p, 12 + 24L * N);
  return (const double*)(p + 12);
}
static double at(const double* p, long i) { double v; std::memcpy(&v, p + i, 8); return v; }
static data* open(const char* name) { std::ifstream in(name, std::ios_base::binary); return load_data(in, arguments()); }
HARNESS(h_load) {
  const double* p = file("m.binary"); data* d = open("m.binary");
  sym_check(d->size() == N && d->parametrization().dimX() == 3 && d->parametrization().dimY() == 3, "size and dimensions");
  sym_check(d->parametrization().input_parametrization() == params::RUSIN_TH_TD_PD && d->parametrization().output_parametrization() == params::RGB_COLOR, "parametrization");
  long i = sym_int("i", 0, N - 1); vec x = d->get(i);
  sym_check(x.size() == 6, "size of a sample");
  for(int c = 0; c < 3; ++c) sym_check_eq(x[3 + c], at(p, i + (long)c * N) * S[c], "channel of a sample of the file");
  // abscissas
  long h = i / (ND * NP), t = (i / NP) % ND, q = i % NP;
  sym_check_eq(x[0], (h + 0.5) * (h + 0.5) / 8100.0 * M_PI / 2, "theta half");
  sym_check_eq(x[1], (t + 0.5) / 90.0 * M_PI / 2, "theta difference");
  sym_check_eq(x[2], (q + 0.5) / 180.0 * M_PI, "phi difference");
  sym_reach("load");
}
HARNESS(h_lookup) {
  file("m.binary"); data* d = open("m.binary");
  long i = sym_int("i", 0, N - 1); vec x = d->get(i), y = d->value(x.head(3));
  bool neg = (x[3] < 0) | (x[4] < 0) | (x[5] < 0);
  for(int c = 0; c < 3; ++c) sym_check_eq(y[c], neg ? 0.0 : x[3 + c], "value at the abscissa of a sample");
  sym_reach("lookup");
}
HARNESS(h_set) {
  const double* p = file("m.binary"); data* d = open("m.binary");
  long j = sym_int("j", 0, N - 1), k = sym_int("k", 0, N - 1), i = sym_int("i", 0, N - 1);
  vec a = vec::Zero(6), b = vec::Zero(6);
  for(int c = 0; c < 3; ++c) { a[3 + c] = sym_range("a", 0.0, 1e3); b[3 + c] = sym_range("b", -10.0, 1e3); }
  for(int c = 0; c < 3; ++c) { a[c] = sym_range("u", 0.0, 1.5); b[c] = sym_range("v", 0.0, 1.5); }
  d->set(j, a); d->set(k, b);
  vec x = d->get(i), y = d->value(x.head(3));
  bool neg = (x[3] < 0) | (x[4] < 0) | (x[5] < 0);
  for(int c = 0; c < 3; ++c) {
    sym_check_eq(x[3 + c], i == k ? b[3 + c] : i == j ? a[3 + c] : at(p, i + (long)c * N) * S[c], "a sample that is set is returned, the others are kept");
    sym_check_eq(y[c], neg ? 0.0 : x[3 + c], "value after a sample is set");
  }
  sym_check(d->size() == N, "size after a sample is set");
  sym_reach("set");
}
HARNESS(h_domain) {
  file("m.binary"); data* d = open("m.binary");
  vec x(3); x[0] = sym_range("th", -2.0, 4.0); x[1] = sym_range("td", -2.0, 4.0); x[2] = sym_range("pd", -8.0, 8.0);
  vec y = d->value(x), z = x; z[2] = -x[2]; vec w = d->value(z);
  bool out = (x[0] < 0) | (x[0] > M_PI / 2) | (x[1] < 0) | (x[1] > M_PI / 2) | (x[2] > 2 * M_PI) | (x[2] < -2 * M_PI);
  for(int c = 0; c < 3; ++c) { sym_check(y[c] >= 0, "never negative"); sym_check_eq(y[c], w[c], "even in the azimuth"); if(out) sym_check_eq(y[c], 0.0, "zero outside the domain"); }
  if(!out) {
    double q = std::fabs(x[2]); if(q > M_PI) q = 2 * M_PI - q;
    vec v = x; v[2] = 2 * M_PI - q; vec u = d->value(v);
    for(int c = 0; c < 3; ++c) sym_check_eq(u[c], y[c], "symmetric with respect to pi");
  }
  sym_reach("domain");
}
HARNESS(h_save) {
  file("m.binary"); data* d = open("m.binary");
  long j = sym_int("j", 0, N - 1), i = sym_int("i", 0, N - 1); vec a = vec::Zero(6);
  for(int c = 0; c < 3; ++c) a[3 + c] = sym_range("a", -10.0, 1e3);
  d->set(j, a);
  d->save("saved.binary");
  data* e = open("saved.binary");
  vec x = d->get(i), y = e->get(i);
  for(int c = 0; c < 6; ++c) sym_check_eq(y[c], x[c], "sample preserved");
  sym_check(e->size() == d->size(), "size preserved");
  sym_reach("save");
}
HARNESS(h_invalid) {
  int k = (int)sym_choice("kind", 4);
  long size = 12 + 24L * N, n = size; int a = NH, b = ND, c = NP;
  if(k == 0) { a = (int)sym_int("a", 0, 500); b = (int)sym_int("b", 0, 500); c = (int)sym_int("c", 0, 500); sym_assume(a * b * c != N); }
  else if(k == 1) n = size - 8;
  else if(k == 2) n = 12;
  else n = 12 + 8L * N;
  char* p = sym_lazy_array("m", 12, size); dims(p, a, b, c);
  sym_file_put("m.binary", p, n);
  bool refused = false; data* d = 0;
  try { d = open("m.binary"); } catch(std::exception&) { refused = true; }
  sym_check(refused, "an invalid file is refused");
  sym_reach("invalid");
}
HARNESS(h_new) {
  data* d = provide_data((size_t)sym_choice("size", 2), parameters(), arguments());
  sym_check(d->size() == N && d->parametrization().dimX() == 3 && d->parametrization().dimY() == 3, "size and dimensions");
  long i = sym_int("i", 0, N - 1); vec x = d->get(i);
  for(int c = 0; c < 3; ++c) sym_check_eq(x[3 + c], 0.0, "new data is black");
  vec lo = d->min(), hi = d->max();
  for(int c = 0; c < 3; ++c) sym_check((lo[c] <= x[c]) & (x[c] <= hi[c]), "abscissas inside the bounds");
  sym_reach("new");
}
HARNESS(h_cell) {
  file("m.binary"); data* d = open("m.binary");
  // every direction of the domain: the cell (h, t, f) and the position inside it
  long h = sym_int("h", 0, NH - 1), t = sym_int("t", 0, ND - 1), f = sym_int("f", 0, NP - 1);
  double r[3]; const char* n[3] = { "r0", "r1", "r2" }; int edge = (int)sym_choice("edge", 4);
  for(int c = 0; c < 3; ++c) { r[c] = sym_range(n[c], 0.0, 1.0); if(edge == c + 1) r[c] = 1.0; else sym_assume(r[c] < 1.0); }
  if(edge == 1) h = NH - 1; else if(edge == 2) t = ND - 1; else if(edge == 3) f = NP - 1;
  vec x(3); x[0] = (h + r[0]) * (h + r[0]) / 8100.0 * (M_PI / 2); x[1] = (t + r[1]) / 90.0 * (M_PI / 2); x[2] = (f + r[2]) / 180.0 * M_PI;
  int s = (int)sym_choice("sign", 3); if(s == 1) x[2] = -x[2]; else if(s == 2) x[2] = 2 * M_PI - x[2];
  vec y = d->value(x), z = d->get((int)((h * ND + t) * NP + f));
  bool neg = (z[3] < 0) | (z[4] < 0) | (z[5] < 0);
  for(int c = 0; c < 3; ++c) sym_check_eq(y[c], neg ? 0.0 : z[3 + c], "value of the cell that contains the direction");
  sym_reach("cell");
}
