// Parametrization registry: names, dimensions, exact-size buffers, conversions between any two kinds, output conversions.
#include "params_common.h"
#include <vector>
static void pair_any(int p, double* c) { pair_for(p, c); }
// each conversion reads and writes exactly the declared number of coordinates
HARNESS(h_exact) {
  int p = (int)sym_choice("p", NP); double c[6]; pair_any(p, c);
  sym_check(params::dimension(kinds[p]) == dims[p], "dimension of the parametrization");
  double* in = new double[6]; for(int i = 0; i < 6; ++i) in[i] = c[i];
  double* x = new double[dims[p]];
  params::from_cartesian(in, kinds[p], x);
  for(int i = 0; i < dims[p]; ++i) sym_check(!sym_is_undef(x[i]), "every coordinate is written");
  for(int i = 0; i < 6; ++i) sym_check_same(in[i], c[i], "input left untouched");
  double y[4]; int ang[4]; double* z = new double[dims[p]]; double* o = new double[6];
  domain(p, y, ang);
  for(int i = 0; i < dims[p]; ++i) z[i] = y[i];
  params::to_cartesian(z, kinds[p], o);
  for(int i = 0; i < 6; ++i) sym_check(!sym_is_undef(o[i]), "every direction component is written");
  for(int i = 0; i < dims[p]; ++i) sym_check_same(z[i], y[i], "input left untouched");
  double* a = params::convert(o, params::CARTESIAN, params::CARTESIAN);
  for(int i = 0; i < 6; ++i) sym_check_same(a[i], o[i], "cartesian to cartesian is the identity");
  bool up = params::is_above_hemisphere(z, kinds[p]);
  sym_check(up == (o[2] >= 0.0 && o[5] >= 0.0), "hemisphere test looks at both directions");
  sym_check(params::is_below_hemisphere(z, kinds[p]) == !up, "below is not above");
  delete[] in; delete[] x; delete[] z; delete[] o; delete[] a;
  sym_reach("exact");
}
// conversion between two kinds goes through the two directions
HARNESS(h_convert) {
  int p = (int)sym_choice("p", NP), q = (int)sym_choice("q", NP); double x[4], c[6] = {0,0,0,0,0,0}, y[4], e[4]; int ang[4];
  domain(p, x, ang);
  params::to_cartesian(x, kinds[p], c);
  sym_assume(c[2] >= 0.0); sym_assume(c[5] >= 0.0);
  params::convert(x, kinds[p], kinds[q], y);
  double d[6]; params::convert(x, kinds[p], params::CARTESIAN, d);
  for(int i = 0; i < 6; ++i) sym_check_same(d[i], c[i], "conversion to directions");
  if(p == q) { for(int i = 0; i < dims[p]; ++i) sym_check_same(y[i], x[i], "same kind: identity"); }
  else {
    params::from_cartesian(c, kinds[q], e);
    for(int i = 0; i < dims[q]; ++i) sym_check_same(y[i], e[i], "conversion composes through the directions");
    double f[4]; params::convert(c, params::CARTESIAN, kinds[q], f);
    for(int i = 0; i < dims[q]; ++i) sym_check_same(f[i], e[i], "conversion from directions");
  }
  sym_reach("convert");
}
// names
HARNESS(h_names) {
  int n = 0;
  for(int p = 0; p < NP; ++p) {
    std::string s = params::get_name(kinds[p]);
    sym_check(params::parse_input(s) == kinds[p], "name parses back to its parametrization");
    sym_check(params::dimension(kinds[p]) == dims[p], "dimension of the parametrization");
    for(int q = 0; q < p; ++q) sym_check(s != params::get_name(kinds[q]), "names are distinct");
  }
  sym_check(params::parse_input(params::get_name(params::CARTESIAN)) == params::CARTESIAN, "name parses back to its parametrization");
  sym_check(params::dimension(params::CARTESIAN) == 6, "dimension of the parametrization");
  sym_check(params::get_name(params::UNKNOWN_INPUT) == "UNKNOWN_INPUT" && params::parse_input("UNKNOWN_INPUT") == params::UNKNOWN_INPUT && params::dimension(params::UNKNOWN_INPUT) == -1, "unknown parametrization");
  for(int k = 0; k <= (int)params::UNKNOWN_INPUT; ++k) {
    std::string s = params::get_name((params::input)k);
    sym_check((params::dimension((params::input)k) > 0) == (s != "UNKNOWN_INPUT"), "named kinds have a dimension");
    if(s != "UNKNOWN_INPUT") ++n;
  }
  sym_check(n == NP + 1, "number of named kinds");
  static const params::output outs[5] = { params::INV_STERADIAN, params::INV_STERADIAN_COSINE_FACTOR, params::ENERGY, params::RGB_COLOR, params::XYZ_COLOR };
  static const char* on[5] = { "INV_STERADIAN", "INV_STERADIAN_COSINE_FACTOR", "ENERGY", "RGB_COLOR", "XYZ_COLOR" };
  static const int od[5] = { 1, 1, 1, 3, 3 };
  for(int o = 0; o < 5; ++o) {
    sym_check(params::get_name(outs[o]) == on[o], "output name");
    sym_check(params::parse_output(on[o]) == outs[o], "output name parses back");
    sym_check(params::dimension(outs[o]) == od[o], "output dimension");
    sym_check(params::is_cosine_weighted(outs[o]) == (o == 1), "only the cosine-factor output is cosine weighted");
  }
  sym_check(params::get_name(params::UNKNOWN_OUTPUT) == "UNKNOWN_OUTPUT" && params::parse_output("UNKNOWN_OUTPUT") == params::UNKNOWN_OUTPUT, "unknown output");
  sym_reach("names");
}
// an arbitrary text of the same length as a registered name is that name or is unknown
HARNESS(h_parse) {
  int p = (int)sym_choice("p", NP + 1), q = (int)sym_choice("q", 5);
  params::input k = p < NP ? kinds[p] : params::CARTESIAN;
  static const params::output outs[5] = { params::INV_STERADIAN, params::INV_STERADIAN_COSINE_FACTOR, params::ENERGY, params::RGB_COLOR, params::XYZ_COLOR };
  std::string n = q == 0 ? params::get_name(k) : params::get_name(outs[q]);
  std::string s = n;
  for(size_t i = 0; i < s.size(); ++i) s[i] = sym_byte("c");
  if(q == 0) { params::input r = params::parse_input(s); if(r != params::UNKNOWN_INPUT) sym_check(params::get_name(r) == s, "parsed text is the name of the result"); else sym_check(!(s == n), "registered name is recognised"); }
  else { params::output r = params::parse_output(s); if(r != params::UNKNOWN_OUTPUT) sym_check(params::get_name(r) == s, "parsed text is the name of the result"); else sym_check(!(s == n), "registered name is recognised"); }
  sym_reach("parse");
}
// output conversion: identity, replication of a scalar, or average
HARNESS(h_output) {
  int n = 1 + (int)sym_choice("n", 5), m = 1 + (int)sym_choice("m", 5);
  if(n != m && n != 1 && m != 1) { sym_reach("not convertible"); return; }
  double* in = new double[n]; double* out = new double[m]; double s = 0.0;
  static const char* nm[5] = { "a", "b", "c", "d", "e" };
  for(int i = 0; i < n; ++i) { in[i] = sym_range(nm[i], -1e6, 1e6); s = s + in[i]; }
  if(sym_choice("stale", 2)) for(int i = 0; i < m; ++i) out[i] = 7.0;
  params::convert(in, params::UNKNOWN_OUTPUT, n, params::UNKNOWN_OUTPUT, m, out);
  for(int i = 0; i < m; ++i) {
    double want = n == m ? in[i] : n == 1 ? in[0] : s / (double)n;
    sym_check_eq(out[i], want, n == m ? "same dimension: copied" : n == 1 ? "scalar: replicated" : "to scalar: averaged");
  }
  delete[] in; delete[] out;
  sym_reach("output");
}
