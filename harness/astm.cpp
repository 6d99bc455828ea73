// Measurements in the ASTM format.
#include "sym.h"
#include <core/common.h>
#include <core/params.h>
#include <core/data.h>
#include <core/args.h>
#include <core/vertical_segment.h>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <cmath>
#include <string>
#include <stdexcept>
using namespace alta;
extern "C" data* load_data(std::istream&, const arguments&);
extern "C" data* provide_data(size_t, const parameters&, const arguments&);
static std::string nm(const char* p, int i, int j) { std::string s(p); s += (char)('0' + i); s += (char)('0' + j); return s; }
static const char* VARS[4] = { "theta_i,phi_i,theta_s,phi_s,R,G,B", "theta_i,phi_i,theta_s,phi_s,Integrated", "theta_i,theta_s,phi_s,R,G,B", "theta_i,theta_s,phi_s,Integrated 300-700" };
static const int DX[4] = { 4, 4, 3, 3 }, DY[4] = { 3, 1, 3, 1 };
static int form, n, lines; static double v[4][8];
static std::string text(int rows, bool vars = true) {
  std::stringstream s; s << std::setprecision(17); int w = DX[form] + DY[form], style = (int)sym_choice("style", 3);
  s << "ASTM \"E 1392-90\"\nKEY \"a paint\"\nNUM_POINTS " << n << "\n"; if(style == 1) s << "COMMENT measured, twice\n";
  if(vars) s << "VARS " << VARS[form] << "\n"; if(style == 1) s << "\n";
  for(int i = 0; i < rows; ++i) {
    for(int j = 0; j < w; ++j) { s << (j == 0 ? "" : style == 2 ? ", " : ","); if(style == 2 && j == 0) { v[i][j] = -0.25; s << (i ? "-0.25" : "-.25e+0"); } else { v[i][j] = sym_range(nm("v", i, j).c_str(), -100.0, 100.0); s << v[i][j]; } }
    s << "\n"; if(style == 1 && i == 0) s << "\n\n";
  }
  return s.str();
}
HARNESS(h_load) {
  form = (int)sym_choice("form", 4); n = 1 + (int)sym_choice("n", 3);
  std::stringstream s(text(n + (int)sym_choice("more", 2))); data* d = load_data(s, arguments()); sym_check(d != NULL, "loads"); if(!d) return;
  const parameters& p = d->parametrization(); int w = DX[form] + DY[form];
  sym_check(d->size() == n, "as many samples as announced");
  sym_check(p.dimX() == DX[form] && p.dimY() == DY[form], "dimensions"); if(p.dimX() != DX[form] || p.dimY() != DY[form]) return;
  sym_check(p.input_parametrization() == (DX[form] == 4 ? params::SPHERICAL_TL_PL_TV_PV : params::UNKNOWN_INPUT), "input parametrization");
  sym_check(p.output_parametrization() == (DY[form] == 3 ? params::RGB_COLOR : params::INV_STERADIAN), "output parametrization");
  for(int i = 0; i < n; ++i) { vec r = d->get(i); sym_check(r.size() >= w, "size of a sample"); for(int j = 0; j < w; ++j) sym_check_eq(r[j], v[i][j], "the samples are those of the file"); }
  for(int j = 0; j < DX[form]; ++j) { double lo = v[0][j], hi = v[0][j]; for(int i = 1; i < n; ++i) { if(v[i][j] < lo) lo = v[i][j]; if(v[i][j] > hi) hi = v[i][j]; } sym_check_eq(d->min()[j], lo, "lower bound"); sym_check_eq(d->max()[j], hi, "upper bound"); }
  delete d;
  sym_reach("load");
}
HARNESS(h_refused) {
  form = (int)sym_choice("form", 4); n = 1 + (int)sym_choice("n", 3); int kind = (int)sym_choice("kind", 2);
  std::stringstream s(kind ? text(n, false) : text(n - 1)); bool thrown = false; data* d = NULL;
  try { d = load_data(s, arguments()); } catch(std::exception&) { thrown = true; }
  sym_check(thrown, kind ? "files that do not name their columns are refused" : "files that end before the last sample are refused");
  sym_reach("refused");
}
HARNESS(h_new) {
  int k = 1 + (int)sym_choice("n", 3); data* d = provide_data(k, parameters(4, 3, params::SPHERICAL_TL_PL_TV_PV, params::RGB_COLOR), arguments());
  sym_check(d->size() == k && d->parametrization().dimX() == 4 && d->parametrization().dimY() == 3, "as many samples as asked");
  for(int i = 0; i < k; ++i) { vec r(7); for(int j = 0; j < 7; ++j) v[i][j] = r[j] = sym_range(nm("v", i, j).c_str(), -10.0, 10.0); d->set(i, r); }
  for(int i = 0; i < k; ++i) { vec r = d->get(i); for(int j = 0; j < 7; ++j) sym_check_eq(r[j], v[i][j], "samples are kept"); }
  delete d;
  sym_reach("new");
}
