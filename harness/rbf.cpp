// Interpolation of scattered samples with radial kernels.
#include "sym.h"
#include <core/common.h>
#include <core/params.h>
#include <core/data.h>
#include <core/args.h>
#include <core/vertical_segment.h>
#include <core/data_storage.h>
#include <core/plugins_manager.h>
#include <flann/flann.hpp>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <cmath>
#include <string>
using namespace alta;
extern "C" data* load_data(std::istream&, const arguments&);
namespace flann { std::vector<std::vector<double> > played_points; int played_builds, played_searches; std::vector<int> played_answer; std::vector<double> played_query; }
static std::string nm(const char* p, int i, int j = -1) { std::string s(p); s += (char)('0' + i); if(j >= 0) s += (char)('0' + j); return s; }
// the first neighbour is any sample, others follow it
static int first;
extern "C" int hook_neighbour(int rank, int size) { if(rank == 0) first = (int)sym_choice("first", size); return (first + rank) % size; }
static int dx, dy, n; static std::vector<double> v;
static data* make() {
  dx = 1 + (int)sym_choice("dx", 3); dy = sym_choice("rgb", 2) ? 3 : 1; n = 1 + (int)sym_choice("n", 5);
  static const params::input P[3] = { params::COS_TH, params::RUSIN_TH_TD, params::RUSIN_TH_TD_PD };
  std::stringstream s; s << "#DIM " << dx << " " << dy << "\n#PARAM_IN " << params::get_name(P[dx - 1]) << "\n#PARAM_OUT " << (dy == 3 ? "RGB_COLOR" : "INV_STERADIAN") << "\n#VS 0\n" << std::setprecision(17);
  v.resize(n * (dx + dy));
  for(int i = 0; i < n; ++i) { for(int j = 0; j < dx + dy; ++j) { v[i * (dx + dy) + j] = sym_range(nm(j < dx ? "x" : "y", i, j).c_str(), j < dx ? 0.0 : -100.0, j < dx ? 1.5 : 100.0); s << v[i * (dx + dy) + j] << " "; } s << "\n"; }
  arguments a; return load_data(s, a);
}
HARNESS(h_samples) {
  data* d = make(); sym_check(d != NULL, "loads"); if(!d) return;
  sym_check(d->size() == n, "number of samples");
  sym_check(d->parametrization().dimX() == dx && d->parametrization().dimY() == dy, "dimensions");
  static const params::input P[3] = { params::COS_TH, params::RUSIN_TH_TD, params::RUSIN_TH_TD_PD }; sym_check(d->parametrization().input_parametrization() == P[dx - 1], "parametrization");
  for(int i = 0; i < n; ++i) { vec r = d->get(i); sym_check(r.size() >= dx + dy, "size of a sample"); for(int j = 0; j < dx + dy && j < r.size(); ++j) sym_check_eq(r[j], v[i * (dx + dy) + j], "the samples are those of the file"); }
  for(int j = 0; j < dx; ++j) { double lo = v[j], hi = v[j]; for(int i = 1; i < n; ++i) { double t = v[i * (dx + dy) + j]; if(t < lo) lo = t; if(t > hi) hi = t; } sym_check_eq(d->min()[j], lo, "lower bound"); sym_check_eq(d->max()[j], hi, "upper bound"); }
  delete d;
  sym_reach("samples");
}
HARNESS(h_value) {
  data* d = make(); if(!d) return;
  sym_check(flann::played_builds == 1 && (int)flann::played_points.size() == n, "every sample is indexed"); if((int)flann::played_points.size() != n) return;
  for(int i = 0; i < n; ++i) { sym_check((int)flann::played_points[i].size() == dx, "dimension of the index"); if((int)flann::played_points[i].size() != dx) return; for(int j = 0; j < dx; ++j) sym_check_eq(flann::played_points[i][j], v[i * (dx + dy) + j], "the index has the abscissas of the samples"); }
  vec x(dx); for(int j = 0; j < dx; ++j) x[j] = sym_range(nm("q", j).c_str(), 0.0, 1.5);
  vec y = d->value(x); sym_check(y.size() == dy, "one value per channel"); if(y.size() != dy) return;
  sym_check(flann::played_searches == 1 && (int)flann::played_answer.size() == (n < 3 ? n : 3), "the three nearest samples are searched"); sym_check((int)flann::played_query.size() == dx, "query"); for(int j = 0; j < dx && j < (int)flann::played_query.size(); ++j) sym_check_eq(flann::played_query[j], x[j], "neighbours of the point asked");
  double w[3], sum = 0; int m = (int)flann::played_answer.size(); if(m > 3) return;
  for(int k = 0; k < m; ++k) { double s = 0; for(int j = 0; j < dx; ++j) { double t = v[flann::played_answer[k] * (dx + dy) + j] - x[j]; s += t * t; } w[k] = 1.0 / (1e-10 + s); sum += w[k]; }
  for(int c = 0; c < dy; ++c) { double e = 0; for(int k = 0; k < m; ++k) e += w[k] * v[flann::played_answer[k] * (dx + dy) + dx + c]; sym_check_eq(y[c], e / sum, "mean of the neighbours weighted by the kernel"); }
  sym_reach("value");
}
HARNESS(h_save) {
  data* d = make(); if(!d) return;
  d->save("out.dat"); { std::ifstream f("out.dat"); sym_check(f.is_open(), "a file is written"); if(!f.is_open()) return; }
  ptr<data> r = plugins_manager::load_data("out.dat", "", arguments()); sym_check(r && r->size() == n, "the file has all the samples"); if(!r || r->size() != n) return;
  for(int i = 0; i < n; ++i) { vec t = r->get(i); for(int j = 0; j < dx + dy; ++j) sym_check_printed(t[j], v[i * (dx + dy) + j], 15, "the file has the samples"); }
  sym_reach("save");
}
