// Slices of BRDFs stored in images.
#include "sym.h"
#include "exr_stub.h"
#include <core/common.h>
#include <core/params.h>
#include <core/data.h>
#include <core/args.h>
#include <fstream>
#include <cmath>
#include <cstring>
#include <stdexcept>
using namespace alta;
extern "C" data* provide_data(size_t, const parameters&, const arguments&);
extern "C" data* load_data(std::istream&, const arguments&);
static std::string nm(const char* p, int i) { std::string s(p); s += (char)('0' + i / 10); s += (char)('0' + i % 10); return s; }
// the coordinate systems, their domain along the two axes of the image, and whether the image holds their last coordinates
struct Sys { int in, n; double lo, hi; bool rev; };
static const int NS = 9;
static const Sys& sys(int k) {
  static const Sys t[NS] = { { -1, 2, 0, 1, false }, { params::STARK_2D, 2, 0, 1, false }, { params::RUSIN_TH_TD, 2, 0, M_PI / 2, false }, { params::RUSIN_TH_TD_PD, 3, 0, M_PI / 2, false },
    { params::ISOTROPIC_TV_TL_DPHI, 3, -M_PI / 2, M_PI / 2, false }, { params::ISOTROPIC_TL_TV_PROJ_DPHI, 3, -M_PI / 2, M_PI / 2, true }, { params::SCHLICK_TL_TK_PROJ_DPHI, 3, -M_PI / 2, M_PI / 2, true },
    { params::RETRO_TL_TVL_PROJ_DPHI, 3, -M_PI / 2, M_PI / 2, true }, { params::SPHERICAL_TL_PL_TV_PV, 2, 0, 1, false } };
  return t[k];
}
static Sys S; static int W, H; static float* img[3]; static double PHI;
static arguments OPT;
static arguments options() {
  S = sys((int)sym_choice("param", NS)); arguments a; a.update("filename", "s.exr"); PHI = M_PI / 2;
  if(S.in >= 0) a.update("param", params::get_name((params::input)S.in));
  if(sym_choice("phi", 2)) { a.update("phi", "30"); if(S.n == 3) PHI = M_PI / 6; }
  OPT = a; return a;
}
static const char* const ORDER[5] = { "BGR", "RGB", "GBR", "ABGR", "RB" };
static data* make(const char* names = "BGR") {
  arguments a = options(); W = 1 + (int)sym_choice("w", 3); H = 1 + (int)sym_choice("h", 2);
  float* pl[4]; int n = (int)std::strlen(names);
  for(int c = 0; c < 3; ++c) { img[c] = (float*)std::calloc(W * H, sizeof(float)); for(int k = 0; k < W * H; ++k) img[c][k] = 0; }
  for(int c = 0; c < n; ++c) {
    float* q = (float*)std::malloc(W * H * sizeof(float)); pl[c] = q;
    for(int k = 0; k < W * H; ++k) q[k] = (float)sym_range(nm("v", 10 * c + k).c_str(), -100.0, 100.0);
    int y = names[c] == 'R' ? 0 : names[c] == 'G' ? 1 : names[c] == 'B' ? 2 : -1;
    if(y >= 0) img[y] = q;
  }
  exr_put("s.exr", W, H, pl, names);
  std::ifstream in("s.exr", std::ios_base::binary); return load_data(in, a);
}
static void place(vec& x, double u, double v, double w) { if(S.n == 2) { x[0] = u; x[1] = v; } else if(S.rev) { x[0] = w; x[1] = v; x[2] = u; } else { x[0] = u; x[1] = v; x[2] = w; } }
HARNESS(h_load) {
  int o = (int)sym_choice("order", 5); data* d = make(ORDER[o]);
  int in = S.in < 0 || S.in == params::SPHERICAL_TL_PL_TV_PV ? params::STARK_2D : S.in;
  sym_check(d->size() == W * H && d->parametrization().dimX() == S.n && d->parametrization().dimY() == 3, "size and dimensions");
  sym_check(d->parametrization().input_parametrization() == in && d->parametrization().output_parametrization() == params::RGB_COLOR, "parametrization");
  for(int k = 0; k < W * H; ++k) {
    vec s = d->get(k); sym_check(s.size() == S.n + 3, "size of a sample");
    for(int c = 0; c < 3; ++c) sym_check_eq(s[S.n + c], img[c][k], "pixel of the image");
    vec x(S.n); place(x, S.lo + (S.hi - S.lo) * (k % W + 0.5) / W, S.lo + (S.hi - S.lo) * (k / W + 0.5) / H, PHI);
    for(int j = 0; j < S.n; ++j) sym_check_eq(s[j], x[j], "abscissa of a pixel");
  }
  vec lo = d->min(), hi = d->max(); sym_check(lo.size() == S.n && hi.size() == S.n, "size of the bounds");
  vec s = d->get((int)sym_choice("k", W * H));
  if(!S.rev) for(int j = 0; j < 2; ++j) { sym_check(lo[j] <= s[j], "pixels above the lower bound"); sym_check(hi[j] >= s[j], "pixels below the upper bound"); }
  sym_reach("load");
}
HARNESS(h_value) {
  data* d = make();
  int i = (int)sym_choice("i", W), j = (int)sym_choice("j", H);
  // anywhere in a pixel; the last ones hold the upper bounds
  double u = sym_range("u", 0.0, i == W - 1 ? 1.0 : 1 - 1e-9), v = sym_range("v", 0.0, j == H - 1 ? 1.0 : 1 - 1e-9);
  vec x(S.n); place(x, S.lo + (S.hi - S.lo) * (i + u) / W, S.lo + (S.hi - S.lo) * (j + v) / H, sym_range("t", -10.0, 10.0));
  vec y = d->value(x); sym_check(y.size() == 3, "size of the value");
  for(int c = 0; c < 3; ++c) sym_check_eq(y[c], img[c][i + W * j], "value of the pixel");
  sym_reach("value");
}
HARNESS(h_outside) {
  data* d = make();
  double u = sym_range("u", -20.0, 20.0), v = sym_range("v", -20.0, 20.0);
  sym_assume((u < S.lo) | (u > S.hi) | (v < S.lo) | (v > S.hi));
  vec x(S.n); place(x, u, v, sym_range("t", -10.0, 10.0));
  vec y = d->value(x);
  for(int c = 0; c < 3; ++c) sym_check_eq(y[c], 0.0, "zero outside of the domain");
  sym_reach("outside");
}
HARNESS(h_set) {
  data* d = make(); int k = (int)sym_int("k", 0, W * H - 1), i = (int)sym_int("i", 0, W * H - 1);
  vec s(S.n + 3), o = d->get(i); for(int j = 0; j < S.n + 3; ++j) s[j] = sym_range("s", -1.0, 1.0);
  d->set(k, s); vec r = d->get(i);
  for(int j = 0; j < S.n; ++j) sym_check_eq(r[j], o[j], "abscissas are kept");
  for(int c = 0; c < 3; ++c) sym_check_eq(r[S.n + c], i == k ? s[S.n + c] : o[S.n + c], "a sample that is set is returned, the others are kept");
  sym_reach("set");
}
HARNESS(h_save) {
  data* d = make(); int k = (int)sym_choice("k", W * H);
  vec s = d->get(k); for(int c = 0; c < 3; ++c) s[S.n + c] = (float)sym_range("s", -100.0, 100.0);
  d->set(k, s); d->save("t.exr");
  arguments a = OPT; std::ifstream in("t.exr", std::ios_base::binary); data* e = load_data(in, a);
  sym_check(e->size() == d->size(), "size preserved");
  for(int i = 0; i < W * H; ++i) { vec p = d->get(i), q = e->get(i); sym_check(p.size() == q.size(), "dimensions preserved"); for(int j = 0; j < p.size() && j < q.size(); ++j) sym_check_eq(q[j], p[j], "pixel preserved"); }
  sym_reach("save");
}
HARNESS(h_invalid) {
  char b[5]; long n = sym_choice("n", 5); for(int i = 0; i < 5; ++i) b[i] = sym_byte("b");
  sym_file_put("s.exr", b, n); bool refused = false;
  try { std::ifstream in("s.exr", std::ios_base::binary); load_data(in, arguments()); } catch(std::exception&) { refused = true; }
  sym_check(refused, "a file that is not an image is refused");
  sym_reach("invalid");
}
HARNESS(h_new) {
  arguments a = options(); data* d = provide_data((size_t)sym_choice("size", 2), parameters(), a);
  sym_check(d->size() == 512 * 512 && d->parametrization().dimX() == S.n && d->parametrization().dimY() == 3, "size and dimensions");
  int i = (int)sym_int("i", 0, 512 * 512 - 1); vec s = d->get(i);
  for(int c = 0; c < 3; ++c) sym_check_eq(s[S.n + c], 0.0, "a new slice is black");
  vec x(3); x[0] = 0; vec y = d->value(s.head(S.n)); for(int c = 0; c < 3; ++c) sym_check_eq(y[c], 0.0, "value of a new slice");
  sym_reach("new");
}
