// UTIA measurements: storage, interpolation, files.
#include "sym.h"
#include "exr_stub.h"
#include <core/common.h>
#include <core/params.h>
#include <core/data.h>
#include <core/args.h>
#include <fstream>
#include <cmath>
#include <cstring>
#include <stdexcept>
using namespace alta;
extern "C" data* provide_data(size_t, const parameters&, const arguments&);
extern "C" data* load_data(std::istream&, const arguments&);
static const int NT = 6, NP = 48, N = NT * NP * NT * NP;
static const double* file(const char* name, long bytes = 24L * N) {
  char* p = sym_lazy_array("m", 0, 24L * N); sym_file_put(name, p, bytes);
  return (const double*)p;
}
static double at(const double* p, long i) { double v; std::memcpy(&v, p + i, 8); return v; }
static data* open(const char* name) { std::ifstream in(name, std::ios_base::binary); arguments a; a.update("filename", name); return load_data(in, a); }
static long idx(long ti, long pi, long tv, long pv) { return ((ti * NP + pi) * NT + tv) * NP + pv; }
HARNESS(h_load) {
  const double* p = file("m.bin"); data* d = open("m.bin");
  sym_check(d->size() == N && d->parametrization().dimX() == 4 && d->parametrization().dimY() == 3, "size and dimensions");
  sym_check(d->parametrization().input_parametrization() == params::SPHERICAL_TL_PL_TV_PV && d->parametrization().output_parametrization() == params::RGB_COLOR, "parametrization");
  long ti = sym_int("ti", 0, NT - 1), pi = sym_int("pi", 0, NP - 1), tv = sym_int("tv", 0, NT - 1), pv = sym_int("pv", 0, NP - 1), i = idx(ti, pi, tv, pv);
  vec x = d->get((int)i);
  sym_check(x.size() == 7, "size of a sample");
  for(int c = 0; c < 3; ++c) sym_check_eq(x[4 + c], at(p, i + (long)c * N), "channel of a sample of the file");
  sym_check_eq(x[0], ti * M_PI / 12, "elevation of the light");
  sym_check_eq(x[1], pi * M_PI / 24, "azimuth of the light");
  sym_check_eq(x[2], tv * M_PI / 12, "elevation of the view");
  sym_check_eq(x[3], pv * M_PI / 24, "azimuth of the view");
  vec lo = d->min(), hi = d->max();
  for(int c = 0; c < 4; ++c) sym_check((lo[c] <= x[c]) & (x[c] <= hi[c]), "samples inside the bounds");
  sym_reach("load");
}
HARNESS(h_set) {
  const double* p = file("m.bin"); data* d = open("m.bin");
  long j = sym_int("j", 0, N - 1), k = sym_int("k", 0, N - 1), i = sym_int("i", 0, N - 1);
  vec a = vec::Zero(7), b = vec::Zero(7);
  for(int c = 0; c < 3; ++c) { a[4 + c] = sym_range("a", -10.0, 1e3); b[4 + c] = sym_range("b", -10.0, 1e3); }
  for(int c = 0; c < 4; ++c) { a[c] = sym_range("u", 0.0, 1.5); b[c] = sym_range("v", 0.0, 1.5); }
  d->set((int)j, a); d->set((int)k, b);
  vec x = d->get((int)i);
  for(int c = 0; c < 3; ++c) sym_check_eq(x[4 + c], i == k ? b[4 + c] : i == j ? a[4 + c] : at(p, i + (long)c * N), "a sample that is set is returned, the others are kept");
  sym_check(d->size() == N, "size after a sample is set");
  sym_reach("set");
}
// position on an axis: the two nodes and the weight of the second one
struct Axis { long a, b; double w, x; };
static Axis elevation(const char* n, const char* r) {
  Axis e; int last = (int)sym_choice("last", 2);
  if(last) { e.a = NT - 2; e.w = sym_range(r, 1.0, 2.0); } else { e.a = sym_int(n, 0, NT - 2); e.w = sym_range(r, 0.0, 1 - 1e-9); }
  e.b = e.a + 1; e.x = (e.a + e.w) * M_PI / 12; return e;
}
static Axis azimuth(const char* n, const char* r) {
  Axis e; e.a = sym_int(n, 0, NP - 1); e.w = sym_range(r, 0.0, 1 - 1e-9); e.b = e.a == NP - 1 ? 0 : e.a + 1; e.x = (e.a + e.w) * M_PI / 24; return e;
}
HARNESS(h_value) {
  const double* p = file("m.bin"); data* d = open("m.bin");
  int mask = (int)sym_choice("axes", 5); // the axes that are not on a node
  Axis e[4] = { elevation("ti", "wti"), azimuth("pi", "wpi"), elevation("tv", "wtv"), azimuth("pv", "wpv") };
  if(mask < 4) for(int k = 0; k < 4; ++k) if(k != mask && k != (mask + 1) % 4) { double w = e[k].w >= 1 ? 1.0 : 0.0; e[k].w = w; e[k].x = (e[k].a + w) * (k % 2 ? M_PI / 24 : M_PI / 12); }
  vec x(4); for(int k = 0; k < 4; ++k) x[k] = e[k].x;
  vec y = d->value(x);
  sym_check(y.size() == 3, "size of the value");
  for(int c = 0; c < 3; ++c) {
    double s = 0;
    for(int b = 0; b < 16; ++b) {
      double w = 1; long q[4]; 
      for(int k = 0; k < 4; ++k) { int h = (b >> k) & 1; q[k] = h ? e[k].b : e[k].a; w *= h ? e[k].w : 1 - e[k].w; }
      s += w * at(p, idx(q[0], q[1], q[2], q[3]) + (long)c * N);
    }
    sym_check_eq(y[c], s, "multilinear interpolation of the samples around the directions");
  }
  sym_reach("value");
}
HARNESS(h_turn) {
  file("m.bin"); data* d = open("m.bin");
  int k = (int)sym_choice("which", 3);
  Axis e[4] = { elevation("ti", "wti"), azimuth("pi", "wpi"), elevation("tv", "wtv"), azimuth("pv", "wpv") };
  vec x(4), z(4); for(int i = 0; i < 4; ++i) x[i] = z[i] = e[i].x;
  if(k != 1) { sym_assume(e[1].a >= NP / 2); z[1] = x[1] - 2 * M_PI; }
  if(k != 0) { sym_assume(e[3].a >= NP / 2); z[3] = x[3] - 2 * M_PI; }
  vec a = d->value(x), b = d->value(z);
  for(int c = 0; c < 3; ++c) sym_check_eq(a[c], b[c], "same value a full turn away");
  // the bounds of the azimuths are the same direction
  vec u = x, v = x; u[1] = 0; v[1] = 2 * M_PI; u[3] = 2 * M_PI; v[3] = 0; a = d->value(u); b = d->value(v);
  for(int c = 0; c < 3; ++c) sym_check_eq(a[c], b[c], "same value at both bounds of the azimuths");
  sym_reach("turn");
}
HARNESS(h_below) {
  file("m.bin"); data* d = open("m.bin");
  vec x(4); for(int k = 0; k < 4; ++k) x[k] = sym_range("x", k % 2 ? -3.14159 : -4.0, k % 2 ? 2 * M_PI : 4.0);
  sym_assume((x[0] < 0) | (x[2] < 0) | (x[0] > M_PI / 2) | (x[2] > M_PI / 2));
  vec y = d->value(x);
  for(int c = 0; c < 3; ++c) sym_check_eq(y[c], 0.0, "zero for a direction below the surface");
  sym_reach("below");
}
HARNESS(h_save) {
  file("m.bin"); data* d = open("m.bin");
  long j = sym_int("j", 0, N - 1), i = sym_int("i", 0, N - 1); vec a = vec::Zero(7);
  for(int c = 0; c < 3; ++c) a[4 + c] = sym_range("a", -10.0, 1e3);
  d->set((int)j, a);
  const char* name = sym_choice("image", 2) ? "saved.exr" : "saved.bin";
  d->save(name);
  data* e = open(name);
  vec x = d->get((int)i), y = e->get((int)i);
  for(int c = 0; c < 7; ++c) sym_check_eq(y[c], x[c], "sample preserved");
  sym_check(e->size() == d->size(), "size preserved");
  sym_reach("save");
}
HARNESS(h_invalid) {
  long k = sym_int("bytes", 0, 3);
  file("m.bin", k == 0 ? 24L * N - 8 : k == 1 ? 8L * N : k == 2 ? 24L * N - 1 : 0);
  bool refused = false; try { open("m.bin"); } catch(std::exception&) { refused = true; }
  sym_check(refused, "a truncated file is refused");
  sym_reach("invalid");
}
HARNESS(h_image) {
  int k = (int)sym_choice("kind", 4); bool refused = false;
  exr_put("m.exr", k == 1 ? 287 : k == 2 ? 1 : 288, k == 1 ? 288 : k == 2 ? 1 : k == 3 ? 289 : 2, 0, "R");
  try { open("m.exr"); } catch(std::exception&) { refused = true; }
  sym_check(refused, "an image of another size is refused");
  refused = false; { std::ofstream o("n.exr"); o << "text"; } try { open("n.exr"); } catch(std::exception&) { refused = true; }
  sym_check(refused, "a file that is not an image is refused");
  sym_reach("image");
}
HARNESS(h_new) {
  data* d = provide_data((size_t)sym_choice("size", 2), parameters(), arguments());
  sym_check(d->size() == N && d->parametrization().dimX() == 4 && d->parametrization().dimY() == 3, "size and dimensions");
  long i = sym_int("i", 0, N - 1); vec x = d->get((int)i);
  for(int c = 0; c < 3; ++c) sym_check_eq(x[4 + c], 0.0, "new data is black");
  sym_reach("new");
}
