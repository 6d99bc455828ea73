// Parametric lobes: one plugin per build (LOBE names it), created through its public entry point.
#include "sym.h"
#include <core/common.h>
#include <core/params.h>
#include <core/args.h>
#include <core/function.h>
#include <core/vertical_segment.h>
#include <fstream>
#include <sstream>
#include <cmath>
#include <string>
using namespace alta;
#if defined(LOBE_lafortune)
#define LOBE_NP 4
#elif defined(LOBE_isotropic_lafortune)
#define LOBE_NP 3
#endif
#ifndef LOBE_DX
#define LOBE_DX 6
#define LOBE_IN params::CARTESIAN
#endif
extern "C" alta::function* provide_function(const alta::parameters&);
static std::string nm(const char* p, int i) { std::string s(p); s += (char)('0' + i / 10); s += (char)('0' + i % 10); return s; }
static nonlinear_function* make(int dy) {
  nonlinear_function* f = dynamic_cast<nonlinear_function*>(provide_function(alta::parameters(LOBE_DX, dy, LOBE_IN, dy == 3 ? params::RGB_COLOR : params::INV_STERADIAN)));
  sym_check(f != NULL, "the plugin provides a nonlinear function");
  return f;
}
static vec params_of(nonlinear_function* f) {
  vec lo = f->getParametersMin(), hi = f->getParametersMax(), p(f->nbParameters());
  for(int i = 0; i < p.size(); ++i) {
    double a = lo[i] < -1e-9 ? -3.0 : 0.05, b = 3.0;
#ifdef LOBE_PMIN
    a = LOBE_PMIN;
#endif
#ifdef LOBE_PMAX
    b = LOBE_PMAX;
#endif
    if(lo[i] > a) a = lo[i]; if(hi[i] < b) b = hi[i];
    p[i] = sym_range(nm("p", i).c_str(), a, b);
  }
  return p;
}
static vec point(nonlinear_function* f, int variant = -1) {
  int dx = f->parametrization().dimX(); params::input in = f->parametrization().input_parametrization();
  vec x(dx);
  if(in == params::CARTESIAN) {
    for(int j = 0; j < 6; ++j) x[j] = sym_range(nm("x", j).c_str(), j % 3 == 2 ? 0.05 : -1.0, 1.0);
#ifdef LOBE_BELOW
    x[2] = sym_range("z0", -1.0, 1.0); x[5] = sym_range("z1", -1.0, 1.0);
#endif
#ifdef LOBE_spherical_gaussian
    // the mirror direction is computed through spherical angles, hence from unit vectors
    if(variant == 0) for(int k = 0; k < 2; ++k) { double t = sym_range(k ? "tl" : "tv", 0.01, 1.56), a = sym_range(k ? "pl" : "pv", -3.14159, M_PI); x[3 * k] = sin(t) * cos(a); x[3 * k + 1] = sin(t) * sin(a); x[3 * k + 2] = cos(t); }
#endif
#ifdef LOBE_PHASE
    x[0] = sym_range("x0", 0.05, 1.0);
#endif
  } else if(in == params::COS_TH || in == params::COS_TK || in == params::COS_TLV || in == params::COS_TLR) x[0] = sym_range("x0", -1.0, 1.0);
  else for(int j = 0; j < dx; ++j) x[j] = sym_range(nm("x", j).c_str(), 0.01, 1.5);
  return x;
}
// variants of a lobe selected at initialisation
static vec fixed_part;
static int configure(nonlinear_function* f) {
  arguments o; int k = 0;
#if defined(LOBE_spherical_gaussian)
  static const char* names[5] = { "mirror", "half", "back", "retro", "moment" };
  k = (int)sym_choice("variant", 5); o.update("sg-type", names[k]); f->bootstrap(ptr<data>(), o);
#elif defined(LOBE_diffuse)
  // the albedo is not one of the fitted parameters: it comes from a file
  int dy = f->parametrization().dimY(); fixed_part = vec(dy);
  { std::ofstream out("diffuse.txt"); out << "#FUNC nonlinear_function_diffuse\n"; for(int y = 0; y < dy; ++y) { fixed_part[y] = sym_round(sym_range(nm("kd", y).c_str(), -2.0, 2.0), 6); out << "kd " << fixed_part[y] << "\n"; } }
  std::ifstream in("diffuse.txt"); sym_check(f->load(in), "the description of the lobe loads");
#elif defined(LOBE_retrobeckmann)
  k = (int)sym_choice("variant", 2); if(k) o.update("retro", ""); f->bootstrap(ptr<data>(), o);
#elif defined(LOBE_lafortune) || defined(LOBE_isotropic_lafortune)
  // sums of several lobes are selected at initialisation, from data whose lowest value is the constant term
  k = (int)sym_choice("variant", 3);
  if(k) {
    int dx = f->parametrization().dimX(), dy = f->parametrization().dimY();
    ptr<data> d(new vertical_segment(f->parametrization(), 1)); vec s = vec::Zero(dx + dy); s[2] = s[5] = 1.0;
#ifdef LOBE_CONSTANT
    for(int y = 0; y < dy; ++y) s[dx + y] = 0.5;
#endif
    d->set(0, s); o.update("lobes", k == 1 ? "2" : "1"); if(k == 2) o.update("bootstrap", ""); f->bootstrap(d, o);
    sym_check(f->nbParameters() == LOBE_NP * dy * (k == 1 ? 2 : 1), "number of lobes");
  }
#endif
  return k;
}
#include "lobe_ref.h"
struct Channel { const vec* p; int y, n, dy; double operator()(int i) const {
#ifdef LOBE_sgd
  return (*p)[y + i * dy];
#elif defined(LOBE_NP)
  return (*p)[(i / LOBE_NP * dy + y) * LOBE_NP + i % LOBE_NP];
#else
  return (*p)[y * n + i];
#endif
} };
// value of each channel against the published formula
HARNESS(h_value) {
  int dy = 1 + (int)sym_choice("dy", 3);
  nonlinear_function* f = make(dy); int variant = configure(f);
  if(variant == 4) return;
  vec p = params_of(f), x = point(f, variant);
  f->setParameters(p);
#ifdef LOBE_diffuse
  sym_check(p.size() == 0, "no fitted parameter"); p = fixed_part;
#endif
  vec v = f->value(x);
  sym_check(v.size() == dy, "dimension of the value");
  for(int y = 0; y < dy; ++y) { Channel c = { &p, y, (int)p.size() / dy, dy }; sym_check_eq(v[y], reference(&x[0], c, variant), "value of the lobe"); }
  delete f;
  sym_reach("value");
}
// parameters, their bounds, value and derivatives
HARNESS(h_jacobian) {
  int dy = 1 + (int)sym_choice("dy", 3);
  nonlinear_function* f = make(dy); configure(f);
  sym_check(f->parametrization().dimY() == dy, "number of channels");
  int nb = f->nbParameters(); vec lo = f->getParametersMin(), hi = f->getParametersMax();
  sym_check(lo.size() == nb && hi.size() == nb, "size of the bounds");
  vec p = params_of(f), x = point(f);
  f->setParameters(p);
  vec q = f->parameters();
  sym_check(q.size() == nb, "number of parameters");
  for(int i = 0; i < nb; ++i) sym_check_eq(q[i], p[i], "parameter read back");
  vec v = f->value(x), w = (*f)(x), jac = f->parametersJacobian(x);
  sym_check(v.size() == dy && w.size() == dy, "dimension of the value");
  sym_check(jac.size() == dy * nb, "dimension of the derivatives");
  for(int y = 0; y < dy; ++y) sym_check_eq(v[y], w[y], "value and call operator agree");
#ifdef LOBE_sgd
  for(int y = 0; y < dy; ++y) sym_check(jac[y * nb + 8 * dy + y] != 0.0, "derivative with respect to the diffuse albedo");
  sym_reach("sgd");
  delete f; return;
#endif
  if(sym_is_symbolic()) {
    for(int y = 0; y < dy; ++y) for(int i = 0; i < nb; ++i) sym_check_eq(jac[y * nb + i], sym_diff(v[y], p[i]), "derivative with respect to a parameter");
  } else {
    // central differences on both sides, compared loosely
    for(int i = 0; i < nb; ++i) {
      double h = 1e-6; vec a = p, b = p; a[i] -= h; b[i] += h;
      f->setParameters(a); vec va = f->value(x); f->setParameters(b); vec vb = f->value(x); f->setParameters(p); vec v0 = f->value(x);
      for(int y = 0; y < dy; ++y) { double l = (v0[y] - va[y]) / h, r = (vb[y] - v0[y]) / h, j = jac[y * nb + i], m = std::fmax(1.0, std::fabs(j));
        sym_check(std::fabs(l - j) <= 1e-3 * m || std::fabs(r - j) <= 1e-3 * m, "derivative with respect to a parameter"); }
    }
  }
  delete f;
  sym_reach("jacobian");
}
// save then load in a second object
HARNESS(h_store) {
  int dy = 1 + (int)sym_choice("dy", 3);
  nonlinear_function *f = make(dy), *g = make(dy);
  configure(f);
  vec p = params_of(f);
  for(int i = 0; i < p.size(); ++i) p[i] = sym_round(p[i], 10);
  f->setParameters(p);
  arguments args; if(sym_choice("named", 2)) args.update("export-append", "# a remark");
  f->save("f.brdf", args);
  std::ifstream in("f.brdf");
  arguments h = arguments::parse_header(in);
  sym_check(h.get_pair<int>("DIM").first == f->parametrization().dimX() && h.get_pair<int>("DIM").second == dy, "dimensions in the header");
  sym_check(params::parse_input(h["PARAM_IN"]) == f->parametrization().input_parametrization(), "parametrization in the header");
  sym_check(g->load(in), "the saved function loads");
  vec q = g->parameters();
  sym_check(q.size() == p.size(), "number of parameters");
  for(int i = 0; i < p.size() && q.size() == p.size(); ++i) sym_check_eq(q[i], p[i], "parameter preserved");
  vec x = point(f), a = f->value(x), b = g->value(x);
  for(int y = 0; y < dy; ++y) sym_check_eq(a[y], b[y], "value preserved");
  delete f; delete g;
  sym_reach("store");
}
