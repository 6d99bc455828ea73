// Sums and products of functions, over functions whose values and derivatives are arbitrary.
#include "sym.h"
#include <core/common.h>
#include <core/params.h>
#include <core/args.h>
#include <core/function.h>
#include <core/vertical_segment.h>
#include <fstream>
#include <sstream>
#include <cmath>
#include <string>
#include <cstring>
using namespace alta;
static std::string nm(const char* p, int a, int b = -1) { std::string s(p); s += (char)('0' + a); if(b >= 0) { s += (char)('0' + b / 10); s += (char)('0' + b % 10); } return s; }
struct Fn : public nonlinear_function {
  int id, n; vec p, lo, hi, v, j, mn, mx; mutable vec seen; int boots; bool boot_file, mute;
  Fn(int i, int np, const class parameters& pr, bool values = true) : nonlinear_function(pr), id(i), n(np), p(np), lo(np), hi(np), v(pr.dimY()), j(pr.dimY() * np), boots(0), boot_file(false), mute(false) {
    for(int k = 0; k < n; ++k) { p[k] = values ? sym_round(sym_range(nm("p", id, k).c_str(), -100.0, 100.0), 10) : 0.0; lo[k] = sym_range(nm("lo", id, k).c_str(), -10.0, 0.0); hi[k] = sym_range(nm("hi", id, k).c_str(), 0.0, 10.0); }
    for(int k = 0; k < v.size(); ++k) v[k] = sym_range(nm("v", id, k).c_str(), -100.0, 100.0);
    for(int k = 0; k < j.size(); ++k) j[k] = sym_range(nm("j", id, k).c_str(), -100.0, 100.0);
  }
  vec operator()(const vec& x) const { return value(x); }
  vec value(const vec& x) const { seen = x; return v; }
  vec parametersJacobian(const vec& x) const { seen = x; return j; }
  int nbParameters() const { return n; }
  vec parameters() const { return p; }
  vec getParametersMin() const { return lo; }
  vec getParametersMax() const { return hi; }
  void setParameters(const vec& q) { sym_check(q.size() == n, "size of the parameters handed to a part"); p = q; }
  void setMin(const vec& m) { mn = m; }
  void setMax(const vec& m) { mx = m; }
  void bootstrap(const ptr<data> d, const arguments& a) { ++boots; nonlinear_function::bootstrap(d, a); }
  void save_call(std::ostream& out, const arguments& a) const { if(mute) return; out << "#FUNC part" << (char)('0' + id) << std::endl; for(int k = 0; k < n; ++k) out << "q " << p[k] << std::endl; out << std::endl; }
  bool load(std::istream& in) {
    while(in.peek() != '#') { char line[256]; in.getline(line, 256); if(!in.good()) return false; }
    std::string t; in >> t; if(t != "#FUNC") return false;
    in >> t; if(t.size() != 5 || t.compare(0, 4, "part") != 0 || t[4] != (char)('0' + id)) return false;
    for(int k = 0; k < n; ++k) in >> t >> p[k];
    return true;
  }
};
static const params::input ins[3] = { params::CARTESIAN, params::COS_TH, params::RUSIN_TH_TD };
static const int dim_of[3] = { 6, 1, 2 };
static vec directions() {
  double tv = sym_range("tv", 0.01, 1.56), pv = sym_range("pv", -3.14159, M_PI), tl = sym_range("tl", 0.01, 1.56), pl = sym_range("pl", -3.14159, M_PI);
  vec c(6); c[0] = sin(tv) * cos(pv); c[1] = sin(tv) * sin(pv); c[2] = cos(tv); c[3] = sin(tl) * cos(pl); c[4] = sin(tl) * sin(pl); c[5] = cos(tl);
  return c;
}
static vec as(const vec& x, params::input from, params::input to) { vec r(params::dimension(to)); params::convert(&x[0], from, to, &r[0]); return r; }
static void same(const vec& a, const vec& b, const char* l) { sym_check(a.size() == b.size(), l); for(int i = 0; i < a.size() && i < b.size(); ++i) sym_check_eq(a[i], b[i], l); }
struct Sum { int m, dy; int n[3], in[3], fixed[3]; Fn* f[3]; compound_function* c;
  int free_before(int k) const { int s = 0; for(int i = 0; i < k; ++i) if(!fixed[i]) s += n[i]; return s; }
  Sum(const Sum* like = NULL, bool opts = true) {
    if(like) { m = like->m; dy = like->dy; for(int i = 0; i < m; ++i) { n[i] = like->n[i]; in[i] = like->in[i]; fixed[i] = like->fixed[i]; } }
    else {
      m = 1 + (int)sym_choice("parts", 3); dy = 1 + (int)sym_choice("dy", 2);
      for(int i = 0; i < m; ++i) { n[i] = (int)sym_choice(nm("n", i).c_str(), 3); fixed[i] = (int)sym_choice(nm("fixed", i).c_str(), 2); in[i] = i == 0 ? (int)sym_choice("in0", 2) * 2 : sym_choice(nm("other", i).c_str(), 2) ? 1 : in[0]; }
    }
    std::vector<ptr<nonlinear_function> > fs; std::vector<arguments> as;
    for(int i = 0; i < m; ++i) {
      f[i] = new Fn(i, n[i], alta::parameters(dim_of[in[i]], dy, ins[in[i]], params::INV_STERADIAN), !like);
      fs.push_back(ptr<nonlinear_function>(f[i])); arguments a; if(fixed[i]) a.update("fixed", ""); as.push_back(a);
    }
    c = new compound_function(fs, as);
  }
};
HARNESS(h_sum) {
  Sum s; compound_function& c = *s.c;
  bool same_in = true; for(int i = 1; i < s.m; ++i) if(s.in[i] != s.in[0]) same_in = false;
  params::input pin = same_in ? ins[s.in[0]] : params::CARTESIAN;
  sym_check(c.parametrization().input_parametrization() == pin && c.parametrization().dimX() == params::dimension(pin), "input of the sum");
  sym_check(c.parametrization().dimY() == s.dy && c.parametrization().output_parametrization() == params::INV_STERADIAN, "output of the sum");
  sym_check((int)c.size() == s.m, "number of parts"); for(int i = 0; i < s.m; ++i) sym_check(c[i] == s.f[i], "access to the parts");
  int nb = c.nbParameters(); sym_check(nb == s.free_before(s.m), "number of parameters");
  vec p = c.parameters(), lo = c.getParametersMin(), hi = c.getParametersMax();
  sym_check(p.size() == nb && lo.size() == nb && hi.size() == nb, "sizes of the parameters");
  for(int f = 0, k = 0; f < s.m; ++f) if(!s.fixed[f]) for(int i = 0; i < s.n[f]; ++i, ++k) { sym_check_eq(p[k], s.f[f]->p[i], "parameters are concatenated"); sym_check_eq(lo[k], s.f[f]->lo[i], "lower bounds are concatenated"); sym_check_eq(hi[k], s.f[f]->hi[i], "upper bounds are concatenated"); }
  vec cart = directions(), x = as(cart, params::CARTESIAN, pin);
  vec v = c.value(x), w = c(x); sym_check(v.size() == s.dy && w.size() == s.dy, "dimension of the value");
  for(int y = 0; y < s.dy; ++y) { double t = 0; for(int f = 0; f < s.m; ++f) t += s.f[f]->v[y]; sym_check_eq(v[y], t, "value is the sum of the parts"); sym_check_eq(w[y], t, "call operator is the sum of the parts"); }
  for(int f = 0; f < s.m; ++f) { same(s.f[f]->seen, as(x, pin, ins[s.in[f]]), "each part is evaluated in its own parametrization"); s.f[f]->seen = vec(0); }
  vec jac = c.parametersJacobian(x); sym_check(jac.size() == nb * s.dy, "dimension of the derivatives");
  for(int f = 0, k = 0; f < s.m; ++f) if(!s.fixed[f]) {
    if(s.n[f] > 0) same(s.f[f]->seen, as(x, pin, ins[s.in[f]]), "each part is derived in its own parametrization");
    for(int i = 0; i < s.n[f]; ++i, ++k) for(int y = 0; y < s.dy; ++y) sym_check_eq(jac[y * nb + k], s.f[f]->j[y * s.n[f] + i], "derivatives of the parts");
  }
  sym_reach("sum");
}
HARNESS(h_sum_set) {
  Sum s; compound_function& c = *s.c; int nb = c.nbParameters();
  vec q(nb), old[3]; for(int i = 0; i < nb; ++i) q[i] = sym_range(nm("q", 0, i).c_str(), -100.0, 100.0);
  for(int f = 0; f < s.m; ++f) old[f] = s.f[f]->p;
  c.setParameters(q);
  same(c.parameters(), q, "parameters read back");
  for(int f = 0, k = 0; f < s.m; ++f) for(int i = 0; i < s.n[f]; ++i) { if(s.fixed[f]) sym_check_eq(s.f[f]->p[i], old[f][i], "a fixed part keeps its parameters"); else { sym_check_eq(s.f[f]->p[i], q[k], "each part receives its own parameters"); ++k; } }
  int dx = c.parametrization().dimX(); vec lo(dx), hi(dx); for(int i = 0; i < dx; ++i) { lo[i] = sym_range(nm("mn", i).c_str(), -2.0, 0.0); hi[i] = sym_range(nm("mx", i).c_str(), 0.0, 2.0); }
  c.setMin(lo); c.setMax(hi); same(c.min(), lo, "domain of the sum"); same(c.max(), hi, "domain of the sum");
  for(int f = 0; f < s.m; ++f) { same(s.f[f]->mn, lo, "domain of the parts"); same(s.f[f]->mx, hi, "domain of the parts"); }
  sym_reach("set");
}
HARNESS(h_sum_store) {
  Sum s, t(&s); int drop = (int)sym_choice("missing", s.m + 1) - 1;
  if(drop >= 0) s.f[drop]->mute = true; // a file without this part
  arguments args; s.c->save("sum.brdf", args);
  std::ifstream in("sum.brdf"); arguments h = arguments::parse_header(in);
  sym_check(h.get_pair<int>("DIM").first == s.c->parametrization().dimX() && h.get_pair<int>("DIM").second == s.dy, "dimensions in the header");
  sym_check(params::parse_input(h["PARAM_IN"]) == s.c->parametrization().input_parametrization(), "parametrization in the header");
  bool ok = t.c->load(in);
  sym_check(ok == (drop < 0 || s.m > 1), "the sum loads when one of its parts loads");
  for(int f = 0; f < s.m; ++f) for(int i = 0; i < s.n[f]; ++i) sym_check_eq(t.f[f]->p[i], f == drop ? 0.0 : s.f[f]->p[i], "parameters of the parts preserved");
  sym_reach("store");
}
// initialisation from a vector, from a file, or part by part
HARNESS(h_sum_init) {
  Sum s; int kind = (int)sym_choice("kind", 4), nb = s.c->nbParameters();
  vec old[3]; for(int f = 0; f < s.m; ++f) old[f] = s.f[f]->p;
  arguments a;
  if(kind == 0) {
    vec q(nb); std::ostringstream o; o.precision(10); o << "[";
    for(int i = 0; i < nb; ++i) { q[i] = sym_round(sym_range(nm("q", 0, i).c_str(), -100.0, 100.0), 10); if(i) o << ", "; o << q[i]; }
    o << "]"; a.update("bootstrap", o.str());
    s.c->bootstrap(ptr<data>(), a);
    same(s.c->parameters(), q, "initial vector");
    for(int f = 0; f < s.m; ++f) if(s.fixed[f]) same(s.f[f]->p, old[f], "the initial vector does not change the fixed parts");
  } else if(kind == 1) {
    Sum t(&s); arguments e; for(int f = 0; f < s.m; ++f) for(int i = 0; i < s.n[f]; ++i) t.f[f]->p[i] = sym_round(sym_range(nm("q", f, i).c_str(), -100.0, 100.0), 10);
    t.c->save("init.brdf", e);
    a.update("bootstrap", "init.brdf"); s.c->bootstrap(ptr<data>(), a);
    for(int f = 0; f < s.m; ++f) same(s.f[f]->p, t.f[f]->p, "initial file");
  } else if(kind == 3) {
    { std::ofstream out("init.brdf"); out << "not a function\n1 2\n"; }
    a.update("bootstrap", "init.brdf"); s.c->bootstrap(ptr<data>(), a);
    for(int f = 0; f < s.m; ++f) same(s.f[f]->p, old[f], "parameters with an unreadable initial file");
  } else {
    s.c->bootstrap(ptr<data>(), a);
    for(int f = 0; f < s.m; ++f) { sym_check(s.f[f]->boots == 1, "each part is initialised once"); same(s.f[f]->p, old[f], "parameters without initialisation option"); }
  }
  sym_reach("init");
}
struct Prod { int dy, n[2], in[2], fixed[2]; Fn* f[2]; product_function* c;
  Prod(const Prod* like = NULL) {
    if(like) *this = *like;
    else { dy = 1 + (int)sym_choice("dy", 3); for(int i = 0; i < 2; ++i) { n[i] = (int)sym_choice(nm("n", i).c_str(), 3); fixed[i] = (int)sym_choice(nm("fixed", i).c_str(), 2); in[i] = i == 0 ? (int)sym_choice("in0", 3) : (int)sym_choice("in1", 3); } }
    for(int i = 0; i < 2; ++i) f[i] = new Fn(i, n[i], alta::parameters(dim_of[in[i]], dy, ins[in[i]], params::INV_STERADIAN), !like);
    c = new product_function(ptr<nonlinear_function>(f[0]), ptr<nonlinear_function>(f[1]), fixed[0], fixed[1]);
  }
};
HARNESS(h_product) {
  Prod s; product_function& c = *s.c; int n0 = s.fixed[0] ? 0 : s.n[0], n1 = s.fixed[1] ? 0 : s.n[1], nb = n0 + n1;
  params::input pin = s.in[0] == s.in[1] ? ins[s.in[0]] : params::CARTESIAN;
  sym_check(c.parametrization().input_parametrization() == pin && c.parametrization().dimX() == params::dimension(pin), "input of the product");
  sym_check(c.parametrization().dimY() == s.dy && c.parametrization().output_parametrization() == params::INV_STERADIAN, "output of the product");
  sym_check(c.first() == s.f[0] && c.second() == s.f[1], "factors");
  sym_check(c.nbParameters() == nb, "number of parameters");
  vec p = c.parameters(), lo = c.getParametersMin(), hi = c.getParametersMax(); sym_check(p.size() == nb && lo.size() == nb && hi.size() == nb, "sizes of the parameters");
  for(int k = 0; k < nb; ++k) { Fn* f = k < n0 ? s.f[0] : s.f[1]; int i = k < n0 ? k : k - n0; sym_check_eq(p[k], f->p[i], "parameters are concatenated"); sym_check_eq(lo[k], f->lo[i], "lower bounds are concatenated"); sym_check_eq(hi[k], f->hi[i], "upper bounds are concatenated"); }
  vec x = as(directions(), params::CARTESIAN, pin), v = c.value(x), w = c(x); sym_check(v.size() == s.dy && w.size() == s.dy, "dimension of the value");
  for(int y = 0; y < s.dy; ++y) { sym_check_eq(v[y], s.f[0]->v[y] * s.f[1]->v[y], "value is the product of the factors"); sym_check_eq(w[y], s.f[0]->v[y] * s.f[1]->v[y], "call operator is the product of the factors"); }
  for(int f = 0; f < 2; ++f) { same(s.f[f]->seen, as(x, pin, ins[s.in[f]]), "each factor is evaluated in its own parametrization"); s.f[f]->seen = vec(0); }
  vec jac = c.parametersJacobian(x); sym_check(jac.size() == nb * s.dy, "dimension of the derivatives");
  for(int y = 0; y < s.dy; ++y) for(int k = 0; k < nb; ++k) { int f = k < n0 ? 0 : 1, i = k < n0 ? k : k - n0; sym_check_eq(jac[y * nb + k], s.f[f]->j[y * s.n[f] + i] * s.f[1 - f]->v[y], "product rule"); }
  if(nb > 0) for(int f = 0; f < 2; ++f) same(s.f[f]->seen, as(x, pin, ins[s.in[f]]), "each factor is derived in its own parametrization");
  vec q(nb); for(int i = 0; i < nb; ++i) q[i] = sym_range(nm("q", 0, i).c_str(), -100.0, 100.0);
  vec old[2] = { s.f[0]->p, s.f[1]->p };
  c.setParameters(q); same(c.parameters(), q, "parameters read back");
  for(int i = 0; i < s.n[0]; ++i) sym_check_eq(s.f[0]->p[i], s.fixed[0] ? old[0][i] : q[i], "parameters of the first factor");
  for(int i = 0; i < s.n[1]; ++i) sym_check_eq(s.f[1]->p[i], s.fixed[1] ? old[1][i] : q[n0 + i], "parameters of the second factor");
  sym_reach("product");
}
HARNESS(h_product_store) {
  Prod s, t(&s); int kind = (int)sym_choice("kind", 5), nb = s.c->nbParameters(); vec old[2] = { t.f[0]->p, t.f[1]->p };
  if(kind == 0) {
    arguments args; s.c->save("product.brdf", args);
    std::ifstream in("product.brdf"); arguments::parse_header(in);
    sym_check(t.c->load(in), "the product loads");
    for(int f = 0; f < 2; ++f) same(t.f[f]->p, s.f[f]->p, "parameters of the factors preserved");
  } else if(kind == 1) {
    arguments args; s.c->save("product.brdf", args); arguments a; a.update("bootstrap", "product.brdf");
    t.c->bootstrap(ptr<data>(), a);
    for(int f = 0; f < 2; ++f) same(t.f[f]->p, s.f[f]->p, "initial file");
  } else if(kind == 2) {
    vec q(nb); std::ostringstream o; o.precision(10); o << "[";
    for(int i = 0; i < nb; ++i) { q[i] = sym_round(sym_range(nm("q", 0, i).c_str(), -100.0, 100.0), 10); if(i) o << ", "; o << q[i]; }
    o << "]"; arguments a; a.update("bootstrap", o.str()); t.c->bootstrap(ptr<data>(), a);
    same(t.c->parameters(), q, "initial vector");
    for(int f = 0; f < 2; ++f) if(t.fixed[f]) same(t.f[f]->p, old[f], "the initial vector does not change the fixed factor");
  } else if(kind == 4) {
    { std::ofstream out("init.brdf"); out << "not a function\n1 2\n"; }
    arguments a; a.update("bootstrap", "init.brdf"); t.c->bootstrap(ptr<data>(), a);
    for(int f = 0; f < 2; ++f) same(t.f[f]->p, old[f], "parameters with an unreadable initial file");
  } else {
    arguments a; s.c->bootstrap(ptr<data>(), a); sym_check(s.f[0]->boots == 1 && s.f[1]->boots == 1, "each factor is initialised once");
  }
  sym_reach("store");
}
// distances between a function and samples
struct Known : public function {
  std::vector<vec> xs, vs; mutable int hits; int dx;
  Known(const parameters& p) : function(p), hits(0) {}
  vec value(const vec& x) const { vec r = vs[hits % vs.size()]; same(x, xs[hits % xs.size()], "evaluated at the abscissa of the sample"); ++hits; return r; }
  bool load(std::istream&) { return true; }
};
HARNESS(h_distance) {
  int n = 1 + (int)sym_choice("n", 3), dy = 1 + (int)sym_choice("dy", 2), conv = (int)sym_choice("conv", 3);
  params::input din = conv == 1 ? params::CARTESIAN : params::COS_TH; params::input fin = conv == 2 ? params::UNKNOWN_INPUT : params::COS_TH;
  int ddx = params::dimension(din);
  alta::parameters dp(ddx, dy, din, params::INV_STERADIAN);
  Known f(alta::parameters(1, dy, fin, params::INV_STERADIAN));
  vertical_segment* d = new vertical_segment(dp, n); ptr<data> pd(d);
  double l2 = 0, linf = 0;
  for(int i = 0; i < n; ++i) {
    vec x(ddx + dy), fx(1), v(dy);
    if(conv == 1) { double t = sym_range(nm("t", i).c_str(), 0.01, 1.5), a = sym_range(nm("a", i).c_str(), -3.0, 3.0); x[0] = sin(t) * cos(a); x[1] = sin(t) * sin(a); x[2] = cos(t); x[3] = 0; x[4] = 0; x[5] = 1; }
    else x[0] = sym_range(nm("x", i).c_str(), 0.0, 1.0);
    if(conv == 1) params::convert(&x[0], din, params::COS_TH, &fx[0]); else fx[0] = x[0];
    double e = 0;
    for(int y = 0; y < dy; ++y) { x[ddx + y] = sym_range(nm("y", i, y).c_str(), -10.0, 10.0); v[y] = sym_range(nm("f", i, y).c_str(), -10.0, 10.0); double k = x[ddx + y] - v[y]; e += k * k; if(std::fabs(k) > linf) linf = std::fabs(k); }
    l2 += e; d->set(i, x); f.xs.push_back(fx); f.vs.push_back(v);
  }
  double r = f.L2_distance(pd); sym_check(r >= 0.0, "the quadratic distance is not negative"); sym_check_eq(r * r * n, l2, "quadratic distance"); sym_check(f.hits == n, "one evaluation per sample");
  f.hits = 0; sym_check_eq(f.Linf_distance(pd), linf, "maximal distance");
  sym_reach("distance");
}
