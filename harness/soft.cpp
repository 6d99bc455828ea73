// The command line tools: the main function of each is run with its options, plugins are provided by the harness.
#include "sym.h"
#include <core/common.h>
#include <core/params.h>
#include <core/args.h>
#include <core/data.h>
#include <core/function.h>
#include <core/rational_function.h>
#include <core/vertical_segment.h>
#include <core/fitter.h>
#include <core/data_storage.h>
#include <core/plugins_manager.h>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
struct Exited { int code; };
static void soft_exit(int c) { throw Exited{c}; }
#define exit soft_exit
#define main soft_main
#include SOFT
#undef main
#undef exit
static std::string nm(const char* p, int a, int b = -1) { std::string s(p); s += (char)('0' + a); if(b >= 0) s += (char)('0' + b); return s; }
static int run(const std::vector<std::string>& w) {
  std::vector<std::string> c(w); char* argv[16]; int n = (int)c.size();
  for(int i = 0; i < n; ++i) argv[i] = &c[i][0];
  try { return soft_main(n, argv); } catch(Exited& e) { return e.code; }
}
static bool exists(const char* f) { std::ifstream s(f); return s.is_open(); }
static void release(double* p) { delete[] p; }
static bool same(double a, double b) { return std::fabs(a - b) <= 6e-15 * std::fabs(b) + 1e-15; }
// plugins
typedef void (*any)();
static data* (*make_in)(std::istream&, const arguments&) = NULL;
static data* (*make_out)(size_t, const parameters&, const arguments&) = NULL;
static function* (*make_function)(const parameters&) = NULL;
static fitter* (*make_fitter)() = NULL;
static int lib;
extern "C" void* hook_dlopen(const char* path, int flags) { return std::string(path).find("libplug") != std::string::npos ? &lib : NULL; }
extern "C" void* hook_dlsym(void* h, const char* n) { return (void*)(std::strcmp(n, "provide_function") == 0 ? (any)make_function : std::strcmp(n, "provide_fitter") == 0 ? (any)make_fitter : std::strcmp(n, "provide_data") == 0 ? (any)make_out : std::strcmp(n, "load_data") == 0 ? (any)make_in : (any)NULL); }
extern "C" char* hook_dlerror() { return NULL; }
extern "C" char* hook_getenv(const char* name) { return NULL; }
// the data set given to the tools
static params::input IN[5] = { params::SPHERICAL_TL_PL_TV_PV, params::CARTESIAN, params::ISOTROPIC_TV_TL_DPHI, params::RUSIN_TH_TD_PD, params::COS_TH };
static struct { params::input in; params::output out; int dx, dy, n; bool vs; std::vector<double> v, lo, hi; bool loaded; } S;
// coordinates over the whole sphere of directions, or above the surface
static bool whole = true;
static double coordinate(params::input p, int s, int i) {
  std::string n = nm("x", s, i);
  if(p == params::CARTESIAN) return sym_range(n.c_str(), i % 3 == 2 && !whole ? 0.01 : -1.0, 1.0);
  if(p == params::COS_TH) return sym_range(n.c_str(), 0.01, 0.99);
  if(p == params::SPHERICAL_TL_PL_TV_PV) return i % 2 ? sym_range(n.c_str(), -3.1, 3.1) : sym_range(n.c_str(), 0.01, whole ? 3.1 : 1.5);
  return sym_range(n.c_str(), 0.01, i < 2 ? 1.5 : 3.1);
}
static void samples(params::input p, int n, int dy, bool vs) {
  S.in = p; S.out = dy == 3 ? params::RGB_COLOR : params::INV_STERADIAN; S.dx = params::dimension(p); S.dy = dy; S.n = n; S.vs = vs; S.v.resize(n * (S.dx + dy)); S.lo = S.hi = std::vector<double>(n * dy); S.loaded = false;
  for(int s = 0; s < n; ++s) {
    for(int i = 0; i < S.dx; ++i) S.v[s * (S.dx + dy) + i] = coordinate(p, s, i);
    for(int y = 0; y < dy; ++y) { double v = sym_range(nm("y", s, y).c_str(), -10.0, 10.0); S.v[s * (S.dx + dy) + S.dx + y] = v; S.lo[s * dy + y] = v - 0.5; S.hi[s * dy + y] = v + 0.25; } }
}
static data* load_samples(std::istream& in, const arguments& a) {
  std::string t; in >> t; S.loaded = t == "samples";
  int cols = S.dx + S.dy * (S.vs ? 3 : 1); double* c = new double[S.n * cols + 1];
  for(int s = 0; s < S.n; ++s) { for(int i = 0; i < S.dx + S.dy; ++i) c[s * cols + i] = S.v[s * (S.dx + S.dy) + i];
    if(S.vs) for(int y = 0; y < S.dy; ++y) { c[s * cols + S.dx + S.dy + y] = S.lo[s * S.dy + y]; c[s * cols + S.dx + 2 * S.dy + y] = S.hi[s * S.dy + y]; } }
  return new vertical_segment(parameters(S.dx, S.dy, S.in, S.out), S.n, std::shared_ptr<double>(c, release), S.vs ? vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL : vertical_segment::NO_CONFIDENCE_INTERVAL);
}
// what a saved function records: the plugin that reads it
static arguments function_options() { static char w[3][8] = { "tool", "--func", "plug" }; char* argv[3] = { w[0], w[1], w[2] }; return arguments(3, argv); }
static void agree(double a, double b, bool exact, const char* l) { if(exact) sym_check_eq(a, b, l); else sym_check(same(a, b), l); }
static void input_file() { std::ofstream f("in.dat"); f << "samples" << std::endl; }
static bool above(const double* x, params::input p) { double c[6], z[6]; int n = params::dimension(p); for(int i = 0; i < n; ++i) z[i] = x[i]; params::convert(z, p, params::CARTESIAN, c); return c[2] >= 0.0 && c[5] >= 0.0; }


// data with a fixed set of abscissas
struct Table : public data {
  std::vector<vec> rows; int sets;
  Table(const class parameters& p, size_t n) : data(p, n, vec::Zero(p.dimX()), vec::Ones(p.dimX())), rows(n), sets(0) {}
  vec get(int i) const { return rows[i]; }
  void set(int i, const vec& x) { rows[i] = x; ++sets; }
  vec value(const vec& x) const { return vec::Zero(_parameters.dimY()); }
};
static std::vector<vec> saved;
struct Saved : public Table {
  Saved(const class parameters& p, size_t n) : Table(p, n) {}
  void save(const std::string& f) const { saved = rows; std::ofstream o(f.c_str()); o << "table" << std::endl; }
};
// a function: in each channel, a first degree polynomial of the coordinates with the coefficients of its file
struct Affine : public nonlinear_function {
  vec c;
  Affine(const class parameters& p) : nonlinear_function(p), c(vec::Zero(p.dimX() + p.dimY())) {}
  vec operator()(const vec& x) const { return value(x); }
  vec value(const vec& x) const { int dx = _parameters.dimX(), dy = _parameters.dimY(); vec r(dy); for(int y = 0; y < dy; ++y) { r[y] = c[dx + y]; for(int i = 0; i < dx; ++i) r[y] = r[y] + c[i] * x[i] * (1 + y); } return r; }
  vec parametersJacobian(const vec&) const { return vec::Zero((_parameters.dimX() + _parameters.dimY()) * _parameters.dimY()); }
  int nbParameters() const { return c.size(); }
  vec parameters() const { return c; }
  vec getParametersMin() const { return vec::Constant(c.size(), -100.0); }
  vec getParametersMax() const { return vec::Constant(c.size(), 100.0); }
  void setParameters(const vec& q) { c = q; }
  void save_call(std::ostream& out, const arguments&) const { out << "#FUNC affine" << std::endl; for(int i = 0; i < c.size(); ++i) out << "c " << c[i] << std::endl; }
  bool load(std::istream& in) {
    while(in.peek() != '#') { char line[256]; in.getline(line, 256); if(!in.good()) return false; }
    std::string t; in >> t; if(t != "#FUNC") return false;
    in >> t; if(t != "affine") return false;
    for(int i = 0; i < c.size(); ++i) in >> t >> c[i]; return true; }
};
static function* affine(const parameters& p) { return new Affine(p); }
static vec coefficients(int n) { vec c(n); for(int i = 0; i < n; ++i) c[i] = sym_range(nm("c", i).c_str(), -4.0, 4.0); return c; }
static std::vector<std::string> words(const char* a) { std::vector<std::string> w; std::istringstream s(a); std::string t; while(s >> t) w.push_back(t); return w; }
#ifdef SOFT_data2data
// one sample per sample: the same values at the same directions
HARNESS(h_samples) {
  int a = (int)sym_choice("from", 5), b = (int)sym_choice("to", 6), n = 1 + (int)sym_choice("n", 2), dy = sym_choice("dy", 2) ? 3 : 1; bool all = sym_choice("all", 2), binary = sym_choice("binary", 2), vs = sym_choice("intervals", 2);
  whole = a < 2 && (b == 5 || b == a || b == 1);
  samples(IN[a], n, dy, vs); make_in = &load_samples; input_file();
  params::input out = b == 5 ? IN[a] : IN[b];
  std::vector<std::string> w = words("data2data --input in.dat --in-data plug --output out.dat");
  if(b < 5) { w.push_back("--param"); w.push_back(params::get_name(IN[b])); }
  if(all) w.push_back("--all-values");
  if(binary) { w.push_back("--out-data"); w.push_back("alta-binary"); }
  sym_check(run(w) == 0, "the conversion succeeds"); sym_check(S.loaded, "the input file is given to the plugin");
  ptr<data> d = plugins_manager::load_data("out.dat", "", arguments());
  parameters p = d->parametrization();
  sym_check(p.input_parametrization() == out && p.output_parametrization() == S.out && p.dimX() == params::dimension(out) && p.dimY() == dy, "parametrization of the output");
  int k = 0;
  for(int s = 0; s < n; ++s) {
    double x[7], t[6]; for(int i = 0; i < S.dx; ++i) x[i] = S.v[s * (S.dx + dy) + i];
    params::convert(x, S.in, out, t);
    if(!all && !above(t, out)) continue;
    sym_check(k < d->size(), "every valid sample is converted"); if(k >= d->size()) return;
    vec v = d->get(k); sym_check(v.size() == p.dimX() + p.dimY(), "size of a sample");
    for(int i = 0; i < p.dimX(); ++i) agree(v[i], t[i], binary, "the abscissas are those of the sample");
    for(int y = 0; y < dy; ++y) agree(v[p.dimX() + y], S.v[s * (S.dx + dy) + S.dx + y], binary, "the values are those of the sample");
    ++k;
  }
  sym_check(d->size() == k, "only the samples of the input are converted");
  sym_reach("samples");
}
// data that interpolate
struct Field : public data {
  Affine f; Field(const class parameters& p) : data(p, 1, vec::Zero(p.dimX()), vec::Ones(p.dimX())), f(p) {}
  vec get(int i) const { return vec::Zero(_parameters.dimX() + _parameters.dimY()); }
  void set(int i, const vec& x) {}
  vec value(const vec& x) const { return f.value(x); }
};
static vec field;
static data* load_field(std::istream& in, const arguments& a) { Field* f = new Field(parameters(S.dx, S.dy, S.in, S.out)); f->f.c = field; return f; }
static params::input table_kind; static std::vector<double> table_at; static int table_n;
static data* make_table(size_t n, const parameters& p, const arguments& a) {
  parameters q(params::dimension(table_kind), S.dy, table_kind, S.out); Saved* t = new Saved(q, table_n); int dx = q.dimX();
  for(int s = 0; s < table_n; ++s) { vec r = vec::Constant(dx + S.dy, 77.0); for(int i = 0; i < dx; ++i) r[i] = table_at[s * dx + i]; t->rows[s] = r; }
  return t;
}
HARNESS(h_interpolate) {
  int a = (int)sym_choice("from", 5), b = (int)sym_choice("to", 5); int n = 1 + (int)sym_choice("n", 2), dy = sym_choice("dy", 2) ? 3 : 1;
  whole = a < 2 && (b == a || b == 1);
  S.in = IN[a]; S.dx = params::dimension(S.in); S.dy = dy; S.out = dy == 3 ? params::RGB_COLOR : params::INV_STERADIAN; field = coefficients(S.dx + dy);
  table_kind = IN[b]; table_n = n; int dx = params::dimension(table_kind); for(int s = 0; s < n; ++s) for(int i = 0; i < dx; ++i) table_at.push_back(coordinate(table_kind, s, i));
  make_in = &load_field; make_out = &make_table; input_file();
  sym_check(run(words("data2data --input in.dat --in-data plug --output out.dat --out-data plug")) == 0, "the conversion succeeds");
  sym_check((int)saved.size() == n && exists("out.dat"), "the output is saved"); if((int)saved.size() != n) return;
  Affine f(parameters(S.dx, dy, S.in, S.out)); f.c = field;
  for(int s = 0; s < n; ++s) {
    double x[6], c[6]; vec t(S.dx); for(int i = 0; i < dx; ++i) { x[i] = table_at[s * dx + i]; sym_check_eq(saved[s][i], x[i], "the abscissas of the output are kept"); }
    params::convert(x, table_kind, params::CARTESIAN, c);
    vec y = vec::Zero(dy);
    if(c[2] >= 0.0 && c[5] >= 0.0) { params::convert(c, params::CARTESIAN, S.in, &t[0]); y = f.value(t); }
    for(int k = 0; k < dy; ++k) sym_check_eq(saved[s][dx + k], y[k], "the values are those of the input at the same directions, or zero below the surface");
  }
  sym_reach("interpolate");
}
HARNESS(h_errors) {
  samples(IN[1], 1, 1, false); make_in = &load_samples; int k = (int)sym_choice("kind", 5); if(k != 0) input_file();
  const char* w = k == 0 ? "data2data --input in.dat --in-data plug --output out.dat" : k == 1 ? "data2data --input in.dat --in-data none --output out.dat" : k == 2 ? "data2data --input in.dat --in-data plug" : k == 3 ? "data2data --output out.dat" : "data2data --input in.dat --in-data plug --output out.dat --out-data none";
  sym_check(run(words(w)) != 0, "an error is reported"); sym_check(!exists("out.dat"), "nothing is written when the conversion fails");
  sym_reach("errors");
}
#endif
#ifdef SOFT_brdf2data
static data* load_table(std::istream& in, const arguments& a) { Saved* t = new Saved(parameters(S.dx, S.dy, S.in, S.out), S.n); for(int s = 0; s < S.n; ++s) { t->rows[s] = vec(S.dx + S.dy); for(int i = 0; i < S.dx + S.dy; ++i) t->rows[s][i] = S.v[s * (S.dx + S.dy) + i]; } return t; }
HARNESS(h_evaluate) {
  int a = (int)sym_choice("data", 5), b = (int)sym_choice("function", 6), n = 1 + (int)sym_choice("n", 2), dy = sym_choice("dy", 2) ? 3 : 1; bool diff = sym_choice("diff", 2);
  whole = a < 2 && (b == a || b == 1); params::input fin = b == 5 ? params::UNKNOWN_INPUT : IN[b];   // functions of unknown coordinates take those of the data
  samples(IN[a], n, dy, false); make_in = &load_table; make_function = &affine; input_file();
  Affine f(parameters(b == 5 ? S.dx : params::dimension(fin), dy, fin, S.out)); f.c = coefficients(f.nbParameters()); f.save("f.func", function_options());
  std::vector<std::string> w = words("brdf2data --input f.func --data-file in.dat --data plug --output out.dat"); if(diff) w.push_back("--export-diff");
  sym_check(run(w) == 0, "the evaluation succeeds");
  ptr<function> g(plugins_manager::load_function("f.func")); sym_check(bool(g), "function file"); if(!g) return;
  sym_check((int)saved.size() == n && exists("out.dat"), "the output has the samples of the data file"); if((int)saved.size() != n) return;
  for(int s = 0; s < n; ++s) {
    double x[6]; for(int i = 0; i < S.dx; ++i) x[i] = S.v[s * (S.dx + dy) + i];
    vec t(f.parametrization().dimX()); if(b == 5) for(int i = 0; i < S.dx; ++i) t[i] = x[i]; else params::convert(x, IN[a], fin, &t[0]); vec y = g->value(t), v = saved[s];
    sym_check(v.size() == S.dx + dy, "size of a sample");
    for(int i = 0; i < S.dx; ++i) sym_check_eq(v[i], x[i], "the abscissas are kept");
    for(int k = 0; k < dy; ++k) sym_check_eq(v[S.dx + k], diff ? S.v[s * (S.dx + dy) + S.dx + k] - y[k] : y[k], "the values are those of the function");
  }
  sym_reach("evaluate");
}
#endif
#ifdef SOFT_brdf2brdf
HARNESS(h_again) {
  int b = (int)sym_choice("function", 5), dy = sym_choice("dy", 2) ? 3 : 1; make_function = &affine;
  Affine f(parameters(params::dimension(IN[b]), dy, IN[b], dy == 3 ? params::RGB_COLOR : params::INV_STERADIAN)); f.c = coefficients(f.nbParameters()); f.save("f.func", function_options());
  sym_check(run(words("brdf2brdf --input f.func --output g.func")) == 0, "the export succeeds");
  ptr<function> r(plugins_manager::load_function("f.func")), g(plugins_manager::load_function("g.func")); ptr<Affine> u = dynamic_pointer_cast<Affine>(r), v = dynamic_pointer_cast<Affine>(g);
  sym_check(u && v, "both files hold the function"); if(!u || !v) return;
  sym_check(v->parametrization().input_parametrization() == IN[b] && v->parametrization().dimX() == params::dimension(IN[b]) && v->parametrization().dimY() == dy, "parametrization");
  for(int i = 0; i < u->nbParameters(); ++i) sym_check_eq(u->c[i], v->c[i], "the same function is saved");
  sym_reach("again");
}
#endif
#ifdef SOFT_data2brdf
static ptr<data> fitted; static vec found; static bool success; static int set_first; static bool wrong;
struct Fit : public fitter {
  bool fit_data(const ptr<data>& d, ptr<function>& f, const arguments& a) {
    ++set_first; fitted = d; Affine* g = dynamic_cast<Affine*>(f.get()); if(!g || set_first != 2 || a["amount"] != "7") { wrong = true; return false; }
    if(g->nbParameters() != found.size()) { wrong = true; return false; }
    g->setParameters(found); return success; }
  void set_parameters(const arguments& a) { if(set_first == 0 && a["amount"] == "7") set_first = 1; else wrong = true; }
};
static fitter* make_fit() { return new Fit(); }
HARNESS(h_fit) {
  int a = (int)sym_choice("data", 5), n = 1 + (int)sym_choice("n", 2), dy = sym_choice("dy", 2) ? 3 : 1; success = sym_choice("success", 2);
  samples(IN[a], n, dy, false); make_in = &load_samples; make_function = &affine; make_fitter = &make_fit; input_file(); found = coefficients(S.dx + dy);
  int code = run(words("data2brdf --input in.dat --data plug --fitter plug --func plug --output out.func --amount 7"));
  sym_check(!wrong && set_first == 2, "the fitter gets the options, then the data and the function");
  sym_check((code == 0) == success, "the exit code tells whether the fit succeeded"); sym_check(exists("out.func") == success, "the function is saved when the fit succeeds");
  if(fitted) { sym_check(fitted->size() == n, "the fitter gets all the samples"); for(int s = 0; s < n && s < fitted->size(); ++s) { vec v = fitted->get(s); for(int i = 0; i < S.dx + dy; ++i) sym_check_eq(v[i], S.v[s * (S.dx + dy) + i], "the fitter gets the samples of the file"); } }
  if(code == 0) {
    ptr<function> g(plugins_manager::load_function("out.func")); ptr<Affine> u = dynamic_pointer_cast<Affine>(g); sym_check(bool(u), "the function is saved"); if(!u) return;
    sym_check(u->parametrization().input_parametrization() == IN[a] && u->parametrization().dimX() == S.dx && u->parametrization().dimY() == dy, "the function has the parametrization of the data");
    for(int i = 0; i < u->nbParameters(); ++i) sym_check(std::fabs(u->c[i] - found[i]) <= 6e-6 * std::fabs(found[i]), "the fitted parameters are saved");
  }
  sym_reach("fit");
}
HARNESS(h_errors) {
  samples(IN[1], 1, 1, false); make_in = &load_samples; make_function = &affine; make_fitter = &make_fit; int k = (int)sym_choice("kind", 4); if(k != 0) input_file(); success = true; found = coefficients(S.dx + 1);
  const char* w = k == 0 ? "data2brdf --input in.dat --data plug --fitter plug --func plug --output out.func --amount 7" : k == 1 ? "data2brdf --input in.dat --data plug --fitter none --func plug --output out.func" : k == 2 ? "data2brdf --data plug --fitter plug --func plug --output out.func" : "data2brdf --input in.dat --data plug --fitter plug --func none --output out.func";
  if(k == 3) return;
  sym_check(run(words(w)) != 0, "an error is reported"); sym_check(!exists("out.func"), "nothing is written when the fit is not possible");
  sym_reach("errors");
}
#endif
// numbers of a file, with the few digits that are written
static std::string lead(const std::string& l) { size_t i = l.find('['); return i == std::string::npos ? std::string("") : l.substr(0, i); }
static std::vector<double> numbers(const std::string& l) { std::vector<double> r; size_t i = l.find('['); if(i == std::string::npos) return r; std::istringstream s(l.substr(i)); char c; double v; while(s >> c && (c == '[' || c == ',') && s >> v) r.push_back(v); return r; }
static bool look(const char* file, const std::string& key, std::vector<double>& r) { std::ifstream f(file); std::string l; while(std::getline(f, l)) if(lead(l) == key) { r = numbers(l); return true; } return false; }
#if defined(SOFT_fit2stat) || defined(SOFT_data2stats)
static void metric(const char* key, const std::vector<double>& e) { std::vector<double> r; sym_check(look("out.txt", key, r) && r.size() == e.size(), key); for(size_t i = 0; i < r.size() && i < e.size(); ++i) sym_check_printed(r[i], e[i], 6, key); }
// the metrics of the differences, one row per sample
struct Metrics { std::vector<double> l1, l2, l3, linf, mse, rmse; Metrics(const Eigen::MatrixXd& d) { for(int k = 0; k < d.cols(); ++k) { Eigen::VectorXd c = d.col(k); double s = 0.0; for(int i = 0; i < c.size(); ++i) s = s + c[i] * c[i]; l1.push_back(c.lpNorm<1>()); l2.push_back(std::sqrt(s)); l3.push_back(c.lpNorm<3>()); linf.push_back(c.lpNorm<Eigen::Infinity>()); mse.push_back(s / (double)c.size()); rmse.push_back(std::sqrt(s / (double)c.size())); } } };
#endif
#ifdef SOFT_fit2stat
HARNESS(h_stats) {
  // files of functions do not record their output: data in another parametrization are compared when theirs is not known either
  int a = (int)sym_choice("data", 5), n = 1 + (int)sym_choice("n", 3), dy = sym_choice("dy", 2) ? 3 : 1; bool known = sym_choice("output", 2); if(known && a != 1) { sym_reach("not compared"); return; }
  whole = false; samples(IN[a], n, dy, false); if(!known) S.out = params::UNKNOWN_OUTPUT; make_function = &affine;
  { std::ofstream f("in.dat"); f << "#DIM " << S.dx << " " << dy << "\n#PARAM_IN " << params::get_name(S.in) << "\n#PARAM_OUT " << params::get_name(S.out) << "\n#VS 0\n" << std::setprecision(17); for(int s = 0; s < n; ++s) { for(int i = 0; i < S.dx + dy; ++i) f << S.v[s * (S.dx + dy) + i] << " "; f << "\n"; } }
  Affine f(parameters(6, dy, params::CARTESIAN, S.out)); f.c = coefficients(f.nbParameters()); f.save("f.func", function_options());
  sym_check(run(words("brdf2stats --input in.dat --brdf f.func --output out.txt")) == 0, "the comparison succeeds");
  ptr<function> g(plugins_manager::load_function("f.func")); sym_check(bool(g), "function file"); if(!g) return;
  Eigen::MatrixXd d(n, dy), l(n, dy), b(n, dy);
  for(int s = 0; s < n; ++s) {
    double x[6]; for(int i = 0; i < S.dx; ++i) x[i] = S.v[s * (S.dx + dy) + i];
    vec t(6); params::convert(x, S.in, params::CARTESIAN, &t[0]); vec y = g->value(t);
    for(int k = 0; k < dy; ++k) { d(s, k) = S.v[s * (S.dx + dy) + S.dx + k] - y[k]; l(s, k) = d(s, k) * t[2]; b(s, k) = d(s, k) * t[2] * t[5]; }
  }
  Metrics m(d), ml(l), mb(b);
  metric("L1 :", m.l1); metric("L2 :", m.l2); metric("L3 :", m.l3); metric("LINF :", m.linf); metric("MSE :", m.mse); metric("RMSE :", m.rmse);
  metric("MSE * cos(theta_light) :", ml.mse); metric("RMSE * cos(theta_light) :", ml.rmse);
  metric("MSE * cos(theta_light) * cos(theta_view) :", mb.mse); metric("RMSE * cos(theta_light) cos(theta_view)  :", mb.rmse);
  sym_reach("stats");
}
#endif
#ifdef SOFT_data2stats
struct Field : public data {
  Affine f; Field(const class parameters& p) : data(p, 1, vec::Zero(p.dimX()), vec::Ones(p.dimX())), f(p) {}
  vec get(int i) const { return vec::Zero(_parameters.dimX() + _parameters.dimY()); }
  void set(int i, const vec& x) {}
  vec value(const vec& x) const { return f.value(x); }
};
static params::input field_in; static vec field; static int fields, tables;
static data* load_either(std::istream& in, const arguments& a) { int c = in.peek(); if(c == 's') { ++tables; return load_samples(in, a); } ++fields; Field* f = new Field(parameters(params::dimension(field_in), S.dy, field_in, S.out)); f->f.c = field; return f; }
HARNESS(h_stats) {
  int a = (int)sym_choice("ref", 5), b = (int)sym_choice("input", 5), n = 1 + (int)sym_choice("n", 3), dy = sym_choice("dy", 2) ? 3 : 1;
  whole = false; samples(IN[a], n, dy, false); make_in = &load_either; field_in = IN[b]; field = coefficients(params::dimension(field_in) + dy); input_file(); { std::ofstream f("field.dat"); f << "field" << std::endl; }
  sym_check(run(words("data2stats --input field.dat --in-data plug --ref in.dat --ref-data plug --output out.txt")) == 0, "the comparison succeeds");
  sym_check(fields == 1 && tables == 1, "each file is loaded once");
  Affine f(parameters(params::dimension(field_in), dy, field_in, S.out)); f.c = field; Eigen::MatrixXd d(n, dy);
  for(int s = 0; s < n; ++s) {
    double x[6], c[6]; for(int i = 0; i < S.dx; ++i) x[i] = S.v[s * (S.dx + dy) + i];
    vec t(params::dimension(field_in)); params::convert(x, S.in, params::CARTESIAN, c); params::convert(c, params::CARTESIAN, field_in, &t[0]); vec y = f.value(t);
    for(int k = 0; k < dy; ++k) d(s, k) = S.v[s * (S.dx + dy) + S.dx + k] - y[k];
  }
  Metrics m(d);
  metric("L1 :", m.l1); metric("L2 :", m.l2); metric("L3 :", m.l3); metric("LINF :", m.linf); metric("MSE :", m.mse); metric("RMSE :", m.rmse);
  sym_reach("stats");
}
#endif
#ifdef SOFT_data2moments
struct Field : public data {
  Affine f; std::vector<vec> rows; Field(const class parameters& p, const vec& lo, const vec& hi, int n) : data(p, n, lo, hi), f(p) {}
  vec get(int i) const { return rows[i]; }
  void set(int i, const vec& x) {}
  vec value(const vec& x) const { return f.value(x); }
};
static int nx, dimy, rows; static vec low, high, field; static std::vector<double> ys; static bool plain;
static data* load_field(std::istream& in, const arguments& a) {
  parameters p(nx, dimy, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT);
  if(plain) return new vertical_segment(p, 1);
  Field* f = new Field(p, low, high, rows); f->f.c = field; for(int i = 0; i < rows; ++i) { vec r = vec::Zero(nx + dimy); for(int k = 0; k < dimy; ++k) r[nx + k] = ys[i * dimy + k]; f->rows.push_back(r); } return f; }
static std::string list(const std::vector<int>& v) { std::string s("["); for(size_t i = 0; i < v.size(); ++i) { if(i) s += ","; s += (char)('0' + v[i]); } return s + "]"; }
HARNESS(h_moments) {
  int kx = 1 + (int)sym_choice("nx", 3), form = (int)sym_choice("form", 4); nx = kx; dimy = 1 + (int)sym_choice("dy", 2); rows = 1 + (int)sym_choice("rows", 2); bool flat = sym_choice("flat", 2);
  // form: 0 the first two dimensions, 1 the last two in reverse order, 2 twice the same, 3 dimensions that do not exist
  low = vec(nx); high = vec(nx); std::vector<int> count, dim;
  for(int i = 0; i < nx; ++i) { low[i] = sym_range(nm("l", i).c_str(), 1.0, 2.0); high[i] = flat && i == nx - 1 ? low[i] : sym_range(nm("h", i).c_str(), 2.5, 4.0); count.push_back(i == 1 ? 3 : 2); }
  field = vec(nx + dimy); for(int i = 0; i < nx + dimy; ++i) field[i] = sym_range(nm("c", i).c_str(), 0.5, 2.0); for(int i = 0; i < rows * dimy; ++i) ys.push_back(sym_range(nm("y", i).c_str(), -1.0, 0.0));
  make_in = &load_field; input_file();
  std::vector<std::string> w = words("data2moments --input in.dat --data plug --output out.txt --samples"); w.push_back(list(count));
  if(form == 0) { dim.push_back(0); dim.push_back(1); }
  if(form == 1) { dim.push_back(nx - 1); dim.push_back(nx > 1 ? nx - 2 : 0); }
  if(form == 2) { dim.push_back(0); dim.push_back(0); }
  if(form == 3) { dim.push_back(0); dim.push_back(nx); }
  if(form != 0) { w.push_back("--dim"); w.push_back(list(dim)); }
  int code = run(w); bool valid = dim[0] < nx && dim[1] < nx;
  sym_check((code == 0) == valid, "the moments of dimensions that do not exist are refused");
  if(!valid || code != 0) { sym_check(!exists("out.txt"), "nothing is written when the moments are refused"); sym_reach("refused"); return; }
  double least[2]; for(int k = 0; k < dimy; ++k) { least[k] = ys[k]; for(int i = 1; i < rows; ++i) least[k] = std::min(least[k], ys[i * dimy + k]); }
  Affine f(parameters(nx, dimy, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT)); f.c = field;
  double volume = 1.0; int nb = 1; for(int i = 0; i < nx; ++i) { if(flat && i == nx - 1) { count[i] = 1; continue; } volume = volume * (high[i] - low[i]); nb *= count[i]; }
  static const char* keys[10] = { "\\mu_0 = ", "\\mu_x = ", "\\mu_y = ", "\\mu_{xx} = ", "\\mu_{xy} = ", "\\mu_{yy} = ", "\\mu_{xxx} = ", "\\mu_{xxy} = ", "\\mu_{xyy} = ", "\\mu_{yyy} = " };
  static const int px[10] = { 0, 1, 0, 2, 1, 0, 3, 2, 1, 0 }, py[10] = { 0, 0, 1, 0, 1, 2, 0, 1, 2, 3 };
  std::vector<double> sum(10 * dimy, 0.0);
  for(int i = 0; i < nb; ++i) {
    vec x(nx); int g = i; for(int j = 0; j < nx; ++j) { x[j] = low[j] + (high[j] - low[j]) * ((double)(g % count[j]) / (double)count[j]); g /= count[j]; }
    vec y = f.value(x);
    for(int k = 0; k < dimy; ++k) for(int q = 0; q < 10; ++q) { double v = (y[k] - least[k]) * (volume / (double)nb); for(int e = 0; e < px[q]; ++e) v = v * x[dim[0]]; for(int e = 0; e < py[q]; ++e) v = v * x[dim[1]]; sum[q * dimy + k] = sum[q * dimy + k] + v; }
  }
  for(int q = 0; q < 10; ++q) { std::vector<double> r; sym_check(look("out.txt", keys[q], r) && (int)r.size() == dimy, "every moment is written"); for(int k = 0; k < dimy && k < (int)r.size(); ++k) { double e = q == 0 ? sum[k] : sum[q * dimy + k] / sum[k]; sym_check_printed(r[k], e, 6, keys[q]); } }
  sym_reach("moments");
}
HARNESS(h_refused) {
  nx = 2; dimy = 1; rows = 1; low = vec::Zero(2); high = vec::Ones(2); field = vec::Ones(3); ys.push_back(sym_range("y", 0.0, 1.0)); make_in = &load_field; int k = (int)sym_choice("kind", 5); if(k != 0) input_file(); plain = k == 1;
  const char* w = k == 2 ? "data2moments --input in.dat --data plug" : k == 3 ? "data2moments --input in.dat --data plug --output out.txt --samples [2]" : k == 4 ? "data2moments --data plug --output out.txt" : "data2moments --input in.dat --data plug --output out.txt --samples [2,2]";
  sym_check(run(words(w)) != 0, "an error is reported"); sym_check(!exists("out.txt"), "nothing is written when the moments are not computed");
  sym_reach("refused");
}
#endif
#ifdef SOFT_brdf2gnuplot
static data* load_table(std::istream& in, const arguments& a) { Saved* t = new Saved(parameters(S.dx, S.dy, S.in, S.out), S.n); for(int s = 0; s < S.n; ++s) { t->rows[s] = vec(S.dx + S.dy); for(int i = 0; i < S.dx + S.dy; ++i) t->rows[s][i] = S.v[s * (S.dx + S.dy) + i]; } return t; }
static double cosines(const vec& x, params::input p) { double c[6], z[6]; for(int i = 0; i < x.size(); ++i) z[i] = x[i]; params::convert(z, p, params::CARTESIAN, c); return c[2] * c[5]; }
static std::vector<std::vector<double> > table() { std::vector<std::vector<double> > r; std::ifstream f("out.txt"); std::string l; while(std::getline(f, l)) { std::istringstream s(l); std::vector<double> v; double d; while(s >> d) v.push_back(d); r.push_back(v); } return r; }
HARNESS(h_plot) {
  int a = (int)sym_choice("data", 5), b = (int)sym_choice("function", 6), n = 1 + (int)sym_choice("n", 2), dy = sym_choice("dy", 2) ? 3 : 1, form = (int)sym_choice("form", 3); bool cosine = sym_choice("cosine", 2);
  whole = false; params::input fin = b == 5 ? params::UNKNOWN_INPUT : IN[b]; samples(IN[a], n, dy, false); make_in = &load_table; make_function = &affine; input_file();
  Affine f(parameters(b == 5 ? S.dx : params::dimension(fin), dy, fin, S.out)); f.c = coefficients(f.nbParameters()); f.save("f.func", function_options());
  if(form == 2) for(int s = 0; s < n; ++s) for(int k = 0; k < dy; ++k) sym_assume(S.v[s * (S.dx + dy) + S.dx + k] != 0.0);
  std::vector<std::string> w = words("brdf2gnuplot --input f.func --data-file in.dat --data plug --output out.txt"); if(form == 1) w.push_back("--error"); if(form == 2) w.push_back("--linear_error"); if(cosine) w.push_back("--cos-plot");
  sym_check(run(w) == 0, "the plot succeeds");
  ptr<function> g(plugins_manager::load_function("f.func")); sym_check(bool(g), "function file"); if(!g) return;
  std::vector<std::vector<double> > t = table(); sym_check((int)t.size() == n, "one line per sample"); if((int)t.size() != n) return;
  int head = form == 2 ? 1 : S.dx;
  for(int s = 0; s < n; ++s) {
    double x[6]; for(int i = 0; i < S.dx; ++i) x[i] = S.v[s * (S.dx + dy) + i];
    vec z(f.parametrization().dimX()); if(b == 5) for(int i = 0; i < S.dx; ++i) z[i] = x[i]; else params::convert(x, IN[a], fin, &z[0]); vec y = g->value(z); double c = cosine && b != 5 ? cosines(z, fin) : 1.0;
    sym_check((int)t[s].size() == head + dy, "columns of the plot"); if((int)t[s].size() != head + dy) return;
    if(form == 2) sym_check(t[s][0] == (double)s, "index of the sample"); else for(int i = 0; i < S.dx; ++i) sym_check_printed(t[s][i], S.v[s * (S.dx + dy) + i], 10, "abscissas of the sample");
    for(int k = 0; k < dy; ++k) { double d = S.v[s * (S.dx + dy) + S.dx + k], e = c * y[k]; sym_check_printed(t[s][head + k], form == 0 ? e : form == 1 ? d - e : (d - e) / d, 10, "the value of the function, or its difference to the sample"); }
  }
  sym_reach("plot");
}
HARNESS(h_polar) {
  int b = (int)sym_choice("function", 5), dy = sym_choice("dy", 2) ? 3 : 1; bool cosine = sym_choice("cosine", 2); make_function = &affine;
  Affine f(parameters(params::dimension(IN[b]), dy, IN[b], dy == 3 ? params::RGB_COLOR : params::INV_STERADIAN)); f.c = coefficients(f.nbParameters()); f.save("f.func", function_options());
  double inc = 0.5;
  std::vector<std::string> w = words("brdf2gnuplot --input f.func --polar-plot --inc-angle 0.5 --samples 4 --output out.txt"); if(cosine) w.push_back("--cos-plot");
  sym_check(run(w) == 0, "the plot succeeds");
  ptr<function> g(plugins_manager::load_function("f.func")); sym_check(bool(g), "function file"); if(!g) return;
  std::vector<std::vector<double> > t = table(); sym_check((int)t.size() == 4, "one line per sample"); if((int)t.size() != 4) return;
  for(int s = 0; s < 4; ++s) {
    double angle = 0.5 * M_PI * ((double)(s % 2) / 2.0); double sp[4] = { inc, M_PI, angle, s < 2 ? M_PI : 0.0 };
    vec z(f.parametrization().dimX()); params::convert(sp, params::SPHERICAL_TL_PL_TV_PV, IN[b], &z[0]); vec y = g->value(z); vec v(4); for(int i = 0; i < 4; ++i) v[i] = sp[i]; double c = cosine ? cosines(v, params::SPHERICAL_TL_PL_TV_PV) : 1.0;
    sym_check((int)t[s].size() == 1 + dy, "columns of the plot"); if((int)t[s].size() != 1 + dy) return;
    sym_check_printed(t[s][0], s < 2 ? -angle : angle, 10, "angle of the view direction, negative on the side of the light");
    for(int k = 0; k < dy; ++k) sym_check_printed(t[s][1 + k], c * y[k], 10, "the value of the function");
  }
  sym_reach("polar");
}
#endif
