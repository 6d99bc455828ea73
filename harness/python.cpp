// The Python module: what it registers is called by name, with the conversions and the choice of overload of pybind11.
#include "sym.h"
#include <pybind11/pybind11.h>
#include <core/common.h>
#include <core/params.h>
#include <core/args.h>
#include <core/data.h>
#include <core/function.h>
#include <core/rational_function.h>
#include <core/vertical_segment.h>
#include <core/fitter.h>
#include <core/metrics.h>
#include <core/plugins_manager.h>
#include <fstream>
#include <sstream>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
namespace py = pybind11;
namespace pybind11 { Classes classes; Functions functions; }
extern "C" void played_module(py::module_& m);
using namespace alta;
static void import() { static py::module_ m; static bool done = false; if(!done) { done = true; played_module(m); } }
static std::string nm(const char* p, int a, int b = -1) { std::string s(p); s += (char)('0' + a); if(b >= 0) s += (char)('0' + b); return s; }
static bool same(const parameters& a, const parameters& b) { return a.dimX() == b.dimX() && a.dimY() == b.dimY() && a.input_parametrization() == b.input_parametrization() && a.output_parametrization() == b.output_parametrization(); }
static bool exists(const char* f) { std::ifstream s(f); return s.is_open(); }
static py::handle S(const char* s) { return py::handle(std::string(s)); }
// calls that fail: a Python exception and not a crash
template<class... A> static bool fails(const char* n, const A&... a) { try { py::call(n, a...); } catch(std::exception&) { return true; } return false; }
template<class... A> static bool fails_index(const char* n, const A&... a) { try { py::call(n, a...); } catch(py::index_error&) { return true; } catch(py::type_error&) { return true; } catch(std::out_of_range&) { return true; } return false; }
static py::handle vector_of(const std::vector<double>& v) { return py::call("vec.__init__", py::cast(v)); }
static py::handle vector_of(const vec& v) { return vector_of(std::vector<double>(v.data(), v.data() + v.size())); }
// plugins
typedef void (*any)();
static data* (*make_in)(std::istream&, const arguments&) = NULL;
static data* (*make_out)(size_t, const parameters&, const arguments&) = NULL;
static function* (*make_function)(const parameters&) = NULL;
static fitter* (*make_fitter)() = NULL;
static int lib;
extern "C" void* hook_dlopen(const char* path, int flags) { return std::string(path).find("libplug") != std::string::npos ? &lib : NULL; }
extern "C" void* hook_dlsym(void* h, const char* n) { return (void*)(std::strcmp(n, "provide_function") == 0 ? (any)make_function : std::strcmp(n, "provide_fitter") == 0 ? (any)make_fitter : std::strcmp(n, "provide_data") == 0 ? (any)make_out : std::strcmp(n, "load_data") == 0 ? (any)make_in : (any)NULL); }
extern "C" char* hook_dlerror() { return NULL; }
extern "C" char* hook_getenv(const char* name) { return NULL; }
static params::input IN[5] = { params::SPHERICAL_TL_PL_TV_PV, params::CARTESIAN, params::ISOTROPIC_TV_TL_DPHI, params::RUSIN_TH_TD_PD, params::COS_TH };
static double coordinate(params::input p, int s, int i) {
  std::string n = nm("x", s, i);
  if(p == params::CARTESIAN) return sym_range(n.c_str(), i % 3 == 2 ? 0.01 : -1.0, 1.0);
  if(p == params::COS_TH) return sym_range(n.c_str(), 0.01, 0.99);
  if(p == params::SPHERICAL_TL_PL_TV_PV) return i % 2 ? sym_range(n.c_str(), -3.1, 3.1) : sym_range(n.c_str(), 0.01, 1.5);
  return sym_range(n.c_str(), 0.01, i < 2 ? 1.5 : 3.1);
}
struct Table : public data {
  std::vector<vec> rows; std::string options; mutable std::string file;
  Table(const class parameters& p, size_t n) : data(p, n, vec::Zero(p.dimX()), vec::Ones(p.dimX())), rows(n, vec::Zero(p.dimX() + p.dimY())) {}
  vec get(int i) const { return rows.at(i); }
  void set(int i, const vec& x) { rows.at(i) = x; }
  vec value(const vec& x) const { vec r(_parameters.dimY()); for(int y = 0; y < r.size(); ++y) { r[y] = y + 1; for(int i = 0; i < _parameters.dimX(); ++i) r[y] = r[y] + (i + 2 + y) * x[i]; } return r; }
  void save(const std::string& f) const { file = f; }
};
static Table* last_table;
static data* make_table(size_t n, const parameters& p, const arguments& a) { last_table = new Table(p, n); last_table->options = a["option"]; return last_table; }
static data* load_table(std::istream& in, const arguments& a) { std::string t; in >> t; if(t != "table") return NULL; last_table = new Table(parameters(1, 1, params::COS_TH, params::INV_STERADIAN), 2); last_table->options = a["option"]; return last_table; }
struct Affine : public nonlinear_function {
  vec c;
  Affine(const class parameters& p) : nonlinear_function(p), c(vec::Zero(p.dimX() + p.dimY())) {}
  vec operator()(const vec& x) const { return value(x); }
  vec value(const vec& x) const { int dx = _parameters.dimX(), dy = _parameters.dimY(); vec r(dy); for(int y = 0; y < dy; ++y) { r[y] = c[dx + y]; for(int i = 0; i < dx; ++i) r[y] = r[y] + c[i] * x[i] * (1 + y); } return r; }
  vec parametersJacobian(const vec&) const { return vec::Zero((_parameters.dimX() + _parameters.dimY()) * _parameters.dimY()); }
  int nbParameters() const { return c.size(); }
  vec parameters() const { return c; }
  vec getParametersMin() const { return vec::Constant(c.size(), -100.0); }
  vec getParametersMax() const { return vec::Constant(c.size(), 100.0); }
  void setParameters(const vec& q) { c = q; }
  void save_call(std::ostream& out, const arguments&) const { out << "#FUNC affine" << std::endl; for(int i = 0; i < c.size(); ++i) out << "c " << c[i] << std::endl; }
  bool load(std::istream& in) {
    while(in.peek() != '#') { char line[256]; in.getline(line, 256); if(!in.good()) return false; }
    std::string t; in >> t; if(t != "#FUNC") return false;
    in >> t; if(t != "affine") return false;
    for(int i = 0; i < c.size(); ++i) in >> t >> c[i]; return true; }
};
static Affine* last_function;
static function* affine(const parameters& p) { return last_function = new Affine(p); }
static vec coefficients(const char* n, int k) { vec c(k); for(int i = 0; i < k; ++i) c[i] = sym_range(nm(n, i).c_str(), -4.0, 4.0); return c; }
static py::handle make(const parameters& p, const vec& c) { make_function = &affine; py::handle f = py::call("get_function", S("plug"), p); last_function->c = c; return f; }
static py::handle table(const parameters& p, int n) { make_out = &make_table; return py::call("get_data", S("plug"), n, p); }
static py::handle options(const char* k, const char* v) { py::dict d; d[py::str(k)] = py::handle(std::string(v)); return py::call("arguments.__init__", (const py::handle&)d); }
HARNESS(h_vec) {
  import(); int n = (int)sym_choice("n", 4), m = (int)sym_choice("m", 4); std::vector<double> a(n), b(m); for(int i = 0; i < n; ++i) a[i] = sym_range(nm("a", i).c_str(), -100.0, 100.0); for(int i = 0; i < m; ++i) b[i] = sym_range(nm("b", i).c_str(), -100.0, 100.0);
  py::handle v = vector_of(a), w = vector_of(b), copy = py::call("vec.__init__", v);
  sym_check(py::call("vec.__len__", v).i == n, "length");
  for(int i = 0; i < n; ++i) sym_check_eq(py::call("vec.__getitem__", v, i).d, a[i], "a vector has the elements it was made of");
  sym_check(fails_index("vec.__getitem__", v, n) && fails_index("vec.__getitem__", v, n + 5), "reading past the end is an IndexError");
  double norm = 0; for(int i = 0; i < n; ++i) norm += a[i] * a[i]; sym_check_eq(py::call("norm", v).d, std::sqrt(norm), "norm");
  if(n == m) {
    py::handle s = py::call("vec.__add__", v, w), d = py::call("vec.__sub__", v, w); sym_check(py::call("vec.__len__", s).i == n && py::call("vec.__len__", d).i == n, "length of sums");
    for(int i = 0; i < n; ++i) { sym_check_eq(py::call("vec.__getitem__", s, i).d, a[i] + b[i], "sum"); sym_check_eq(py::call("vec.__getitem__", d, i).d, a[i] - b[i], "difference"); }
  } else sym_check(fails("vec.__add__", v, w) && fails("vec.__sub__", v, w), "vectors of different sizes are not added");
  double x = sym_range("x", -100.0, 100.0); int at = (int)sym_choice("at", 5);
  bool bad = fails_index("vec.__setitem__", v, at, x); sym_check(bad == (at >= n), "writing past the end is an IndexError");
  sym_check(fails_index("vec.__setitem__", v, n, x) && fails_index("vec.__setitem__", v, -1 - at, x), "writing past the end is an IndexError");
  sym_check(py::call("vec.__len__", v).i == n, "length");
  for(int i = 0; i < n; ++i) { sym_check_eq(py::call("vec.__getitem__", v, i).d, i == at ? x : a[i], "exactly one element is written"); sym_check_eq(py::call("vec.__getitem__", copy, i).d, a[i], "copies are independent"); }
  sym_reach("vec");
}
HARNESS(h_str) {
  import(); int n = (int)sym_choice("n", 4); std::vector<double> a(n); for(int i = 0; i < n; ++i) a[i] = sym_range(nm("a", i).c_str(), -100.0, 100.0);
  std::string s = py::call("vec.__str__", vector_of(a)).s; std::stringstream t(s); char c = 0; t >> c; sym_check(c == '[', "bracket");
  for(int i = 0; i < n; ++i) { double x = 1e9; if(i) { t >> c; sym_check(c == ',', "comma"); } t >> x; sym_check_printed(x, a[i], 6, "the elements are printed"); }
  t >> c; sym_check(c == ']', "bracket");
  sym_reach("str");
}
HARNESS(h_arguments) {
  import(); static const char* V[3] = { "STARK_2D", "3", "[1,2]" }; int k = (int)sym_choice("kind", 3);
  py::dict d; d[py::str("param")] = py::handle(std::string(V[k])); d[py::str("other")] = py::handle(std::string("b c"));
  py::handle a = py::call("arguments.__init__", (const py::handle&)d), e = py::call("arguments.__init__");
  sym_check(py::call("arguments.__getitem__", a, S("param")).s == V[k] && py::call("arguments.__getitem__", a, S("other")).s == "b c", "arguments have the entries of the dictionary");
  sym_check(py::call("arguments.__getitem__", e, S("param")).s != V[k], "no other entry");
  py::call("arguments.update", a, S("param"), S("new")); py::call("arguments.update", e, S("x"), S("y"));
  sym_check(py::call("arguments.__getitem__", a, S("param")).s == "new" && py::call("arguments.__getitem__", a, S("other")).s == "b c" && py::call("arguments.__getitem__", e, S("x")).s == "y", "entries are updated");
  sym_reach("arguments");
}
HARNESS(h_data) {
  import(); int n = 1 + (int)sym_choice("n", 3), how = (int)sym_choice("how", 3), dy = sym_choice("dy", 2) ? 3 : 1; parameters p(2, dy, params::RUSIN_TH_TD, dy == 3 ? params::RGB_COLOR : params::INV_STERADIAN); make_out = &make_table; make_in = &load_table; last_table = NULL; py::handle d;
  try {
    if(how == 0) d = py::call("get_data", S("plug"), n, p);
    else if(how == 1) d = py::call("get_data", S("plug"), n, p, options("option", "value"));
    else { std::ofstream f("in.dat"); f << "table" << std::endl; f.close(); d = py::call("load_data", S("plug"), S("in.dat")); p = parameters(1, 1, params::COS_TH, params::INV_STERADIAN); n = 2; dy = 1; }
  } catch(py::type_error&) { sym_check(false, "data objects are made with and without arguments"); return; }
  sym_check(d.kind == py::handle::OBJECT && last_table, "a data object is made"); if(d.kind != py::handle::OBJECT || !last_table) return;
  sym_check(last_table->options == (how == 1 ? "value" : ""), "the arguments reach the plugin");
  sym_check(same(last_table->parametrization(), p), "the parametrization asked for");
  sym_check(py::call("data.size", d).i == n && py::call("data.__len__", d).i == n, "number of samples"); if(last_table->size() != n) return;
  std::vector<vec> v(n, vec::Zero(p.dimX() + dy)); bool item = sym_choice("item", 2);
  for(int s = 0; s < n; ++s) { for(int i = 0; i < v[s].size(); ++i) v[s][i] = sym_range(nm("v", s, i).c_str(), -10.0, 10.0); py::call(item ? "data.__setitem__" : "data.set", d, s, vector_of(v[s])); }
  for(int s = 0; s < n; ++s) { py::handle a = py::call(item ? "data.__getitem__" : "data.get", d, s); sym_check(py::call("vec.__len__", a).i == v[s].size(), "size of a sample"); for(int i = 0; i < v[s].size(); ++i) { sym_check_eq(py::call("vec.__getitem__", a, i).d, v[s][i], "samples are kept"); sym_check_eq(last_table->rows[s][i], v[s][i], "samples are set"); } }
  sym_check(fails_index("data.__getitem__", d, n), "iterations end after the last sample");
  vec x = vec::Zero(p.dimX()); for(int i = 0; i < x.size(); ++i) x[i] = sym_range(nm("q", i).c_str(), 0.0, 1.0); py::handle y = py::call("data.value", d, vector_of(x)); vec r = last_table->value(x);
  for(int k = 0; k < dy; ++k) sym_check_eq(py::call("vec.__getitem__", y, k).d, r[k], "values are those of the data");
  py::call("data.save", d, S("out.dat")); sym_check(last_table->file == "out.dat", "data are saved");
  sym_check(same(py::call("data.parametrization", d).cast<parameters>(), p), "parametrization");
  sym_reach("data");
}
// samples of a vertical segment, as loaded from files
HARNESS(h_segment) {
  import(); int n = 1 + (int)sym_choice("n", 3); std::ofstream f("in.txt"); f << "#DIM 1 1\n#PARAM_IN COS_TH\n#PARAM_OUT INV_STERADIAN\n#VS 0\n"; f.precision(17); double v[3][2]; for(int s = 0; s < n; ++s) { for(int i = 0; i < 2; ++i) { v[s][i] = sym_range(nm("v", s, i).c_str(), 0.0, 1.0); f << v[s][i] << " "; } f << "\n"; } f.close();
  py::handle d = py::call("load_data", S(""), S("in.txt")); sym_check(d.kind == py::handle::OBJECT && py::call("data.__len__", d).i == n, "number of samples"); if(d.kind != py::handle::OBJECT) return;
  for(int s = 0; s < n; ++s) { py::handle a = py::call("data.__getitem__", d, s); for(int i = 0; i < 2; ++i) sym_check_eq(py::call("vec.__getitem__", a, i).d, v[s][i], "samples"); }
  sym_check(fails_index("data.__getitem__", d, n) && fails_index("data.get", d, n), "reading after the last sample is an IndexError");
  sym_check(fails_index("data.__setitem__", d, n, vector_of(vec(vec::Zero(2)))) && fails_index("data.set", d, n, vector_of(vec(vec::Zero(2)))), "writing after the last sample is an IndexError");
  sym_check(fails_index("data.__getitem__", d, -1), "negative samples");
  sym_reach("segment");
}
HARNESS(h_function) {
  import(); int a = (int)sym_choice("function", 5), dy = sym_choice("dy", 2) ? 3 : 1, how = (int)sym_choice("how", 2); parameters p(params::dimension(IN[a]), dy, IN[a], dy == 3 ? params::RGB_COLOR : params::INV_STERADIAN); int k = p.dimX() + dy; vec c = coefficients("c", k); make_function = &affine; last_function = NULL;
  py::handle f = how ? py::call("get_function", options("func", "plug"), p) : py::call("get_function", S("plug"), p);
  sym_check(f.kind == py::handle::OBJECT && last_function && same(last_function->parametrization(), p), "a function of the parametrization asked for"); if(f.kind != py::handle::OBJECT || !last_function) return;
  py::call("function.set", f, vector_of(c)); py::handle g = py::call("function.get", f); sym_check(py::call("vec.__len__", g).i == k && last_function->c.size() == k, "number of parameters"); if(last_function->c.size() != k) return;
  vec longer(k + 1); for(int i = 0; i < k; ++i) longer[i] = -c[i]; longer[k] = 1;
  for(int t = 0; t < 2; ++t) try { py::call("function.set", f, vector_of(vec(longer.head(t ? k - 1 : k + 1)))); } catch(std::exception&) {}
  sym_check(last_function->c.size() == k, "parameters of the wrong size are refused"); if(last_function->c.size() != k) return;
  for(int i = 0; i < k; ++i) { sym_check_eq(py::call("vec.__getitem__", g, i).d, c[i], "parameters are those set"); sym_check_eq(last_function->c[i], c[i], "parameters are set"); }
  vec x(p.dimX()); for(int i = 0; i < x.size(); ++i) x[i] = coordinate(IN[a], 0, i); py::handle y = py::call("function.value", f, vector_of(x)); vec r = last_function->value(x); sym_check(py::call("vec.__len__", y).i == dy, "number of channels");
  for(int i = 0; i < dy; ++i) sym_check_eq(py::call("vec.__getitem__", y, i).d, r[i], "value of the function");
  sym_reach("function");
}
HARNESS(h_operators) {
  import(); int dy = sym_choice("dy", 2) ? 3 : 1, op = (int)sym_choice("op", 3), d2 = (int)sym_choice("same", 2); params::input in = params::COS_TH; parameters p(1, dy, in, dy == 3 ? params::RGB_COLOR : params::INV_STERADIAN);
  vec c = coefficients("c", 1 + dy), e = coefficients("e", 1 + dy); py::handle f = make(p, c), g = d2 ? f : make(p, e); if(d2) e = c;
  py::handle h = py::call(op == 0 ? "function.__add__" : op == 1 ? "function.__mul__" : "function.__rmul__", f, g); sym_check(h.kind == py::handle::OBJECT, "functions are combined"); if(h.kind != py::handle::OBJECT) return;
  vec x(1); x[0] = sym_range("x", 0.01, 0.99); Affine u(p), v(p); u.c = c; v.c = e; vec a = u.value(x), b = v.value(x); f = g = py::handle(); py::handle y = py::call("function.value", h, vector_of(x)); sym_check(py::call("vec.__len__", y).i == dy, "number of channels"); if(py::call("vec.__len__", y).i != dy) return;
  for(int i = 0; i < dy; ++i) sym_check_eq(py::call("vec.__getitem__", y, i).d, op == 0 ? a[i] + b[i] : a[i] * b[i], op == 0 ? "sum of the functions" : "product of the functions");
  if(!d2) { py::handle q = py::call("function.get", h); sym_check(py::call("vec.__len__", q).i == 2 * (1 + dy), "parameters of both functions"); if(py::call("vec.__len__", q).i == 2 * (1 + dy)) for(int i = 0; i < 1 + dy; ++i) { double s = py::call("vec.__getitem__", q, i).d, t = py::call("vec.__getitem__", q, 1 + dy + i).d; sym_check_eq(s + t, c[i] + e[i], "parameters of both functions"); } }
  sym_check(fails("function.__add__", h, 3), "numbers are not functions");
  sym_reach("operators");
}
HARNESS(h_files) {
  import(); int a = (int)sym_choice("function", 5), dy = sym_choice("dy", 2) ? 3 : 1, how = (int)sym_choice("how", 3); parameters p(params::dimension(IN[a]), dy, IN[a], dy == 3 ? params::RGB_COLOR : params::INV_STERADIAN); int k = p.dimX() + dy; vec c = coefficients("c", k);
  py::handle f = make(p, c), o = options("func", "plug"), g;
  try { py::call("function.save", f, S("f.func"), o); } catch(py::type_error&) { sym_check(false, "functions are saved with arguments"); return; }
  sym_check(exists("f.func"), "a file is written"); Affine* mine = NULL;
  if(how == 0) { last_function = NULL; g = py::call("load_function", S("f.func")); mine = last_function; }
  else if(how == 1) { last_function = NULL; g = py::call("load_function", S("f.func"), o); mine = last_function; }
  else { g = make(p, vec::Zero(k)); mine = last_function; py::call("function.load", g, S("f.func")); }
  sym_check(g.kind == py::handle::OBJECT && mine, "the file is loaded"); if(g.kind != py::handle::OBJECT || !mine) return;
  sym_check(mine->parametrization().input_parametrization() == IN[a] && mine->c.size() == k, "parametrization"); if(mine->c.size() != k) return;
  for(int i = 0; i < k; ++i) sym_check_printed(mine->c[i], c[i], 6, "parameters are saved and loaded");
  py::call("function.save", f, S("g.func")); sym_check(exists("g.func"), "functions are saved without arguments");
  if(how == 2) { vec z = mine->c; py::call("function.load", g, S("none.func")); sym_check(mine->c.size() == k, "missing file"); for(int i = 0; i < k && i < mine->c.size(); ++i) sym_check_eq(mine->c[i], z[i], "missing files change nothing"); }
  sym_reach("files");
}
static double fitted[2]; static bool success;
struct Fitter : public fitter {
  std::string option; int fits; ptr<data> d; ptr<function> f; bool set_first;
  Fitter() : fits(0), set_first(false) {}
  bool fit_data(const ptr<data>& dd, ptr<function>& ff, const arguments& a) { ++fits; d = dd; f = ff; set_first = !option.empty(); nonlinear_function* n = dynamic_cast<nonlinear_function*>(ff.get()); vec c(2); for(int i = 0; i < 2; ++i) c[i] = fitted[i] = sym_range(nm("fit", i).c_str(), -1.0, 1.0); n->setParameters(c); return success = sym_choice("success", 2); }
  void set_parameters(const arguments& a) { option = a["option"]; }
};
static Fitter* last_fitter; static fitter* a_fitter() { return last_fitter = new Fitter; }
HARNESS(h_fit) {
  import(); parameters p(1, 1, params::COS_TH, params::INV_STERADIAN); py::handle f = make(p, vec::Zero(2)); Affine* mine = last_function; py::handle d = table(p, 2); Table* t = last_table; bool with = sym_choice("with", 2); make_fitter = &a_fitter;
  py::handle w = py::call("get_fitter", S("plug")); sym_check(w.kind == py::handle::OBJECT && last_fitter, "a fitter is made"); if(w.kind != py::handle::OBJECT || !last_fitter) return;
  py::handle r = with ? py::call("fitter.fit_data", w, d, f, options("option", "value")) : py::call("fitter.fit_data", w, d, f);
  sym_check(last_fitter->fits == 1 && last_fitter->d.get() == t && last_fitter->f.get() == mine, "the fitter fits the function to the data");
  if(with) sym_check(last_fitter->option == "value" && last_fitter->set_first, "the fitter receives the arguments first");
  sym_check(r.kind == py::handle::BOOL && r.i == (success ? 1 : 0), "success is reported");
  for(int i = 0; i < 2; ++i) { sym_check_eq(py::call("vec.__getitem__", py::call("function.get", f), i).d, fitted[i], "the function is the fitted one"); }
  sym_reach("fit");
}
HARNESS(h_brdf2data) {
  import(); int a = (int)sym_choice("data", 5), b = (int)sym_choice("function", 6), n = 1 + (int)sym_choice("n", 2), dy = sym_choice("dy", 2) ? 3 : 1; params::output out = dy == 3 ? params::RGB_COLOR : params::INV_STERADIAN;
  params::input fin = b == 5 ? params::UNKNOWN_INPUT : IN[b]; parameters p(params::dimension(IN[a]), dy, IN[a], out), q(b == 5 ? p.dimX() : params::dimension(fin), dy, fin, out); py::handle d = table(p, n); Table* t = last_table; vec c = coefficients("c", q.dimX() + dy); py::handle f = make(q, c); Affine g(q); g.c = c;
  std::vector<vec> v(n, vec::Zero(p.dimX() + dy)); for(int s = 0; s < n; ++s) { for(int i = 0; i < p.dimX(); ++i) v[s][i] = coordinate(IN[a], s, i); for(int y = 0; y < dy; ++y) v[s][p.dimX() + y] = 77; t->rows[s] = v[s]; }
  py::call("brdf2data", f, d);
  for(int s = 0; s < n; ++s) {
    vec x(q.dimX()), z = v[s]; if(b == 5) for(int i = 0; i < q.dimX(); ++i) x[i] = z[i]; else params::convert(&z[0], IN[a], fin, &x[0]); vec y = g.value(x); sym_check(t->rows[s].size() == p.dimX() + dy, "size of a sample"); if(t->rows[s].size() != p.dimX() + dy) return;
    for(int i = 0; i < p.dimX(); ++i) sym_check_eq(t->rows[s][i], v[s][i], "the abscissas are kept");
    for(int k = 0; k < dy; ++k) sym_check_eq(t->rows[s][p.dimX() + k], y[k], "the values are those of the function");
  }
  sym_reach("brdf2data");
}
HARNESS(h_mismatch) {
  import(); bool more = sym_choice("more", 2); parameters p(1, more ? 3 : 1, params::COS_TH, params::RGB_COLOR), q(1, more ? 1 : 3, params::COS_TH, params::RGB_COLOR); py::handle d = table(p, 1); Table* t = last_table; py::handle f = make(q, coefficients("c", 1 + q.dimY()));
  for(int i = 0; i < t->rows[0].size(); ++i) t->rows[0][i] = sym_range(nm("v", i).c_str(), 0.1, 0.9); vec v = t->rows[0];
  try { py::call("brdf2data", f, d); } catch(std::exception&) {}
  sym_check(t->rows[0].size() == v.size(), "size of a sample"); if(t->rows[0].size() != v.size()) return;
  for(int i = 0; i < v.size(); ++i) sym_check_eq(t->rows[0][i], v[i], "data of other dimensions than the function are kept");
  sym_reach("mismatch");
}
HARNESS(h_data2data) {
  import(); int a = (int)sym_choice("from", 5), b = (int)sym_choice("to", 5), n = 1 + (int)sym_choice("n", 2), dy = sym_choice("dy", 2) ? 3 : 1; params::output out = dy == 3 ? params::RGB_COLOR : params::INV_STERADIAN;
  parameters p(params::dimension(IN[a]), dy, IN[a], out), q(params::dimension(IN[b]), dy, IN[b], out); py::handle d = table(p, n); Table* t = last_table;
  for(int s = 0; s < n; ++s) { t->rows[s] = vec(p.dimX() + dy); for(int i = 0; i < p.dimX(); ++i) t->rows[s][i] = coordinate(IN[a], s, i); for(int y = 0; y < dy; ++y) t->rows[s][p.dimX() + y] = sym_range(nm("y", s, y).c_str(), -10.0, 10.0); }
  py::handle o = py::call("data2data", d, q); sym_check(o.kind == py::handle::OBJECT && py::call("data.__len__", o).i == n, "one sample per sample"); if(o.kind != py::handle::OBJECT || py::call("data.__len__", o).i != n) return;
  sym_check(same(py::call("data.parametrization", o).cast<parameters>(), q), "parametrization of the result");
  for(int s = 0; s < n; ++s) {
    py::handle r = py::call("data.__getitem__", o, s); vec z = t->rows[s], x(q.dimX()); params::convert(&z[0], IN[a], IN[b], &x[0]); sym_check(py::call("vec.__len__", r).i >= q.dimX() + dy, "size of a sample"); if(py::call("vec.__len__", r).i < q.dimX() + dy) return;
    for(int i = 0; i < q.dimX(); ++i) sym_check_eq(py::call("vec.__getitem__", r, i).d, x[i], "the abscissas are those of the sample");
    for(int y = 0; y < dy; ++y) sym_check_eq(py::call("vec.__getitem__", r, q.dimX() + y).d, t->rows[s][p.dimX() + y], "the values are those of the sample");
  }
  sym_reach("data2data");
}
HARNESS(h_data2stats) {
  import(); int n = 1 + (int)sym_choice("n", 2), dy = sym_choice("dy", 2) ? 3 : 1; parameters p(1, dy, params::COS_TH, dy == 3 ? params::RGB_COLOR : params::INV_STERADIAN); py::handle d = table(p, n); Table* in = last_table; py::handle r = table(p, n); Table* ref = last_table;
  for(int s = 0; s < n; ++s) { in->rows[s] = ref->rows[s] = vec(1 + dy); in->rows[s][0] = ref->rows[s][0] = sym_range(nm("x", s).c_str(), 0.01, 0.99); for(int y = 0; y < dy; ++y) { in->rows[s][1 + y] = sym_range(nm("a", s, y).c_str(), -10.0, 10.0); ref->rows[s][1 + y] = sym_range(nm("b", s, y).c_str(), -10.0, 10.0); } }
  py::handle h = py::call("data2stats", d, r); errors::metrics m; errors::compute(in, ref, nullptr, m); sym_check(h.kind == py::handle::DICT && h.keys.size() == m.size(), "all metrics");
  for(size_t k = 0; k < h.keys.size(); ++k) { errors::metrics::iterator i = m.find(h.keys[k].s); sym_check(i != m.end(), "names of the metrics"); if(i == m.end()) return; py::handle x = h.l[k]; sym_check(x.kind == py::handle::OBJECT && py::call("vec.__len__", x).i == dy, "one value per channel"); if(x.kind != py::handle::OBJECT) return; for(int y = 0; y < dy; ++y) sym_check_eq(py::call("vec.__getitem__", x, y).d, i->second[y], "metrics"); }
  sym_reach("data2stats");
}
