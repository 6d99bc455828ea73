// Plugins: where they are searched, what is built from the options, function files.
#include "sym.h"
#include <core/common.h>
#include <core/params.h>
#include <core/args.h>
#include <core/function.h>
#include <core/rational_function.h>
#include <core/vertical_segment.h>
#include <core/fitter.h>
#include <core/data_storage.h>
#include <core/plugins_manager.h>
#include <fstream>
#include <sstream>
#include <cstring>
#include <string>
#include <vector>
#include <list>
using namespace alta;
static std::string nm(const char* p, int a, int b = -1) { std::string s(p); s += (char)('0' + a); if(b >= 0) s += (char)('0' + b); return s; }
static std::string text(const char* p, int id, int len) { std::string s; for(int i = 0; i < len; ++i) { char c = sym_byte(nm(p, id, i).c_str()); sym_assume((c >= '!') & (c <= '~') & (c != ':')); s += c; } return s; }
// libraries installed
struct Lib { std::string path; bool symbol; int id; };
static std::vector<Lib> libs; static char* env_path = NULL; static const char* last_error = NULL; static std::vector<std::string> wanted;
static int made = 0, last_id = -1; static parameters last_params;
template<int K> struct Tag { static function* fn(const parameters& p); static fitter* ft(); static data* da(size_t n, const parameters& p, const arguments& a); static data* ld(std::istream& in, const arguments& a); };
typedef void (*any)();
static any symbol_of(int id, const char* name);
extern "C" void* hook_dlopen(const char* path, int flags) { for(size_t i = 0; i < libs.size(); ++i) if(libs[i].path == path) return &libs[i]; last_error = "not found"; return NULL; }
extern "C" void* hook_dlsym(void* h, const char* name) { Lib* l = (Lib*)h; any f = l->symbol ? symbol_of(l->id, name) : (any)NULL; last_error = f == NULL ? "no symbol" : NULL; return (void*)f; }
extern "C" char* hook_dlerror() { const char* e = last_error; last_error = NULL; return (char*)e; }
extern "C" char* hook_getenv(const char* name) { return std::strcmp(name, "ALTA_PLUGIN_PATH") == 0 ? env_path : NULL; }
// a lobe of two parameters per plugin; plugin 3 is not a nonlinear function
struct Lobe : public nonlinear_function {
  int id; vec p;
  Lobe(const class parameters& pr, int i) : nonlinear_function(pr), id(i), p(vec::Zero(2)) {}
  vec operator()(const vec& x) const { return value(x); }
  vec value(const vec& x) const { vec r(parametrization().dimY()); for(int i = 0; i < r.size(); ++i) r[i] = p[0] * (1 + id) + p[1] * (1 + i); return r; }
  vec parametersJacobian(const vec& x) const { vec j(2 * parametrization().dimY()); for(int i = 0; i < parametrization().dimY(); ++i) { j[2 * i] = 1 + id; j[2 * i + 1] = 1 + i; } return j; }
  int nbParameters() const { return 2; }
  vec parameters() const { return p; }
  vec getParametersMin() const { return vec::Zero(2); }
  vec getParametersMax() const { return vec::Ones(2); }
  void setParameters(const vec& q) { p = q; }
  void save_call(std::ostream& out, const arguments& a) const { out << "#FUNC lobe" << (char)('0' + id) << std::endl; out << "a " << p[0] << std::endl << "b " << p[1] << std::endl << std::endl; }
  bool load(std::istream& in) {
    while(in.peek() != '#') { char line[256]; in.getline(line, 256); if(!in.good()) return false; }
    std::string t; in >> t; if(t != "#FUNC") return false;
    in >> t; if(t.size() != 5 || t.compare(0, 4, "lobe") != 0 || t[4] != (char)('0' + id)) return false;
    in >> t >> p[0] >> t >> p[1]; return true;
  }
};
struct Plain : public function { Plain(const parameters& p) : function(p) {} vec value(const vec&) const { return vec::Zero(parametrization().dimY()); } bool load(std::istream&) { return true; } };
struct Fit : public fitter { int id; Fit(int i) : id(i) {} bool fit_data(const ptr<data>&, ptr<function>&, const arguments&) { return false; } void set_parameters(const arguments&) {} };
static std::string loader_file; static bool loader_read;
template<int K> function* Tag<K>::fn(const parameters& p) { ++made; last_id = K; last_params = p; if(K == 3) return new Plain(p); return new Lobe(p, K); }
template<int K> fitter* Tag<K>::ft() { last_id = K; return new Fit(K); }
template<int K> data* Tag<K>::da(size_t n, const parameters& p, const arguments& a) { last_id = K; last_params = p; loader_file = a["filename"]; return new vertical_segment(p, n); }
template<int K> data* Tag<K>::ld(std::istream& in, const arguments& a) { last_id = K; loader_file = a["filename"]; std::string t; in >> t; loader_read = t == "payload"; return new vertical_segment(parameters(1, 1, params::COS_TH, params::INV_STERADIAN), 2); }
template<int K> static any tagged(const char* n) { return std::strcmp(n, "provide_function") == 0 ? (any)&Tag<K>::fn : std::strcmp(n, "provide_fitter") == 0 ? (any)&Tag<K>::ft : std::strcmp(n, "provide_data") == 0 ? (any)&Tag<K>::da : std::strcmp(n, "load_data") == 0 ? (any)&Tag<K>::ld : (any)NULL; }
static any symbol_of(int id, const char* n) { switch(id) { case 0: return tagged<0>(n); case 1: return tagged<1>(n); case 2: return tagged<2>(n); default: return tagged<3>(n); } }
static void install(const char* path, int id, bool symbol = true) { Lib l; l.path = path; l.symbol = symbol; l.id = id; libs.push_back(l); }
static bool operator%(const parameters& a, const parameters& b) { return a.dimX() == b.dimX() && a.dimY() == b.dimY() && a.input_parametrization() == b.input_parametrization() && a.output_parametrization() == b.output_parametrization(); }
static const parameters prm(2, 2, params::RUSIN_TH_TD, params::INV_STERADIAN);
static void plugins() { libs.clear(); static char here[] = "here"; env_path = here; install("here/libaaa.so", 0); install("here/libbbb.so", 1); install("here/libccc.so", 2); install("here/libplain.so", 3); made = 0; last_id = -1; }
// directories are tried in order; an empty entry is the installation directory
HARNESS(h_search) {
  libs.clear(); int n = (int)sym_choice("entries", 5); std::vector<std::string> dirs; std::string env;
  for(int i = 0; i < n; ++i) { std::string d = text("d", i, (int)sym_choice(nm("len", i).c_str(), 3)); if(i) env += ':'; env += d; dirs.push_back(d.empty() ? std::string(ALTA_PLUGIN_DIRECTORY) : d); }
  if(dirs.empty()) { dirs.push_back(ALTA_PLUGIN_DIRECTORY); } else env_path = &env[0]; if(n == 0) env_path = NULL;
  std::string name = text("n", 0, 3); bool suffixed = (bool)sym_choice("suffixed", 2); if(!suffixed) sym_assume((name[1] != 's') | (name[2] != 'o') | (name[0] != '.')); if(suffixed) name += ".so";
  std::string file = suffixed ? name : "lib" + name + ".so";
  // installed in some of the directories, some of them without the entry point
  int expect = -1;
  for(int i = 0; i < (int)dirs.size(); ++i) {
    int state = (int)sym_choice(nm("state", i).c_str(), 3); bool dup = false; for(int j = 0; j < i; ++j) if(dirs[i] == dirs[j]) dup = true;
    if(dup) { sym_assume(state == 0); continue; }
    if(state == 0) continue;
    std::string p = dirs[i]; p += '/'; p += file; install(p.c_str(), i, state == 1); if(expect < 0 && state == 1) expect = i;
  }
  last_id = -1; ptr<function> f = plugins_manager::get_function(name, prm);
  if(expect < 0) { sym_check(f.get() == NULL && last_id < 0, "nothing provided"); }
  else { sym_check(f.get() != NULL && last_id == expect, "the first directory that has the plugin is used"); sym_check(last_params.dimX() == 2 && last_params.dimY() == 2 && last_params.input_parametrization() == params::RUSIN_TH_TD && last_params.output_parametrization() == params::INV_STERADIAN, "dimensions handed to the plugin"); }
  sym_reach("search");
}
// short names
HARNESS(h_names) {
  libs.clear(); static char here[] = "here"; env_path = here; int len = (int)sym_choice("len", 5); std::string name = text("n", 0, len);
  bool so = len >= 3 && name[len - 3] == '.' && name[len - 2] == 's' && name[len - 1] == 'o';
  std::string p = "here/"; if(so) p += name; else { p += "lib"; p += name; p += ".so"; }
  install(p.c_str(), 1); last_id = -1;
  ptr<fitter> f = plugins_manager::get_fitter(name);
  sym_check((f.get() != NULL) == (len > 0), "a fitter is provided"); if(len > 0) { sym_check(last_id == 1, "by that library"); sym_check(dynamic_cast<Fit*>(f.get()) != NULL, "the fitter of the library"); }
  sym_reach("names");
}
static double lobe_value(int id, double a, double b, int y) { return a * (1 + id) + b * (1 + y); }
static const char* const names[4] = { "aaa", "bbb", "ccc", "plain" };
struct Part { int id, fres; bool fl, ff; std::string text; };
static Part part(int k, bool list) {
  Part p; p.id = (int)sym_choice(nm("plugin", k).c_str(), 3); p.fres = (int)sym_choice(nm("fresnel", k).c_str(), 3) - 1; int fix = p.fres >= 0 ? (int)sym_choice(nm("fixed", k).c_str(), 4) : 0; p.fl = fix & 1; p.ff = fix & 2;
  p.text = names[p.id]; if(p.fres >= 0) { int form = list ? 0 : (int)sym_choice("form", 2); p.text += " --fresnel "; if(form) p.text += "["; p.text += names[p.fres]; if(form) p.text += "]"; } if(p.fl) p.text += " --fixed-lobe"; if(p.ff) p.text += " --fixed-fresnel";
  return p;
}
static int free_of(const Part& p) { return (p.fl ? 0 : 2) + (p.fres >= 0 && !p.ff ? 2 : 0); }
// functions described on the command line, as written in files and loaded
HARNESS(h_functions) {
  plugins(); int n = (int)sym_choice("parts", 3); bool list = n > 0 ; if(n == 0) n = 1;
  std::string cmd = "--func "; if(list) cmd += "["; std::vector<Part> ps; for(int i = 0; i < n; ++i) { ps.push_back(part(i, list)); if(i) cmd += ", "; cmd += ps[i].text; } if(list) cmd += "]";
  arguments args = arguments::create_arguments(cmd);
  function* f = plugins_manager::get_function(args, prm); nonlinear_function* nf = dynamic_cast<nonlinear_function*>(f);
  sym_check(nf != NULL, "a nonlinear function");
  int nb = 0; for(int i = 0; i < n; ++i) nb += free_of(ps[i]);
  sym_check(nf->nbParameters() == nb, "parameters of the free parts");
  sym_check(f->parametrization().dimX() == 2 && f->parametrization().dimY() == 2 && f->parametrization().input_parametrization() == params::RUSIN_TH_TD, "parametrization of the function");
  vec q(nb); for(int i = 0; i < nb; ++i) q[i] = sym_round(sym_range(nm("q", i).c_str(), -5.0, 5.0), 10); nf->setParameters(q);
  vec x(2); x[0] = 0.3; x[1] = 0.2; vec v = f->value(x); sym_check(v.size() == 2, "dimension of the value");
  for(int y = 0; y < 2; ++y) {
    double s = 0.0; int o = 0;
    for(int i = 0; i < n; ++i) {
      double l = 0.0, r = 1.0; if(!ps[i].fl) { l = lobe_value(ps[i].id, q[o], q[o + 1], y); o += 2; }
      if(ps[i].fres >= 0) { r = 0.0; if(!ps[i].ff) { r = lobe_value(ps[i].fres, q[o], q[o + 1], y); o += 2; } }
      s += l * r;
    }
    sym_check_eq(v[y], s, "value of the function described");
  }
  args.update("fitter", "none"); f->save("f.brdf", args);
  function* g = plugins_manager::load_function("f.brdf"); sym_check(g != NULL, "the function file loads");
  nonlinear_function* ng = dynamic_cast<nonlinear_function*>(g); sym_check(ng != NULL && ng->nbParameters() == nb, "same parameters");
  sym_check(g->parametrization().dimX() == 2 && g->parametrization().dimY() == 2 && g->parametrization().input_parametrization() == params::RUSIN_TH_TD, "parametrization read from the file");
  vec r = ng->parameters(), w = g->value(x); for(int i = 0; i < nb; ++i) sym_check_eq(r[i], q[i], "parameter read from the file"); for(int y = 0; y < 2; ++y) sym_check_eq(w[y], v[y], "value of the loaded function");
  sym_reach("functions");
}
// defaults and errors
HARNESS(h_fallback) {
  plugins(); arguments args; int kind = (int)sym_choice("kind", 9); function* f = NULL; bool rational = false, lobe = false; int id = -1;
  switch(kind) {
    case 0: rational = true; break;
    case 1: args.update("func", "absent"); rational = true; break;
    case 2: args.update("func", "bbb"); lobe = true; id = 1; break;
    case 3: args.update("func", "bbb"); args.update("fresnel", "absent"); lobe = true; id = 1; break;
    case 4: args.update("func", "bbb"); args.update("fresnel", ""); lobe = true; id = 1; break;
    case 5: args.update("func", "bbb"); args.update("fresnel", "plain"); lobe = true; id = 1; break;
    case 6: args.update("func", "plain"); args.update("fresnel", "aaa"); id = 3; break;
    case 7: args.update("func", "[bbb, plain]"); id = 1; break;
    case 8: args.update("func", "[plain, bbb, absent]"); id = 1; break;
  }
  f = plugins_manager::get_function(args, prm); sym_check(f != NULL, "a function");
  if(rational) sym_check(dynamic_cast<rational_function*>(f) != NULL, "a rational function by default");
  if(lobe) { Lobe* l = dynamic_cast<Lobe*>(f); sym_check(l != NULL && l->id == id, "the lobe without Fresnel term"); }
  if(kind == 6) sym_check(dynamic_cast<Plain*>(f) != NULL, "the function without Fresnel term");
  if(kind >= 7) { nonlinear_function* c = dynamic_cast<nonlinear_function*>(f); sym_check(c != NULL && c->nbParameters() == 2, "a sum of the nonlinear parts"); vec q(2); q[0] = sym_range("q0", -5.0, 5.0); q[1] = sym_range("q1", -5.0, 5.0); c->setParameters(q); vec x(2); x[0] = x[1] = 0.1; vec v = f->value(x); for(int y = 0; y < 2; ++y) sym_check_eq(v[y], lobe_value(1, q[0], q[1], y), "value of the nonlinear parts"); }
  sym_check(f->parametrization().dimX() == 2 && f->parametrization().dimY() == 2 && f->parametrization().input_parametrization() == params::RUSIN_TH_TD, "parametrization of the function");
  sym_reach("fallback");
}
// a function file of a rational function, and files that are not function files
HARNESS(h_file) {
  plugins(); int kind = (int)sym_choice("kind", 3);
  if(kind == 0) { sym_check(plugins_manager::load_function("nothing.brdf") == NULL, "no such file"); sym_reach("file"); return; }
  if(kind == 1) { std::ofstream o("g.brdf"); o << "#DIM 1 1" << std::endl << "#FUNC lobe0" << std::endl; o.close(); sym_check(plugins_manager::load_function("g.brdf") == NULL, "not a function file"); sym_reach("file"); return; }
  rational_function r(prm, 2, 2); vec lo(2), hi(2); lo[0] = lo[1] = -1.0; hi[0] = hi[1] = 1.0; r.setMin(lo); r.setMax(hi); vec a(2), b(2); a[0] = sym_round(sym_range("a0", -5.0, 5.0), 10); a[1] = sym_round(sym_range("a1", -5.0, 5.0), 10); b[0] = 1.0; b[1] = 0.25; r.get(0)->update(a, b); r.get(1)->update(b, b);
  r.save("f.brdf", arguments()); function* g = plugins_manager::load_function("f.brdf"); sym_check(g != NULL && dynamic_cast<rational_function*>(g) != NULL, "a rational function file loads");
  vec x(2); x[0] = 0.5; x[1] = -0.25; vec v = r.value(x), w = g->value(x); for(int y = 0; y < 2; ++y) sym_check_eq(v[y], w[y], "value of the loaded function");
  sym_reach("file");
}
// data: by default a container of samples, else the plugin
HARNESS(h_data) {
  plugins(); int kind = (int)sym_choice("kind", 6); arguments args; args.update("option", "1");
  if(kind == 0 || kind == 1) { ptr<data> d = plugins_manager::get_data(kind ? "vertical_segment" : "", 3, prm, args); sym_check(d.get() != NULL && d->size() == 3 && d->parametrization() % prm, "an empty container"); sym_check(last_id < 0, "without plugin"); }
  if(kind == 2) { ptr<data> d = plugins_manager::get_data("ccc", 3, prm, args); sym_check(d.get() != NULL && last_id == 2 && d->size() == 3 && d->parametrization() % prm, "data of the plugin"); }
  if(kind == 3) { sym_check(plugins_manager::get_data("absent", 3, prm, args).get() == NULL, "no such plugin"); std::istringstream in("x"); sym_check(plugins_manager::load_data("absent", in, args).get() == NULL, "no such loader"); }
  if(kind == 4) { std::ofstream o("d.bin"); o << "payload" << std::endl; o.close(); loader_read = false; ptr<data> d = plugins_manager::load_data("d.bin", "bbb", args); sym_check(d.get() != NULL && last_id == 1 && d->size() == 2, "loaded by the plugin"); sym_check(loader_read && loader_file == "d.bin", "with the file and its name"); sym_check(!args.is_defined("filename"), "the options of the caller are untouched"); }
  if(kind == 5) {
    int form = (int)sym_choice("form", 2); parameters p1(1, 1, params::COS_TH, params::INV_STERADIAN); vertical_segment s(p1, 2); double v[4];
    for(int i = 0; i < 2; ++i) { vec x(2); for(int j = 0; j < 2; ++j) { v[2 * i + j] = sym_round(sym_range(nm("v", i, j).c_str(), -1e3, 1e3), 15); x[j] = v[2 * i + j]; } s.set(i, x); }
    if(form) { std::ofstream o("d.txt", std::ios::binary); save_data_as_binary(o, s); } else s.save("d.txt");
    ptr<data> d = plugins_manager::load_data("d.txt", sym_choice("named", 2) ? "vertical_segment" : ""); sym_check(d.get() != NULL && d->size() == 2 && d->parametrization() % p1, "shape of the loaded data");
    for(int i = 0; i < 2; ++i) { vec x = d->get(i); for(int j = 0; j < 2; ++j) sym_check_eq(x[j], v[2 * i + j], "loaded value"); }
  }
  sym_reach("data");
}
HARNESS(h_compatible) {
  bool df = (bool)sym_choice("data_known", 2), ff = (bool)sym_choice("function_known", 2);
  parameters dp(1, 2, df ? params::COS_TH : params::UNKNOWN_INPUT, params::INV_STERADIAN), fp(1, 2, ff ? params::COS_TK : params::UNKNOWN_INPUT, params::INV_STERADIAN);
  ptr<data> d(new vertical_segment(dp, 1)); data* before = d.get(); ptr<function> f(new rational_function(fp)); vec x(3); for(int i = 0; i < 3; ++i) x[i] = sym_range(nm("x", i).c_str(), 0.0, 1.0); d->set(0, x);
  plugins_manager::check_compatibility(d, f, arguments());
  sym_check(d.get() == before && d->parametrization() % dp, "data unchanged"); vec y = d->get(0); for(int i = 0; i < 3; ++i) sym_check_eq(y[i], x[i], "sample unchanged");
  sym_check(f->parametrization().input_parametrization() == (ff ? params::COS_TK : dp.input_parametrization()) && f->parametrization().dimX() == 1 && f->parametrization().dimY() == 2 && f->parametrization().output_parametrization() == params::INV_STERADIAN, "a function without parametrization takes that of the data");
  sym_reach("compatible");
}
