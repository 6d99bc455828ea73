// Command lines and headers.
#include "sym.h"
#include <core/common.h>
#include <core/args.h>
#include <sstream>
#include <fstream>
#include <string>
#include <vector>
#include <map>
using namespace alta;
static std::string nm(const char* p, int a, int b = -1) { std::string s(p); s += (char)('0' + a); if(b >= 0) s += (char)('0' + b); return s; }
static std::string text(const char* p, int id, int len) { std::string s; for(int i = 0; i < len; ++i) { char c = sym_byte(nm(p, id, i).c_str()); sym_assume(c != 0); s += c; } return s; }
static void printable(const std::string& s, char from = '!') { for(size_t k = 0; k < s.size(); ++k) sym_assume((s[k] >= from) & (s[k] <= '~')); }
// The options of a command line, as documented: "--key", followed by a value unless the next word starts with '-';
// a value opened by '[' extends to the word that ends with ']'.
struct Opt { std::string key, val; };
static std::vector<Opt> options(const std::vector<std::string>& w) {
  std::vector<Opt> r;
  for(size_t i = 0; i < w.size(); ) {
    const std::string& t = w[i]; ++i;
    if(!(t.size() >= 2 && t[0] == '-' && t[1] == '-')) continue;
    Opt o; o.key = t.substr(2);
    if(i < w.size() && !(w[i].size() > 0 && w[i][0] == '-')) {
      o.val = w[i]; bool open = w[i].size() > 0 && w[i][0] == '[' && w[i][w[i].size() - 1] != ']'; ++i;
      while(open && i < w.size()) { o.val += ' '; o.val += w[i]; if(w[i].size() > 0 && w[i][w[i].size() - 1] == ']') open = false; ++i; }
    }
    bool seen = false; for(size_t k = 0; k < r.size(); ++k) if(r[k].key == o.key) seen = true;
    if(!seen) r.push_back(o);
  }
  return r;
}
static void agree(const arguments& a, const std::vector<Opt>& o) {
  for(size_t i = 0; i < o.size(); ++i) {
    sym_check(a.is_defined(o[i].key), "option defined");
    sym_check(a[o[i].key] == o[i].val, "value of the option");
    sym_check(a.get_string(o[i].key, "?") == o[i].val, "text of the option");
    sym_check(a.is_vec(o[i].key) == (o[i].val.size() > 0 && o[i].val[0] == '['), "list or not");
  }
}
// arbitrary words
HARNESS(h_words) {
  int n = 1 + (int)sym_choice("n", 4); std::vector<std::string> w; char* argv[8];
  for(int i = 0; i < n; ++i) { int len = (int)sym_choice(nm("len", i).c_str(), 4); w.push_back(text("w", i, len)); }
  for(int i = 0; i < n; ++i) argv[i] = &w[i][0];
  arguments a(n, argv); std::vector<Opt> o = options(w);
  agree(a, o);
  // and nothing else
  std::string other = text("other", 0, 1); bool in = false; for(size_t k = 0; k < o.size(); ++k) if(o[k].key == other) in = true;
  sym_check(a.is_defined(other) == in, "only the given options are defined"); if(!in) { sym_check(a[other].empty() && !a.is_vec(other), "undefined option"); sym_check(a.get_string(other, "dflt") == "dflt", "default text"); }
  sym_reach("words");
}
// option, value, list and plain words in any succession
HARNESS(h_mix) {
  int n = 2 + (int)sym_choice("n", 4); std::vector<std::string> w; char* argv[8];
  for(int i = 0; i < n; ++i) {
    int kind = (int)sym_choice(nm("kind", i).c_str(), 5); std::string s;
    std::string t = text("w", i, 1); sym_assume((t[0] >= 'a') & (t[0] <= 'z'));
    switch(kind) { case 0: s = "--"; s += t; break; case 1: s = t; break; case 2: s = "["; s += t; break; case 3: s = t; s += "]"; break; case 4: s = "["; s += t; s += "]"; break; }
    w.push_back(s);
  }
  for(int i = 0; i < n; ++i) argv[i] = &w[i][0];
  arguments a(n, argv); agree(a, options(w));
  sym_reach("mix");
}
// a set of options, as a command line and back
HARNESS(h_command) {
  int n = 1 + (int)sym_choice("n", 3); arguments a; std::vector<Opt> o;
  for(int i = 0; i < n; ++i) {
    Opt x; x.key = text("k", i, i == 0 ? 1 + (int)sym_choice(nm("kl", i).c_str(), 2) : 1); int kind = (int)sym_choice(nm("kind", i).c_str(), 4);
    printable(x.key);
    std::string v = text("v", i, kind == 0 ? 0 : kind == 3 ? 3 : 2); printable(v);
    if(kind == 1) { sym_assume((v[0] != '-') & ((v[0] != '[') | (v[1] == ']'))); x.val = v; }
    else if(kind == 2) { x.val = "["; x.val += v; x.val += "]"; }
    else if(kind == 3) { sym_assume((v[0] != ']') & (v[1] != ']')); x.val = "["; x.val += v[0]; x.val += ' '; x.val += v[1]; x.val += ' '; x.val += v[2]; x.val += ']'; }
    for(size_t k = 0; k < o.size(); ++k) sym_assume(o[k].key != x.key);
    a.update(x.key, x.val); o.push_back(x);
  }
  arguments b = arguments::create_arguments(a.get_cmd());
  agree(a, o); agree(b, o);
  sym_reach("command");
}
static std::string number(double v) { std::ostringstream s; s.precision(15); s << v; return s.str(); }
// values as numbers and lists of numbers
HARNESS(h_values) {
  int n = (int)sym_choice("n", 5), size = 1 + (int)sym_choice("size", 4), kind = (int)sym_choice("kind", 3);
  std::vector<double> v; for(int i = 0; i < n; ++i) v.push_back(sym_round(sym_range(nm("v", i).c_str(), -1e6, 1e6), 15));
  std::string s; if(n == 0) { arguments e; vec d = e.get_vec("k", size, 0.25f); sym_check(d.size() == size, "size of a default list"); for(int i = 0; i < d.size(); ++i) sym_check_eq(d[i], 0.25, "default list");
    sym_check_eq(e.get_float("k", 0.5f), 0.5, "default float"); sym_check_eq(e.get_double("k", 0.5), 0.5, "default double"); sym_check(e.get_int("k", 7) == 7, "default integer"); sym_check(e.get_vec<double>("k").empty() && e.get_vec("k").empty(), "no list");
    sym_reach("values"); return; }
  if(kind == 0) { s = number(v[0]); } else { s = "["; for(int i = 0; i < n; ++i) { if(i) s += kind == 1 ? "," : ", "; s += number(v[i]); } s += "]"; }
  arguments a; a.update("k", s);
  vec r = a.get_vec("k", size, 0.25f); sym_check(r.size() == size, "size of the list");
  for(int i = 0; i < size; ++i) { double e = kind == 0 ? v[0] : i < n ? v[i] : 0.25; if(kind == 0) sym_check(r[i] - e <= 1e-5 * 1e6 && e - r[i] <= 1e-5 * 1e6, "scalar replicated"); else sym_check_eq(r[i], e, "element of the list"); if(i) { if(kind == 0) sym_check_eq(r[i], r[0], "same scalar everywhere"); } }
  if(kind == 0) { sym_check_eq(a.get_double("k", 9.0), v[0], "double"); sym_check(a.get_vec<double>("k").empty(), "a scalar is not a list"); }
  else { std::vector<double> t = a.get_vec<double>("k"); sym_check((int)t.size() == n, "number of elements"); for(int i = 0; i < n && i < (int)t.size(); ++i) sym_check_eq(t[i], v[i], "typed element");
    std::vector<std::string> u = a.get_vec("k"); sym_check((int)u.size() == n, "number of texts"); for(int i = 0; i < n && i < (int)u.size(); ++i) sym_check_eq(atof(u[i].c_str()), v[i], "element as text"); }
  sym_reach("values");
}
HARNESS(h_integers) {
  long i = sym_int("i", -1000000000, 1000000000), j = sym_int("j", -1000000000, 1000000000);
  std::ostringstream s; s << i << " " << j; arguments a; a.update("k", s.str());
  std::pair<int, int> p = a.get_pair<int>("k"); sym_check(p.first == i && p.second == j, "pair of integers");
  std::ostringstream t; t << i; a.update("k", t.str()); sym_check(a.get_int("k", 3) == i, "integer");
  std::ostringstream l; l << "[" << i << ", " << j << "]"; a.update("k", l.str()); std::vector<int> q = a.get_vec<int>("k"); sym_check(q.size() == 2 && q[0] == i && q[1] == j, "list of integers");
  arguments b{ {"x", "1"}, {"y", "2"} }; sym_check(b.is_defined("x") && b["x"] == "1" && b["y"] == "2" && !b.is_defined("z"), "list of options");
  sym_reach("integers");
}
// header of a file
HARNESS(h_header) {
  std::ostringstream f; int n = (int)sym_choice("n", 4); bool wrapped = (bool)sym_choice("wrapped", 2); std::vector<Opt> o; int nc = 0;
  if(wrapped) f << "#ALTA FUNC HEADER" << std::endl;
  for(int i = 0; i < n; ++i) {
    int kind = (int)sym_choice(nm("kind", i).c_str(), 3);
    if(kind == 0) { std::string c = text("c", nc++, 2); printable(c, ' '); f << "# " << c << std::endl; continue; }
    if(kind == 1) { f << "#" << std::endl; continue; }
    Opt x; x.key = text("k", i, i == 0 ? 2 : 1); x.val = text("v", i, 3);
    printable(x.key); printable(x.val, ' '); sym_assume(x.val[0] != ' ');
    if(i == 0 && sym_choice("dos", 2)) f << "#" << x.key << " " << x.val << "\r\n"; else f << "#" << x.key << (i == 1 ? "\t" : " ") << x.val << std::endl;
    for(size_t k = 0; k < o.size(); ++k) if(o[k].key == x.key) { o.erase(o.begin() + k); break; }
    o.push_back(x);
  }
  if(wrapped) f << "#ALTA END HEADER" << std::endl << "#ZZZ 1" << std::endl; else f << "1 2" << std::endl << "#ZZZ 1" << std::endl;
  std::istringstream in(f.str()); arguments a = arguments::parse_header(in);
  agree(a, o); bool z = false; for(size_t k = 0; k < o.size(); ++k) z = z || o[k].key == "ZZZ";
  sym_check(a.is_defined("ZZZ") == z, "nothing is read after the header");
  std::string rest; std::getline(in, rest); sym_check(rest == (wrapped ? "#ZZZ 1" : "1 2"), "the stream is left after the header");
  sym_reach("header");
}
