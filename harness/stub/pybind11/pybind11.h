// A stand-in for pybind11: what a module registers is kept by name and is called with the conversions and the choice of overload of pybind11.
#pragma once
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace pybind11 {
struct error_already_set : std::runtime_error { error_already_set() : std::runtime_error("python") {} };
struct index_error : std::runtime_error { index_error(const std::string& s = "") : std::runtime_error(s) {} };
struct value_error : std::runtime_error { value_error(const std::string& s = "") : std::runtime_error(s) {} };
struct type_error : std::runtime_error { type_error(const std::string& s = "") : std::runtime_error(s) {} };
struct key_error : std::runtime_error { key_error(const std::string& s = "") : std::runtime_error(s) {} };
struct stop_iteration : std::runtime_error { stop_iteration(const std::string& s = "") : std::runtime_error(s) {} };
struct cast_error : std::runtime_error { cast_error(const std::string& s = "") : std::runtime_error(s) {} };
struct buffer_error : std::runtime_error { buffer_error(const std::string& s = "") : std::runtime_error(s) {} };
template<class T> struct mark { static char here; }; template<class T> char mark<T>::here;
typedef const char* type;
template<class T> inline type type_of() { return &mark<T>::here; }
// a python object
struct handle {
  enum Kind { NONE, BOOL, INT, FLOAT, STR, LIST, DICT, OBJECT } kind; long i; double d; std::string s; std::vector<handle> l, keys; type t; std::shared_ptr<void> o;
  handle() : kind(NONE), i(0), d(0), t(0) {}
  handle(bool b) : kind(BOOL), i(b), d(0), t(0) {}
  handle(int v) : kind(INT), i(v), d(0), t(0) {}
  handle(long v) : kind(INT), i(v), d(0), t(0) {}
  handle(unsigned v) : kind(INT), i(v), d(0), t(0) {}
  handle(unsigned long v) : kind(INT), i((long)v), d(0), t(0) {}
  handle(double v) : kind(FLOAT), i(0), d(v), t(0) {}
  handle(const std::string& v) : kind(STR), i(0), d(0), s(v), t(0) {}
  handle(const char* v) : kind(STR), i(0), d(0), s(v), t(0) {}
  bool is_none() const { return kind == NONE; }
  template<class T> T cast() const;
};
typedef handle object; typedef handle value;
struct none : handle {};
struct str : handle { str(const handle& h) : handle(h) { if(kind != STR) throw type_error("not a string"); } str(const std::string& v) : handle(v) {} str(const char* v) : handle(v) {} operator std::string() const { return s; } };
struct float_ : handle { float_(double v) : handle(v) {} operator double() const { return d; } };
struct int_ : handle { int_(long v) : handle(v) {} operator long() const { return i; } };
struct list : handle { list() { kind = LIST; } list(const handle& h) : handle(h) {} void append(const handle& h) { l.push_back(h); } size_t size() const { return l.size(); } handle& operator[](size_t k) { return l[k]; } std::vector<handle>::const_iterator begin() const { return l.begin(); } std::vector<handle>::const_iterator end() const { return l.end(); } };
struct item { handle* h; template<class T> item& operator=(const T& t); operator handle() const { return *h; } template<class T> T cast() const { return h->cast<T>(); } };
struct dict : handle {
  dict() { kind = DICT; } dict(const handle& h) : handle(h) {}
  item operator[](const handle& k) { item r; r.h = 0; for(size_t j = 0; j < keys.size(); ++j) if(keys[j].s == k.s) r.h = &l[j]; if(!r.h) { keys.push_back(k); l.push_back(handle()); r.h = &l.back(); } return r; }
  size_t size() const { return keys.size(); } bool contains(const handle& k) const { for(size_t j = 0; j < keys.size(); ++j) if(keys[j].s == k.s) return true; return false; }
  struct iterator { const dict* p; size_t k; std::pair<handle, handle> operator*() const { return std::pair<handle, handle>(p->keys[k], p->l[k]); } iterator& operator++() { ++k; return *this; } bool operator!=(const iterator& b) const { return k != b.k; } };
  iterator begin() const { iterator r = { this, 0 }; return r; } iterator end() const { iterator r = { this, keys.size() }; return r; }
};
// types known to the module
struct Class { std::string name; std::vector<std::pair<type, void* (*)(void*)> > bases; };
typedef std::map<type, Class> Classes; extern Classes classes;
inline void* address(type have, void* p, type want) {
  if(have == want) return p;
  Classes::iterator c = classes.find(have); if(c == classes.end()) return 0;
  for(size_t k = 0; k < c->second.bases.size(); ++k) { void* r = address(c->second.bases[k].first, c->second.bases[k].second(p), want); if(r) return r; }
  return 0;
}
// conversions
template<class T, class E = void> struct caster { // classes and enumerations
  T* p; bool load(const handle& h) { if(h.kind != handle::OBJECT || classes.find(type_of<T>()) == classes.end()) return false; p = (T*)address(h.t, h.o.get(), type_of<T>()); return p != 0; }
  T& get() { return *p; }
  static handle from(const T& v) { if(classes.find(type_of<T>()) == classes.end()) throw type_error("unregistered type"); handle h; h.kind = handle::OBJECT; h.t = type_of<T>(); h.o = std::shared_ptr<void>(std::make_shared<T>(v)); return h; }
};
template<class T> struct caster<T, typename std::enable_if<std::is_floating_point<T>::value>::type> { T v; bool load(const handle& h) { if(h.kind == handle::FLOAT) v = h.d; else if(h.kind == handle::INT) v = (T)h.i; else return false; return true; } T& get() { return v; } static handle from(T v) { return handle((double)v); } };
template<> struct caster<bool> { bool v; bool load(const handle& h) { v = h.i != 0; return h.kind == handle::BOOL; } bool& get() { return v; } static handle from(bool v) { return handle(v); } };
template<class T> struct caster<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> { T v; bool load(const handle& h) { v = (T)h.i; return h.kind == handle::INT && (!std::is_unsigned<T>::value || h.i >= 0) && (sizeof(T) >= 8 || (long)v == h.i); } T& get() { return v; } static handle from(T v) { return handle((long)v); } };
template<> struct caster<std::string> { std::string v; bool load(const handle& h) { v = h.s; return h.kind == handle::STR; } std::string& get() { return v; } static handle from(const std::string& v) { return handle(v); } };
template<> struct caster<handle> { handle v; bool load(const handle& h) { v = h; return true; } handle& get() { return v; } static handle from(const handle& v) { return v; } };
template<> struct caster<str> { handle v; bool load(const handle& h) { v = h; return h.kind == handle::STR; } str get() { return str(v); } static handle from(const str& v) { return v; } };
template<> struct caster<dict> { dict v; bool load(const handle& h) { v = dict(h); return h.kind == handle::DICT; } dict& get() { return v; } static handle from(const dict& v) { return v; } };
template<> struct caster<list> { list v; bool load(const handle& h) { v = list(h); return h.kind == handle::LIST; } list& get() { return v; } static handle from(const list& v) { return v; } };
template<class T> struct caster<std::vector<T> > { std::vector<T> v; bool load(const handle& h) { if(h.kind != handle::LIST) return false; for(size_t k = 0; k < h.l.size(); ++k) { caster<T> c; if(!c.load(h.l[k])) return false; v.push_back(c.get()); } return true; } std::vector<T>& get() { return v; } static handle from(const std::vector<T>& v) { list r; for(size_t k = 0; k < v.size(); ++k) r.append(caster<T>::from(v[k])); return r; } };
template<class T> struct caster<std::shared_ptr<T> > {
  std::shared_ptr<T> v;
  bool load(const handle& h) { if(h.kind == handle::NONE) return true; caster<T> c; if(!c.load(h)) return false; v = std::shared_ptr<T>(h.o, &c.get()); return true; }
  std::shared_ptr<T>& get() { return v; }
  static handle from(const std::shared_ptr<T>& v) { if(!v) return handle(); if(classes.find(type_of<T>()) == classes.end()) throw type_error("unregistered type"); handle h; h.kind = handle::OBJECT; h.t = type_of<T>(); h.o = std::static_pointer_cast<void>(std::const_pointer_cast<typename std::remove_const<T>::type>(v)); return h; }
};
template<class T> struct caster<T*, typename std::enable_if<!std::is_same<T, const char>::value>::type> {
  typedef typename std::remove_const<T>::type U; T* v; bool load(const handle& h) { v = 0; if(h.kind == handle::NONE) return true; caster<U> c; if(!c.load(h)) return false; v = &c.get(); return true; } T*& get() { return v; }
  static handle from(T* v) { return caster<std::shared_ptr<U> >::from(std::shared_ptr<U>(const_cast<U*>(v))); }
};
template<> struct caster<const char*> { std::string s; bool load(const handle& h) { s = h.s; return h.kind == handle::STR; } const char* get() { return s.c_str(); } static handle from(const char* v) { return handle(v); } };
template<class A> struct bare { typedef typename std::remove_cv<typename std::remove_reference<A>::type>::type type; };
template<class T> inline handle cast(const T& v) { return caster<typename bare<T>::type>::from(v); }
inline handle cast(const char* v) { return handle(v); }
template<class T> item& item::operator=(const T& t) { *h = pybind11::cast(t); return *this; }
template<class T> T handle::cast() const { caster<typename bare<T>::type> c; if(!c.load(*this)) throw cast_error("conversion"); return c.get(); }
// functions
struct arg_v { std::string name; handle v; };
struct arg { std::string name; explicit arg(const char* n) : name(n) {} template<class T> arg_v operator=(const T& t) const { arg_v r; r.name = name; r.v = pybind11::cast(t); return r; } template<size_t N> arg_v operator=(const char (&t)[N]) const { arg_v r; r.name = name; r.v = handle(t); return r; } };
struct Function { std::vector<handle> defaults; virtual ~Function() {} virtual int arity() const = 0; virtual bool call(const std::vector<handle>& a, handle& r) = 0; };
inline void extra(Function* f, const arg_v& a) { f->defaults.push_back(a.v); }
template<class X> inline void extra(Function*, const X&) {}
template<class R, class F, class... A> struct apply { template<size_t... I> static handle go(F& f, std::tuple<caster<typename bare<A>::type>...>& c, std::index_sequence<I...>) { return caster<typename bare<R>::type>::from(f(std::get<I>(c).get()...)); } };
template<class F, class... A> struct apply<void, F, A...> { template<size_t... I> static handle go(F& f, std::tuple<caster<typename bare<A>::type>...>& c, std::index_sequence<I...>) { f(std::get<I>(c).get()...); return handle(); } };
template<class R, class F, class... A> struct Bound : Function {
  F f; Bound(const F& g) : f(g) {}
  int arity() const { return (int)sizeof...(A); }
  template<size_t... I> bool load(const std::vector<handle>& a, std::tuple<caster<typename bare<A>::type>...>& c, std::index_sequence<I...>) { bool ok[] = { true, std::get<I>(c).load(a[I])... }; for(size_t k = 0; k <= sizeof...(A); ++k) if(!ok[k]) return false; return true; }
  bool call(const std::vector<handle>& a, handle& r) {
    std::vector<handle> b(a); if(b.size() > sizeof...(A)) return false;
    size_t missing = sizeof...(A) - b.size(); if(missing > defaults.size()) return false;
    b.insert(b.end(), defaults.end() - missing, defaults.end());
    std::tuple<caster<typename bare<A>::type>...> c; if(!load(b, c, std::index_sequence_for<A...>())) return false;
    r = apply<R, F, A...>::go(f, c, std::index_sequence_for<A...>()); return true; }
};
template<class T, class M> struct Method { M m; template<class... A> auto operator()(T& t, A&&... a) const -> decltype((t.*m)(std::forward<A>(a)...)) { return (t.*m)(std::forward<A>(a)...); } };
template<class L, class M> struct Lambda {};
template<class L, class R, class C, class... A> struct Lambda<L, R (C::*)(A...) const> { static Function* make(const L& l) { return new Bound<R, L, A...>(l); } };
template<class L, class R, class C, class... A> struct Lambda<L, R (C::*)(A...)> { static Function* make(const L& l) { return new Bound<R, L, A...>(l); } };
template<class T, class R, class... A> Function* wrap(R (*f)(A...)) { return new Bound<R, R (*)(A...), A...>(f); }
template<class T, class R, class C, class... A> Function* wrap(R (C::*f)(A...)) { typedef Method<T, R (C::*)(A...)> M; M m = { f }; return new Bound<R, M, T&, A...>(m); }
template<class T, class R, class C, class... A> Function* wrap(R (C::*f)(A...) const) { typedef Method<T, R (C::*)(A...) const> M; M m = { f }; return new Bound<R, M, T&, A...>(m); }
template<class T, class L, class = decltype(&L::operator())> Function* wrap(const L& l) { return Lambda<L, decltype(&L::operator())>::make(l); }
typedef std::map<std::string, std::vector<Function*> > Functions; extern Functions functions;
// modules, classes
template<class... A> struct init_t {}; template<class F> struct init_f { F f; };
template<class... A> inline init_t<A...> init() { return init_t<A...>(); }
template<class F> inline init_f<F> init(const F& f) { init_f<F> r = { f }; return r; }
template<class T, class... A> struct Construct { std::shared_ptr<T> operator()(A... a) const { return std::make_shared<T>(a...); } };
template<class T, class F, class M> struct Factory {};
template<class T, class B> inline void* upcast(void* p) { return static_cast<B*>(static_cast<T*>(p)); }
template<class T, class B, bool is> struct Base { static void add(Class&) {} };
template<class T, class B> struct Base<T, B, true> { static void add(Class& c) { c.bases.push_back(std::make_pair(type_of<B>(), &upcast<T, B>)); } };
struct module_ {
  template<class F, class... X> module_& def(const char* n, const F& f, const X&... x) { Function* g = wrap<void>(f); int k[] = { 0, (extra(g, x), 0)... }; (void)k; functions[n].push_back(g); return *this; }
  std::string& doc() { static std::string s; return s; }
};
typedef module_ module;
struct no_gil {}; struct return_value_policy { enum E { automatic, take_ownership, copy, move, reference, reference_internal }; }; template<int A, int B> struct keep_alive {}; struct is_operator {}; struct dynamic_attr {}; struct buffer_protocol {};
template<class T, class... O> struct class_ {
  std::string name;
  template<class... X> class_(module_&, const char* n, const X&...) : name(n) { Class& c = classes[type_of<T>()]; c.name = n; int k[] = { 0, (Base<T, O, std::is_base_of<O, T>::value>::add(c), 0)... }; (void)k; }
  template<class... X> class_& add(const std::string& n, Function* g, const X&... x) { int k[] = { 0, (extra(g, x), 0)... }; (void)k; functions[name + "." + n].push_back(g); return *this; }
  template<class F, class... X> class_& def(const char* n, const F& f, const X&... x) { return add(n, wrap<T>(f), x...); }
  template<class F, class... X> class_& def_static(const char* n, const F& f, const X&... x) { return add(n, wrap<T>(f), x...); }
  template<class F, class... X> class_& def_property_readonly(const char* n, const F& f, const X&... x) { return add(n, wrap<T>(f), x...); }
  template<class... A, class... X> class_& def(const init_t<A...>&, const X&... x) { return add("__init__", new Bound<std::shared_ptr<T>, Construct<T, A...>, A...>(Construct<T, A...>()), x...); }
  template<class F, class... X> class_& def(const init_f<F>& f, const X&... x) { return add("__init__", wrap<T>(f.f), x...); }
};
template<class T> struct enum_ { enum_(module_&, const char* n) { classes[type_of<T>()].name = n; } enum_& value(const char*, T) { return *this; } enum_& export_values() { return *this; } };
// calls
inline handle call_with(const std::string& n, const std::vector<handle>& a) {
  Functions::iterator f = functions.find(n); if(f == functions.end()) throw type_error("no such function");
  for(size_t k = 0; k < f->second.size(); ++k) { handle r; if(f->second[k]->call(a, r)) return r; }
  throw type_error("incompatible function arguments");
}
template<class... A> inline handle call(const std::string& n, const A&... a) { std::vector<handle> v; int k[] = { 0, (v.push_back(pybind11::cast(a)), 0)... }; (void)k; return call_with(n, v); }
}
#define PYBIND11_MODULE(name, m) extern "C" void played_module(pybind11::module_& m)
