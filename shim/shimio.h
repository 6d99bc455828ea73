// Minimal replacement for the C++ stream library, used ONLY when the real
// sources are lowered to LLVM IR for the symbolic executor.  Streams operate
// on in-memory buffers; "files" live in an in-memory table.  Floating-point
// numbers written as text become opaque 4-byte tokens that remember the value
// rounded to the number of significant digits in force (sym_round), so that
// text round trips can be decided symbolically.
#pragma once
#include <string>
#include <cstring>
#include <cstdlib>
#include <limits>
#include <iosfwd>
#include <time.h>
#include <stdio.h>
#include <stdint.h>
#include <system_error>

extern "C" double sym_round(double v, int digits);
extern "C" int sym_int_is_symbolic(long v);
extern "C" int sym_dbl_is_symbolic(double v);
extern "C" void sym_unmodelled(const char* what);

namespace shim {
struct File { char name[64]; char* data; long n; };
struct Table { File f[16]; int nf; double dtok[4096]; long itok[4096]; int nd, ni; };
extern Table tab;
File* find(const char* name);
void put(const char* name, const char* data, long n);
struct Buf {
  char* p; long n, cap;
  Buf() : p(0), n(0), cap(0) {}
  ~Buf() { std::free(p); }
  void reserve(long m) { if(m > cap) { long c = cap ? cap : 64; while(c < m) c *= 2; char* q = (char*)std::malloc(c); if(n) std::memcpy(q, p, n); std::free(p); p = q; cap = c; } }
  void add(const char* s, long k) { if(k <= 0) return; reserve(n + k); std::memcpy(p + n, s, k); n += k; }
  void add1(char c) { reserve(n + 1); p[n++] = c; }
private: Buf(const Buf&); Buf& operator=(const Buf&);
};
}

namespace std {
typedef long streamsize;

class ios_base {
public:
  typedef int iostate; typedef int openmode; typedef int fmtflags; typedef int seekdir;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static const fmtflags skipws = 1, scientific = 2, fixed = 4, boolalpha = 8, hex = 16, dec = 32, left = 64, right = 128, showpoint = 256;
  static const seekdir beg = 0, cur = 1, end = 2;
  class failure : public std::runtime_error {
  public:
    explicit failure(const std::string& s) : std::runtime_error(s) {}
    failure() : std::runtime_error("") {}
  };
  struct Init { Init() {} ~Init() {} };
  int _state, _exc, _flags, _prec, _width;
  char _fill;
  ios_base() : _state(0), _exc(0), _flags(skipws), _prec(6), _width(0), _fill(' ') {}
  virtual ~ios_base() {}
  int precision() const { return _prec; }
  int precision(int p) { int o = _prec; _prec = p; return o; }
  int width() const { return _width; }
  int width(int w) { int o = _width; _width = w; return o; }
  fmtflags flags() const { return _flags; }
  fmtflags flags(fmtflags f) { int o = _flags; _flags = f; return o; }
  fmtflags setf(fmtflags f) { int o = _flags; _flags |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { int o = _flags; _flags = (_flags & ~m) | f; return o; }
  void unsetf(fmtflags f) { _flags &= ~f; }
  static const fmtflags floatfield = 6, basefield = 48, adjustfield = 192;
};

template<class C, class T> class basic_ios : public ios_base {
public:
  bool good() const { return _state == 0; }
  bool fail() const { return (_state & (failbit | badbit)) != 0; }
  bool bad() const { return (_state & badbit) != 0; }
  bool eof() const { return (_state & eofbit) != 0; }
  int rdstate() const { return _state; }
  void raise() { if(_state & _exc) throw ios_base::failure("stream"); }
  void clear(int s = 0) { _state = s; raise(); }
  void setstate(int s) { _state |= s; raise(); }
  int exceptions() const { return _exc; }
  void exceptions(int e) { _exc = e; raise(); }
  char fill() const { return _fill; }
  char fill(char c) { char o = _fill; _fill = c; return o; }
  bool operator!() const { return fail(); }
  explicit operator bool() const { return !fail(); }
  basic_ios* tie() { return 0; }
  basic_ios& copyfmt(const basic_ios& o) { _flags = o._flags; _prec = o._prec; _width = o._width; _fill = o._fill; return *this; }
};

template<class C, class T> class basic_streambuf { public: virtual ~basic_streambuf() {} };

template<class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  shim::Buf* _o;           // null: sink
  long _opos;
  basic_ostream() : _o(0), _opos(0) {}
  void emit(const char* s, long n) {
    if(!_o) return;
    if(this->_width > n) {
      long pad = this->_width - n;
      bool left = (this->_flags & ios_base::left) != 0;
      if(left) _o->add(s, n);
      for(long i = 0; i < pad; ++i) _o->add1(this->_fill);
      if(!left) _o->add(s, n);
    } else _o->add(s, n);
    this->_width = 0;
  }
  basic_ostream& write(const char* s, long n) { if(_o) _o->add(s, n); return *this; }
  basic_ostream& put(char c) { if(_o) _o->add1(c); return *this; }
  basic_ostream& flush() { return *this; }
  long tellp() { return _o ? _o->n : 0; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_ostream& operator<<(bool v) { return *this << (long)v; }
  basic_ostream& operator<<(short v) { return *this << (long)v; }
  basic_ostream& operator<<(unsigned short v) { return *this << (long)v; }
  basic_ostream& operator<<(int v) { return *this << (long)v; }
  basic_ostream& operator<<(unsigned int v) { return *this << (long)v; }
  basic_ostream& operator<<(unsigned long v) { return *this << (long)v; }
  basic_ostream& operator<<(long long v) { return *this << (long)v; }
  basic_ostream& operator<<(unsigned long long v) { return *this << (long)v; }
  basic_ostream& operator<<(long v) {
    if(!_o) return *this;
    if(sym_int_is_symbolic(v)) {
      int k = shim::tab.ni++; shim::tab.itok[k] = v;
      char b[4] = { (char)0x02, (char)(0x80 + (k & 63)), (char)(0x80 + ((k >> 6) & 63)), (char)0x81 };
      emit(b, 4); return *this;
    }
    char b[24]; int i = 24; bool neg = v < 0; unsigned long u = neg ? -(unsigned long)v : (unsigned long)v;
    do { b[--i] = '0' + u % 10; u /= 10; } while(u);
    if(neg) b[--i] = '-';
    emit(b + i, 24 - i);
    return *this;
  }
  basic_ostream& operator<<(float v) { return *this << (double)v; }
  basic_ostream& operator<<(long double v) { return *this << (double)v; }
  basic_ostream& operator<<(double v) {
    if(!_o) return *this;
    int digits = this->_prec;
    bool sci = (this->_flags & ios_base::scientific) != 0;
    if(sci) digits += 1;
    else if(this->_flags & ios_base::fixed) { sym_unmodelled("fixed notation"); }
    else if(digits == 0) digits = 1;
    if(!sym_dbl_is_symbolic(v)) {
      if(v != v) { emit("nan", 3); return *this; }
      if(v > 1.7976931348623157e308) { emit("inf", 3); return *this; }
      if(v < -1.7976931348623157e308) { emit("-inf", 4); return *this; }
      if(!sci && v < 100000.0 && v > -100000.0 && (double)(long)v == v) return *this << (long)v;
    }
    int k = shim::tab.nd++; shim::tab.dtok[k] = sym_round(v, digits);
    char b[4] = { (char)0x01, (char)(0x80 + (k & 63)), (char)(0x80 + ((k >> 6) & 63)), (char)0x81 };
    emit(b, 4);
    return *this;
  }
  basic_ostream& operator<<(const void* p) { emit("0x0", 3); return *this; }
  basic_ostream& operator<<(basic_streambuf<C, T>*) { return *this; }
  basic_ostream& seekp(long) { return *this; }
};
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { o.emit(&c, 1); return o; }
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char d = c; o.emit(&d, 1); return o; }
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char d = c; o.emit(&d, 1); return o; }
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { if(o._o) o.emit(s, std::strlen(s)); return o; }
inline ostream& operator<<(ostream& o, const std::string& s) { if(o._o) o.emit(s.data(), s.size()); return o; }
template<class C, class T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n'); }
template<class C, class T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
template<class C, class T> inline basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put('\0'); }
inline ios_base& scientific(ios_base& b) { b._flags = (b._flags & ~ios_base::fixed) | ios_base::scientific; return b; }
inline ios_base& fixed(ios_base& b) { b._flags = (b._flags & ~ios_base::scientific) | ios_base::fixed; return b; }
inline ios_base& skipws(ios_base& b) { b._flags |= ios_base::skipws; return b; }
inline ios_base& noskipws(ios_base& b) { b._flags &= ~ios_base::skipws; return b; }
inline ios_base& boolalpha(ios_base& b) { return b; }
inline ios_base& noboolalpha(ios_base& b) { return b; }
inline ios_base& hex(ios_base& b) { return b; }
inline ios_base& dec(ios_base& b) { return b; }
inline ios_base& left(ios_base& b) { b._flags = (b._flags & ~ios_base::right) | ios_base::left; return b; }
inline ios_base& right(ios_base& b) { b._flags = (b._flags & ~ios_base::left) | ios_base::right; return b; }
inline ios_base& showpoint(ios_base& b) { return b; }
inline ios_base& defaultfloat(ios_base& b) { b._flags &= ~(ios_base::fixed | ios_base::scientific); return b; }

template<class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
  const char* _ip; long _in, _ig; long _gc;
  shim::Buf* _shared;    // stringstream: input follows the output buffer
  basic_istream() : _ip(0), _in(0), _ig(0), _gc(0), _shared(0) {}
  void sync() { if(_shared) { _ip = _shared->p; _in = _shared->n; } }
  static bool isws(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
  bool sentry(bool noskip = false) {
    sync();
    if(this->_state) { this->setstate(ios_base::failbit); return false; }
    if(!noskip && (this->_flags & ios_base::skipws)) {
      while(_ig < _in && isws(_ip[_ig])) ++_ig;
      if(_ig >= _in) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; }
    }
    return true;
  }
  int get() {
    sync(); _gc = 0;
    if(this->_state) { this->setstate(ios_base::failbit); return -1; }
    if(_ig >= _in) { this->setstate(ios_base::eofbit | ios_base::failbit); return -1; }
    _gc = 1;
    return (unsigned char)_ip[_ig++];
  }
  basic_istream& get(char& c) { int r = get(); if(r >= 0) c = (char)r; return *this; }
  int peek() {
    sync(); _gc = 0;
    if(this->_state) { this->setstate(ios_base::failbit); return -1; }
    if(_ig >= _in) { this->setstate(ios_base::eofbit); return -1; }
    return (unsigned char)_ip[_ig];
  }
  basic_istream& unget() { this->_state &= ~ios_base::eofbit; if(this->_state) { this->setstate(ios_base::failbit); return *this; } if(_ig > 0) --_ig; else this->setstate(ios_base::badbit); return *this; }
  basic_istream& putback(char) { return unget(); }
  basic_istream& read(char* d, long n) {
    sync(); _gc = 0;
    if(this->_state) { this->setstate(ios_base::failbit); return *this; }
    long m = _in - _ig; if(m > n) m = n;
    if(m > 0) std::memcpy(d, _ip + _ig, m);
    _ig += m; _gc = m;
    if(m < n) this->setstate(ios_base::eofbit | ios_base::failbit);
    return *this;
  }
  long gcount() const { return _gc; }
  basic_istream& ignore(long n = 1, int delim = -1) {
    sync(); _gc = 0;
    if(this->_state) { this->setstate(ios_base::failbit); return *this; }
    while(n-- > 0) {
      if(_ig >= _in) { this->setstate(ios_base::eofbit); break; }
      char c = _ip[_ig++]; ++_gc;
      if(delim >= 0 && (unsigned char)c == delim) break;
    }
    return *this;
  }
  basic_istream& get(char* s, long n, char delim = '\n') {
    sync(); _gc = 0;
    if(this->_state) { this->setstate(ios_base::failbit); if(n > 0) s[0] = 0; return *this; }
    long k = 0;
    for(;;) {
      if(k + 1 >= n) break;
      if(_ig >= _in) { this->_state |= ios_base::eofbit; break; }
      if(_ip[_ig] == delim) break;
      s[k++] = _ip[_ig++]; ++_gc;
    }
    if(n > 0) s[k] = 0;
    if(_gc == 0) this->_state |= ios_base::failbit;
    this->raise();
    return *this;
  }
  basic_istream& getline(char* s, long n, char delim = '\n') {
    sync(); _gc = 0;
    if(this->_state) { this->setstate(ios_base::failbit); if(n > 0) s[0] = 0; return *this; }
    long k = 0;
    for(;;) {
      if(_ig >= _in) { this->_state |= ios_base::eofbit; break; }
      if(_ip[_ig] == delim) { ++_ig; ++_gc; break; }
      if(k + 1 >= n) { this->_state |= ios_base::failbit; break; }
      s[k++] = _ip[_ig++]; ++_gc;
    }
    if(n > 0) s[k] = 0;
    if(_gc == 0) this->_state |= ios_base::failbit;
    this->raise();
    return *this;
  }
  long tellg() { sync(); if(this->fail()) return -1; return _ig; }
  basic_istream& seekg(long p) { sync(); this->_state &= ~ios_base::eofbit; if(this->fail()) return *this; if(p < 0 || p > _in) { this->setstate(ios_base::failbit); return *this; } _ig = p; return *this; }
  basic_istream& seekg(long o, int d) { sync(); return seekg(d == 0 ? o : d == 1 ? _ig + o : _in + o); }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
  basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  bool num(long& iv, double& dv, bool wantd) {
    // returns true when a number was read
    if(!sentry()) return false;
    char c = _ip[_ig];
    if(c == (char)0x01 || c == (char)0x02) {
      int k = ((unsigned char)_ip[_ig + 1] - 0x80) + 64 * ((unsigned char)_ip[_ig + 2] - 0x80);
      _ig += 4;
      if(c == (char)0x02) { iv = shim::tab.itok[k]; if(wantd) dv = (double)iv; }
      else if(wantd) dv = shim::tab.dtok[k];
      else sym_unmodelled("integer read of a decimal token");
      if(_ig >= _in) this->_state |= ios_base::eofbit;
      return true;
    }
    bool neg = false; long st = _ig; int nd = 0;
    if(c == '-' || c == '+') { neg = c == '-'; ++_ig; }
    long m = 0; int e10 = 0;
    while(_ig < _in && _ip[_ig] >= '0' && _ip[_ig] <= '9') { m = m * 10 + (_ip[_ig] - '0'); ++_ig; ++nd; }
    if(wantd) {
      if(_ig < _in && _ip[_ig] == '.') {
        ++_ig;
        while(_ig < _in && _ip[_ig] >= '0' && _ip[_ig] <= '9') { m = m * 10 + (_ip[_ig] - '0'); --e10; ++_ig; ++nd; }
      }
      if(nd && _ig < _in && (_ip[_ig] == 'e' || _ip[_ig] == 'E')) {
        ++_ig; bool en = false; int ev = 0, ed = 0;
        if(_ig < _in && (_ip[_ig] == '-' || _ip[_ig] == '+')) { en = _ip[_ig] == '-'; ++_ig; }
        while(_ig < _in && _ip[_ig] >= '0' && _ip[_ig] <= '9') { ev = ev * 10 + (_ip[_ig] - '0'); ++_ig; ++ed; }
        if(!ed) nd = 0;
        e10 += en ? -ev : ev;
      }
    }
    if(_ig >= _in) this->_state |= ios_base::eofbit;
    if(!nd) { iv = 0; dv = 0; this->setstate(ios_base::failbit); return true; }
    (void)st;
    iv = neg ? -m : m;
    if(wantd) {
      double p = 1; int k = e10 < 0 ? -e10 : e10;
      for(int i = 0; i < k; ++i) p *= 10.0;
      dv = e10 < 0 ? (double)m / p : (double)m * p;
      if(neg) dv = -dv;
    }
    return true;
  }
  basic_istream& operator>>(double& v) { long i; double d; if(num(i, d, true)) v = d; return *this; }
  basic_istream& operator>>(float& v) { long i; double d; if(num(i, d, true)) v = (float)d; return *this; }
  basic_istream& operator>>(int& v) { long i; double d; if(num(i, d, false)) v = (int)i; return *this; }
  basic_istream& operator>>(unsigned int& v) { long i; double d; if(num(i, d, false)) v = (unsigned)i; return *this; }
  basic_istream& operator>>(long& v) { long i; double d; if(num(i, d, false)) v = i; return *this; }
  basic_istream& operator>>(unsigned long& v) { long i; double d; if(num(i, d, false)) v = i; return *this; }
  basic_istream& operator>>(short& v) { long i; double d; if(num(i, d, false)) v = (short)i; return *this; }
  basic_istream& operator>>(bool& v) { long i; double d; if(num(i, d, false)) v = i != 0; return *this; }
};
template<class T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& s, char& c) { if(s.sentry()) c = s._ip[s._ig++]; return s; }
inline istream& operator>>(istream& s, std::string& d) {
  if(!s.sentry()) return s;
  d.clear();
  while(s._ig < s._in && !s.isws(s._ip[s._ig])) d.push_back(s._ip[s._ig++]);
  if(s._ig >= s._in) s._state |= ios_base::eofbit;
  if(d.empty()) s.setstate(ios_base::failbit);
  return s;
}
inline istream& getline(istream& s, std::string& d, char delim) {
  if(!s.sentry(true)) return s;
  d.clear();
  bool got = false;
  while(true) {
    if(s._ig >= s._in) { s._state |= ios_base::eofbit; break; }
    char c = s._ip[s._ig++]; got = true;
    if(c == delim) break;
    d.push_back(c);
  }
  if(!got) s._state |= ios_base::failbit;
  s.raise();
  return s;
}
inline istream& getline(istream& s, std::string& d) { return getline(s, d, '\n'); }
template<class C, class T> inline basic_istream<C, T>& ws(basic_istream<C, T>& s) { s.sync(); while(s._ig < s._in && s.isws(s._ip[s._ig])) ++s._ig; if(s._ig >= s._in) s._state |= ios_base::eofbit; return s; }

template<class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};

_GLIBCXX_BEGIN_NAMESPACE_CXX11
template<class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
  shim::Buf _b;
public:
  basic_stringstream() { this->_o = &_b; this->_shared = &_b; }
  explicit basic_stringstream(int) { this->_o = &_b; this->_shared = &_b; }
  explicit basic_stringstream(const std::string& s, int = 0) { this->_o = &_b; this->_shared = &_b; _b.add(s.data(), s.size()); }
  std::string str() const { return std::string(_b.p ? _b.p : "", _b.n); }
  void str(const std::string& s) { _b.n = 0; _b.add(s.data(), s.size()); this->_ig = 0; }
};
template<class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
  shim::Buf _b;
public:
  basic_istringstream() { this->_shared = &_b; }
  explicit basic_istringstream(const std::string& s, int = 0) { this->_shared = &_b; _b.add(s.data(), s.size()); }
  std::string str() const { return std::string(_b.p ? _b.p : "", _b.n); }
  void str(const std::string& s) { _b.n = 0; _b.add(s.data(), s.size()); this->_ig = 0; }
};
template<class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
  shim::Buf _b;
public:
  basic_ostringstream() { this->_o = &_b; }
  explicit basic_ostringstream(int) { this->_o = &_b; }
  std::string str() const { return std::string(_b.p ? _b.p : "", _b.n); }
  void str(const std::string& s) { _b.n = 0; _b.add(s.data(), s.size()); }
};
_GLIBCXX_END_NAMESPACE_CXX11

template<class C, class T> class basic_ifstream : public basic_istream<C, T> {
  bool _open;
public:
  basic_ifstream() : _open(false) {}
  explicit basic_ifstream(const char* n, int m = 0) : _open(false) { open(n, m); }
  explicit basic_ifstream(const std::string& n, int m = 0) : _open(false) { open(n.c_str(), m); }
  void open(const std::string& n, int m = 0) { open(n.c_str(), m); }
  void open(const char* n, int m = 0) {
    shim::File* f = shim::find(n);
    if(!f) { this->setstate(ios_base::failbit); return; }
    _open = true; this->_ip = f->data; this->_in = f->n; this->_ig = (m & ios_base::ate) ? f->n : 0; this->_state = 0;
  }
  bool is_open() const { return _open; }
  void close() { if(!_open) this->setstate(ios_base::failbit); _open = false; }
};
template<class C, class T> class basic_ofstream : public basic_ostream<C, T> {
  shim::Buf _b; char _name[64]; bool _open;
public:
  basic_ofstream() : _open(false) {}
  explicit basic_ofstream(const char* n, int m = 0) : _open(false) { open(n, m); }
  explicit basic_ofstream(const std::string& n, int m = 0) : _open(false) { open(n.c_str(), m); }
  ~basic_ofstream() { if(_open) commit(); }
  void commit() { shim::put(_name, _b.p, _b.n); }
  void open(const std::string& n, int m = 0) { open(n.c_str(), m); }
  void open(const char* n, int m = 0) { std::strcpy(_name, n); _open = true; _b.n = 0; this->_o = &_b; }
  bool is_open() const { return _open; }
  void close() { if(_open) commit(); _open = false; }
};
template<class C, class T> class basic_fstream : public basic_iostream<C, T> {
public:
  bool is_open() const { return false; } void close() {}
};

extern istream cin; extern ostream cout, cerr, clog;
struct __setprec { int n; }; inline __setprec setprecision(int n) { __setprec p = { n }; return p; }
struct __setw { int n; }; inline __setw setw(int n) { __setw p = { n }; return p; }
struct __setfill { char c; }; inline __setfill setfill(char c) { __setfill p = { c }; return p; }
template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __setprec p) { o._prec = p.n; return o; }
template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __setw p) { o._width = p.n; return o; }
template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __setfill p) { o._fill = p.c; return o; }
}
