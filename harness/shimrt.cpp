// Run-time part of the stream shim and of the tree primitives of libstdc++ (symbolic build only).
#include "shimio.h"
#include <map>
#include <list>
template class std::basic_string<char>;
namespace shim {
Table tab;
File* find(const char* name) { for(int i = 0; i < tab.nf; ++i) if(!std::strcmp(tab.f[i].name, name)) return &tab.f[i]; return 0; }
void put(const char* name, const char* data, long n) {
  File* f = find(name);
  if(!f) { f = &tab.f[tab.nf++]; std::strcpy(f->name, name); f->data = 0; }
  char* q = (char*)std::malloc(n + 1);
  if(n) std::memcpy(q, data, n);
  f->data = q; f->n = n;
}
}
namespace std {
istream cin; ostream cout, cerr, clog;
ios_base& dummy_anchor(ios_base& b) { return b; }

// Plain binary search tree without rebalancing: same iteration order, same API.
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if(x->_M_right) { x = x->_M_right; while(x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while(x == y->_M_right) { x = y; y = y->_M_parent; } if(x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if(x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while(y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while(x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if(left) {
    p->_M_left = x;
    if(p == &h) { h._M_parent = x; h._M_right = x; }
    else if(p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if(p == h._M_right) h._M_right = x;
  }
  h._M_color = _S_red;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  // splice out z (no colours)
  _Rb_tree_node_base* r;
  if(!z->_M_left) r = z->_M_right;
  else if(!z->_M_right) r = z->_M_left;
  else {
    _Rb_tree_node_base* y = z->_M_right; while(y->_M_left) y = y->_M_left;
    if(y->_M_parent != z) {
      y->_M_parent->_M_left = y->_M_right; if(y->_M_right) y->_M_right->_M_parent = y->_M_parent;
      y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
    }
    y->_M_left = z->_M_left; z->_M_left->_M_parent = y;
    r = y;
  }
  if(r) r->_M_parent = z->_M_parent;
  if(h._M_parent == z) h._M_parent = r;
  else if(z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
  else z->_M_parent->_M_right = r;
  if(h._M_parent) {
    _Rb_tree_node_base* y = h._M_parent; while(y->_M_left) y = y->_M_left; h._M_left = y;
    y = h._M_parent; while(y->_M_right) y = y->_M_right; h._M_right = y;
  } else { h._M_left = &h; h._M_right = &h; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if(this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
}
// system_error support used by ios_base::failure
system_error::~system_error() noexcept {}
namespace _V2 { error_category::~error_category() {} const error_category& system_category() noexcept { return *(const error_category*)0; } const error_category& generic_category() noexcept { return *(const error_category*)0; } }
}
extern "C" void sym_file_put(const char* name, const char* data, long n) { shim::put(name, data, n); }
// C files on the same table
struct CFile { char name[64]; shim::Buf* o; const char* p; long n, g; };
extern "C" {
FILE* fopen(const char* name, const char* mode) {
  bool w = mode[0] == 'w'; shim::File* f = shim::find(name);
  if(!w && (mode[0] != 'r' || !f)) return 0;
  CFile* c = (CFile*)std::malloc(sizeof(CFile)); std::strcpy(c->name, name); c->o = 0; c->p = 0; c->n = c->g = 0;
  if(w) { c->o = new shim::Buf; shim::put(name, "", 0); } else { c->p = f->data; c->n = f->n; }
  return (FILE*)c;
}
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) {
  if(f == stderr || f == stdout) return n;
  CFile* c = (CFile*)f; if(c->o) c->o->add((const char*)p, s * n); return c->o ? n : 0;
}
size_t fread(void* p, size_t s, size_t n, FILE* f) {
  CFile* c = (CFile*)f; long m = (long)(s * n); if(m > c->n - c->g) m = c->n - c->g;
  if(m > 0) std::memcpy(p, c->p + c->g, m);
  c->g += m; return s ? m / s : 0;
}
int fclose(FILE* f) { CFile* c = (CFile*)f; if(c->o) { shim::put(c->name, c->o->p, c->o->n); delete c->o; } std::free(c); return 0; }
}
