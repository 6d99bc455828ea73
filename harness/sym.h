// Harness API.  In the symbolic build these are interpreted by engine/models.py,
// in the native (replay) build they are implemented by harness/native.cpp.
#pragma once
#include <cstddef>
extern "C" {
double sym_double(const char* name);                          // any real / any double
double sym_range(const char* name, double lo, double hi);     // lo <= x <= hi
long sym_int(const char* name, long lo, long hi);
char sym_byte(const char* name);
long sym_choice(const char* name, long n);                    // 0..n-1, one path each
void sym_assume(bool c);
void sym_check(bool c, const char* label);
void sym_check_eq(double a, double b, const char* label);
void sym_check_printed(double a, double b, int digits, const char* label);   // a is b written with that many digits
void sym_check_same(double a, double b, const char* label);   // bit for bit
void sym_check_angle(double a, double b, const char* label);  // equal modulo 2 pi
void sym_check_finite(double a, const char* label);
double sym_diff(double expr, double var);                     // symbolic only
void sym_reach(const char* label);
char* sym_lazy_array(const char* name, long first, long bytes); // arbitrary doubles from byte first on
void sym_out(const char* name, double v);
int sym_is_symbolic();
int sym_is_undef(double v);
double sym_round(double v, int digits);
void sym_file_put(const char* name, const char* data, long n);
}
#ifdef SYM_NATIVE
void sym_register(const char* name, void (*f)());
#define HARNESS(n) extern "C" void n(); static struct Reg_##n { Reg_##n() { sym_register(#n, &n); } } reg_##n; extern "C" void n()
#else
#define HARNESS(n) extern "C" void n()
#endif
