#pragma once
#include "sym.h"
#include <core/params.h>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <string>
using namespace alta;
static const int NP = 22;
static params::input kinds[NP] = {
  params::COS_TH, params::COS_TK, params::COS_TLV, params::COS_TLR,
  params::RUSIN_TH_TD, params::COS_TH_TD, params::ISOTROPIC_TV_PROJ_DPHI, params::STARK_2D, params::NEUMANN_2D,
  params::RUSIN_TH_TD_PD, params::ISOTROPIC_TV_TL_DPHI, params::RUSIN_VH, params::SCHLICK_VK, params::ISOTROPIC_TL_TV_PROJ_DPHI,
  params::SCHLICK_TL_TK_PROJ_DPHI, params::RETRO_TL_TVL_PROJ_DPHI, params::STARK_3D, params::NEUMANN_3D,
  params::RUSIN_TH_PH_TD_PD, params::SPHERICAL_TL_PL_TV_PV, params::STEREOGRAPHIC, params::RUSIN_TH_PH_TD };
static const int dims[NP] = { 1,1,1,1, 2,2,2,2,2, 3,3,3,3,3,3,3,3,3, 4,4,4, 3 };
static const double H = M_PI / 2, PIL = 3.14159;
// coordinates of a valid configuration; kind[i]: 0 plain, 1 angle (modulo 2 pi)
static void domain(int p, double* x, int* ang) {
  for(int i = 0; i < 4; ++i) ang[i] = 0;
  switch(p) {
    case 0: case 1: x[0] = sym_range("x0", 0.0, 1.0); break;
    case 2: case 3: x[0] = sym_range("x0", 0.0, 1.0); break;
    case 4: x[0] = sym_range("x0", 0.0, H); x[1] = sym_range("x1", 0.0, 1.56); break;
    case 5: x[0] = sym_range("x0", 0.0, 1.0); x[1] = sym_range("x1", 0.01, 1.0); break;
    case 6: { double t = sym_range("theta", 0.01, H), f = sym_range("phi", -PIL, M_PI); x[0] = t * cos(f); x[1] = t * sin(f); break; }
    case 7: case 8: x[0] = sym_range("x0", 0.001, 1.0); x[1] = sym_range("x1", 0.001, 1.0); sym_assume(x[0]*x[0] + x[1]*x[1] <= 1.0); break;
    case 9: x[0] = sym_range("x0", 0.001, H); x[1] = sym_range("x1", 0.01, 1.56); x[2] = sym_range("x2", -PIL, M_PI); ang[2] = 1; break;
    case 10: x[0] = sym_range("x0", 0.001, H); x[1] = sym_range("x1", 0.001, H); x[2] = sym_range("x2", -PIL, M_PI); ang[2] = 1; break;
    case 11: case 12: { double t = sym_range("theta", 0.0, H), f = sym_range("phi", -PIL, M_PI); x[0] = sin(t) * cos(f); x[1] = sin(t) * sin(f); x[2] = cos(t); break; }
    case 13: { x[0] = sym_range("x0", 0.001, H); double t = sym_range("theta", 0.01, H), f = sym_range("phi", -PIL, M_PI); x[1] = t * cos(f); x[2] = t * sin(f); break; }
    case 14: { x[0] = sym_range("x0", 0.001, H); double t = sym_range("theta", 0.01, H), f = sym_range("phi", -PIL, M_PI); x[1] = t * cos(f); x[2] = t * sin(f);
      // the back vector makes an acute angle with the reflected light direction
      sym_assume(-sin(x[0]) * sin(t) * cos(f) + cos(x[0]) * cos(t) > 0.0); break; }
    case 15: { x[0] = sym_range("x0", 0.001, H); double t = sym_range("theta", 0.01, 3.1), f = sym_range("phi", -PIL, M_PI); x[1] = t * cos(f); x[2] = t * sin(f);
      double cv = cos(x[0]) * cos(t) + cos(f) * sin(x[0]) * sin(t); sym_assume(cv >= 0.0); sym_assume(cv <= 0.9999); break; }
    case 16: case 17: x[0] = sym_range("x0", 0.001, 1.0); x[1] = sym_range("x1", 0.001, 1.0); x[2] = sym_range("x2", 0.0, 2.0 * M_PI); ang[2] = 1;
      if(p == 16) sym_assume(x[0]*x[0] + x[1]*x[1] <= 0.999);
      else { double c = cos(x[2]); sym_assume(x[0]*x[0] + x[1]*x[1] + 2.0*c*x[0]*x[1] <= 1.0); sym_assume(x[0]*x[0] + x[1]*x[1] - 2.0*c*x[0]*x[1] <= 1.0); }
      break;
    case 18: x[0] = sym_range("x0", 0.001, H); x[1] = sym_range("x1", -PIL, M_PI); x[2] = sym_range("x2", 0.01, 1.56); x[3] = sym_range("x3", -PIL, M_PI); ang[1] = ang[3] = 1; break;
    case 19: x[0] = sym_range("x0", 0.001, H); x[1] = sym_range("x1", -PIL, M_PI); x[2] = sym_range("x2", 0.001, H); x[3] = sym_range("x3", -PIL, M_PI); ang[1] = ang[3] = 1; break;
    case 20: for(int i = 0; i < 4; ++i) { static const char* n[4] = { "x0", "x1", "x2", "x3" }; x[i] = sym_range(n[i], -1.0, 1.0); }
      sym_assume(x[0]*x[0] + x[1]*x[1] <= 1.0); sym_assume(x[2]*x[2] + x[3]*x[3] <= 1.0); break;
    case 21: x[0] = sym_range("x0", 0.001, H); x[1] = sym_range("x1", -PIL, M_PI); x[2] = sym_range("x2", 0.01, 1.56); ang[1] = 1; break;
  }
}
// an arbitrary pair of unit directions of the upper hemisphere, given by spherical angles ...
static void pair_spherical(double* c) {
  double tv = sym_range("tv", 0.01, 1.56), pv = sym_range("pv", -PIL, M_PI), tl = sym_range("tl", 0.01, 1.56), pl = sym_range("pl", -PIL, M_PI);
  c[0] = sin(tv) * cos(pv); c[1] = sin(tv) * sin(pv); c[2] = cos(tv);
  c[3] = sin(tl) * cos(pl); c[4] = sin(tl) * sin(pl); c[5] = cos(tl);
}
// ... or by the half direction and the difference direction
static void pair_half(double* c) {
  double th = sym_range("th", 0.01, 1.56), ph = sym_range("ph", -PIL, M_PI), td = sym_range("td", 0.01, 1.56), pd = sym_range("pd", -PIL, M_PI);
  double st = sin(th), ct = cos(th), sp = sin(ph), cp = cos(ph), a = sin(td) * cos(pd), b = sin(td) * sin(pd), g = cos(td);
  double h[3] = { st * cp, st * sp, ct }, t[3] = { ct * cp, ct * sp, -st }, u[3] = { -sp, cp, 0.0 };
  for(int i = 0; i < 3; ++i) { c[i] = g * h[i] + a * t[i] + b * u[i]; c[3 + i] = g * h[i] - a * t[i] - b * u[i]; }
  sym_assume(c[2] >= 0.0); sym_assume(c[5] >= 0.0);
}
static void rotate_z(double* v, double f) { double x = v[0] * cos(f) - v[1] * sin(f), y = v[0] * sin(f) + v[1] * cos(f); v[0] = x; v[1] = y; }
// the light direction at azimuth f and the view direction around the reflection of the light on the plane normal to k
static void pair_back(double* c) {
  double tl = sym_range("tl", 0.01, 1.56), tk = sym_range("tk", 0.01, 1.56), pk = sym_range("pk", -PIL, M_PI), f = sym_range("f", -PIL, M_PI);
  double l[3] = { sin(tl), 0.0, cos(tl) }, k[3] = { sin(tk) * cos(pk), sin(tk) * sin(pk), cos(tk) };
  double d = -l[0] * k[0] + l[2] * k[2]; sym_assume(d > 0.0);
  double v[3] = { 2.0 * d * k[0] + l[0], 2.0 * d * k[1], 2.0 * d * k[2] - l[2] };
  sym_assume(v[2] >= 0.0);
  rotate_z(l, f); rotate_z(v, f);
  for(int i = 0; i < 3; ++i) { c[i] = v[i]; c[3 + i] = l[i]; }
}
// the view direction at angle t of the light direction
static void pair_retro(double* c) {
  double tl = sym_range("tl", 0.01, 1.56), t = sym_range("t", 0.01, 3.1), p = sym_range("pt", -PIL, M_PI), f = sym_range("f", -PIL, M_PI);
  double l[3] = { sin(tl), 0.0, cos(tl) };
  double a = sin(t) * cos(p), b = sin(t) * sin(p), g = cos(t);
  double v[3] = { g * sin(tl) - a * cos(tl), b, g * cos(tl) + a * sin(tl) };
  sym_assume(v[2] >= 0.0); sym_assume(v[2] <= 0.9999);
  rotate_z(l, f); rotate_z(v, f);
  for(int i = 0; i < 3; ++i) { c[i] = v[i]; c[3 + i] = l[i]; }
}
// half sum at azimuth f, half difference at azimuth f + p
static void pair_sum(double* c, bool stark) {
  double h = sym_range("h", 0.001, 1.0), b = sym_range("b", 0.001, 1.0), p = sym_range("p", 0.0, 2.0 * M_PI), f = sym_range("f", -PIL, M_PI);
  double H[3] = { h, 0.0, 0.0 }, B[3];
  if(stark) {
    sym_assume(h*h + b*b <= 0.999); H[2] = sqrt(1.0 - h*h - b*b);
    double n = sqrt(H[2]*H[2] + h*h*cos(p)*cos(p));
    B[0] = b * H[2] / n * cos(p); B[1] = b * H[2] / n * sin(p); B[2] = -b * h * cos(p) / n;
  } else { B[0] = b * cos(p); B[1] = b * sin(p); B[2] = 0.0; }
  double v[3], l[3];
  for(int i = 0; i < 3; ++i) { v[i] = H[i] - B[i]; l[i] = H[i] + B[i]; }
  if(!stark) {
    double nv = v[0]*v[0] + v[1]*v[1], nl = l[0]*l[0] + l[1]*l[1]; sym_assume(nv <= 1.0); sym_assume(nl <= 1.0);
    v[2] = sqrt(1.0 - nv); l[2] = sqrt(1.0 - nl);
  } else { sym_assume(v[2] >= 0.0); sym_assume(l[2] >= 0.0); }
  rotate_z(l, f); rotate_z(v, f);
  for(int i = 0; i < 3; ++i) { c[i] = v[i]; c[3 + i] = l[i]; }
}
static void pair_for(int p, double* c) {
  switch(p) {
    case 0: case 4: case 5: case 9: case 11: case 18: case 21: pair_half(c); break;
    case 1: case 12: case 14: pair_back(c); break;
    case 15: pair_retro(c); break;
    case 7: case 16: pair_sum(c, true); break;
    case 8: case 17: pair_sum(c, false); break;
    default: pair_spherical(c);
  }
}
