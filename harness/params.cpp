#include "params_common.h"
// coordinates -> vectors -> coordinates
HARNESS(h_roundtrip) {
  int p = (int)sym_choice("p", NP); double x[4], c[6], y[4]; int ang[4];
  domain(p, x, ang);
  params::to_cartesian(x, kinds[p], c);
  sym_assume(c[2] + c[5] >= 0.0);
  params::from_cartesian(c, kinds[p], y);
  for(int i = 0; i < dims[p]; ++i) if(ang[i]) sym_check_angle(y[i], x[i], "azimuth recovered"); else sym_check_eq(y[i], x[i], "coordinate recovered");
  sym_reach("roundtrip");
}
// coordinates -> two unit vectors
HARNESS(h_unit) {
  int p = (int)sym_choice("p", NP); double x[4], c[6]; int ang[4];
  domain(p, x, ang);
  params::to_cartesian(x, kinds[p], c);
  sym_check_eq(c[0]*c[0] + c[1]*c[1] + c[2]*c[2], 1.0, "view direction has unit length");
  sym_check_eq(c[3]*c[3] + c[4]*c[4] + c[5]*c[5], 1.0, "light direction has unit length");
  sym_reach("unit");
}
// vectors -> coordinates -> vectors
HARNESS(h_vectors) {
  int p = (int)sym_choice("p", NP); double x[4], c[6], d[6];
  pair_for(p, c);
  params::from_cartesian(c, kinds[p], x);
  params::to_cartesian(x, kinds[p], d);
  if(dims[p] == 4) for(int i = 0; i < 6; ++i) sym_check_eq(d[i], c[i], "directions recovered");
  else {
    sym_check_eq(d[2], c[2], "view elevation preserved"); sym_check_eq(d[5], c[5], "light elevation preserved");
    sym_check_eq(d[0]*d[3] + d[1]*d[4] + d[2]*d[5], c[0]*c[3] + c[1]*c[4] + c[2]*c[5], "angle between the directions preserved");
  }
  sym_reach("vectors");
}
