// Reference: the frame of the central California model's root octant.
#ifndef GEOMREF_H
#define GEOMREF_H
#include <math.h>
static const double ROOT = 1638400.0;
static const double TICK = 1638400.0 / 2147483648.0;
static const double TOL = 1e-5;
// coordinates (m) along the root octant's edges
static void frame(double x, double y, double elev, double* p, double* q, double* r) {
  const double az = 53.638 * M_PI / 180.0;
  const double x0 = -74937.817 - 409600.0 * cos(az) - 204800.0 * sin(az);
  const double y0 = 380186.124 + 409600.0 * sin(az) - 204800.0 * cos(az);
  *p = (x - x0) * cos(az) - (y - y0) * sin(az);
  *q = (x - x0) * sin(az) + (y - y0) * cos(az);
  *r = (elev - 12800.0) * 4.0 + ROOT;
}
#endif
