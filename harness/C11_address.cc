// C11: a location is mapped to the octant that contains it, or reported outside.
#include "vs.h"
#include "proj_mock.h"
extern "C" {
#include "etree.h"
}
#include "cencalvm/storage/Geometry.h"
#include "cencalvm/storage/GeomCenCA.h"
#include "geomref.h"
using cencalvm::storage::GeomCenCA;

// does the coordinate lie in the octant [tick, tick+len) (up to rounding)?
static bool inside(unsigned tick, unsigned len, double c) {
  const double lo = tick * TICK, hi = ((double) tick + len) * TICK;
  return vs_and(lo <= c + TOL, c - TOL < hi);
}

extern "C" void vs_main() {
  g_pj_failing = false;
  GeomCenCA g;
  etree_addr_t a;
  const int level = vs_choice("level", 32);
  a.level = level;
  a.type = ETREE_LEAF;
  a.t = 77;
  const double lon = vs_fdouble("lon");
  const double lat = vs_fdouble("lat");
  const double elev = vs_fdouble("elev");
  double x, y;
  PROJ_FWD(proj_torad(lon), proj_torad(lat), &x, &y);
  const bool finite = vs_and(fabs(x) <= 1.7976931348623157e308, fabs(y) <= 1.7976931348623157e308);
  const int err = g.lonLatElevToAddr(&a, lon, lat, elev);
  vs_assert(vs_and(a.level == level, a.type == ETREE_LEAF), "level and type kept");
  const bool in = err == 0;
  vs_observe_i("err", err);
  vs_observe_i("x", a.x);
  vs_observe_i("y", a.y);
  vs_observe_i("z", a.z);
  vs_assert(a.t == 0, "time step zero");
  if (!in) {
    vs_assert(vs_and(a.x == 0xffffffffu, vs_and(a.y == 0xffffffffu, a.z == 0xffffffffu)), "outside: no address");
  } else {
    const unsigned len = 0x80000000u >> level;
    vs_assert(vs_and(a.x < 0x80000000u, vs_and(a.y < 0x80000000u, a.z < 0x80000000u)), "address within the root octant");
    vs_assert(vs_and((a.x & (len - 1)) == 0, vs_and((a.y & (len - 1)) == 0, (a.z & (len - 1)) == 0)), "ticks are multiples of the octant's size");
    vs_assert(finite, "non-finite map coordinates are outside");
  }
  // magnitudes: the map coordinates of the Earth
  vs_assume(vs_and(vs_and(x < 3e7, x > -3e7), vs_and(y < 3e7, y > -3e7)));
  vs_assume(vs_and(elev < 1e9, elev > -1e9));
  double p, q, r;
  frame(x, y, elev, &p, &q, &r);
  if (in) {
    vs_cover("inside");
    const unsigned len = 0x80000000u >> level;
    vs_assert(inside(a.x, len, p), "x tick contains the location");
    vs_assert(inside(a.y, len, q), "y tick contains the location");
    vs_assert(inside(a.z, len, r), "z tick contains the location");
  } else {
    vs_cover("outside");
    vs_assert(vs_or(vs_or(p < TOL, p > ROOT - TOL),
              vs_or(vs_or(q < TOL, q > ROOT - TOL), vs_or(r < TOL, r > ROOT - TOL))), "only outside locations are rejected");
  }
}
