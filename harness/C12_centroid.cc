// C12: the location reported for an octant is its centre, and mapping it back
// at the same level gives the same octant, up to the map projection's accuracy.
#include "vs.h"
static double g_invx, g_invy, g_fwdx, g_fwdy;
static int g_ninv = 0;
static void inv(double x, double y, double* lon, double* lat);
static void fwd(double lon, double lat, double* x, double* y);
#define PROJ_INV inv
#define PROJ_FWD fwd
#include "proj_mock.h"
extern "C" {
#include "etree.h"
}
#include "cencalvm/storage/Geometry.h"
#include "cencalvm/storage/GeomCenCA.h"
#include "geomref.h"
using cencalvm::storage::GeomCenCA;

static double g_lonr, g_latr;
static void inv(double x, double y, double* lon, double* lat) {
  ++g_ninv;
  g_invx = x; g_invy = y;
  *lon = g_lonr; *lat = g_latr;
}
static void fwd(double, double, double* x, double* y) { *x = g_fwdx; *y = g_fwdy; }

extern "C" void vs_main() {
  g_pj_failing = false;
  GeomCenCA g;
  const int level = vs_choice("level", 32);
  const unsigned len = 0x80000000u >> level;
  etree_addr_t a;
  const unsigned kx = vs_uint("kx");
  const unsigned ky = vs_uint("ky");
  const unsigned kz = vs_uint("kz");
  const unsigned n = 1u << level;
  vs_assume(vs_and(kx < n, vs_and(ky < n, kz < n)));
  a.x = kx << (31 - level); a.y = ky << (31 - level); a.z = kz << (31 - level);
  a.t = 0; a.level = level;
  a.type = vs_bool("interior") ? ETREE_INTERIOR : ETREE_LEAF;
  const etree_addr_t a0 = a;
  g_lonr = vs_fdouble("lon");
  g_latr = vs_fdouble("lat");
  vs_assume(vs_and(vs_and(g_lonr <= 10.0, g_lonr >= -10.0), vs_and(g_latr <= 10.0, g_latr >= -10.0)));
  double lon = 0, lat = 0, elev = 0;
  g.addrToLonLatElev(&lon, &lat, &elev, &a);
  vs_assert(g_ninv == 1, "one inverse projection");
  vs_assert(vs_and(a.x == a0.x, vs_and(a.y == a0.y, vs_and(a.z == a0.z, a.t == 0))) , "address untouched");
  vs_assert(vs_and(a.level == level, a.type == a0.type), "level and type untouched");
  vs_observe_d("x", g_invx);
  vs_observe_d("y", g_invy);
  vs_observe_d("elev", elev);
  vs_assert(vs_same_d(lon, proj_todeg(g_lonr)), "longitude in degrees");
  vs_assert(vs_same_d(lat, proj_todeg(g_latr)), "latitude in degrees");
  // the centre in the map's plane
  const double az = 53.638 * M_PI / 180.0;
  const double x0 = -74937.817 - 409600.0 * cos(az) - 204800.0 * sin(az);
  const double y0 = 380186.124 + 409600.0 * sin(az) - 204800.0 * cos(az);
  const double h = 0.5 * len;
  const double p = ((double) a0.x + h) * TICK, q = ((double) a0.y + h) * TICK, r = ((double) a0.z + h) * TICK;
  vs_assert_close(g_invx, x0 + p * cos(az) + q * sin(az), 1e-7, 0.0, "x of the centre");
  vs_assert_close(g_invy, y0 - p * sin(az) + q * cos(az), 1e-7, 0.0, "y of the centre");
  vs_assert_close(elev, (r - ROOT) / 4.0 + 12800.0, 1e-7, 0.0, "elevation of the centre");
  // and back again: the centre's elevation gives the octant's z.  For x and y
  // the round trip is the composition of this check with C11 (the address is
  // that of the octant which contains the position).
  g_fwdx = 0.0;
  g_fwdy = 0.0;
  etree_addr_t b;
  b.x = b.y = b.z = 12345; b.t = 5; b.level = level; b.type = ETREE_LEAF;
  const int err = g.lonLatElevToAddr(&b, lon, lat, elev);
  vs_assert(err == 0, "the centre is inside the domain");
  vs_assert(b.z == a0.z, "z tick of the centre");
}
