// A geometry whose addresses are arbitrary: the ingester must use whatever
// address the geometry gives for the location it asks about.
#ifndef INGEST_H
#define INGEST_H
#include "vs.h"
#include "memdb.h"
#include "proj_mock.h"
#include "cencalvm/storage/Geometry.h"
#include "cencalvm/storage/GeomCenCA.h"
#include "cencalvm/create/GridIngester.h"
#include <string>
#define MAXPTS 80
struct Asked { double lon, lat, elev; etree_addr_t addr; bool ok; };
static Asked g_asked[MAXPTS];
static int g_nasked = 0, g_geoms = 0;
static bool g_outside = false;          // locations may lie outside the domain
static int g_level = -1;                // the level of the one resolution asked about
static double g_res = 0.0;
class AnyGeom : public cencalvm::storage::GeomCenCA {
public:
  AnyGeom() { ++g_geoms; }
  ~AnyGeom() { --g_geoms; }
  cencalvm::storage::Geometry* clone(void) const { return new AnyGeom; }
  int level(const double res) {
    if (g_level < 0 || vs_known(fabs(res - edgeLen(g_level)) < 1e-6 * res)) return cencalvm::storage::GeomCenCA::level(res);
    vs_assert_close(res, g_res, 0.0, 1e-12, "level of the grid's horizontal resolution in meters");
    return g_level;
  }
  int lonLatElevToAddr(etree_addr_t* a, const double lon, const double lat, const double elev) {
    vs_assert(g_nasked < MAXPTS, "one address per point");
    Asked& q = g_asked[g_nasked++];
    q.lon = lon; q.lat = lat; q.elev = elev;
    q.ok = !(g_outside && g_nasked > 1 && vs_flip("outside"));
    if (!q.ok) {
      a->x = a->y = a->z = (etree_tick_t) -1; a->t = 0;
    } else {
      a->x = vs_uint("x"); a->y = vs_uint("y"); a->z = vs_uint("z"); a->t = 0;
    }
    q.addr = *a;
    return q.ok ? 0 : 1;
  }
};
static cencalvm::create::GridIngester* g_ing;
static void run(void*) { g_ing->run(); }
#endif
