// C07: the ground-surface elevation returned by a query.
#define VMDB_PHYSICAL
#include <string>
#include "vmdb.h"
#include "proj_mock.h"
#include "surface.h"
#include "cencalvm/query/VMQuery.h"
#include "cencalvm/storage/ErrorHandler.h"
using cencalvm::query::VMQuery;
using cencalvm::storage::ErrorHandler;

extern "C" void vs_main() {
  g_name[0] = "detailed.etree";
  g_name[1] = "regional.etree";
  const bool ext = vs_flip("ext");
  const int type = vs_choice("type", 2);
  VMQuery q;
  SymGeom geom;
  q.geometry(&geom);
  const char* names[2] = { "Elevation", "Vs" };
  q.queryVals(names, 2);
  q.queryType(type ? VMQuery::FIXEDRES : VMQuery::MAXRES);
  const double res = vs_fdouble("res");
  vs_assume(res > 0.0);
  q.queryRes(res);
  q.filename(g_name[0]);
  if (ext) q.filenameExt(g_name[1]);
  const bool squash = !type && vs_flip("squash");
  double limit = 0.0;
  if (squash) {
    limit = vs_fdouble("limit");
    q.squash(true, limit);
  }
  q.open();
  const double lon = vs_fdouble("lon"), lat = vs_fdouble("lat"), elev = vs_fdouble("elev");
  double vals[3] = { 12345.0, 12345.0, 12345.0 };
  double* pv = vals;
  q.query(&pv, 2, lon, lat, elev);
  const Surface s = surface_at(geom, ext, lon, lat, elev, false);
  vs_observe_d("surface", vals[0]);
  if (s.known)
    vs_assert(vs_same_d(vals[0], s.elev), "surface elevation of the leaf octant at the point");
  else
    vs_assert(vals[0] == -999.0, "no leaf octant at the point: -999");
  if (squash && vs_split(elev > limit)) {
    // the values are those at the elevation above the (lowered) surface
    const Surface l = surface_at(geom, ext, lon, lat, elev, true);
    const double at = l.known ? elev + l.elev : elev;
    etree_addr_t a;
    a.level = ETREE_MAXLEVEL;
    a.type = ETREE_LEAF;
    const DbRecord* r = 0;
    if (!geom.lonLatElevToAddr(&a, lon, lat, at))
      for (int w = 0; w < (ext ? 2 : 1) && !r; ++w) {
        const DbRecord& t = vm_lookup(&g_db[w], a);
        if (t.found && vs_split(t.hit.type == ETREE_LEAF)) r = &t;
      }
    vs_assert(vs_same_d(vals[1], r ? double(r->payload.Vs) : -999.0), "values relative to the lowered surface");
    vs_cover("squashed");
  }
  vs_assert(vals[2] == 12345.0, "nothing written past the requested values");
  vs_assert(q.errorHandler()->status() != ErrorHandler::ERROR, "no error");
}
