// C06: squashing makes elevations relative to the ground surface, above the limit.
#define VMDB_PHYSICAL
#include <string>
#include "vmdb.h"
#include "proj_mock.h"
#include "surface.h"
#include "cencalvm/query/VMQuery.h"
#include "cencalvm/storage/ErrorHandler.h"
using cencalvm::query::VMQuery;
using cencalvm::storage::ErrorHandler;

static const DbRecord* answer(int type, etree_t* db, const etree_addr_t& a) {
  const DbRecord& r = vm_lookup(db, a);
  if (!r.found) return 0;
  if (!vs_split(r.hit.type == ETREE_INTERIOR)) return &r;
  if (type == 0) return 0;
  return vs_split(r.hit.level == a.level) ? &r : 0;
}

extern "C" void vs_main() {
  g_name[0] = "detailed.etree";
  g_name[1] = "regional.etree";
  const bool ext = vs_flip("ext");
#if VS_TIER
  const int type = vs_choice("type", 2);
#else
  const int type = 0;
#endif
  const int mode = vs_choice("mode", 4);    // never set, off, on with default limit, on with a limit
  VMQuery q;
  SymGeom geom;
  q.geometry(&geom);
  q.queryVals(VM_NAMES, 8);
  q.queryType(type ? VMQuery::FIXEDRES : VMQuery::MAXRES);
  double res = 1.0;
  if (type) {
    res = vs_fdouble("res");
    vs_assume(res > 0.0);
    q.queryRes(res);
  }
  q.filename(g_name[0]);
  if (ext) q.filenameExt(g_name[1]);
  double limit = -2000.0;
  if (mode == 2) q.squash(true);
  if (mode == 1 || mode == 3) {
    limit = vs_fdouble("limit");
    q.squash(mode == 3, limit);
  }
  q.open();
  const double lon = vs_fdouble("lon"), lat = vs_fdouble("lat"), elev = vs_fdouble("elev");
  double vals[9];
  for (int i = 0; i < 9; ++i) vals[i] = 12345.0;
  double* pv = vals;
  q.query(&pv, 8, lon, lat, elev);

  double at = elev;
  if (mode >= 2 && vs_split(elev > limit)) {
    const Surface s = surface_at(geom, ext, lon, lat, elev, true);
    if (s.known) {
      at = elev + s.elev;
      vs_cover("moved");
    }
  }
  etree_addr_t a;
  a.level = type ? geom.level(geom.vertExag() * res) : ETREE_MAXLEVEL;
  a.type = ETREE_LEAF;
  const DbRecord* r = 0;
  if (!geom.lonLatElevToAddr(&a, lon, lat, at)) {
    r = answer(type, &g_db[0], a);
    if (!r && ext) r = answer(type, &g_db[1], a);
  }
  for (int i = 0; i < 8; ++i) vs_observe_d(VM_NAMES[i], vals[i]);
  const int status = q.errorHandler()->status();
  if (r) {
    vs_assert(vm_ispayload(vals, r->payload), "values at the squashed elevation");
    vs_assert(status == ErrorHandler::OK, "data found: status stays OK");
  } else {
    vs_assert(vm_isnodata(vals), "no data at the squashed elevation");
    vs_assert(status == ErrorHandler::WARNING, "no data: a warning");
  }
  vs_assert(vals[8] == 12345.0, "nothing written past the requested values");
}
