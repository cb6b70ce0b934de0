// C02: a fixed-resolution query returns the octant at the level of the
// requested resolution, or a coarser leaf; never a coarser average.
#include <string>
#include "vmdb.h"
#include "proj_mock.h"
#include "cencalvm/query/VMQuery.h"
#include "cencalvm/storage/ErrorHandler.h"
using cencalvm::query::VMQuery;
using cencalvm::storage::ErrorHandler;

// does the octant found answer a request at this level?
static bool answers(const DbRecord& r, int level) {
  if (!r.found) return false;
  return vs_split(vs_or(r.hit.type == ETREE_LEAF, r.hit.level == level));
}

extern "C" void vs_main() {
  g_name[0] = "detailed.etree";
  g_name[1] = "regional.etree";
  const bool ext = vs_flip("ext");
  VMQuery q;
  SymGeom geom;
  q.geometry(&geom);
  q.queryVals(VM_NAMES, 8);
  q.queryType(VMQuery::FIXEDRES);
  q.filename(g_name[0]);
  if (ext) q.filenameExt(g_name[1]);
  const double res = vs_fdouble("res");
  vs_assume(res > 0.0);
  q.queryRes(res);
  q.open();
  vs_assert(q.errorHandler()->status() == ErrorHandler::OK, "set-up leaves no error");
  const double lon = vs_fdouble("lon"), lat = vs_fdouble("lat"), elev = vs_fdouble("elev");
  double vals[9];
  for (int i = 0; i < 9; ++i) vals[i] = 12345.0;
  double* pv = vals;
  q.query(&pv, 8, lon, lat, elev);
  const int status = q.errorHandler()->status();

  // the resolution is a vertical one: horizontal edge length is vertical
  // exaggeration times it
  etree_addr_t a;
  a.level = geom.level(geom.vertExag() * res);
  a.type = ETREE_LEAF;
  const int out = geom.lonLatElevToAddr(&a, lon, lat, elev);
  int from = -1;
  if (!out) {
    if (answers(vm_lookup(&g_db[0], a), a.level)) from = 0;
    else if (ext && answers(vm_lookup(&g_db[1], a), a.level)) from = 1;
  }
  for (int i = 0; i < 8; ++i) vs_observe_d(VM_NAMES[i], vals[i]);
  vs_observe_i("status", status);
  if (from < 0) {
    vs_assert(vm_isnodata(vals), "nothing at the resolution: no-data values");
    vs_assert(status == ErrorHandler::WARNING, "nothing at the resolution: a warning");
  } else if (from == 0) {
    vs_assert(vm_ispayload(vals, vm_lookup(&g_db[0], a).payload), "values of the detailed octant");
    vs_assert(status == ErrorHandler::OK, "found in the detailed model: status stays OK");
  } else {
    vs_assert(vm_ispayload(vals, vm_lookup(&g_db[1], a).payload), "values of the regional octant");
    vs_assert(status == ErrorHandler::OK, "found in the regional model: status stays OK");
  }
  vs_assert(vals[8] == 12345.0, "nothing written past the requested values");
}
