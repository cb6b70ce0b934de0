// C01: a maximum-resolution query returns the leaf octant holding the point.
#include <string>
#include "vmdb.h"
#include "proj_mock.h"
#include "cencalvm/query/VMQuery.h"
#include "cencalvm/storage/ErrorHandler.h"
using cencalvm::query::VMQuery;
using cencalvm::storage::ErrorHandler;

extern "C" void vs_main() {
  g_name[0] = "detailed.etree";
  g_name[1] = "regional.etree";
  const bool ext = vs_flip("ext");
  VMQuery q;
  SymGeom geom;
  q.geometry(&geom);
  q.queryType(VMQuery::MAXRES);
  q.queryVals(VM_NAMES, 8);
  q.filename(g_name[0]);
  if (ext) q.filenameExt(g_name[1]);
  q.open();
  vs_assert(q.errorHandler()->status() == ErrorHandler::OK, "set-up leaves no error");
  const double lon = vs_fdouble("lon"), lat = vs_fdouble("lat"), elev = vs_fdouble("elev");
  double vals[9];
  for (int i = 0; i < 9; ++i) vals[i] = 12345.0;
  double* pv = vals;
  q.query(&pv, 8, lon, lat, elev);
  const int status = q.errorHandler()->status();

  // reference
  etree_addr_t a;
  a.level = ETREE_MAXLEVEL;
  a.type = ETREE_LEAF;
  const int out = geom.lonLatElevToAddr(&a, lon, lat, elev);
  int from = -1;
  if (!out) {
    const DbRecord& r = vm_lookup(&g_db[0], a);
    if (r.found && vs_split(r.hit.type == ETREE_LEAF)) from = 0;
    else if (ext) {
      const DbRecord& e = vm_lookup(&g_db[1], a);
      if (e.found && vs_split(e.hit.type == ETREE_LEAF)) from = 1;
    }
  }
  for (int i = 0; i < 8; ++i) vs_observe_d(VM_NAMES[i], vals[i]);
  vs_observe_i("status", status);
  if (from < 0) {
    vs_assert(vm_isnodata(vals), "no leaf at the point: no-data values");
    vs_assert(status == ErrorHandler::WARNING, "no leaf at the point: a warning");
  } else if (from == 0) {
    vs_assert(vm_ispayload(vals, vm_lookup(&g_db[0], a).payload), "values of the detailed leaf");
    vs_assert(status == ErrorHandler::OK, "data found in the detailed model: status stays OK");
    vs_assert(g_db[1].searches == 0, "regional model not consulted when the detailed one has data");
  } else {
    vs_assert(vm_ispayload(vals, vm_lookup(&g_db[1], a).payload), "values of the regional leaf");
    vs_assert(status == ErrorHandler::OK, "data found in the regional model: status stays OK");
  }
  vs_assert(vals[8] == 12345.0, "nothing written past the requested values");
}
