// C03: a wavelength query climbs from the deepest octant until the octant
// resolves the shear wavelength of the minimum period.
#define VMDB_PHYSICAL
#define VMDB_CONCRETE_LEVELS
#define VMDB_VERTEXAG 4.0
// stored octants lie in a band of levels
static int g_lo = 0;
#define VMDB_MINHIT g_lo
#if VS_TIER
#define VMDB_MAXHIT (g_lo + 4)
#else
#define VMDB_MAXHIT (g_lo + 3)
#endif
#include <string>
#include "vmdb.h"
#include "proj_mock.h"
#include "cencalvm/query/VMQuery.h"
#include "cencalvm/storage/ErrorHandler.h"
using cencalvm::query::VMQuery;
using cencalvm::storage::ErrorHandler;

struct Result {
  bool data, warned;
  PayloadStruct fine, coarse;    // the two octants that bracket the wavelength
};

static Result climb(etree_t* db, const etree_addr_t& a, SymGeom& geom, double period) {
  Result r;
  r.data = r.warned = false;
  const DbRecord* o = &vm_lookup(db, a);
  if (!o->found) return r;
  if (vs_split(o->hit.type == ETREE_INTERIOR))
    if (vs_split(geom.edgeLen(o->hit.level) / o->payload.Vs > period)) return r;
  r.data = true;
  r.fine = r.coarse = o->payload;
  int level = o->hit.level;
  etree_addr_t at = o->hit;
  while (level > 0 && vs_split(r.coarse.Vs > 0.0)
         && vs_split(geom.edgeLen(level) / r.coarse.Vs < period)) {
    r.fine = r.coarse;
    etree_addr_t up = at;
    const unsigned m = vm_mask(level - 1);
    up.x &= m; up.y &= m; up.z &= m; up.t = 0;
    up.level = level - 1;
    const DbRecord& p = vm_lookup(db, up);
    if (!p.found) { r.warned = true; break; }
    r.coarse = p.payload;
    at = p.hit;
    level = p.hit.level;
  }
  return r;
}
static double mean(float a, float b) { return (float) (0.5 * (a + b)); }

extern "C" void vs_main() {
  g_name[0] = "detailed.etree";
  g_name[1] = "regional.etree";
  const bool ext = vs_flip("ext");
  static const int bands[4] = { 0, 4, 14, 27 };
  if (!ext) g_lo = bands[vs_choice("band", 4)];
  VMQuery q;
  SymGeom geom;
  q.geometry(&geom);
  q.queryVals(VM_NAMES, 8);
  q.queryType(VMQuery::WAVERES);
  q.filename(g_name[0]);
  if (ext) q.filenameExt(g_name[1]);
  const double res = vs_fdouble("period");
  vs_assume(res > 0.0);
  q.queryRes(res);
  q.open();
  vs_assert(q.errorHandler()->status() == ErrorHandler::OK, "set-up leaves no error");
  const double lon = vs_fdouble("lon"), lat = vs_fdouble("lat"), elev = vs_fdouble("elev");
  double vals[9];
  for (int i = 0; i < 9; ++i) vals[i] = 12345.0;
  double* pv = vals;
  q.query(&pv, 8, lon, lat, elev);
  const int status = q.errorHandler()->status();

  const double period = geom.vertExag() * res;
  etree_addr_t a;
  a.level = ETREE_MAXLEVEL;
  a.type = ETREE_LEAF;
  const int out = geom.lonLatElevToAddr(&a, lon, lat, elev);
  Result r;
  r.data = false;
  bool warned = false;
  if (!out) {
    r = climb(&g_db[0], a, geom, period);
    warned = r.data && r.warned;
    if (!r.data && ext) {
      r = climb(&g_db[1], a, geom, period);
      warned = r.data && r.warned;
    }
  }
  for (int i = 0; i < 8; ++i) vs_observe_d(VM_NAMES[i], vals[i]);
  vs_observe_i("status", status);
  if (!r.data) {
    vs_assert(vm_isnodata(vals), "nothing fine enough: no-data values");
    vs_assert(status == ErrorHandler::WARNING, "nothing fine enough: a warning");
  } else {
    const PayloadStruct& f = r.fine;
    const PayloadStruct& c = r.coarse;
    vs_assert_close(vals[0], mean(f.Vp, c.Vp), 0.0, 1e-6, "Vp is the mean over the bracketing octants");
    vs_assert_close(vals[1], mean(f.Vs, c.Vs), 0.0, 1e-6, "Vs is the mean over the bracketing octants");
    vs_assert_close(vals[2], mean(f.Density, c.Density), 0.0, 1e-6, "density is the mean over the bracketing octants");
    vs_assert_close(vals[3], mean(f.Qp, c.Qp), 0.0, 1e-6, "Qp is the mean over the bracketing octants");
    vs_assert_close(vals[4], mean(f.Qs, c.Qs), 0.0, 1e-6, "Qs is the mean over the bracketing octants");
    vs_assert_close(vals[5], mean(f.DepthFreeSurf, c.DepthFreeSurf), 0.0, 1e-6, "depth is the mean over the bracketing octants");
    vs_assert(vs_and(vals[6] == c.FaultBlock, vals[7] == c.Zone), "fault block and zone of the coarser octant");
    vs_assert(status == (warned ? ErrorHandler::WARNING : ErrorHandler::OK), "warning exactly when an ancestor is missing");
  }
  vs_assert(vals[8] == 12345.0, "nothing written past the requested values");
}
